"""addprop.py ID: adds the entry read from stdin to props.py, in order."""
import sys
s = open("props.py").read().rstrip()
assert s.endswith("}")
assert f'"{sys.argv[1]}": dict' not in s
open("props.py", "w").write(s[:-1] + sys.stdin.read().rstrip() + "\n}\n")
