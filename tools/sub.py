"""sub.py FILE: replaces, in $REPO/FILE (default /repo), the first text (before a line ====) of stdin by the second."""
import sys
import os
p = os.environ.get("REPO", "/repo") + "/" + sys.argv[1]
s = open(p).read()
a, b = sys.stdin.read().split("\n====\n")
a, b = a.strip("\n"), b.strip("\n")
assert s.count(a) == 1, (s.count(a), a)
open(p, "w").write(s.replace(a, b))
