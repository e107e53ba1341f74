//! Link-time interposition of three libc functions, so that wall-clock time and the randomness that seeds hash maps
//! are under the harness's control.  Both fall through to the kernel when nothing was asked for.
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

/// Added to CLOCK_REALTIME, in nanoseconds.
static REALTIME_OFFSET_NS: AtomicI64 = AtomicI64::new(0);

thread_local! {
    /// Non-zero: this thread's `getrandom` is a splitmix64 stream.
    static RNG: Cell<u64> = const { Cell::new(0) };
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int;
    if r == 0 && clock == libc::CLOCK_REALTIME {
        let off = REALTIME_OFFSET_NS.load(Ordering::Relaxed);
        if off != 0 {
            let t = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128 + off as i128;
            (*ts).tv_sec = t.div_euclid(1_000_000_000) as _;
            (*ts).tv_nsec = t.rem_euclid(1_000_000_000) as _;
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let state = RNG.try_with(Cell::get).unwrap_or(0);
    if state == 0 {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t;
    }
    let mut s = state;
    let out = std::slice::from_raw_parts_mut(buf.cast::<u8>(), len);
    for chunk in out.chunks_mut(8) {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let v = mix(s).to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
    RNG.with(|r| r.set(if s == 0 { 1 } else { s }));
    len as libc::ssize_t
}

/// (The `getrandom` crate, which rand's generators are seeded with, makes the system call itself.)
#[cfg(all(target_arch = "x86_64", not(miri)))]
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: libc::c_long,
    a: libc::c_long,
    b: libc::c_long,
    c: libc::c_long,
    d: libc::c_long,
    e: libc::c_long,
    f: libc::c_long,
) -> libc::c_long {
    if n == libc::SYS_getrandom && RNG.try_with(Cell::get).unwrap_or(0) != 0 {
        return getrandom(a as *mut libc::c_void, b as usize, c as libc::c_uint) as libc::c_long;
    }
    let r: libc::c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as libc::c_int;
        return -1;
    }
    r
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Makes this thread's `getrandom` (what std seeds its hash maps and tokio its scheduler with) a function of `seed`.
pub fn seed_thread(seed: u64) {
    RNG.with(|r| r.set(mix(seed) | 1));
}

/// As `seed_thread`, with the generator's state itself; 0: the kernel's randomness again.
pub fn set_thread_state(state: u64) {
    RNG.with(|r| r.set(state));
}

/// Shifts what `SystemTime::now()` returns in this process.
pub fn set_realtime_offset(d: i64) {
    REALTIME_OFFSET_NS.store(d, Ordering::SeqCst);
}
pub fn shift_realtime_secs(s: f64) {
    REALTIME_OFFSET_NS.fetch_add((s * 1e9) as i64, Ordering::SeqCst);
}

/// Is the interposition effective here? (Checks that rely on it are inconclusive otherwise.)
pub fn self_test() -> Result<(), String> {
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
    let a = now();
    shift_realtime_secs(1000.0);
    let b = now();
    shift_realtime_secs(-1000.0);
    if !(990.0..1100.0).contains(&(b - a)) {
        return Err(format!("clock interposition ineffective: {}", b - a));
    }
    let draw = || {
        std::thread::spawn(|| {
            seed_thread(7);
            std::hash::BuildHasher::hash_one(&std::collections::hash_map::RandomState::new(), 5u64)
        })
        .join()
        .unwrap()
    };
    if draw() != draw() {
        return Err("getrandom interposition ineffective".into());
    }
    let draw = || {
        use rand::{RngCore, SeedableRng};
        std::thread::spawn(|| {
            seed_thread(7);
            rand::rngs::StdRng::from_entropy().next_u64()
        })
        .join()
        .unwrap()
    };
    if draw() != draw() {
        return Err("interposition of the system call getrandom ineffective".into());
    }
    Ok(())
}
