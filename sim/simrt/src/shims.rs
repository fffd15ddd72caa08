//! Symbols the instrumented code and std call into.

use super::*;

fn mo(x: i32) -> Mo {
    match x {
        0 => Mo::Relaxed,
        1 | 2 => Mo::Acquire,
        3 => Mo::Release,
        4 => Mo::AcqRel,
        _ => Mo::SeqCst,
    }
}

/// Runs `f` as a simulated memory operation if the caller is a task inside
/// library code.
fn sim_op<R>(kind: Kind, f: impl FnOnce(&mut Rt, Tid) -> R) -> Option<R> {
    let my = me();
    if my == NONE || !active() {
        return None;
    }
    let was = SUT.with(|s| s.replace(false));
    if my != MAIN {
        yield_inner(my, kind, 0);
    }
    let r = rt();
    r.stats.atomics += 1;
    let out = f(r, my);
    SUT.with(|s| s.set(was));
    Some(out)
}

macro_rules! atomics {
    ($t:ty, $at:ty, $size:literal, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cmpval:ident, $cmps:ident, $cmpw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, m: i32) -> $t {
            match sim_op(Kind::Load, |r, my| r.load(my, a as usize, $size, mo(m))) {
                Some(v) => v as $t,
                None => (*(a as *const $at)).load(O::SeqCst),
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, m: i32) {
            if sim_op(Kind::Store, |r, my| r.store(my, a as usize, $size, v as u64, mo(m))).is_none() {
                (*(a as *const $at)).store(v, O::SeqCst)
            }
        }
        atomics!(@rmw $t, $at, $size, $xchg, |_o, v| v, swap);
        atomics!(@rmw $t, $at, $size, $add, |o: $t, v: $t| o.wrapping_add(v), fetch_add);
        atomics!(@rmw $t, $at, $size, $sub, |o: $t, v: $t| o.wrapping_sub(v), fetch_sub);
        atomics!(@rmw $t, $at, $size, $and, |o: $t, v: $t| o & v, fetch_and);
        atomics!(@rmw $t, $at, $size, $or, |o: $t, v: $t| o | v, fetch_or);
        atomics!(@rmw $t, $at, $size, $xor, |o: $t, v: $t| o ^ v, fetch_xor);
        atomics!(@rmw $t, $at, $size, $nand, |o: $t, v: $t| !(o & v), fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $cmpval(a: *mut $t, c: $t, v: $t, m: i32, fm: i32) -> $t {
            match sim_op(Kind::Rmw, |r, my| {
                r.rmw(my, a as usize, $size, mo(m), mo(fm), &|o| if o as $t == c { Some(v as u64) } else { None })
            }) {
                Some((old, _)) => old as $t,
                None => match (*(a as *const $at)).compare_exchange(c, v, O::SeqCst, O::SeqCst) {
                    Ok(x) => x,
                    Err(x) => x,
                },
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cmps(a: *mut $t, c: *mut $t, v: $t, m: i32, fm: i32) -> i32 {
            let old = $cmpval(a, *c, v, m, fm);
            let ok = old == *c;
            *c = old;
            ok as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cmpw(a: *mut $t, c: *mut $t, v: $t, m: i32, fm: i32) -> i32 {
            $cmps(a, c, v, m, fm)
        }
    };
    (@rmw $t:ty, $at:ty, $size:literal, $name:ident, $f:expr, $m:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: *mut $t, v: $t, m: i32) -> $t {
            let f: fn($t, $t) -> $t = $f;
            match sim_op(Kind::Rmw, |r, my| {
                r.rmw(my, a as usize, $size, mo(m), mo(m), &|o| Some(f(o as $t, v) as u64))
            }) {
                Some((old, _)) => old as $t,
                None => (*(a as *const $at)).$m(v, O::SeqCst),
            }
        }
    };
}

use std::sync::atomic::{AtomicU16, AtomicU64, AtomicU8};

atomics!(u8, AtomicU8, 1, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16, 2, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32, 4, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64, 8, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(m: i32) {
    if sim_op(Kind::Fence, |r, my| r.fence(my, mo(m))).is_none() {
        std::sync::atomic::fence(O::SeqCst)
    }
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_m: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}

// -------------------------------------------------------- libc boundary

fn libc_seam(kind: Kind, arg: u32) -> bool {
    let my = me();
    if my == NONE || !active() || !in_sut() {
        return false;
    }
    yield_point(kind, arg);
    true
}

fn look(l: Look<'_>) {
    let f = unsafe { LOOK };
    SUT.with(|s| s.set(false));
    f(l);
    SUT.with(|s| s.set(true));
}

extern "C" {
    static mut environ: *const *const i8;
    fn __errno_location() -> *mut i32;
}

unsafe fn cstr(p: *const i8) -> &'static [u8] {
    std::ffi::CStr::from_ptr(p as *const _).to_bytes()
}

/// Shows the simulated environment also to code which walks `environ` itself.
pub fn publish_environ(env: &[(Vec<u8>, Option<&'static [u8]>)]) {
    let mut a: Vec<*const i8> = env
        .iter()
        .filter_map(|(n, v)| {
            // values end in a zero byte already
            v.map(|v| Box::leak([n.as_slice(), b"=", v].concat().into_boxed_slice()).as_ptr() as *const i8)
        })
        .collect();
    a.push(std::ptr::null());
    unsafe { environ = Box::leak(a.into_boxed_slice()).as_ptr() };
}

/// getenv of the whole process: library code inside a run sees the simulated
/// environment, everyone else the real one.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const i8 {
    let n = cstr(name);
    let arg = n.iter().fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(*b as u32));
    if libc_seam(Kind::Getenv, arg) {
        look(Look::Env(n));
        let r = rt();
        r.stats.getenvs += 1;
        // "*" stands for every name not mentioned, RUST_BACKTRACE and the like excepted
        let any = |e: &&(Vec<u8>, Option<&'static [u8]>)| e.0 == b"*" && !n.starts_with(b"RUST_");
        return match r.env.iter().find(|e| e.0 == n).or_else(|| r.env.iter().find(any)) {
            Some((_, Some(v))) => v.as_ptr() as *const i8,
            _ => std::ptr::null(),
        };
    }
    oracle_env::get(n).unwrap_or_else(|| {
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = cstr(*p);
            if e.len() > n.len() && e[n.len()] == b'=' && &e[..n.len()] == n {
                return (*p).add(n.len() + 1);
            }
            p = p.add(1);
        }
        std::ptr::null()
    })
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if libc_seam(Kind::Isatty, fd as u32) {
        look(Look::Tty(fd));
        let r = rt();
        r.stats.isattys += 1;
        let on = match fd {
            1 => r.tty[0],
            2 => r.tty[1],
            0 => r.tty[2],
            _ => false,
        };
        if !on {
            *__errno_location() = 25; // ENOTTY
        }
        return on as i32;
    }
    oracle_env::tty(fd).unwrap_or(0)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !libc_seam(Kind::SchedYield, 0) {
        raw_syscall6(24, [0; 6]);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const u8, b: *mut u8) -> i32 {
    if libc_seam(Kind::SchedYield, 1) {
        let t = a as *const i64;
        rt().now += (*t * 1_000_000_000 + *t.add(1)).max(0) as u64;
        return 0;
    }
    raw_syscall6(35, [a as usize, b as usize, 0, 0, 0, 0]) as i32
}

/// The clocks of the process: library code inside a run sees simulated time,
/// which passes between two looks as the seed wills.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut i64) -> i32 {
    if libc_seam(Kind::Clock, clock as u32) {
        look(Look::Clock);
        let r = rt();
        r.stats.clock_reads += 1;
        // 1 us, ms, s, min, h, day, 100 days, none
        const DT: [u64; 8] = [1_000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, 8_640_000_000_000_000, 0];
        let k = r.decide(8, |r| r.rng.below(8));
        r.now += DT[k as usize];
        let mut x = r.now as i64 + 1_000_000_000_000_000;
        if clock == 0 {
            // the wall clock is also set, forwards and back
            let k = r.decide(4, |r| if r.rng.pct(70) { 0 } else { 1 + r.rng.below(3) });
            r.skew += [0, -3_600_000_000_000, 3_600_000_000_000, -60_000_000_000][k as usize];
            x += 1_700_000_000_000_000_000 + r.skew;
        }
        *t = x / 1_000_000_000;
        *t.add(1) = x % 1_000_000_000;
        return 0;
    }
    raw_syscall6(228, [clock as usize, t as usize, 0, 0, 0, 0]) as i32
}

/// Randomness of library code (hash keys, for example) comes from the seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, flags: u32) -> isize {
    if libc_seam(Kind::Random, n as u32) {
        let r = rt();
        for i in 0..n {
            r.entropy = mix(r.entropy, 1);
            *b.add(i) = r.entropy as u8;
        }
        return n as isize;
    }
    let x = raw_syscall6(318, [b as usize, n, flags as usize, 0, 0, 0]);
    if x < 0 {
        *__errno_location() = -x as i32;
        return -1;
    }
    x
}

unsafe fn pass(n: usize, a: [usize; 6]) -> isize {
    let x = raw_syscall6(n, a);
    if (-4095..0).contains(&x) {
        *__errno_location() = -x as i32;
        return -1;
    }
    x
}

/// Output of library code which bypasses its destination is only recorded.
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize {
    if libc_seam(Kind::Output, fd as u32) {
        look(Look::Write(fd));
        return n as isize;
    }
    pass(1, [fd as usize, b as usize, n, 0, 0, 0])
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    if libc_seam(Kind::Output, fd as u32) {
        look(Look::Write(fd));
        return (0..n as usize).map(|i| (*v.add(i))[1]).sum::<usize>() as isize;
    }
    pass(20, [fd as usize, v as usize, n as usize, 0, 0, 0])
}

/// Files do not exist for library code.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    if libc_seam(Kind::Open, 0) {
        look(Look::Open(cstr(path)));
        *__errno_location() = 2;
        return -1;
    }
    pass(257, [-100isize as usize, path as usize, flags as usize, mode as usize, 0, 0]) as i32
}

/// Nor do they have other names, and nothing else of the system shows.
fn other(what: &'static str, err: i32) -> bool {
    if libc_seam(Kind::Open, 1) {
        look(Look::Other(what));
        unsafe { *__errno_location() = err };
        return true;
    }
    false
}
macro_rules! others {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty = $n:literal [$($x:expr),*], $err:literal;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if other(stringify!($name), $err) {
                return -1;
            }
            let mut a = [0usize; 6];
            for (i, x) in [$($x),*].into_iter().enumerate() {
                a[i] = x;
            }
            pass($n, a) as $r
        }
    )*};
}
others! {
    read(fd: i32, b: *mut u8, n: usize) -> isize = 0 [fd as usize, b as usize, n], 5;
    stat64(p: *const i8, b: *mut u8) -> i32 = 4 [p as usize, b as usize], 2;
    fstat64(fd: i32, b: *mut u8) -> i32 = 5 [fd as usize, b as usize], 9;
    lstat64(p: *const i8, b: *mut u8) -> i32 = 6 [p as usize, b as usize], 2;
    statx(d: i32, p: *const i8, f: i32, m: u32, b: *mut u8) -> i32 = 332 [d as usize, p as usize, f as usize, m as usize, b as usize], 2;
    readlink(p: *const i8, b: *mut u8, n: usize) -> isize = 89 [p as usize, b as usize, n], 2;
    access(p: *const i8, m: i32) -> i32 = 21 [p as usize, m as usize], 2;
    socket(d: i32, t: i32, p: i32) -> i32 = 41 [d as usize, t as usize, p as usize], 13;
    getpid() -> i32 = 39 [], 0;
    getppid() -> i32 = 110 [], 0;
    mkdir(p: *const i8, m: u32) -> i32 = 83 [p as usize, m as usize], 13;
    unlink(p: *const i8) -> i32 = 87 [p as usize], 13;
    kill(p: i32, s: i32) -> i32 = 62 [p as usize, s as usize], 3;
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if other("getcwd", 2) || pass(79, [b as usize, n, 0, 0, 0, 0]) < 0 {
        return std::ptr::null_mut();
    }
    b
}
/// Asking a terminal about itself is asking whether it is one.
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, what: usize, arg: *mut u8) -> i32 {
    if active() && in_sut() && me() != NONE {
        if isatty(fd) == 0 {
            return -1;
        }
        match what {
            0x5401 => std::ptr::write_bytes(arg, 0, 36),
            0x5413 => (arg as *mut [u16; 4]).write([24, 80, 0, 0]),
            _ => {
                *__errno_location() = 22;
                return -1;
            }
        }
        return 0;
    }
    pass(16, [fd as usize, what, arg as usize, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: i32, t: *mut u8) -> i32 {
    ioctl(fd, 0x5401, t)
}

/// The library changing the environment changes the simulated one.
#[no_mangle]
pub unsafe extern "C" fn setenv(name: *const i8, val: *const i8, over: i32) -> i32 {
    if libc_seam(Kind::EnvSet, 0) {
        let n = cstr(name);
        look(Look::SetEnv(n));
        if over != 0 || !rt().env.iter().any(|e| e.0 == n && e.1.is_some()) {
            set_env(n, Some(cstr(val)));
        }
        return 0;
    }
    -1
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(name: *const i8) -> i32 {
    if libc_seam(Kind::EnvSet, 0) {
        look(Look::SetEnv(cstr(name)));
        set_env(cstr(name), None);
        return 0;
    }
    -1
}

/// std's locks, Once and OnceLock wait through syscall(SYS_futex).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let my = me();
    if n == 202 && my != NONE && my != MAIN && active() && in_sut() && rt().running {
        let was = SUT.with(|s| s.replace(false));
        let ret = futex(my, a, b as u32, c as u32, d);
        SUT.with(|s| s.set(was));
        if ret < 0 {
            *__errno_location() = -ret as i32;
            return -1;
        }
        return ret;
    }
    let r = raw_syscall6(n as usize, [a, b, c, d, e, f]);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r as i64
}

fn futex(my: Tid, addr: usize, op: u32, val: u32, timeout: usize) -> i64 {
    match op & 127 {
        0 | 9 => {
            yield_inner(my, Kind::FutexWait, 0);
            let r = rt();
            r.fence(my, Mo::SeqCst);
            if native_read(addr, 4) as u32 != val {
                return -11;
            }
            r.stats.futex_waits += 1;
            r.tasks[my].woken = true;
            r.tasks[my].status = if timeout != 0 { Status::BlockedTimed(addr) } else { Status::Blocked(addr) };
            yield_away(my, Kind::FutexWait, true);
            let r = rt();
            r.fence(my, Mo::SeqCst);
            if r.tasks[my].woken {
                0
            } else {
                -110
            }
        }
        1 | 10 => {
            let r = rt();
            r.fence(my, Mo::SeqCst);
            let mut n = 0;
            for t in r.tasks.iter_mut() {
                if n < val as i64 && (t.status == Status::Blocked(addr) || t.status == Status::BlockedTimed(addr)) {
                    t.status = Status::Ready;
                    t.woken = true;
                    n += 1;
                }
            }
            yield_inner(my, Kind::FutexWake, 0);
            n
        }
        _ => -38,
    }
}

/// Lets the oracle ask real detection code about a hypothetical environment.
pub mod oracle_env {
    use std::cell::RefCell;

    type Env = (Vec<(Vec<u8>, Option<Vec<u8>>)>, [bool; 2]);
    thread_local! {
        static HYP: RefCell<Option<Env>> = const { RefCell::new(None) };
    }
    pub fn with<R>(env: Env, f: impl FnOnce() -> R) -> R {
        let env = (
            env.0
                .into_iter()
                .map(|(k, v)| {
                    (
                        k,
                        v.map(|mut v| {
                            v.push(0);
                            v
                        }),
                    )
                })
                .collect(),
            env.1,
        );
        HYP.with(|h| *h.borrow_mut() = Some(env));
        let r = f();
        HYP.with(|h| *h.borrow_mut() = None);
        r
    }
    pub(super) fn get(n: &[u8]) -> Option<*const i8> {
        HYP.try_with(|h| {
            h.try_borrow().ok().and_then(|h| {
                let any = |x: &&(Vec<u8>, Option<Vec<u8>>)| x.0 == b"*" && !n.starts_with(b"RUST_");
                h.as_ref().map(|e| match e.0.iter().find(|x| x.0 == n).or_else(|| e.0.iter().find(any)) {
                    Some((_, Some(v))) => v.as_ptr() as *const i8,
                    _ => std::ptr::null(),
                })
            })
        })
        .ok()
        .flatten()
    }
    pub(super) fn tty(fd: i32) -> Option<i32> {
        HYP.try_with(|h| {
            h.try_borrow()
                .ok()
                .and_then(|h| h.as_ref().map(|e| matches!(fd, 1 | 2) && e.1[(fd - 1) as usize]))
        })
        .ok()
        .flatten()
        .map(|b| b as i32)
    }
}
pub use oracle_env::with as with_oracle_env;
