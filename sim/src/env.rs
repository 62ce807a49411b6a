//! Ambient nondeterminism behind interposed libc symbols: randomness, clocks, environment, process id.
//!
//! Values are a function of a per-run seed and, where a build runs in an environment of its own, of that
//! environment's seed. With both off (parent processes, reporting) the real functions are used.

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use crate::rt::mix;

static RUN_SEED: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

/// How often the code under test asked for each ambient input.
pub static READS: [AtomicU64; 5] =
    [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
    static NTH: Cell<u64> = const { Cell::new(0) };
    static JUMP: Cell<u64> = const { Cell::new(0) };
}

pub fn start_run() {
    let seed = crate::rt::draw(1 << 16) as u64;
    CALLS.store(0, SeqCst);
    RUN_SEED.store(mix(&[0x5eed, seed]) | 1, SeqCst);
}

pub fn calm() {
    RUN_SEED.store(0, SeqCst);
    SEED.with(|s| s.set(0));
}

/// Give the current thread an environment of its own.
pub fn enter(seed: u64) {
    SEED.with(|s| s.set(mix(&[0xe27, seed]) | 1));
    NTH.with(|n| n.set(0));
    JUMP.with(|j| j.set(0));
}

pub fn leave() {
    SEED.with(|s| s.set(0));
}

fn seed() -> u64 {
    let own = SEED.with(|s| s.get());
    if own != 0 {
        own
    } else {
        RUN_SEED.load(SeqCst)
    }
}

fn nth() -> u64 {
    if SEED.with(|s| s.get()) != 0 {
        NTH.with(|n| {
            n.set(n.get() + 1);
            n.get()
        })
    } else {
        CALLS.fetch_add(1, SeqCst)
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let seed = seed();
    if seed == 0 {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t;
    }
    READS[0].fetch_add(1, SeqCst);
    let n = nth();
    for i in 0..len {
        *(buf as *mut u8).add(i) = mix(&[seed, n, i as u64, 1]) as u8;
    }
    len as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let seed = seed();
    if seed == 0 {
        return libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int;
    }
    READS[1].fetch_add(1, SeqCst);
    let n = nth();
    let base = mix(&[seed, clock as u64, 2]) % 4_000_000_000;
    // how much time passes between two looks at the clock: the process may be stalled
    let step = [7_919, 7_919, 40_000_000, 3_000_000_000, 4_000_000_000_000][(mix(&[seed, 8]) % 5) as usize];
    let mut ns = base * 1_000_000_000 / 2 + crate::rt::now_ns() + n % 100_000 * step;
    if clock == libc::CLOCK_REALTIME {
        // wall clock jumps
        if mix(&[seed, n, 3]) % 4 == 0 {
            JUMP.with(|j| j.set(mix(&[seed, n, 4]) % 1_000_000_000_000_000));
        }
        ns += JUMP.with(|j| j.get());
    }
    (*ts).tv_sec = (ns / 1_000_000_000) as libc::time_t;
    (*ts).tv_nsec = (ns % 1_000_000_000) as _;
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> libc::c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = (ts.tv_nsec / 1000) as _;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    let seed = seed();
    if seed == 0 {
        return libc::syscall(libc::SYS_getpid) as libc::pid_t;
    }
    READS[2].fetch_add(1, SeqCst);
    (mix(&[seed, 5]) % 4_000_000) as libc::pid_t + 2
}

extern "C" {
    static environ: *const *const libc::c_char;
}

unsafe fn real_getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = libc::strlen(name);
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    while !(*p).is_null() {
        if libc::strncmp(*p, name, n) == 0 && *(*p).add(n) == b'=' as libc::c_char {
            return (*p).add(n + 1) as *mut libc::c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let seed = seed();
    if seed == 0 {
        return real_getenv(name);
    }
    let bytes = std::slice::from_raw_parts(name as *const u8, libc::strlen(name));
    // what std itself reads
    let own = [&b"RUST_BACKTRACE"[..], b"RUST_LIB_BACKTRACE", b"RUST_MIN_STACK", b"LD_", b"MALLOC", b"GLIBC", b"LLVM"];
    if own.iter().any(|p| bytes.starts_with(p)) {
        return real_getenv(name);
    }
    READS[3].fetch_add(1, SeqCst);
    let mut h = 7;
    for b in bytes {
        h = mix(&[h, *b as u64]);
    }
    static VALUES: [&[u8]; 18] = [
        b"1\0", b"1\0", b"true\0", b"true\0", b"\0", b"0\0", b"false\0", b"17\0", b"zz-opg\0", b"/tmp\0", b"yes\0", b"on\0", b"debug\0",
        b"production\0", b"de_DE.UTF-8\0", b"C\0", b"1700000000\0", b"full\0",
    ];
    match mix(&[seed, h, 6]) % 22 {
        i if i < 18 => VALUES[i as usize].as_ptr() as *mut libc::c_char,
        _ => std::ptr::null_mut(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn secure_getenv(name: *const libc::c_char) -> *mut libc::c_char {
    getenv(name)
}

/// What else differs from process to process: only for a forked process that ends soon.
pub fn become_another_process(seed: u64) {
    let r = |i: u64| mix(&[seed, 0xd1f, i]);
    let dirs = ["/", "/tmp", "/usr", "/proc/self"];
    let _ = std::env::set_current_dir(dirs[(r(1) % 4) as usize]);
    for i in 0..r(2) % 6 {
        std::env::set_var(format!("OPG_NOISE_{}", r(10 + i) % 100), format!("{}", r(20 + i)));
    }
    for (i, name) in ["HOME", "USER", "LANG", "TZ", "SOURCE_DATE_EPOCH", "CI", "DEBUG"].iter().enumerate() {
        match r(40 + i as u64) % 3 {
            0 => std::env::remove_var(name),
            1 => std::env::set_var(name, format!("{}", r(50 + i as u64) % 100)),
            _ => {}
        }
    }
}

/// A plausible number in place of what the machine would say.
fn machine(site: u64, n: u64) -> Option<u64> {
    let seed = seed();
    if seed == 0 {
        return None;
    }
    READS[4].fetch_add(1, SeqCst);
    Some(mix(&[seed, site, 9]) % n)
}

#[no_mangle]
pub unsafe extern "C" fn gethostname(name: *mut libc::c_char, len: libc::size_t) -> libc::c_int {
    let text = format!("host{}\0", machine(1, 1000).unwrap_or(0));
    let n = text.len().min(len);
    std::ptr::copy_nonoverlapping(text.as_ptr() as *const libc::c_char, name, n);
    0
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: libc::c_int) -> libc::c_int {
    match machine(2, 2) {
        Some(answer) => answer as libc::c_int,
        None => {
            let mut size: libc::winsize = std::mem::zeroed();
            (libc::syscall(libc::SYS_ioctl, fd, libc::TIOCGWINSZ, &mut size) == 0) as libc::c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: libc::size_t, set: *mut libc::cpu_set_t) -> libc::c_int {
    let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, set);
    if r < 0 {
        return -1;
    }
    let done = r as usize;
    if done < size {
        std::ptr::write_bytes((set as *mut u8).add(done), 0, size - done);
    }
    if let Some(n) = machine(3, 7) {
        std::ptr::write_bytes(set as *mut u8, 0, size);
        for cpu in 0..n as usize + 1 {
            libc::CPU_SET(cpu, &mut *set);
        }
    }
    0
}
