//! The simulated host. Operating-system entry points used by the library (directly or through std
//! and its dependencies) are interposed by symbol: while library code runs (IN_SUT), clock, entropy,
//! environment, host name file and stderr come from here; otherwise calls go to the kernel.
use probe::Outside;
use crate::choices::Rng;
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};
use std::collections::VecDeque;
use std::ffi::CString;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EntFault {
    None,
    Eintr,
    Short(usize),
    Err(i32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum ReadFault {
    None,
    Eintr,
    Short(usize),
    Err(i32),
}

#[derive(Clone, Debug, Default)]
pub struct HostFile {
    pub open_err: Option<i32>,
    pub data: Vec<u8>,
    pub reads: VecDeque<ReadFault>,
}

#[derive(Default)]
pub struct Counters {
    pub clock_reads: u64,
    pub entropy_calls: u64,
    pub entropy_bytes: u64,
    pub entropy_eintr: u64,
    pub entropy_short: u64,
    pub entropy_err: u64,
    pub host_opens: u64,
    pub host_open_err: u64,
    pub host_read_eintr: u64,
    pub host_read_short: u64,
    pub host_read_err: u64,
    pub env_reads: u64,
    pub stderr_writes: u64,
    pub stderr_err: u64,
    pub futex_waits: u64,
    pub sleeps: u64,
    pub log_records: u64,
}

/// Text kept per run of what the library prints and logs.
const DIAG_MAX: usize = 256 << 10;

pub struct Os {
    /// CLOCK_REALTIME in (seconds, nanoseconds)
    pub rt: (i64, i64),
    /// added to the clock on every read (0 freezes it within a call)
    pub tick_ns: i64,
    pub entropy: Rng,
    pub ent_faults: VecDeque<EntFault>,
    /// every byte handed out since last cleared
    pub ent_log: Vec<u8>,
    /// the thread that got each of them
    pub ent_who: Vec<u8>,
    pub env: Vec<(&'static str, CString)>,
    pub host: HostFile,
    pub stderr_err: Option<i32>,
    pub host_fd: c_int,
    pub rnd_fd: c_int,
    /// descriptors opened by library code and not closed
    pub fds: Vec<c_int>,
    /// everything the library logged or printed in this run, panic messages included
    pub diag: Vec<u8>,
    /// what the library did to the host beyond reading clock, entropy, environment and host name
    pub effects: Vec<String>,
    /// the secrets handled in this run
    pub secrets: Vec<(&'static str, Vec<u8>)>,
    /// whether secrets are noted
    pub watch: bool,
    pub n: Counters,
}

impl Os {
    pub fn say(&mut self, b: &[u8]) {
        let room = DIAG_MAX.saturating_sub(self.diag.len());
        self.diag.extend(&b[..b.len().min(room)]);
        self.diag.push(b'\n');
    }
    fn effect(&mut self, what: String) {
        if self.effects.len() < 20 {
            self.effects.push(what);
        }
    }
    pub fn secret(&mut self, what: &'static str, b: &[u8]) {
        if self.secrets.len() < 400 && !self.secrets.iter().any(|s| s.1 == b) {
            self.secrets.push((what, b.to_vec()));
        }
    }
}

static mut OS: Os = Os {
    rt: (0, 0),
    tick_ns: 0,
    entropy: Rng::new(1),
    ent_faults: VecDeque::new(),
    ent_log: Vec::new(),
    ent_who: Vec::new(),
    env: Vec::new(),
    host: HostFile { open_err: None, data: Vec::new(), reads: VecDeque::new() },
    stderr_err: None,
    host_fd: -1,
    rnd_fd: -1,
    fds: Vec::new(),
    diag: Vec::new(),
    effects: Vec::new(),
    secrets: Vec::new(),
    watch: false,
    n: Counters {
        clock_reads: 0,
        entropy_calls: 0,
        entropy_bytes: 0,
        entropy_eintr: 0,
        entropy_short: 0,
        entropy_err: 0,
        host_opens: 0,
        host_open_err: 0,
        host_read_eintr: 0,
        host_read_short: 0,
        host_read_err: 0,
        env_reads: 0,
        stderr_writes: 0,
        stderr_err: 0,
        futex_waits: 0,
        sleeps: 0,
        log_records: 0,
    },
};

/// Only the thread that holds the baton (see sched) touches this.
#[allow(static_mut_refs)]
pub fn os() -> &'static mut Os {
    unsafe { &mut OS }
}

/// Fresh host state for a run (fd is kept).
pub fn reset() {
    let o = os();
    o.rt = (1_700_000_000, 0);
    o.tick_ns = 0;
    o.entropy = Rng::new(1);
    o.ent_faults.clear();
    o.ent_log.clear();
    o.ent_who.clear();
    o.env.clear();
    o.host = HostFile { open_err: None, data: b"simhost\n".to_vec(), reads: VecDeque::new() };
    o.stderr_err = None;
    o.n = Counters::default();
}

/// Forgets what was observed in the run before.
pub fn reset_observations() {
    let o = os();
    o.fds.clear();
    o.diag.clear();
    o.effects.clear();
    o.secrets.clear();
    o.watch = false;
}

/// The application's logger. Formatting a record runs library code (Debug, Display).
pub struct Logger;

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let text = format!("{} {}", r.level(), r.args());
        probe::point(probe::COARSE);
        let g = Outside::enter();
        if g.was_sut() {
            os().n.log_records += 1;
            os().say(text.as_bytes());
        }
    }
    fn flush(&self) {}
}

#[inline]
pub unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let ret: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn cvt(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

fn sim_entropy(buf: *mut u8, len: usize) -> ssize_t {
    probe::point(probe::COARSE);
    {
        let o = os();
        o.n.entropy_calls += 1;
        let mut n = len;
        if len > 0 {
            match o.ent_faults.pop_front().unwrap_or(EntFault::None) {
                EntFault::None => {}
                EntFault::Eintr => {
                    o.n.entropy_eintr += 1;
                    set_errno(libc::EINTR);
                    return -1;
                }
                EntFault::Short(k) => {
                    let k = k.max(1);
                    if k < n {
                        o.n.entropy_short += 1;
                        n = k;
                    }
                }
                EntFault::Err(e) => {
                    o.n.entropy_err += 1;
                    set_errno(e);
                    return -1;
                }
            }
        }
        let mut word = [0u8; 8];
        for i in 0..n {
            if i % 8 == 0 {
                word = o.entropy.next().to_le_bytes();
            }
            unsafe { *buf.add(i) = word[i % 8] };
            o.ent_log.push(word[i % 8]);
            o.ent_who.push(crate::sched::me() as u8);
        }
        o.n.entropy_bytes += n as u64;
        n as ssize_t
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    let g = Outside::enter();
    if g.was_sut() {
        return sim_entropy(buf.cast(), len);
    }
    cvt(raw6(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let g = Outside::enter();
    if g.was_sut() {
        if n == libc::SYS_getrandom {
            return sim_entropy(a as *mut u8, b as usize) as c_long;
        }
        if n == libc::SYS_futex {
            let op = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                return futex_wait(a as *const u32, c as u32, d as *const libc::timespec, op == libc::FUTEX_WAIT_BITSET);
            }
        }
        if n != libc::SYS_futex && n != libc::SYS_gettid && n != libc::SYS_membarrier {
            os().effect(format!("system call {}", n));
        }
    }
    cvt(raw6(n, a, b, c, d, e, f))
}

/// A library thread would block here.
unsafe fn futex_wait(word: *const u32, expected: u32, until: *const libc::timespec, absolute: bool) -> c_long {
    let o = os();
    o.n.futex_waits += 1;
    if !until.is_null() {
        // Nothing wakes it: the wait is a sleep until its time is over.
        let mut t = *until;
        if absolute {
            let ns = (t.tv_sec as i128 - o.rt.0 as i128) * 1_000_000_000 + t.tv_nsec as i128 - o.rt.1 as i128;
            let ns = ns.clamp(0, i64::MAX as i128);
            t = libc::timespec { tv_sec: (ns / 1_000_000_000) as i64, tv_nsec: (ns % 1_000_000_000) as i64 };
        }
        sim_sleep(&t);
        set_errno(libc::ETIMEDOUT);
        return -1;
    }
    if crate::sched::on_sim_thread() {
        // Let another session run, then report a (legal) spurious wake-up so the caller re-checks its condition.
        crate::sched::block_point();
        return 0;
    }
    if std::ptr::read_volatile(word) != expected {
        set_errno(libc::EAGAIN);
        return -1;
    }
    // There is no other thread: it would wait for ever.
    o.effect("waits for ever".to_string());
    die(libc::SIGVTALRM)
}

/// Ends the process as the kernel would; the worker's parent reports the run it died in.
unsafe fn die(sig: c_int) -> ! {
    let (pid, tid) = (raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0), raw6(libc::SYS_gettid, 0, 0, 0, 0, 0, 0));
    raw6(libc::SYS_tgkill, pid, tid, sig as c_long, 0, 0, 0);
    libc::_exit(70)
}

/// # Safety
/// As the function of that name.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    let g = Outside::enter();
    if g.was_sut() {
        // the library ends the application
        die(libc::SIGABRT);
    }
    let f: unsafe extern "C" fn(c_int) -> ! = std::mem::transmute(real(b"exit\0"));
    f(code)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let g = Outside::enter();
    if g.was_sut() {
        probe::point(probe::COARSE);
        let o = os();
        o.n.clock_reads += 1;
        (*ts).tv_sec = o.rt.0;
        (*ts).tv_nsec = o.rt.1;
        if o.tick_ns > 0 {
            let n = o.rt.1 + o.tick_ns;
            o.rt = (o.rt.0.saturating_add(n / 1_000_000_000), n % 1_000_000_000);
        }
        return 0;
    }
    cvt(raw6(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

extern "C" {
    static environ: *const *const c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let g = Outside::enter();
    let key = std::ffi::CStr::from_ptr(name).to_bytes();
    if g.was_sut() {
        probe::point(probe::COARSE);
        let o = os();
        o.n.env_reads += 1;
        for (k, v) in &o.env {
            if k.as_bytes() == key {
                return v.as_ptr() as *mut c_char;
            }
        }
        return std::ptr::null_mut();
    }
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    while !(*p).is_null() {
        let s = std::ffi::CStr::from_ptr(*p).to_bytes();
        if s.len() > key.len() && &s[..key.len()] == key && s[key.len()] == b'=' {
            return (*p).add(key.len() + 1) as *mut c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

const HOSTNAME_PATH: &[u8] = b"/etc/hostname";

unsafe fn sim_open(path: *const c_char, flags: c_int) -> Option<c_int> {
    let g = Outside::enter();
    if !g.was_sut() {
        return None;
    }
    let name = std::ffi::CStr::from_ptr(path).to_bytes();
    if name == b"/dev/urandom" || name == b"/dev/random" {
        // the entropy source by its other name
        return Some({
            let fd = cvt(raw6(libc::SYS_memfd_create, b"rnd\0".as_ptr() as c_long, libc::MFD_CLOEXEC as c_long, 0, 0, 0, 0)) as c_int;
            let o = os();
            o.rnd_fd = fd;
            if fd >= 0 {
                o.fds.push(fd);
            }
            fd
        });
    }
    if name != HOSTNAME_PATH || flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != libc::O_RDONLY {
        os().effect(format!("opened {} with flags {:#o}", String::from_utf8_lossy(name), flags));
        set_errno(libc::ENOENT);
        return Some(-1);
    }
    probe::point(probe::COARSE);
    Some({
        let o = os();
        o.n.host_opens += 1;
        if let Some(e) = o.host.open_err {
            o.n.host_open_err += 1;
            set_errno(e);
            return Some(-1);
        }
        let fd = cvt(raw6(libc::SYS_memfd_create, b"hn\0".as_ptr() as c_long, libc::MFD_CLOEXEC as c_long, 0, 0, 0, 0)) as c_int;
        if fd >= 0 && !o.host.data.is_empty() {
            raw6(libc::SYS_pwrite64, fd as c_long, o.host.data.as_ptr() as c_long, o.host.data.len() as c_long, 0, 0, 0);
        }
        o.host_fd = fd;
        if fd >= 0 {
            o.fds.push(fd);
        }
        fd
    })
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    match sim_open(path, flags) {
        Some(r) => r,
        None => cvt(raw6(libc::SYS_openat, libc::AT_FDCWD as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    let g = Outside::enter();
    if g.was_sut() && fd == os().rnd_fd && fd >= 0 {
        return sim_entropy(buf.cast(), n);
    }
    if g.was_sut() && fd == os().host_fd && fd >= 0 {
        probe::point(probe::COARSE);
        let o = os();
        let f = o.host.reads.pop_front().unwrap_or(ReadFault::None);
        match f {
            ReadFault::None => {}
            ReadFault::Eintr => {
                o.n.host_read_eintr += 1;
                set_errno(libc::EINTR);
                return -1;
            }
            ReadFault::Short(k) => {
                let k = k.max(1);
                if k < n {
                    o.n.host_read_short += 1;
                    n = k;
                }
            }
            ReadFault::Err(e) => {
                o.n.host_read_err += 1;
                set_errno(e);
                return -1;
            }
        }
    }
    cvt(raw6(libc::SYS_read, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    match sim_open(path, flags) {
        Some(r) => r,
        None => cvt(raw6(libc::SYS_openat, dir as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    openat(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let g = Outside::enter();
    if g.was_sut() {
        let o = os();
        match o.fds.iter().position(|f| *f == fd) {
            Some(i) => {
                o.fds.remove(i);
                if o.host_fd == fd {
                    o.host_fd = -1;
                }
                if o.rnd_fd == fd {
                    o.rnd_fd = -1;
                }
            }
            None => {
                o.effect(format!("closed descriptor {} it had not opened", fd));
                set_errno(libc::EBADF);
                return -1;
            }
        }
    }
    cvt(raw6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn real(name: &'static [u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr().cast())
}

/// Library code that gets here acts on the host: it is recorded and refused.
macro_rules! refused {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty = $fail:expr, $errno:expr;)*) => { $(
        /// # Safety
        /// As the function of that name.
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            let g = Outside::enter();
            if g.was_sut() {
                os().effect(stringify!($name).to_string());
                set_errno($errno);
                return $fail;
            }
            let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(real(concat!(stringify!($name), "\0").as_bytes()));
            f($($a),*)
        }
    )* };
}

type P = *const c_void;
refused! {
    pthread_create(a: P, b: P, c: P, d: P) -> c_int = libc::EAGAIN, libc::EAGAIN;
    fork() -> c_int = -1, libc::EAGAIN;
    posix_spawn(a: P, b: P, c: P, d: P, e: P, f: P) -> c_int = libc::EPERM, libc::EPERM;
    posix_spawnp(a: P, b: P, c: P, d: P, e: P, f: P) -> c_int = libc::EPERM, libc::EPERM;
    execve(a: P, b: P, c: P) -> c_int = -1, libc::EPERM;
    execvp(a: P, b: P) -> c_int = -1, libc::EPERM;
    system(a: P) -> c_int = -1, libc::EPERM;
    socket(a: c_int, b: c_int, c: c_int) -> c_int = -1, libc::EPERM;
    socketpair(a: c_int, b: c_int, c: c_int, d: P) -> c_int = -1, libc::EPERM;
    getaddrinfo(a: P, b: P, c: P, d: P) -> c_int = libc::EAI_FAIL, libc::EPERM;
    setenv(a: P, b: P, c: c_int) -> c_int = -1, libc::ENOMEM;
    unsetenv(a: P) -> c_int = -1, libc::EINVAL;
    putenv(a: P) -> c_int = -1, libc::ENOMEM;
    clearenv() -> c_int = -1, libc::ENOMEM;
    mkdir(a: P, b: libc::mode_t) -> c_int = -1, libc::EPERM;
    rmdir(a: P) -> c_int = -1, libc::EPERM;
    unlink(a: P) -> c_int = -1, libc::EPERM;
    unlinkat(a: c_int, b: P, c: c_int) -> c_int = -1, libc::EPERM;
    rename(a: P, b: P) -> c_int = -1, libc::EPERM;
    link(a: P, b: P) -> c_int = -1, libc::EPERM;
    symlink(a: P, b: P) -> c_int = -1, libc::EPERM;
    truncate64(a: P, b: i64) -> c_int = -1, libc::EPERM;
    ftruncate64(a: c_int, b: i64) -> c_int = -1, libc::EPERM;
    chmod(a: P, b: libc::mode_t) -> c_int = -1, libc::EPERM;
    chdir(a: P) -> c_int = -1, libc::EPERM;
    umask(a: libc::mode_t) -> libc::mode_t = 0, libc::EPERM;
    creat(a: P, b: libc::mode_t) -> c_int = -1, libc::EPERM;
    creat64(a: P, b: libc::mode_t) -> c_int = -1, libc::EPERM;
    fopen(a: P, b: P) -> *mut c_void = std::ptr::null_mut(), libc::EPERM;
    fopen64(a: P, b: P) -> *mut c_void = std::ptr::null_mut(), libc::EPERM;
    pipe2(a: P, b: c_int) -> c_int = -1, libc::EPERM;
    dup2(a: c_int, b: c_int) -> c_int = -1, libc::EPERM;
    kill(a: c_int, b: c_int) -> c_int = -1, libc::EPERM;
    sigaction(a: c_int, b: P, c: P) -> c_int = -1, libc::EPERM;
    sigprocmask(a: c_int, b: P, c: P) -> c_int = -1, libc::EPERM;
    sethostname(a: P, b: size_t) -> c_int = -1, libc::EPERM;
    clock_settime(a: c_int, b: P) -> c_int = -1, libc::EPERM;
    setrlimit64(a: c_int, b: P) -> c_int = -1, libc::EPERM;
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let g = Outside::enter();
    if g.was_sut() && crate::sched::on_sim_thread() {
        crate::sched::block_point();
        return 0;
    }
    cvt(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

/// Sleeping costs no real time: the simulated clock moves on and other sessions run.
fn sim_sleep(ts: &libc::timespec) {
    let o = os();
    o.n.sleeps += 1;
    o.effect(format!("slept {}.{:09} s", ts.tv_sec, ts.tv_nsec));
    let n = o.rt.1 + ts.tv_nsec;
    o.rt = (o.rt.0.saturating_add(ts.tv_sec).saturating_add(n / 1_000_000_000), n % 1_000_000_000);
    if crate::sched::on_sim_thread() {
        crate::sched::block_point();
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    let g = Outside::enter();
    if g.was_sut() {
        sim_sleep(&*ts);
        return 0;
    }
    cvt(raw6(libc::SYS_nanosleep, ts as c_long, rem as c_long, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    let g = Outside::enter();
    if g.was_sut() {
        if flags == 0 {
            sim_sleep(&*ts);
        } else if crate::sched::on_sim_thread() {
            crate::sched::block_point();
        }
        return 0;
    }
    let r = raw6(libc::SYS_clock_nanosleep, clk as c_long, flags as c_long, ts as c_long, rem as c_long, 0, 0);
    -r as c_int
}

unsafe fn sim_stderr(fd: c_int, b: &[u8]) -> ssize_t {
    let n = b.len();
    let o = os();
    o.n.stderr_writes += 1;
    o.effect(format!("wrote {} bytes to descriptor {}", n, fd));
    o.say(b);
    if let Some(e) = o.stderr_err {
        o.n.stderr_err += 1;
        set_errno(e);
        return -1;
    }
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let g = Outside::enter();
    if g.was_sut() && (fd == 1 || fd == 2) {
        return sim_stderr(fd, std::slice::from_raw_parts(buf.cast(), n));
    }
    if g.was_sut() {
        os().effect(format!("wrote {} bytes to descriptor {}", n, fd));
        set_errno(libc::EBADF);
        return -1;
    }
    cvt(raw6(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let g = Outside::enter();
    if g.was_sut() && (fd == 1 || fd == 2) {
        let mut v = Vec::new();
        for i in 0..cnt as usize {
            let x = &*iov.add(i);
            v.extend(std::slice::from_raw_parts(x.iov_base.cast::<u8>(), x.iov_len));
        }
        return sim_stderr(fd, &v);
    }
    cvt(raw6(libc::SYS_writev, fd as c_long, iov as c_long, cnt as c_long, 0, 0, 0)) as ssize_t
}

pub fn raw_time_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as c_long, &mut ts as *mut _ as c_long, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
