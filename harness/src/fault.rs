//! Faults at system calls: the C library's file calls are replaced within this executable (the code under test
//! and RocksDB are linked into it), so that a call can be made to fail or to be the last one of the process.
use libc::{c_char, c_int, c_void, mode_t, off_t, size_t, ssize_t};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU8, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    /// The process ends; a write may have got half way.
    Kill { torn: bool },
    /// The call fails with this error number; a write may have got half way.
    Fail { errno: c_int, torn: bool },
    /// A write is cut short, which is not an error.
    Short,
}

static GLOBAL: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicI64 = AtomicI64::new(0);
static TORN: AtomicBool = AtomicBool::new(false);

/// Kinds of calls: a fault can be one of some kinds only (a full disk lets files be removed, a mount point lets
/// everything but its replacement happen).
pub const CREATE: u8 = 1;
pub const WRITE: u8 = 2;
pub const SYNC: u8 = 4;
pub const NAMES: u8 = 8;
pub const EVERY: u8 = 15;
static FAILING: AtomicU8 = AtomicU8::new(0);

thread_local! {
    static ARMED: Cell<Option<(i64, Act)>> = const { Cell::new(None) };
    static ONLY_LOG: Cell<bool> = const { Cell::new(false) };
    static KINDS: Cell<u8> = const { Cell::new(EVERY) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<i64> = const { Cell::new(0) };
}

/// Ends the process at its `n`th file call from now, on whatever thread.
pub fn kill_process_at(n: i64, torn: bool) {
    LEFT.store(n, Ordering::SeqCst);
    TORN.store(torn, Ordering::SeqCst);
    GLOBAL.store(true, Ordering::SeqCst);
}

/// Until the process is ended, calls of these kinds fail.
pub fn failing(kinds: u8) {
    FAILING.store(kinds, Ordering::SeqCst);
}

/// Applies `act` at the calling thread's `n`th file call from now while `f` runs (`wal`: writes to RocksDB's
/// log only). Also returns the number of calls and whether the fault happened.
pub fn with_fault<T>(n: i64, act: Act, wal: bool, f: impl FnOnce() -> T) -> (T, i64, bool) {
    with_fault_of(EVERY, n, act, wal, f)
}

/// The same with calls of some kinds only, from the `n`th call of any kind on.
pub fn with_fault_of<T>(kinds: u8, n: i64, act: Act, wal: bool, f: impl FnOnce() -> T) -> (T, i64, bool) {
    KINDS.with(|c| c.set(kinds));
    CALLS.with(|c| c.set(0));
    FIRED.with(|c| c.set(false));
    ONLY_LOG.with(|c| c.set(wal));
    ARMED.with(|a| a.set(Some((n, act))));
    let r = f();
    ARMED.with(|a| a.set(None));
    (r, CALLS.with(|c| c.get()), FIRED.with(|c| c.get()))
}

fn path_of(fd: c_int) -> String {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()
}

fn die() -> ! {
    report_power();
    unsafe {
        libc::kill(libc::getpid(), libc::SIGKILL);
    }
    loop {
        std::thread::yield_now();
    }
}

fn hit(kind: u8, fd: Option<c_int>) -> Option<Act> {
    if GLOBAL.load(Ordering::Relaxed) {
        if let Some(fd) = fd {
            if fd <= 2 || path_of(fd).ends_with("/LOG") {
                return None;
            }
        }
        if LEFT.fetch_sub(1, Ordering::SeqCst) == 0 {
            return Some(Act::Kill { torn: TORN.load(Ordering::SeqCst) });
        }
        if LEFT.load(Ordering::SeqCst) < 0 {
            // another thread is ending the process right now
            loop {
                std::thread::yield_now();
            }
        }
        if FAILING.load(Ordering::Relaxed) & kind != 0 {
            return Some(Act::Fail { errno: libc::EBUSY, torn: false });
        }
        return None;
    }
    let (n, act) = ARMED.try_with(|a| a.get()).ok()??;
    if let Some(fd) = fd {
        if fd <= 2 {
            return None;
        }
    }
    if ONLY_LOG.with(|c| c.get()) {
        match fd {
            Some(fd) if path_of(fd).ends_with(".log") => {}
            _ => return None,
        }
    }
    CALLS.with(|c| c.set(c.get() + 1));
    if n == 0 {
        if KINDS.with(|c| c.get()) & kind == 0 {
            return None;
        }
        FIRED.with(|c| c.set(true));
        // keep failing after an error: a disk that is full stays full
        if !matches!(act, Act::Fail { .. }) {
            ARMED.with(|a| a.set(Some((-1, act))));
        }
        return Some(act);
    }
    if n > 0 {
        ARMED.with(|a| a.set(Some((n - 1, act))));
    }
    None
}

// ---- what a failure of the power would leave ----

static TRACKING: AtomicI32 = AtomicI32::new(-1);
/// (device, inode) and how many of the file's first bytes are known to be on the disk
static SYNCED: Mutex<Vec<(u64, u64, i64)>> = Mutex::new(Vec::new());

/// From now on, keeps account of which bytes of which files have reached the disk, and writes that to the file
/// when the process ends by `power_off` or `kill_process_at`.
pub fn track_power(report: &std::path::Path) {
    use std::os::fd::IntoRawFd;
    let f = std::fs::File::create(report).expect("create the report");
    TRACKING.store(f.into_raw_fd(), Ordering::SeqCst);
}

/// The power fails.
pub fn power_off() -> ! {
    die()
}

fn stat(fd: c_int) -> Option<libc::stat> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        (libc::fstat(fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG).then_some(st)
    }
}

fn account(fd: c_int, change: impl FnOnce(Option<i64>, &libc::stat) -> i64) {
    if TRACKING.load(Ordering::Relaxed) < 0 || fd <= 2 {
        return;
    }
    let Some(st) = stat(fd) else { return };
    let mut v = SYNCED.lock().unwrap_or_else(|e| e.into_inner());
    match v.iter_mut().find(|x| x.0 == st.st_dev && x.1 == st.st_ino) {
        Some(x) => x.2 = change(Some(x.2), &st),
        None => {
            let n = change(None, &st);
            v.push((st.st_dev, st.st_ino, n));
        }
    }
}

/// The file is about to be written at an offset: nothing from there on is on the disk.
fn about_to_write(fd: c_int, off: Option<off_t>) {
    account(fd, |old, st| {
        let at = match off {
            Some(o) => o,
            None => unsafe {
                if libc::fcntl(fd, libc::F_GETFL) & libc::O_APPEND != 0 {
                    st.st_size
                } else {
                    libc::lseek(fd, 0, libc::SEEK_CUR)
                }
            },
        };
        at.min(old.unwrap_or(at))
    });
}

fn written_through(fd: c_int) {
    account(fd, |_, st| st.st_size);
}

fn report_power() {
    let to = TRACKING.load(Ordering::SeqCst);
    if to < 0 {
        return;
    }
    let v = SYNCED.lock().unwrap_or_else(|e| e.into_inner());
    let s: String = v.iter().map(|x| format!("{} {} {}\n", x.0, x.1, x.2)).collect();
    unsafe {
        let mut at = 0;
        while at < s.len() {
            let n = libc::syscall(libc::SYS_write, to, s.as_ptr().add(at), s.len() - at);
            if n <= 0 {
                break;
            }
            at += n as usize;
        }
    }
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn raw_write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    about_to_write(fd, None);
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    crate::noise::tick();
    match hit(WRITE, Some(fd)) {
        None => raw_write(fd, buf, n),
        Some(Act::Kill { torn }) => {
            if torn && n > 1 {
                raw_write(fd, buf, n / 2);
            }
            die()
        }
        Some(Act::Fail { errno, torn }) => {
            if torn && n > 1 {
                raw_write(fd, buf, n / 2);
            }
            set_errno(errno);
            -1
        }
        Some(Act::Short) => raw_write(fd, buf, n.div_ceil(2)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    match hit(WRITE, Some(fd)) {
        None | Some(Act::Short) => {
            about_to_write(fd, None);
            libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t
        }
        Some(Act::Kill { .. }) => die(),
        Some(Act::Fail { errno, .. }) => {
            set_errno(errno);
            -1
        }
    }
}

unsafe fn pwrite_(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    let raw = |n: size_t| {
        about_to_write(fd, Some(off));
        libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t
    };
    match hit(WRITE, Some(fd)) {
        None => raw(n),
        Some(Act::Kill { torn }) => {
            if torn && n > 1 {
                raw(n / 2);
            }
            die()
        }
        Some(Act::Fail { errno, torn }) => {
            if torn && n > 1 {
                raw(n / 2);
            }
            set_errno(errno);
            -1
        }
        Some(Act::Short) => raw(n.div_ceil(2)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    pwrite_(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    pwrite_(fd, buf, n, off)
}

/// 0 to go on, -1 with errno set to fail.
unsafe fn plain(kind: u8, fd: Option<c_int>) -> c_int {
    match hit(kind, fd) {
        None | Some(Act::Short) => 0,
        Some(Act::Kill { .. }) => die(),
        Some(Act::Fail { errno, .. }) => {
            set_errno(errno);
            -1
        }
    }
}

macro_rules! simple {
    ($name:ident, $sys:ident, $fd:expr, ($($a:ident: $t:ty),*)) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            let f: fn($($t),*) -> Option<c_int> = $fd;
            let fd = f($($a),*);
            if plain(if fd.is_some() { WRITE } else { NAMES }, fd) != 0 {
                return -1;
            }
            libc::syscall(libc::$sys, $($a),*) as c_int
        }
    };
}
macro_rules! sync {
    ($name:ident, $sys:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int) -> c_int {
            if plain(SYNC, Some(fd)) != 0 {
                return -1;
            }
            let r = libc::syscall(libc::$sys, fd) as c_int;
            if r == 0 {
                written_through(fd);
            }
            r
        }
    };
}
sync!(fsync, SYS_fsync);
sync!(fdatasync, SYS_fdatasync);
simple!(ftruncate, SYS_ftruncate, |fd, n| { about_to_write(fd, Some(n)); Some(fd) }, (fd: c_int, n: off_t));
simple!(ftruncate64, SYS_ftruncate, |fd, n| { about_to_write(fd, Some(n)); Some(fd) }, (fd: c_int, n: off_t));
simple!(rename, SYS_rename, |_, _| None, (a: *const c_char, b: *const c_char));
simple!(link, SYS_link, |_, _| None, (a: *const c_char, b: *const c_char));
simple!(unlink, SYS_unlink, |_| None, (a: *const c_char));
simple!(mkdir, SYS_mkdir, |_, _| None, (a: *const c_char, m: mode_t));

simple!(renameat, SYS_renameat, |_, _, _, _| None, (d: c_int, a: *const c_char, e: c_int, b: *const c_char));
simple!(unlinkat, SYS_unlinkat, |_, _, _| None, (d: c_int, a: *const c_char, f: c_int));

// Files being created or emptied. (The mode is only there for some flags, and is only used then.)
unsafe fn open_(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 && plain(CREATE, None) != 0 {
        return -1;
    }
    libc::syscall(libc::SYS_openat, d, p, flags, mode) as c_int
}
#[allow(invalid_runtime_symbol_definitions)]
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_(d, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off_t, b: c_int, bo: *mut off_t, n: size_t, f: libc::c_uint) -> ssize_t {
    if plain(WRITE, Some(b)) != 0 {
        return -1;
    }
    about_to_write(b, if bo.is_null() { None } else { Some(*bo) });
    libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, f) as ssize_t
}

unsafe fn sendfile_(b: c_int, a: c_int, o: *mut off_t, n: size_t) -> ssize_t {
    if plain(WRITE, Some(b)) != 0 {
        return -1;
    }
    about_to_write(b, None);
    libc::syscall(libc::SYS_sendfile, b, a, o, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(b: c_int, a: c_int, o: *mut off_t, n: size_t) -> ssize_t {
    sendfile_(b, a, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(b: c_int, a: c_int, o: *mut off_t, n: size_t) -> ssize_t {
    sendfile_(b, a, o, n)
}

// ---- reads ----

/// Which read of a thread fails.
#[derive(Clone, Copy)]
pub struct Reads {
    pub at: i64,
    /// and all later ones
    pub sticky: bool,
    /// a bit of the data is flipped instead
    pub damage: bool,
    /// only of files whose names end so
    pub suffix: &'static str,
}

thread_local! {
    static READS: Cell<Option<Reads>> = const { Cell::new(None) };
}

/// Runs `f` with a read of the calling thread failing. Also returns the number of reads, and whether it happened.
pub fn with_reads<T>(r: Reads, f: impl FnOnce() -> T) -> (T, i64, bool) {
    CALLS.with(|c| c.set(0));
    FIRED.with(|c| c.set(false));
    READS.with(|a| a.set(Some(r)));
    let out = f();
    READS.with(|a| a.set(None));
    (out, CALLS.with(|c| c.get()), FIRED.with(|c| c.get()))
}

/// Whether this read is to fail (false) or be damaged (true).
fn hit_read(fd: c_int) -> Option<bool> {
    let r = READS.try_with(|a| a.get()).ok()??;
    let p = path_of(fd);
    if !p.starts_with('/') || p.starts_with("/proc") || p.starts_with("/dev/") && !p.starts_with("/dev/shm/") || p.ends_with(".log") || !p.ends_with(r.suffix) {
        return None;
    }
    CALLS.with(|c| c.set(c.get() + 1));
    READS.with(|a| a.set(Some(Reads { at: r.at - 1, ..r })));
    if r.at == 0 || r.at < 0 && r.sticky {
        FIRED.with(|c| c.set(true));
        return Some(r.damage);
    }
    None
}

unsafe fn reading(fd: c_int, buf: *mut c_void, raw: impl FnOnce() -> ssize_t) -> ssize_t {
    match hit_read(fd) {
        None => raw(),
        Some(true) => {
            let n = raw();
            if n > 0 {
                *(buf as *mut u8).add(n as usize / 2) ^= 4;
            }
            n
        }
        Some(false) => {
            set_errno(libc::EIO);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    reading(fd, buf, || libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    reading(fd, buf, || libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    reading(fd, buf, || libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t)
}

/// Like the others, but only ever the place where a process ends.
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if GLOBAL.load(Ordering::Relaxed) && fd > 2 {
        if let Some(Act::Kill { .. }) = hit(0, Some(fd)) {
            die()
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
