//! libc entry points the standard library (and any code under test) reaches the outside world
//! through. On a simulated task they are decided by the simulator; elsewhere they pass through.
use crate::sched::*;
use std::sync::atomic::{AtomicUsize, Ordering};

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
unsafe fn next(name: &'static [u8], slot: &AtomicUsize) -> usize {
    let mut p = slot.load(Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize;
        if p == 0 {
            libc::_exit(3);
        }
        slot.store(p, Ordering::Relaxed);
    }
    p
}

// ---------------------------------------------------------------- threads
type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
pub unsafe fn real_pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, p: *mut libc::c_void) -> i32 {
    static S: AtomicUsize = AtomicUsize::new(0);
    let f0: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32 =
        std::mem::transmute(next(b"pthread_create\0", &S));
    f0(t, a, f, p)
}
pub unsafe fn real_pthread_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    static S: AtomicUsize = AtomicUsize::new(0);
    let f0: unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32 = std::mem::transmute(next(b"pthread_join\0", &S));
    f0(t, r)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, p: *mut libc::c_void) -> i32 {
    if !active() {
        return real_pthread_create(t, a, f, p);
    }
    if fault_here(fault::SPAWN_FAIL, 1) != 0 {
        return libc::EAGAIN;
    }
    let (task, boot) = create_task_for(f, p);
    let r = real_pthread_create(t, a, trampoline, boot as *mut _);
    if r != 0 {
        drop_failed_task(task);
        return r;
    }
    (*task).pthread = *t as u64;
    sync_point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    if active() {
        if let Some(id) = task_of_pthread(t as u64) {
            join_task(id);
        }
    }
    real_pthread_join(t, r)
}

// ---------------------------------------------------------------- syscalls used by std::sync
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && active() {
        let op = b as i32 & libc::FUTEX_CMD_MASK;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            return ret(sim_futex_wait(a as usize, c as u32, d != 0));
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            return sim_futex_wake(a as usize, c);
        }
    }
    if n == libc::SYS_getrandom {
        return fill(a as *mut u8, b as usize) as i64;
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() {
        yield_now();
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    if active() {
        yield_now();
        return 0;
    }
    ret(raw_syscall(libc::SYS_nanosleep, r as i64, m as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    if active() {
        yield_now();
        return 0;
    }
    -raw_syscall(libc::SYS_clock_nanosleep, c as i64, fl as i64, r as i64, m as i64, 0, 0) as i32
}

// ---------------------------------------------------------------- entropy
unsafe fn fill(buf: *mut u8, len: usize) -> isize {
    let mut i = 0;
    while i < len {
        let x = entropy_u64().to_le_bytes();
        for b in x {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _f: u32) -> isize {
    fill(buf, len)
}

// ---------------------------------------------------------------- files
// The files of a run are real files in a scratch directory (so that asking for their
// attributes works), but opening and reading them is decided here.
struct SimFile {
    path: String,
    data: Vec<u8>,
}
struct OpenFile {
    fd: i32,
    stuck: bool,
    eof_at: usize,
    after_stuck: u64,
    data: Vec<u8>,
    dir: bool,
}
static mut FILES: Vec<SimFile> = Vec::new();
static mut OPEN: Vec<OpenFile> = Vec::new();

/// What the simulated disk did to the reads of the run so far.
#[derive(Clone, Default, Debug)]
pub struct FsLog {
    pub opens: u32,
    pub open_failed: u32,
    pub hard_errors: u32,
    pub early_eof: u32,
    pub last_eof_at: usize,
    pub opened: u32,
    /// bytes delivered before the first hard error
    pub err_at: Option<usize>,
}
static mut LOG: Option<FsLog> = None;

/// The scratch directory, relative to the working directory.
pub fn prefix() -> String {
    format!("simfs-{:010}/", std::process::id())
}
/// Puts a file there. `shown`: the size that its attributes tell (a pipe or a file in /proc says 0).
#[allow(static_mut_refs)]
pub fn put_file(path: &str, data: Vec<u8>, shown: usize) {
    unsafe {
        FILES.retain(|f| f.path != path);
        let _ = std::fs::create_dir_all(prefix());
        let _ = std::fs::write(path, &data[..shown.min(data.len())]);
        FILES.push(SimFile { path: path.to_string(), data });
    }
}
pub fn put_dir(path: &str) {
    let _ = std::fs::create_dir_all(path);
}
#[allow(static_mut_refs)]
pub fn take_log() -> FsLog {
    unsafe { LOG.take().unwrap_or_default() }
}
#[allow(static_mut_refs)]
pub fn reset_fs() {
    unsafe {
        FILES.clear();
        for o in OPEN.drain(..) {
            raw_syscall(libc::SYS_close, o.fd as i64, 0, 0, 0, 0, 0);
        }
        let _ = std::fs::remove_dir_all(prefix());
        LOG = None;
    }
}
#[allow(static_mut_refs)]
unsafe fn log() -> &'static mut FsLog {
    if LOG.is_none() {
        LOG = Some(FsLog::default());
    }
    LOG.as_mut().unwrap()
}

#[allow(static_mut_refs)]
unsafe fn sim_open(path: *const libc::c_char, rel: &str, flags: i32) -> i64 {
    log().opens += 1;
    let data = match FILES.iter().find(|f| f.path == rel) {
        Some(f) => Some(f.data.clone()),
        None => None,
    };
    if data.is_some() {
        match fault_here(fault::OPEN_FAIL, 3) {
            0 => {}
            v => {
                log().open_failed += 1;
                return -([libc::EACCES, libc::EMFILE, libc::EIO][(v as usize - 1) % 3] as i64);
            }
        }
    }
    let fd = raw_syscall(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, 0, 0, 0);
    if fd < 0 {
        return fd;
    }
    log().opened += 1;
    match data {
        Some(data) => OPEN.push(OpenFile { fd: fd as i32, stuck: false, eof_at: data.len(), after_stuck: 0, data, dir: false }),
        None => {
            // opening a directory succeeds; reading from it does not
            OPEN.push(OpenFile { fd: fd as i32, stuck: true, eof_at: 0, after_stuck: 0, data: vec![], dir: true });
            log().hard_errors += 1;
            log().err_at = Some(0);
            note_fault(fault::READ_EIO_STUCK);
        }
    }
    fd
}

unsafe fn open_any(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if active() {
        if let Ok(p) = std::ffi::CStr::from_ptr(path).to_str() {
            if let Some(k) = p.find(&prefix()) {
                sync_point();
                return ret(sim_open(path, &p[k..], flags)) as i32;
            }
        }
    }
    ret(raw_syscall(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open_any(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open_any(path, flags, mode)
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if active() {
        // another thread may open or close files at the synchronisation point
        if OPEN.iter().any(|o| o.fd == fd) {
            sync_point();
        }
        if let Some(o) = OPEN.iter_mut().find(|o| o.fd == fd) {
            // the offset is the descriptor's own, so seeking works
            let pos = raw_syscall(libc::SYS_lseek, fd as i64, 0, libc::SEEK_CUR as i64, 0, 0, 0).max(0);
            let r = sim_read(o, pos as usize, buf, n);
            if r > 0 {
                raw_syscall(libc::SYS_lseek, fd as i64, pos + r, libc::SEEK_SET as i64, 0, 0, 0);
            }
            return ret(r) as isize;
        }
    }
    ret(raw_syscall(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, at: i64) -> isize {
    if active() {
        // another thread may open or close files at the synchronisation point
        if OPEN.iter().any(|o| o.fd == fd) {
            sync_point();
        }
        if let Some(o) = OPEN.iter_mut().find(|o| o.fd == fd) {
            return ret(sim_read(o, at as usize, buf, n)) as isize;
        }
    }
    ret(raw_syscall(libc::SYS_pread64, fd as i64, buf as i64, n as i64, at, 0, 0)) as isize
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if active() {
        OPEN.retain(|o| o.fd != fd);
    }
    ret(raw_syscall(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as i32
}

unsafe fn sim_read(o: &mut OpenFile, pos: usize, buf: *mut u8, n: usize) -> i64 {
    if o.stuck {
        o.after_stuck += 1;
        if o.after_stuck > 100_000 {
            fatal("no-progress", "the load keeps reading from a source that has failed for good (100000 reads)");
        }
        return -(if o.dir { libc::EISDIR } else { libc::EIO } as i64);
    }
    if n > 0 && pos < o.eof_at {
        if fault_here(fault::READ_EIO_STUCK, 1) != 0 {
            o.stuck = true;
            log().hard_errors += 1;
            log().err_at.get_or_insert(pos);
            return -(libc::EIO as i64);
        }
        if fault_here(fault::READ_EIO_ONCE, 1) != 0 {
            log().hard_errors += 1;
            log().err_at.get_or_insert(pos);
            return -(libc::EIO as i64);
        }
        if fault_here(fault::EARLY_EOF, 1) != 0 {
            o.eof_at = pos;
            log().early_eof += 1;
            log().last_eof_at = pos;
            return 0;
        }
        if fault_here(fault::READ_EINTR, 1) != 0 {
            return -(libc::EINTR as i64);
        }
    }
    let avail = o.eof_at - pos.min(o.eof_at);
    let mut k = avail.min(n);
    if k > 1 && fault_here(fault::READ_SHORT, 1) != 0 {
        k = 1 + choose((k - 1).min(64) as u32) as usize;
    }
    if k == 0 {
        return 0;
    }
    std::ptr::copy_nonoverlapping(o.data.as_ptr().add(pos), buf, k);
    k as i64
}
