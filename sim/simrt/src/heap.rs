//! Process-wide allocator with a shadow map. Blocks released by a simulated task are poisoned
//! and quarantined until the run ends, so that any instrumented access to released memory is
//! seen (and reported) instead of silently hitting a recycled block.
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct SimHeap;
#[global_allocator]
static HEAP: SimHeap = SimHeap;

const REGION: usize = 4 << 30; // bounds a worker's memory
const QUAR_MAX: usize = 1 << 30;
const SHIFT: usize = 4; // 16-byte granules
static BASE: AtomicUsize = AtomicUsize::new(0);
static SHADOW: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static mut FREE: [usize; 48] = [0; 48];
static mut QUAR: [usize; 48] = [0; 48]; // per-class intrusive lists of quarantined blocks
pub static mut QUAR_BYTES: usize = 0;

#[inline]
fn lock() {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
#[inline]
fn unlock() {
    LOCK.store(false, Ordering::Release);
}

unsafe fn map(len: usize) -> usize {
    let p = libc::mmap(
        std::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        let m = b"simrt: cannot reserve heap\n";
        libc::write(2, m.as_ptr() as *const _, m.len());
        libc::_exit(3);
    }
    p as usize
}

unsafe fn init() {
    // caller holds the lock
    let b = map(REGION);
    let s = map(REGION >> SHIFT);
    SHADOW.store(s, Ordering::SeqCst);
    NEXT.store(b, Ordering::SeqCst);
    BASE.store(b, Ordering::SeqCst);
}

#[inline]
fn class(size: usize, align: usize) -> usize {
    let n = size.max(align).max(32).next_power_of_two();
    n.trailing_zeros() as usize
}

unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = class(l.size(), l.align());
        lock();
        if BASE.load(Ordering::Relaxed) == 0 {
            init();
        }
        let head = FREE[c];
        let p = if head != 0 {
            FREE[c] = *(head as *const usize);
            head
        } else {
            let sz = 1usize << c;
            let al = sz.min(4096);
            let p = (NEXT.load(Ordering::Relaxed) + al - 1) & !(al - 1);
            if p + sz > BASE.load(Ordering::Relaxed) + REGION {
                unlock();
                return std::ptr::null_mut();
            }
            NEXT.store(p + sz, Ordering::Relaxed);
            p
        };
        unlock();
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = class(l.size(), l.align());
        let a = p as usize;
        if crate::sched::quarantine_on() && QUAR_BYTES < QUAR_MAX {
            let sh = (SHADOW.load(Ordering::Relaxed) + ((a - BASE.load(Ordering::Relaxed)) >> SHIFT)) as *mut u8;
            if *sh == 1 {
                crate::sched::fatal("double-free", "a block was released twice");
            }
            let n = l.size().max(1);
            std::ptr::write_bytes(p, 0xD5, n);
            std::ptr::write_bytes(sh, 1, (n + 15) >> SHIFT);
            lock();
            // link through the *end* of the class block is not possible (size may equal class);
            // use the first word and keep the rest poisoned.
            *(a as *mut usize) = QUAR[c];
            QUAR[c] = a;
            QUAR_BYTES += 1 << c;
            unlock();
            return;
        }
        lock();
        *(a as *mut usize) = FREE[c];
        FREE[c] = a;
        unlock();
    }
    // the default implementations would be compiled into an instrumented crate
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let n = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(n);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// Gives every quarantined block back (called between runs, no simulated task alive).
pub unsafe fn release_quarantine() {
    lock();
    let base = BASE.load(Ordering::Relaxed);
    let shadow = SHADOW.load(Ordering::Relaxed);
    for c in 0..48 {
        let mut a = QUAR[c];
        if a == 0 {
            continue;
        }
        QUAR[c] = 0;
        while a != 0 {
            let next = *(a as *const usize);
            let n = 1usize << c;
            std::ptr::write_bytes((shadow + ((a - base) >> SHIFT)) as *mut u8, 0, n >> SHIFT);
            if c >= 20 {
                libc::madvise(((a + 4095) & !4095) as *mut _, n & !4095, libc::MADV_DONTNEED);
            }
            *(a as *mut usize) = FREE[c];
            FREE[c] = a;
            a = next;
        }
    }
    QUAR_BYTES = 0;
    unlock();
}

/// True if `[addr, addr+len)` touches a block released during this run.
#[inline(always)]
pub fn is_freed(addr: usize, len: usize) -> bool {
    let b = BASE.load(Ordering::Relaxed);
    let off = addr.wrapping_sub(b);
    if b == 0 || off >= REGION {
        return false;
    }
    let sh = SHADOW.load(Ordering::Relaxed);
    unsafe {
        *((sh + (off >> SHIFT)) as *const u8) != 0
            || (len > 1 && *((sh + ((off + len - 1) >> SHIFT)) as *const u8) != 0)
    }
}
