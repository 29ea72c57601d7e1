//! The callbacks ThreadSanitizer instrumentation emits, implemented as scheduling points.
#![allow(clippy::missing_safety_doc)]
use crate::heap::is_freed;
use crate::sched::*;
use std::sync::atomic::*;

#[inline(always)]
fn mem(a: usize, n: usize) {
    let t = cur();
    if t.is_null() {
        return;
    }
    if is_freed(a, n) {
        uaf();
    }
    point(t, 1);
}
#[inline(always)]
fn at(a: usize, n: usize) {
    let t = cur();
    if t.is_null() {
        return;
    }
    sync_point();
    if is_freed(a, n) {
        uaf();
    }
}
#[cold]
#[inline(never)]
fn uaf() -> ! {
    fatal("use-after-free", "memory was accessed after it had been released")
}
#[no_mangle] pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_func_entry(_p: *const u8) {}
#[no_mangle] pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_vptr_update(p: *mut u8, _v: *mut u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_vptr_read(p: *mut u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_range(p: *mut u8, n: usize) { if n > 0 { mem(p as usize, n) } }
#[no_mangle] pub unsafe extern "C" fn __tsan_write_range(p: *mut u8, n: usize) { if n > 0 { mem(p as usize, n) } }
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 { mem(s as usize, n); mem(d as usize, n); }
    std::ptr::copy_nonoverlapping(s, d, n);
    d
}
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 { mem(s as usize, n); mem(d as usize, n); }
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    if n > 0 { mem(d as usize, n); }
    std::ptr::write_bytes(d, v as u8, n);
    d
}
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic_thread_fence(_o: i32) { sync_point(); fence(Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic_signal_fence(_o: i32) { compiler_fence(Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read1(p: *const u8) { mem(p as usize, 1) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write1(p: *const u8) { mem(p as usize, 1) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write1(p: *const u8) { mem(p as usize, 1) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read1(p: *const u8) { mem(p as usize, 1) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write1(p: *const u8) { mem(p as usize, 1) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_write2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read_write2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_read2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_write2(p: *const u8) { mem(p as usize, 2) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_write4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read_write4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_read4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_write4(p: *const u8) { mem(p as usize, 4) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_write8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read_write8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_read8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_write8(p: *const u8) { mem(p as usize, 8) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_write16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read_write16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_read16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_write16(p: *const u8) { mem(p as usize, 16) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_load(p: *const u8, _o: i32) -> u8 { at(p as usize, 1); (*(p as *const AtomicU8)).load(Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_store(p: *mut u8, v: u8, _o: i32) { at(p as usize, 1); (*(p as *const AtomicU8)).store(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_exchange(p: *mut u8, v: u8, _o: i32) -> u8 { at(p as usize, 1); (*(p as *const AtomicU8)).swap(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_add(p: *mut u8, v: u8, _o: i32) -> u8 { at(p as usize, 1); (*(p as *const AtomicU8)).fetch_add(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_sub(p: *mut u8, v: u8, _o: i32) -> u8 { at(p as usize, 1); (*(p as *const AtomicU8)).fetch_sub(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_and(p: *mut u8, v: u8, _o: i32) -> u8 { at(p as usize, 1); (*(p as *const AtomicU8)).fetch_and(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_or(p: *mut u8, v: u8, _o: i32) -> u8 { at(p as usize, 1); (*(p as *const AtomicU8)).fetch_or(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_xor(p: *mut u8, v: u8, _o: i32) -> u8 { at(p as usize, 1); (*(p as *const AtomicU8)).fetch_xor(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_nand(p: *mut u8, v: u8, _o: i32) -> u8 { at(p as usize, 1); (*(p as *const AtomicU8)).fetch_nand(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_val(p: *mut u8, e: u8, v: u8, _o: i32, _f: i32) -> u8 { at(p as usize, 1); match (*(p as *const AtomicU8)).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) => x, Err(x) => x } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_strong(p: *mut u8, e: *mut u8, v: u8, _o: i32, _f: i32) -> i32 { at(p as usize, 1); match (*(p as *const AtomicU8)).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_weak(p: *mut u8, e: *mut u8, v: u8, _o: i32, _f: i32) -> i32 { at(p as usize, 1); match (*(p as *const AtomicU8)).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_load(p: *const u16, _o: i32) -> u16 { at(p as usize, 2); (*(p as *const AtomicU16)).load(Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_store(p: *mut u16, v: u16, _o: i32) { at(p as usize, 2); (*(p as *const AtomicU16)).store(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_exchange(p: *mut u16, v: u16, _o: i32) -> u16 { at(p as usize, 2); (*(p as *const AtomicU16)).swap(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_add(p: *mut u16, v: u16, _o: i32) -> u16 { at(p as usize, 2); (*(p as *const AtomicU16)).fetch_add(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_sub(p: *mut u16, v: u16, _o: i32) -> u16 { at(p as usize, 2); (*(p as *const AtomicU16)).fetch_sub(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_and(p: *mut u16, v: u16, _o: i32) -> u16 { at(p as usize, 2); (*(p as *const AtomicU16)).fetch_and(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_or(p: *mut u16, v: u16, _o: i32) -> u16 { at(p as usize, 2); (*(p as *const AtomicU16)).fetch_or(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_xor(p: *mut u16, v: u16, _o: i32) -> u16 { at(p as usize, 2); (*(p as *const AtomicU16)).fetch_xor(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_nand(p: *mut u16, v: u16, _o: i32) -> u16 { at(p as usize, 2); (*(p as *const AtomicU16)).fetch_nand(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_val(p: *mut u16, e: u16, v: u16, _o: i32, _f: i32) -> u16 { at(p as usize, 2); match (*(p as *const AtomicU16)).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) => x, Err(x) => x } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_strong(p: *mut u16, e: *mut u16, v: u16, _o: i32, _f: i32) -> i32 { at(p as usize, 2); match (*(p as *const AtomicU16)).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_weak(p: *mut u16, e: *mut u16, v: u16, _o: i32, _f: i32) -> i32 { at(p as usize, 2); match (*(p as *const AtomicU16)).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_load(p: *const u32, _o: i32) -> u32 { at(p as usize, 4); (*(p as *const AtomicU32)).load(Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_store(p: *mut u32, v: u32, _o: i32) { at(p as usize, 4); (*(p as *const AtomicU32)).store(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_exchange(p: *mut u32, v: u32, _o: i32) -> u32 { at(p as usize, 4); (*(p as *const AtomicU32)).swap(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_add(p: *mut u32, v: u32, _o: i32) -> u32 { at(p as usize, 4); (*(p as *const AtomicU32)).fetch_add(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_sub(p: *mut u32, v: u32, _o: i32) -> u32 { at(p as usize, 4); (*(p as *const AtomicU32)).fetch_sub(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_and(p: *mut u32, v: u32, _o: i32) -> u32 { at(p as usize, 4); (*(p as *const AtomicU32)).fetch_and(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_or(p: *mut u32, v: u32, _o: i32) -> u32 { at(p as usize, 4); (*(p as *const AtomicU32)).fetch_or(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_xor(p: *mut u32, v: u32, _o: i32) -> u32 { at(p as usize, 4); (*(p as *const AtomicU32)).fetch_xor(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_nand(p: *mut u32, v: u32, _o: i32) -> u32 { at(p as usize, 4); (*(p as *const AtomicU32)).fetch_nand(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_val(p: *mut u32, e: u32, v: u32, _o: i32, _f: i32) -> u32 { at(p as usize, 4); match (*(p as *const AtomicU32)).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) => x, Err(x) => x } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_strong(p: *mut u32, e: *mut u32, v: u32, _o: i32, _f: i32) -> i32 { at(p as usize, 4); match (*(p as *const AtomicU32)).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_weak(p: *mut u32, e: *mut u32, v: u32, _o: i32, _f: i32) -> i32 { at(p as usize, 4); match (*(p as *const AtomicU32)).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_load(p: *const u64, _o: i32) -> u64 { at(p as usize, 8); (*(p as *const AtomicU64)).load(Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_store(p: *mut u64, v: u64, _o: i32) { at(p as usize, 8); (*(p as *const AtomicU64)).store(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_exchange(p: *mut u64, v: u64, _o: i32) -> u64 { at(p as usize, 8); (*(p as *const AtomicU64)).swap(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_add(p: *mut u64, v: u64, _o: i32) -> u64 { at(p as usize, 8); (*(p as *const AtomicU64)).fetch_add(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_sub(p: *mut u64, v: u64, _o: i32) -> u64 { at(p as usize, 8); (*(p as *const AtomicU64)).fetch_sub(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_and(p: *mut u64, v: u64, _o: i32) -> u64 { at(p as usize, 8); (*(p as *const AtomicU64)).fetch_and(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_or(p: *mut u64, v: u64, _o: i32) -> u64 { at(p as usize, 8); (*(p as *const AtomicU64)).fetch_or(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_xor(p: *mut u64, v: u64, _o: i32) -> u64 { at(p as usize, 8); (*(p as *const AtomicU64)).fetch_xor(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_nand(p: *mut u64, v: u64, _o: i32) -> u64 { at(p as usize, 8); (*(p as *const AtomicU64)).fetch_nand(v, Ordering::SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_val(p: *mut u64, e: u64, v: u64, _o: i32, _f: i32) -> u64 { at(p as usize, 8); match (*(p as *const AtomicU64)).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) => x, Err(x) => x } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_strong(p: *mut u64, e: *mut u64, v: u64, _o: i32, _f: i32) -> i32 { at(p as usize, 8); match (*(p as *const AtomicU64)).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_weak(p: *mut u64, e: *mut u64, v: u64, _o: i32, _f: i32) -> i32 { at(p as usize, 8); match (*(p as *const AtomicU64)).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
