//! The symbols the ThreadSanitizer instrumentation pass calls.
#![allow(non_snake_case)]
use crate::race;
use crate::sched::{active, after_atomic, g, point, set_act, tid, Pt};
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}

#[inline(always)]
fn plain(addr: usize, size: usize, write: bool) {
    if active() {
        plain_slow(addr, size, write)
    }
}
#[inline(never)]
fn plain_slow(addr: usize, size: usize, write: bool) {
    let t = tid();
    let s = g();
    let (lo, hi) = s.th[t].stack;
    if addr >= lo && addr < hi {
        return;
    }
    s.stats.plain += 1;
    if write {
        // memory changes: this is no empty spin iteration
        s.idle = 0;
        s.th[t].spin = 0;
        s.th[t].spinning = false;
    }
    if s.plain_points && addr >= s.region.0 && addr < s.region.1 && s.n > 0 {
        point(Pt::Plain);
    }
    let was = set_act(false);
    race::plain(t, addr, size, write);
    set_act(was);
}

macro_rules! rw {
    ($($r:ident $w:ident $ur:ident $uw:ident $n:expr;)*) => {$(
        #[no_mangle] pub extern "C" fn $r(a: usize) { plain(a, $n, false) }
        #[no_mangle] pub extern "C" fn $w(a: usize) { plain(a, $n, true) }
        #[no_mangle] pub extern "C" fn $ur(a: usize) { plain(a, $n, false) }
        #[no_mangle] pub extern "C" fn $uw(a: usize) { plain(a, $n, true) }
    )*}
}
rw! {
    __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 1;
    __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 2;
    __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 4;
    __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 8;
    __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 16;
}
macro_rules! rw2 {
    ($($r:ident $n:expr;)*) => {$(
        #[no_mangle] pub extern "C" fn $r(a: usize) { plain(a, $n, false); plain(a, $n, true) }
    )*}
}
rw2! {
    __tsan_read_write1 1; __tsan_read_write2 2; __tsan_read_write4 4; __tsan_read_write8 8; __tsan_read_write16 16;
    __tsan_unaligned_read_write1 1; __tsan_unaligned_read_write2 2; __tsan_unaligned_read_write4 4;
    __tsan_unaligned_read_write8 8; __tsan_unaligned_read_write16 16;
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: usize, n: usize) {
    plain(a, n, false)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: usize, n: usize) {
    plain(a, n, true)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(a: usize, _: usize) {
    plain(a, 8, true)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(a: usize) {
    plain(a, 8, false)
}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}

const BIG: usize = 1 << 14;
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if active() && n > 0 {
        plain_slow(s as usize, n.min(BIG), false);
        plain_slow(d as usize, n.min(BIG), true);
    }
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    __tsan_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    if active() && n > 0 {
        plain_slow(d as usize, n.min(BIG), true);
    }
    std::ptr::write_bytes(d, v as u8, n);
    d
}

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    if active() {
        point(Pt::Fence);
        race::fence(tid(), mo);
    }
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

/// with accounting paused
#[inline(always)]
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let was = set_act(false);
    let r = f();
    set_act(was);
    r
}

#[inline(always)]
fn do_rmw(p: usize, size: usize, mo: i32, op: impl FnOnce() -> (u64, u64)) -> u64 {
    if active() {
        point(Pt::Rmw);
        let (old, new) = op();
        let t = tid();
        quiet(|| {
            race::rmw(t, p, size, mo, old, new);
            after_atomic(t, old != new, true);
        });
        old
    } else {
        op().0
    }
}

macro_rules! atomics {
    ($t:ty, $at:ty, $size:expr, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $casw:ident $casv:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, mo: i32) -> $t {
            let a = &*(p as *const $at);
            if active() {
                point(Pt::Load);
                let v = a.load(SeqCst);
                let t = tid();
                quiet(|| {
                    let r = race::load(t, p as usize, $size, mo, v as u64) as $t;
                    after_atomic(t, false, false);
                    r
                })
            } else {
                a.load(SeqCst)
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, mo: i32) {
            let a = &*(p as *const $at);
            if active() {
                point(Pt::Store);
                let old = a.swap(v, SeqCst);
                let t = tid();
                quiet(|| {
                    race::store(t, p as usize, $size, mo, old as u64, v as u64);
                    after_atomic(t, old != v, false);
                });
            } else {
                a.store(v, SeqCst)
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, mo: i32) -> $t {
            let a = &*(p as *const $at);
            do_rmw(p as usize, $size, mo, || (a.swap(v, SeqCst) as u64, v as u64)) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, mo: i32) -> $t {
            let a = &*(p as *const $at);
            do_rmw(p as usize, $size, mo, || {
                let o = a.fetch_add(v, SeqCst);
                (o as u64, o.wrapping_add(v) as u64)
            }) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, mo: i32) -> $t {
            let a = &*(p as *const $at);
            do_rmw(p as usize, $size, mo, || {
                let o = a.fetch_sub(v, SeqCst);
                (o as u64, o.wrapping_sub(v) as u64)
            }) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, mo: i32) -> $t {
            let a = &*(p as *const $at);
            do_rmw(p as usize, $size, mo, || {
                let o = a.fetch_and(v, SeqCst);
                (o as u64, (o & v) as u64)
            }) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, mo: i32) -> $t {
            let a = &*(p as *const $at);
            do_rmw(p as usize, $size, mo, || {
                let o = a.fetch_or(v, SeqCst);
                (o as u64, (o | v) as u64)
            }) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, mo: i32) -> $t {
            let a = &*(p as *const $at);
            do_rmw(p as usize, $size, mo, || {
                let o = a.fetch_xor(v, SeqCst);
                (o as u64, (o ^ v) as u64)
            }) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, mo: i32) -> $t {
            let a = &*(p as *const $at);
            do_rmw(p as usize, $size, mo, || {
                let o = a.fetch_nand(v, SeqCst);
                (o as u64, (!(o & v)) as u64)
            }) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casv(p: *mut $t, exp: $t, new: $t, mo: i32, fmo: i32) -> $t {
            let a = &*(p as *const $at);
            if active() {
                point(Pt::Cas);
                let t = tid();
                match a.compare_exchange(exp, new, SeqCst, SeqCst) {
                    Ok(old) => {
                        quiet(|| {
                            race::rmw(t, p as usize, $size, mo, old as u64, new as u64);
                            after_atomic(t, old != new, true);
                        });
                        old
                    }
                    Err(v) => {
                        quiet(|| {
                            // a failed compare-exchange is a load of the newest value
                            let keep = g().faults.stale_den;
                            g().faults.stale_den = 0;
                            race::load(t, p as usize, $size, fmo, v as u64);
                            g().faults.stale_den = keep;
                            after_atomic(t, false, false);
                        });
                        v
                    }
                }
            } else {
                match a.compare_exchange(exp, new, SeqCst, SeqCst) {
                    Ok(v) | Err(v) => v,
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, exp: *mut $t, new: $t, mo: i32, fmo: i32) -> i32 {
            let e = *exp;
            let v = $casv(p, e, new, mo, fmo);
            if v == e {
                1
            } else {
                *exp = v;
                0
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *mut $t, exp: *mut $t, new: $t, mo: i32, fmo: i32) -> i32 {
            $cas(p, exp, new, mo, fmo)
        }
    };
}
atomics!(u8, AtomicU8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val);
