//! libc entry points through which blocking std primitives would otherwise reach the kernel.
use crate::sched::{active, clock_at_least, clock_pass, clock_read, futex_wait, futex_wake, point, spin_step, tid, Pt};
use std::arch::asm;

pub unsafe fn raw_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == 202 && active() {
        let op = b & 0x7f;
        match op {
            0 | 9 => {
                let v = *(a as *const u32);
                if v != c as u32 {
                    return ret(-11);
                }
                if d != 0 {
                    // a bounded wait is over at once: its time-out has passed
                    let t = ns(d);
                    if op == 9 {
                        clock_at_least(t);
                    } else {
                        clock_pass(t);
                    }
                    spin_step(tid(), 6);
                    point(Pt::Yield);
                    return ret(-110);
                }
                futex_wait(a);
                crate::race::acquire_addr(tid(), a);
                return 0;
            }
            1 | 10 => return futex_wake(a, c) as isize,
            _ => {}
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

unsafe fn ns(ts: usize) -> u64 {
    let p = ts as *const i64;
    if ts == 0 {
        return 0;
    }
    ((*p).max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*p.add(1)).max(0) as u64)
}

/// Simulated threads read the simulated clock.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut i64) -> i32 {
    if active() {
        let t = clock_read(clk == 0);
        *ts = (t / 1_000_000_000) as i64;
        *ts.add(1) = (t % 1_000_000_000) as i64;
        0
    } else {
        ret(raw_syscall(228, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
    }
}

/// No true randomness inside a run.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if active() {
        for i in 0..n {
            *buf.add(i) = (i as u8).wrapping_mul(151).wrapping_add(43);
        }
        n as isize
    } else {
        ret(raw_syscall(318, buf as usize, n, flags as usize, 0, 0, 0))
    }
}

fn yielded() {
    spin_step(tid(), 6);
    point(Pt::Yield);
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() {
        yielded();
        0
    } else {
        ret(raw_syscall(24, 0, 0, 0, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: usize, b: usize) -> i32 {
    if active() {
        clock_pass(ns(a));
        yielded();
        0
    } else {
        ret(raw_syscall(35, a, b, 0, 0, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(a: usize, b: usize, c: usize, d: usize) -> i32 {
    if active() {
        if b & 1 != 0 {
            clock_at_least(ns(c));
        } else {
            clock_pass(ns(c));
        }
        yielded();
        0
    } else {
        -(raw_syscall(230, a, b, c, d, 0, 0) as i32)
    }
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: u32) -> i32 {
    if active() {
        clock_pass(us as u64 * 1000);
        yielded();
        0
    } else {
        let ts = [(us / 1_000_000) as u64, (us % 1_000_000) as u64 * 1000];
        ret(raw_syscall(35, ts.as_ptr() as usize, 0, 0, 0, 0, 0)) as i32
    }
}
