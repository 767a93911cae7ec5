//! Allocation ledger: every block has a header; blocks allocated while the system under test runs are counted,
//! and nothing allocated during a run is reused before the run ends (so a stale pointer cannot alias new memory).
use crate::sched::{active, tid, violation, IN_RUN};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering::Relaxed;

const LIVE: u64 = 0xA11C_A11C_0BAD_F00D;
const DEAD: u64 = 0xDEAD_DEAD_0BAD_F00D;
const HDR: usize = 64;
/// behind the block: an overrun is noticed when the block is freed
const TAIL: [u8; 16] = *b"\xA5\x5AorxsimTAIL\x5A\xA5\x5A\xA5";

const _: () = assert!(std::mem::size_of::<Hdr>() <= HDR);

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    base: *mut u8,
    total: usize,
    align: usize,
    /// as requested
    want: usize,
    run: u32,
    tracked: u32,
    next: *mut Hdr,
}

pub struct Sim;
#[global_allocator]
static A: Sim = Sim;

static mut RUN: u32 = 0;
static mut QUAR: *mut Hdr = std::ptr::null_mut();
static mut LIVE_BYTES: isize = 0;
static mut LIVE_BLOCKS: isize = 0;
static mut TOTAL_BLOCKS: u64 = 0;
static mut PEAK: isize = 0;

pub fn begin_run(id: u32) {
    unsafe {
        RUN = id;
        LIVE_BYTES = 0;
        LIVE_BLOCKS = 0;
        TOTAL_BLOCKS = 0;
        PEAK = 0;
    }
}
pub fn end_run() {
    unsafe {
        let mut p = QUAR;
        QUAR = std::ptr::null_mut();
        while !p.is_null() {
            let n = (*p).next;
            System.dealloc((*p).base, Layout::from_size_align_unchecked((*p).total, (*p).align));
            p = n;
        }
    }
}
/// (live bytes, live blocks, blocks ever) allocated by the system under test in this run
pub fn live() -> (isize, isize, u64) {
    unsafe { (LIVE_BYTES, LIVE_BLOCKS, TOTAL_BLOCKS) }
}

unsafe impl GlobalAlloc for Sim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let align = l.align().max(64);
        let off = HDR.next_multiple_of(align);
        let total = match off.checked_add(l.size()).and_then(|t| t.checked_add(TAIL.len())) {
            Some(t) if t < isize::MAX as usize => t,
            _ => return std::ptr::null_mut(),
        };
        let base = System.alloc(Layout::from_size_align_unchecked(total, align));
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let h = p.sub(HDR) as *mut Hdr;
        let in_run = IN_RUN.load(Relaxed) && tid() != usize::MAX;
        let tr = in_run && active();
        h.write(Hdr {
            magic: LIVE,
            size: l.size(),
            base,
            total,
            align,
            want: l.align(),
            run: if in_run { RUN } else { 0 },
            tracked: tr as u32,
            next: std::ptr::null_mut(),
        });
        std::ptr::copy_nonoverlapping(TAIL.as_ptr(), p.add(l.size()), TAIL.len());
        if tr {
            LIVE_BYTES += l.size() as isize;
            LIVE_BLOCKS += 1;
            TOTAL_BLOCKS += 1;
            PEAK = PEAK.max(LIVE_BYTES);
            std::ptr::write_bytes(p, 0xCD, l.size().min(1 << 14));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HDR) as *mut Hdr;
        if (*h).magic != LIVE {
            let what = if (*h).magic == DEAD { "double free of" } else { "free of a pointer that is not" };
            if IN_RUN.load(Relaxed) {
                violation("alloc", format!("{what} a heap block (size {})", l.size()));
            }
            return;
        }
        if (*h).size != l.size() && IN_RUN.load(Relaxed) {
            violation("alloc", format!("block of {} bytes freed as {} bytes", (*h).size, l.size()));
        }
        if (*h).want != l.align() && IN_RUN.load(Relaxed) {
            violation("alloc", format!("block of alignment {} freed with alignment {}", (*h).want, l.align()));
        }
        let mut tail = [0u8; 16];
        std::ptr::copy_nonoverlapping(p.add((*h).size), tail.as_mut_ptr(), TAIL.len());
        if tail != TAIL && IN_RUN.load(Relaxed) {
            violation("alloc", format!("memory behind a heap block of {} bytes was overwritten", (*h).size));
        }
        if (*h).run != 0 && IN_RUN.load(Relaxed) && (*h).run == RUN {
            if (*h).tracked != 0 {
                LIVE_BYTES -= (*h).size as isize;
                LIVE_BLOCKS -= 1;
                std::ptr::write_bytes(p, 0xDD, (*h).size.min(1 << 14));
            }
            (*h).magic = DEAD;
            (*h).next = QUAR;
            QUAR = h;
        } else {
            (*h).magic = DEAD;
            System.dealloc((*h).base, Layout::from_size_align_unchecked((*h).total, (*h).align));
        }
    }
}
