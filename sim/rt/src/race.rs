//! Happens-before race detector driven by the memory orderings the code passes (C11 rules, vector clocks).
use crate::sched::{g, violation, MAXT};

pub type Vc = [u32; MAXT];
pub fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

#[derive(Clone, Copy)]
struct Cell {
    key: usize,
    gen: u32,
    w_clk: u32,
    w_tid: u8,
    w_mask: u8,
    r_mask: [u8; MAXT],
    aw_mask: [u8; MAXT],
    ar_mask: [u8; MAXT],
    r: Vc,
    aw: Vc,
    ar: Vc,
}
const EMPTY: Cell = Cell {
    key: 0,
    gen: 0,
    w_clk: 0,
    w_tid: 0,
    w_mask: 0,
    r_mask: [0; MAXT],
    aw_mask: [0; MAXT],
    ar_mask: [0; MAXT],
    r: [0; MAXT],
    aw: [0; MAXT],
    ar: [0; MAXT],
};

/// One store in the modification order of a location (for stale reads and release/acquire).
#[derive(Clone)]
pub struct Store {
    pub val: u64,
    pub tid: u8,
    pub clk: u32,
    /// synchronises-with clock a reader acquires
    pub sync: Vc,
    pub seqcst: bool,
}
pub struct Loc {
    addr: usize,
    gen: u32,
    pub hist: Vec<Store>,
    /// index into the (virtual) modification order of hist[0]
    pub base: u32,
    /// per thread: newest modification-order index this thread is known to have observed
    pub seen: Vc,
    /// newest index written when each thread's clock had a given value is approximated by store clocks
    _p: (),
}

const CAP: usize = 1 << 13;
const LCAP: usize = 1 << 9;
pub struct Race {
    gen: u32,
    cells: Vec<Cell>,
    used: usize,
    locs: Vec<Loc>,
    lused: usize,
    pub reported: u32,
}

impl Race {
    pub fn new() -> Self {
        Race {
            gen: 1,
            cells: vec![EMPTY; CAP],
            used: 0,
            locs: (0..LCAP)
                .map(|_| Loc { addr: 0, gen: 0, hist: Vec::new(), base: 0, seen: [0; MAXT], _p: () })
                .collect(),
            lused: 0,
            reported: 0,
        }
    }
    pub fn clear(&mut self) {
        self.gen += 1;
        self.used = 0;
        self.lused = 0;
        self.reported = 0;
    }
    fn cell(&mut self, key: usize) -> Option<&mut Cell> {
        let mut h = (key.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) & (CAP - 1);
        loop {
            if self.cells[h].gen != self.gen {
                if self.used > CAP * 3 / 4 {
                    return None;
                }
                self.used += 1;
                self.cells[h] = EMPTY;
                self.cells[h].gen = self.gen;
                self.cells[h].key = key;
                return Some(&mut self.cells[h]);
            }
            if self.cells[h].key == key {
                return Some(&mut self.cells[h]);
            }
            h = (h + 1) & (CAP - 1);
        }
    }
    pub fn loc(&mut self, addr: usize) -> &mut Loc {
        let mut h = (addr.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) & (LCAP - 1);
        loop {
            if self.locs[h].gen != self.gen {
                assert!(self.lused < LCAP * 3 / 4, "too many atomic locations in one run");
                self.lused += 1;
                let l = &mut self.locs[h];
                l.gen = self.gen;
                l.addr = addr;
                l.hist.clear();
                l.base = 0;
                l.seen = [0; MAXT];
                return l;
            }
            if self.locs[h].addr == addr {
                return &mut self.locs[h];
            }
            h = (h + 1) & (LCAP - 1);
        }
    }
    /// forget everything about a range (fresh allocation)
    pub fn forget(&mut self, _a: usize, _n: usize) {}
}

fn where_is(addr: usize) -> String {
    let s = g();
    if addr >= s.region.0 && addr < s.region.1 {
        format!("the iterator object +{}", addr - s.region.0)
    } else {
        "memory outside the iterator object".to_string()
    }
}

#[cold]
fn report(t: usize, u: usize, what: &str, addr: usize) {
    let s = g();
    s.stats.races += 1;
    s.race.reported += 1;
    if s.race.reported > 3 {
        return;
    }
    let d = |t: usize| {
        let o = s.th[t].op;
        if o >= 0 {
            format!("t{t} in {}", s.hist.describe_op(o as usize))
        } else {
            format!("t{t}")
        }
    };
    let m = format!(
        "data race: {what} by {} is unordered with an access of t{u} to {}",
        d(t),
        where_is(addr)
    );
    violation("race", m);
}

fn each(addr: usize, size: usize, mut f: impl FnMut(usize, u8, usize)) {
    let mut a = addr;
    let end = addr + size;
    while a < end {
        let key = a >> 3;
        let lo = a & 7;
        let hi = ((key + 1) << 3).min(end) - (key << 3);
        let mask = (((1u16 << hi) - 1) & !((1u16 << lo) - 1)) as u8;
        f(key, mask, a);
        a = (key + 1) << 3;
    }
}

pub fn plain(t: usize, addr: usize, size: usize, write: bool) {
    let s = g();
    let vc = s.th[t].vc;
    each(addr, size, |key, mask, a| {
        let s = g();
        let mut bad: Option<(usize, &str)> = None;
        if let Some(c) = s.race.cell(key) {
            let wt = c.w_tid as usize;
            if c.w_mask & mask != 0 && wt != t && c.w_clk > vc[wt] {
                bad = Some((wt, if write { "a write" } else { "a read" }));
            }
            for u in 0..MAXT {
                if u == t {
                    continue;
                }
                if c.aw_mask[u] & mask != 0 && c.aw[u] > vc[u] {
                    bad = Some((u, "a non-atomic access"));
                }
                if write {
                    if c.r_mask[u] & mask != 0 && c.r[u] > vc[u] {
                        bad = Some((u, "a write"));
                    }
                    if c.ar_mask[u] & mask != 0 && c.ar[u] > vc[u] {
                        bad = Some((u, "a non-atomic write"));
                    }
                }
            }
            if write {
                c.w_tid = t as u8;
                c.w_clk = vc[t];
                c.w_mask |= mask;
            } else {
                c.r[t] = vc[t];
                c.r_mask[t] |= mask;
            }
        }
        if let Some((u, w)) = bad {
            report(t, u, w, a);
        }
    });
}

fn atomic_shadow(t: usize, addr: usize, size: usize, write: bool) {
    let s = g();
    let vc = s.th[t].vc;
    each(addr, size, |key, mask, a| {
        let s = g();
        let mut bad = None;
        if let Some(c) = s.race.cell(key) {
            let wt = c.w_tid as usize;
            if c.w_mask & mask != 0 && wt != t && c.w_clk > vc[wt] {
                bad = Some((wt, "an atomic access"));
            }
            if write {
                for u in 0..MAXT {
                    if u != t && c.r_mask[u] & mask != 0 && c.r[u] > vc[u] {
                        bad = Some((u, "an atomic write"));
                    }
                }
                c.aw[t] = vc[t];
                c.aw_mask[t] |= mask;
            } else {
                c.ar[t] = vc[t];
                c.ar_mask[t] |= mask;
            }
        }
        if let Some((u, w)) = bad {
            report(t, u, w, a);
        }
    });
}

pub const RELAXED: i32 = 0;
pub const CONSUME: i32 = 1;
pub const ACQUIRE: i32 = 2;
pub const RELEASE: i32 = 3;
pub const ACQ_REL: i32 = 4;
pub const SEQ_CST: i32 = 5;
fn is_acq(mo: i32) -> bool {
    matches!(mo, CONSUME | ACQUIRE | ACQ_REL | SEQ_CST)
}
fn is_rel(mo: i32) -> bool {
    matches!(mo, RELEASE | ACQ_REL | SEQ_CST)
}

/// Keep at most this many stores of the modification order per location.
const KEEP: usize = 8;

fn push_store(l: &mut Loc, st: Store) {
    if l.hist.len() == KEEP {
        l.hist.remove(0);
        l.base += 1;
    }
    l.hist.push(st);
}

/// Atomic load. `real` is the newest value. Returns the value the simulated load observes.
pub fn load(t: usize, addr: usize, size: usize, mo: i32, real: u64) -> u64 {
    let s = g();
    atomic_shadow(t, addr, size, false);
    let stale = s.faults.stale_den;
    let vc = s.th[t].vc;
    let l = s.race.loc(addr);
    if l.hist.is_empty() {
        // initial value: written before the threads were started
        l.hist.push(Store { val: real, tid: 0, clk: 0, sync: [0; MAXT], seqcst: false });
    }
    let last = l.hist.len() - 1;
    if l.hist[last].val != real {
        // written by code the simulator did not see (uninstrumented std): treat as a fresh relaxed store
        push_store(l, Store { val: real, tid: t as u8, clk: vc[t], sync: [0; MAXT], seqcst: false });
    }
    let last = l.hist.len() - 1;
    let mut pick = last;
    if stale > 0 && mo != SEQ_CST && last > 0 {
        // oldest admissible: not older than anything this thread has observed, nor than any store that
        // happens-before this load
        let mut lo = (l.seen[t].saturating_sub(l.base)) as usize;
        for (i, st) in l.hist.iter().enumerate() {
            if i > lo && (st.tid as usize == t || st.clk <= vc[st.tid as usize]) {
                lo = i;
            }
        }
        if lo < last && s.srng.chance(1, stale as usize) {
            pick = lo + s.srng.below(last - lo);
            if l.hist[pick].val != real {
                s.stats.stale_reads += 1;
            }
        }
    }
    let l = s.race.loc(addr);
    let idx = l.base + pick as u32;
    if l.seen[t] < idx {
        l.seen[t] = idx;
    }
    let st = l.hist[pick].clone();
    if is_acq(mo) {
        join(&mut s.th[t].vc, &st.sync);
    } else {
        join(&mut s.th[t].acq_pend, &st.sync);
    }
    st.val
}

fn release_clock(t: usize, mo: i32) -> Vc {
    let s = g();
    if is_rel(mo) {
        s.th[t].vc
    } else if let Some(f) = s.th[t].rel_fence {
        f
    } else {
        [0; MAXT]
    }
}

pub fn store(t: usize, addr: usize, size: usize, mo: i32, old: u64, new: u64) {
    atomic_shadow(t, addr, size, true);
    let sync = release_clock(t, mo);
    let s = g();
    let clk = s.th[t].vc[t];
    let l = s.race.loc(addr);
    if l.hist.is_empty() {
        l.hist.push(Store { val: old, tid: 0, clk: 0, sync: [0; MAXT], seqcst: false });
    }
    push_store(l, Store { val: new, tid: t as u8, clk, sync, seqcst: mo == SEQ_CST });
    let idx = l.base + l.hist.len() as u32 - 1;
    l.seen[t] = idx;
    s.th[t].vc[t] += 1;
}

/// Successful read-modify-write (continues release sequences).
pub fn rmw(t: usize, addr: usize, size: usize, mo: i32, old: u64, new: u64) {
    atomic_shadow(t, addr, size, true);
    let s = g();
    let prev = {
        let l = s.race.loc(addr);
        match l.hist.last() {
            Some(st) if st.val == old => st.sync,
            _ => [0; MAXT],
        }
    };
    if is_acq(mo) {
        join(&mut s.th[t].vc, &prev);
    } else {
        join(&mut s.th[t].acq_pend, &prev);
    }
    let mut sync = release_clock(t, mo);
    join(&mut sync, &prev);
    let clk = s.th[t].vc[t];
    let l = s.race.loc(addr);
    if l.hist.is_empty() {
        l.hist.push(Store { val: old, tid: 0, clk: 0, sync: [0; MAXT], seqcst: false });
    }
    push_store(l, Store { val: new, tid: t as u8, clk, sync, seqcst: mo == SEQ_CST });
    let idx = l.base + l.hist.len() as u32 - 1;
    l.seen[t] = idx;
    s.th[t].vc[t] += 1;
}

pub fn fence(t: usize, mo: i32) {
    let s = g();
    if is_acq(mo) {
        let p = s.th[t].acq_pend;
        join(&mut s.th[t].vc, &p);
    }
    if is_rel(mo) {
        s.th[t].rel_fence = Some(s.th[t].vc);
        s.th[t].vc[t] += 1;
    }
}

/// Explicit happens-before edges for blocking primitives implemented by uninstrumented std code.
pub fn acquire_addr(t: usize, addr: usize) {
    let s = g();
    let sync = match s.race.loc(addr).hist.last() {
        Some(x) => x.sync,
        None => [0; MAXT],
    };
    join(&mut s.th[t].vc, &sync);
}
