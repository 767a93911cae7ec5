//! Recorded history of operations.
use crate::sched::{g, point, tid, Pause, Pt};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Single,
    /// several elements from a for-loop adaptor by one call, of which at most one is seen
    Pick,
    Chunk,
    BufChunk,
    ForEach,
    EnumForEach,
    Fold,
    Skip,
    Len,
    HasMore,
    Clone,
    IntoSeq,
    NewBuf,
    DropIter,
}
impl K {
    pub fn pull(self) -> bool {
        matches!(self, K::Single | K::Pick | K::Chunk | K::BufChunk)
    }
    pub fn looped(self) -> bool {
        matches!(self, K::ForEach | K::EnumForEach | K::Fold)
    }
}

/// one delivered element
#[derive(Clone, Debug)]
pub struct Dl {
    pub op: u32,
    pub seq: u64,
    /// value identity; u64::MAX for zero-sized elements
    pub val: u64,
    /// reported index, -1 if the method reports none
    pub idx: i128,
    /// offset in the chunk, -1 if not a chunk
    pub off: i64,
    /// address if delivered by reference, else 0
    pub addr: usize,
    pub inst: u32,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub iter: u16,
    pub tid: u8,
    pub k: K,
    pub n: usize,
    pub inv: u64,
    /// the pull itself returned (chunk obtained / None); 0 = never
    pub ret: u64,
    /// everything about this operation is over (chunk dropped); 0 = never
    pub fin: u64,
    pub ended: bool,
    pub begin: Option<usize>,
    pub ann: Option<usize>,
    pub got: usize,
    /// the caller forgot the chunk: what it did not take may leak
    pub forgot: bool,
    pub cons_full: bool,
    /// query result: Len: -1 = None; HasMore: -1 = Maybe, 0 = No, n = Yes; Clone: id of the new iterator
    pub q: i128,
    pub injected: bool,
    pub panicked: bool,
    pub bad: Option<String>,
    pub in_post: bool,
    pub low: bool,
    /// the panic is the documented one (chunk size zero)
    pub expected: bool,
}

#[derive(Default)]
pub struct Hist {
    pub ops: Vec<OpRec>,
    pub dl: Vec<Dl>,
    pub seq_rest: Vec<Dl>,
    pub niter: u16,
    /// (thread, phase) notes
    pub notes: Vec<String>,
    pub phase: u8,
    /// addresses of the source elements, by position (borrowed sources)
    pub src_addr: Vec<usize>,
    /// into_seq_iter was consumed until it reported its end
    pub rest_full: bool,
    pub rest_hint: (usize, Option<usize>),
    /// only the first ones were received, the others counted
    pub rest_count: Option<usize>,
}
impl Hist {
    pub fn clear(&mut self) {
        self.ops.clear();
        self.dl.clear();
        self.seq_rest.clear();
        self.niter = 0;
        self.notes.clear();
        self.phase = 0;
        self.src_addr.clear();
        self.rest_full = false;
        self.rest_count = None;
    }
    pub fn pulls(&self, op: usize) -> bool {
        self.ops.get(op).is_some_and(|o| o.k.pull() || o.k.looped())
    }
    pub fn describe_op(&self, i: usize) -> String {
        let o = &self.ops[i];
        let mut s = format!("op{} {:?}", i, o.k);
        if matches!(o.k, K::Pick | K::Chunk | K::BufChunk | K::ForEach | K::EnumForEach | K::Fold | K::NewBuf) {
            s += &format!("({})", o.n);
        }
        s
    }
}

#[inline(never)]
pub fn op_begin(iter: u16, k: K, n: usize) -> usize {
    let _p = Pause::new();
    point(Pt::OpBegin);
    let s = g();
    let t = tid();
    let i = s.hist.ops.len();
    s.seq += 1;
    let inv = s.seq;
    let in_post = s.hist.phase == 2;
    s.hist.ops.push(OpRec {
        iter,
        tid: t as u8,
        k,
        n,
        inv,
        ret: 0,
        fin: 0,
        ended: false,
        begin: None,
        ann: None,
        got: 0,
        forgot: false,
        cons_full: true,
        q: 0,
        injected: false,
        panicked: false,
        bad: None,
        in_post,
        low: false,
        expected: false,
    });
    s.th[t].op = i as i32;
    if s.log_trace {
        let l = format!("#{} t{} BEGIN {}", s.seq, t, s.hist.describe_op(i));
        s.log.push(l);
    }
    i
}
fn level(x: &[u64]) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in x {
        h = (h ^ v).wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    g().level.push(h << 1);
}
/// the pull (or query) returned
#[inline(never)]
pub fn op_ret(i: usize, ended: bool, begin: Option<usize>, ann: Option<usize>) {
    let _p = Pause::new();
    let s = g();
    s.seq += 1;
    let seq = s.seq;
    let t = tid();
    let o = &mut s.hist.ops[i];
    o.ret = seq;
    o.ended = ended;
    o.begin = begin;
    o.ann = ann;
    if s.log_trace {
        let l = format!("#{} t{} RETURN {} ended={} begin={:?} len={:?}", seq, t, s.hist.describe_op(i), ended, begin, ann);
        s.log.push(l);
    }
    if s.level_on {
        level(&[i as u64, ended as u64, begin.map_or(u64::MAX, |x| x as u64), ann.map_or(u64::MAX, |x| x as u64)]);
    }
    crate::sched::progress();
    point(Pt::OpRet);
}
#[inline(never)]
pub fn op_q(i: usize, q: i128) {
    let _p = Pause::new();
    g().hist.ops[i].q = q;
    if g().level_on {
        level(&[i as u64, q as u64]);
    }
    if g().log_trace {
        let l = format!("   t{} RESULT {} = {}", tid(), g().hist.describe_op(i), q);
        g().log.push(l);
    }
}
#[inline(never)]
pub fn op_bad(i: usize, m: &str) {
    let _p = Pause::new();
    let b = &mut g().hist.ops[i].bad;
    if b.is_none() {
        *b = Some(m.to_string());
    }
}
#[inline(never)]
pub fn op_forgot(i: usize) {
    g().hist.ops[i].forgot = true;
}
#[inline(never)]
pub fn op_low(i: usize) {
    g().hist.ops[i].low = true;
}
#[inline(never)]
pub fn op_cons(i: usize, full: bool) {
    g().hist.ops[i].cons_full = full;
}
#[inline(never)]
pub fn op_end(i: usize, prev: i32) {
    let _p = Pause::new();
    let s = g();
    s.seq += 1;
    let seq = s.seq;
    let t = tid();
    let o = &mut s.hist.ops[i];
    if o.ret == 0 {
        o.ret = seq;
    }
    o.fin = seq;
    s.th[t].op = prev;
    crate::sched::progress();
    point(Pt::OpEnd);
}
#[inline(never)]
pub fn op_panicked(i: usize, injected: bool, expected: bool) {
    let _p = Pause::new();
    let s = g();
    s.seq += 1;
    let o = &mut s.hist.ops[i];
    o.panicked = true;
    o.injected = injected;
    if o.ret == 0 {
        o.ret = s.seq;
    }
    o.fin = s.seq;
    let t = tid();
    if s.log_trace {
        let l = format!("#{} t{} PANIC {} injected={}", s.seq, t, s.hist.describe_op(i), injected);
        s.log.push(l);
    }
    s.hist.ops[i].expected = expected && !injected;
    if !injected && !expected {
        let d = s.hist.describe_op(i);
        let m = s.last_panic.clone();
        crate::sched::violation("panic", format!("{d} panicked: {m}"));
    }
    crate::sched::progress();
}
pub fn cur_op() -> i32 {
    g().th[tid()].op
}
#[inline(never)]
pub fn set_cur_op(i: i32) {
    g().th[tid()].op = i;
}

#[inline(never)]
pub fn deliver(op: usize, val: u64, idx: i128, off: i64, addr: usize, inst: u32) {
    let _p = Pause::new();
    let s = g();
    s.seq += 1;
    let seq = s.seq;
    s.hist.ops[op].got += 1;
    if s.log_trace {
        let l = format!("#{} t{} DELIVER {} value={} idx={} off={}", seq, tid(), s.hist.describe_op(op), val as i64, idx, off);
        s.log.push(l);
    }
    s.hist.dl.push(Dl { op: op as u32, seq, val, idx, off, addr, inst });
    if s.level_on {
        level(&[op as u64, idx as u64, off as u64]);
    }
    crate::sched::progress();
}
#[inline(never)]
pub fn deliver_rest(val: u64, addr: usize, inst: u32) {
    let _p = Pause::new();
    let s = g();
    s.seq += 1;
    let seq = s.seq;
    if s.log_trace {
        let l = format!("#{} REMAINDER value={}", seq, val as i64);
        s.log.push(l);
    }
    s.hist.seq_rest.push(Dl { op: 0, seq, val, idx: -1, off: -1, addr, inst });
}
#[inline(never)]
pub fn note(m: String) {
    let _p = Pause::new();
    g().hist.notes.push(m);
}
#[inline(never)]
pub fn new_iter_id() -> u16 {
    let h = &mut g().hist;
    h.niter += 1;
    h.niter - 1
}

// ---- probes of the wrapped iterator and of user closures ----

/// identity of a new wrapped iterator
#[inline(never)]
pub fn new_probe() -> usize {
    let s = g();
    s.probes += 1;
    (s.probes - 1).min(s.in_next.len() - 1)
}
/// The wrapped iterator's `next` was entered.
#[inline(never)]
pub fn next_enter(id: usize) {
    let _p = Pause::new();
    let t = tid();
    {
        let s = g();
        if s.in_next[id] > 0 {
            let u = s.in_next_tid[id];
            crate::sched::violation(
                "overlap",
                format!("wrapped iterator's next entered by t{t} while t{u} is inside it"),
            );
        }
        s.in_next[id] += 1;
        s.in_next_tid[id] = t;
    }
    point(Pt::NextIn);
}
#[inline(never)]
pub fn next_mid(id: usize) {
    let boom = {
        let _p = Pause::new();
        point(Pt::NextMid);
        let s = g();
        s.cnt_next += 1;
        s.faults.fires(s.faults.panic_next, s.cnt_next)
    };
    if boom {
        let s = g();
        s.in_next[id] -= 1;
        s.stats.panics_next += 1;
        std::panic::panic_any(crate::ledger::Injected);
    }
}
#[inline(never)]
pub fn next_exit(id: usize) {
    let _p = Pause::new();
    g().in_next[id] -= 1;
    point(Pt::NextOut);
}
/// A user closure was invoked.
#[inline(never)]
pub fn closure() {
    let boom = {
        let _p = Pause::new();
        point(Pt::Closure);
        let s = g();
        s.cnt_closure += 1;
        s.faults.fires(s.faults.panic_closure, s.cnt_closure)
    };
    if boom {
        g().stats.panics_closure += 1;
        std::panic::panic_any(crate::ledger::Injected);
    }
}
