//! Judges the recorded history of one run against one property.
use rt::hist::{OpRec, K};
use rt::ledger::NONE;
use rt::scn::{Elem, End, Hint, Kind, Scn, Src};
use rt::sched::{g, Viol};

pub struct Bad {
    pub class: String,
    pub msg: String,
}
type R = Option<Bad>;
fn bad(class: &str, msg: String) -> R {
    Some(Bad { class: class.into(), msg })
}

/// Delivery of the positions lo..hi by one pull.
#[derive(Clone, Debug)]
pub struct Ev {
    pub op: usize,
    pub iter: u16,
    pub tid: u8,
    pub inv: u64,
    pub ret: u64,
    pub lo: i128,
    pub hi: i128,
    /// positions are known (not so for zero-sized elements delivered without an index)
    pub known: bool,
}

pub struct Ctx<'a> {
    pub scn: &'a Scn,
    pub src: Src,
    pub ops: &'a [OpRec],
    pub hung: bool,
    pub evs: Vec<Ev>,
    pub skipped: bool,
}

fn ended(o: &OpRec) -> bool {
    o.ended && !o.panicked && !(o.n == 0 && o.k == K::Chunk)
}
fn d(i: usize) -> String {
    let o = &g().hist.ops[i];
    format!("{} on t{}", g().hist.describe_op(i), o.tid)
}
fn pos(v: i128) -> String {
    v.to_string()
}

impl<'a> Ctx<'a> {
    pub fn new(scn: &'a Scn, hung: bool) -> Ctx<'a> {
        let h = &g().hist;
        let src = scn.src();
        let mut evs = vec![];
        let mut first_of: Vec<Option<usize>> = vec![None; h.ops.len()];
        for (j, x) in h.dl.iter().enumerate() {
            if first_of[x.op as usize].is_none() {
                first_of[x.op as usize] = Some(j);
            }
        }
        for (i, o) in h.ops.iter().enumerate() {
            if o.ret == 0 {
                continue;
            }
            match o.k {
                K::Chunk | K::BufChunk => {
                    if let (Some(b), Some(a)) = (o.begin, o.ann) {
                        let mut lo = b as i128;
                        if let Some(j) = first_of[i] {
                            let x = &h.dl[j];
                            if let Some(p) = src.pos_of(x.val) {
                                lo = p as i128 - x.off as i128;
                            }
                        }
                        evs.push(Ev { op: i, iter: o.iter, tid: o.tid, inv: o.inv, ret: o.ret, lo, hi: lo + a as i128, known: true });
                    }
                }
                _ => {}
            }
        }
        for x in &h.dl {
            let o = &h.ops[x.op as usize];
            if !matches!(o.k, K::Single) && !o.k.looped() {
                continue;
            }
            let p = match src.pos_of(x.val) {
                Some(p) => Some(p as i128),
                None if src.zst() && x.idx >= 0 => Some(x.idx),
                None => None,
            };
            let ret = if o.k == K::Single { o.ret } else { x.seq };
            evs.push(Ev {
                op: x.op as usize,
                iter: o.iter,
                tid: o.tid,
                inv: o.inv,
                ret,
                lo: p.unwrap_or(0),
                hi: p.unwrap_or(0) + 1,
                known: p.is_some(),
            });
        }
        // alone: what was gone over and not seen lies between what had been delivered before and what is seen
        for (i, o) in h.ops.iter().enumerate() {
            if o.k != K::Pick || o.ret == 0 || o.panicked || o.tid != 0 {
                continue;
            }
            let prior = evs.iter().filter(|e| e.iter == o.iter && e.ret < o.inv).map(|e| e.hi).max().unwrap_or(0);
            let cut = h.ops.iter().any(|q| q.iter == o.iter && q.k == K::Skip && q.inv < o.inv);
            let x = first_of[i].map(|j| &h.dl[j]);
            let p = x.and_then(|x| src.pos_of(x.val).map(|p| p as i128).or(if x.idx >= 0 { Some(x.idx) } else { None }));
            let (lo, hi) = match (p, o.q) {
                (Some(p), q) if q > 0 => (p + 1 - q, p + 1),
                (Some(p), _) if x.is_some() && !src.zst() => (prior, p + 1),
                (_, q) if q >= 0 => (prior, prior + q),
                (None, _) if x.is_none() && o.ended && !cut && !src.infinite() => (prior, (src.n as i128).max(prior)),
                _ => (prior, prior),
            };
            if hi > lo {
                evs.push(Ev { op: i, iter: o.iter, tid: o.tid, inv: o.inv, ret: o.ret, lo, hi, known: !src.zst() });
            }
        }
        let skipped = h.ops.iter().any(|o| o.k == K::Skip);
        Ctx { scn, src, ops: &h.ops, hung, evs, skipped }
    }
    fn niter(&self) -> u16 {
        g().hist.niter
    }
    fn n(&self) -> i128 {
        self.src.n as i128
    }

    /// run-time reports of the given classes
    pub fn runtime(&self, classes: &[&str]) -> R {
        let v: Option<&Viol> = g().viols.iter().find(|v| classes.contains(&v.class));
        v.map(|v| Bad { class: v.class.into(), msg: v.msg.clone() })
    }
    /// anything delivered that is not in the source
    pub fn foreign(&self) -> R {
        for x in &g().hist.dl {
            if x.val == rt::scn::ZVAL && self.src.zst() {
                continue;
            }
            if self.src.pos_of(x.val).is_none() {
                return bad("foreign", format!("{} delivered {} which is not an element of the source", d(x.op as usize), x.val as i64));
            }
        }
        None
    }
    /// no position is delivered twice by the same iterator
    pub fn dup(&self) -> R {
        for it in 0..self.niter() {
            let mut v: Vec<(i128, i128, usize)> = vec![];
            for e in &self.evs {
                if e.iter == it && e.known {
                    v.push((e.lo, e.hi, e.op));
                }
            }
            v.sort();
            for w in v.windows(2) {
                if w[1].0 < w[0].1 {
                    return bad(
                        "dup",
                        format!("position {} delivered by {} and by {}", w[1].0, d(w[0].2), d(w[1].2)),
                    );
                }
            }
            if !self.src.infinite() {
                let tot: i128 = self.evs.iter().filter(|e| e.iter == it).map(|e| e.hi - e.lo).sum();
                if tot > self.n() {
                    return bad("dup", format!("{} positions delivered, the source has {}", tot, self.n()));
                }
            }
        }
        // by element actually received
        let h = &g().hist;
        let mut v: Vec<(u16, u64, u32)> =
            h.dl.iter().filter(|x| x.val != rt::scn::ZVAL).map(|x| (h.ops[x.op as usize].iter, x.val, x.op)).collect();
        v.sort();
        for w in v.windows(2) {
            if w[0].0 == w[1].0 && w[0].1 == w[1].1 {
                return bad(
                    "dup",
                    format!("element {} received from {} and from {}", w[0].1 as i64, d(w[0].2 as usize), d(w[1].2 as usize)),
                );
            }
        }
        None
    }
    /// an end was reported, so everything has been delivered once all calls are over (no skips)
    pub fn lost(&self) -> R {
        if self.src.infinite() {
            return None;
        }
        for it in 0..self.niter() {
            if self.ops.iter().any(|o| o.iter == it && o.k == K::Skip) {
                continue;
            }
            let Some(q) = (0..self.ops.len()).find(|&i| self.ops[i].iter == it && ended(&self.ops[i])) else { continue };
            let base = self.clone_base(it);
            if base.is_some() {
                continue;
            }
            if self.ops.iter().any(|o| o.iter == it && o.panicked && !o.expected) {
                continue;
            }
            let mut tot: i128 = self.evs.iter().filter(|e| e.iter == it).map(|e| e.hi - e.lo).sum();
            if self.hung {
                // what the calls that do not return may have reserved
                for o in self.ops.iter().filter(|o| o.iter == it && o.ret == 0) {
                    tot += o.n.max(1) as i128;
                }
            }
            if tot < self.n() {
                let mut miss = None;
                let mut v: Vec<(i128, i128)> =
                    self.evs.iter().filter(|e| e.iter == it && e.known).map(|e| (e.lo, e.hi)).collect();
                v.sort();
                let mut next = 0;
                for (a, b) in v {
                    if a > next {
                        miss = Some(next);
                        break;
                    }
                    next = next.max(b);
                }
                let m = miss.unwrap_or(next);
                return bad(
                    "lost",
                    format!("{} reported the end, but position {} of {} was never delivered", d(q), pos(m), self.n()),
                );
            }
        }
        None
    }
    /// index of the op that created this clone
    fn clone_base(&self, it: u16) -> Option<usize> {
        (0..self.ops.len()).find(|&i| self.ops[i].k == K::Clone && self.ops[i].q == it as i128)
    }
    pub fn index(&self) -> R {
        for x in &g().hist.dl {
            let o = &self.ops[x.op as usize];
            let rep: i128 = if x.idx >= 0 {
                x.idx
            } else if let (true, Some(b)) = (matches!(o.k, K::Chunk | K::BufChunk) && x.off >= 0, o.begin) {
                b as i128 + x.off as i128
            } else {
                continue;
            };
            if self.src.zst() {
                if rep >= self.n() {
                    return bad("index", format!("{} reports index {} of {}", d(x.op as usize), rep, self.n()));
                }
                continue;
            }
            match self.src.pos_of(x.val) {
                Some(p) if p as i128 == rep => {}
                p => {
                    return bad(
                        "index",
                        format!(
                            "{} reports index {} with element {}, which is at position {:?} of the source",
                            d(x.op as usize),
                            rep,
                            x.val as i64,
                            p
                        ),
                    )
                }
            }
        }
        if self.src.zst() {
            // indices of indistinguishable elements: none twice
            for it in 0..self.niter() {
                let mut v: Vec<(i128, u32)> = g()
                    .hist
                    .dl
                    .iter()
                    .filter(|x| self.ops[x.op as usize].iter == it)
                    .filter_map(|x| {
                        let o = &self.ops[x.op as usize];
                        if x.idx >= 0 {
                            Some((x.idx, x.op))
                        } else if matches!(o.k, K::Chunk | K::BufChunk) && x.off >= 0 {
                            o.begin.map(|b| (b as i128 + x.off as i128, x.op))
                        } else {
                            None
                        }
                    })
                    .collect();
                v.sort();
                for w in v.windows(2) {
                    if w[0].0 == w[1].0 {
                        return bad("index", format!("index {} reported twice", w[0].0));
                    }
                }
            }
        }
        None
    }
    pub fn chunks(&self) -> R {
        let h = &g().hist;
        for (i, o) in self.ops.iter().enumerate() {
            if !matches!(o.k, K::Chunk | K::BufChunk) || o.n == 0 || o.ret == 0 {
                continue;
            }
            if let Some(m) = &o.bad {
                return bad("chunk", format!("{}: {m}", d(i)));
            }
            if o.panicked || o.ended {
                continue;
            }
            let (Some(b), Some(a)) = (o.begin, o.ann) else { continue };
            if a == 0 {
                return bad("chunk", format!("{} returned an empty chunk", d(i)));
            }
            if a > o.n {
                return bad("chunk", format!("{} returned {} elements", d(i), a));
            }
            if a < o.n && !self.skipped {
                if self.src.infinite() {
                    return bad("chunk", format!("{} returned only {} elements of an unbounded source", d(i), a));
                }
                if b as i128 + a as i128 != self.n() {
                    return bad(
                        "chunk",
                        format!("{} returned {} elements at {}, but the source ends at {}", d(i), a, b, self.n()),
                    );
                }
            }
            if !self.src.infinite() && b as i128 + a as i128 > self.n() {
                return bad("chunk", format!("{} returned {} elements at {}, beyond the end {}", d(i), a, b, self.n()));
            }
        }
        for x in &h.dl {
            let o = &self.ops[x.op as usize];
            if !matches!(o.k, K::Chunk | K::BufChunk) || x.off < 0 || self.src.zst() {
                continue;
            }
            let b = o.begin.unwrap_or(0) as i128 + x.off as i128;
            let p = self.src.pos_of(x.val);
            if p.map(|p| p as i128) != Some(b) {
                return bad(
                    "chunk",
                    format!("element {} of {} is {} (position {:?}), expected position {}", x.off, d(x.op as usize), x.val as i64, p, b),
                );
            }
        }
        None
    }
    /// per thread increasing and real-time order
    pub fn order(&self) -> R {
        for it in 0..self.niter() {
            let mut e: Vec<&Ev> = self.evs.iter().filter(|e| e.iter == it && e.known).collect();
            // real time
            e.sort_by_key(|x| x.inv);
            let mut byret: Vec<&Ev> = e.clone();
            byret.sort_by_key(|x| x.ret);
            let mut k = 0;
            let mut best: Option<&Ev> = None;
            for q in &e {
                while k < byret.len() && byret[k].ret < q.inv {
                    if best.is_none_or(|b| byret[k].hi > b.hi) {
                        best = Some(byret[k]);
                    }
                    k += 1;
                }
                if let Some(b) = best {
                    if b.op != q.op && q.lo < b.hi {
                        return bad(
                            "order",
                            format!(
                                "{} returned position {} before {} started, which then received the smaller position {}",
                                d(b.op),
                                b.hi - 1,
                                d(q.op),
                                q.lo
                            ),
                        );
                    }
                }
            }
            // per thread, inside looping calls
            let mut last: std::collections::HashMap<(u8, usize), i128> = Default::default();
            let mut l: Vec<&Ev> =
                self.evs.iter().filter(|e| e.iter == it && e.known && self.ops[e.op].k.looped()).collect();
            l.sort_by_key(|x| x.ret);
            for q in l {
                let x = last.entry((q.tid, q.op)).or_insert(-1);
                if q.lo < *x {
                    return bad("order", format!("{} passes position {} after position {}", d(q.op), q.lo, *x));
                }
                *x = q.lo;
            }
        }
        None
    }
    /// whenever no pull is in flight the delivered positions are a gap-free prefix (no skips, no clones)
    pub fn prefix(&self) -> R {
        for it in 0..self.niter() {
            if self.clone_base(it).is_some() || self.ops.iter().any(|o| o.iter == it && o.k == K::Skip) {
                continue;
            }
            if self.evs.iter().any(|e| e.iter == it && !e.known) {
                continue;
            }
            let mut spans: Vec<(u64, u64)> = self
                .ops
                .iter()
                .filter(|o| o.iter == it && (o.k.pull() || o.k.looped()))
                .map(|o| (o.inv, if o.ret == 0 || (o.k.looped() && o.fin == 0) { u64::MAX } else if o.k.looped() { o.fin } else { o.ret }))
                .collect();
            spans.sort();
            let mut quiet: Vec<u64> = vec![];
            let mut end = 0;
            for (a, b) in spans {
                if a > end && end > 0 {
                    quiet.push(end);
                }
                end = end.max(b);
            }
            if end > 0 && end < u64::MAX {
                quiet.push(end);
            }
            let mut e: Vec<&Ev> = self.evs.iter().filter(|e| e.iter == it).collect();
            e.sort_by_key(|x| x.ret);
            let (mut k, mut sum, mut max) = (0, 0i128, 0i128);
            for q in quiet {
                while k < e.len() && e[k].ret <= q {
                    sum += e[k].hi - e[k].lo;
                    max = max.max(e[k].hi);
                    k += 1;
                }
                if sum != max {
                    return bad(
                        "prefix",
                        format!("with no pull in flight, {sum} positions had been delivered but the largest is {}", max - 1),
                    );
                }
            }
        }
        None
    }
    /// nothing is delivered by a pull that starts after an end report; no positive length
    pub fn after_end(&self) -> R {
        for it in 0..self.niter() {
            let q = (0..self.ops.len())
                .filter(|&i| self.ops[i].iter == it && ended(&self.ops[i]) && self.ops[i].ret > 0)
                .min_by_key(|&i| self.ops[i].ret);
            if let Some(q) = q {
                let t = self.ops[q].ret;
                if let Some(b) = self.silent_after(it, t, &format!("{} had reported the end", d(q))) {
                    return Some(b);
                }
            }
        }
        None
    }
    fn silent_after(&self, it: u16, t: u64, why: &str) -> R {
        let cls = "revived";
        for x in &g().hist.dl {
            let o = &self.ops[x.op as usize];
            if o.iter == it && o.inv > t {
                return bad(cls, format!("{} delivered {} although {why} before it started", d(x.op as usize), x.val as i64));
            }
        }
        for (i, o) in self.ops.iter().enumerate() {
            if o.iter != it || o.inv <= t || o.ret == 0 {
                continue;
            }
            if o.ann.is_some() && !o.ended {
                return bad(cls, format!("{} returned {} elements although {why} before it started", d(i), o.ann.unwrap_or(0)));
            }
            if matches!(o.k, K::Len | K::HasMore) && o.q > 0 {
                return bad(cls, format!("{} is {} although {why} before it started", d(i), o.q));
            }
        }
        None
    }
    pub fn skip(&self) -> R {
        for it in 0..self.niter() {
            let q = (0..self.ops.len())
                .filter(|&i| self.ops[i].iter == it && self.ops[i].k == K::Skip && self.ops[i].ret > 0 && !self.ops[i].panicked)
                .min_by_key(|&i| self.ops[i].ret);
            if let Some(q) = q {
                let t = self.ops[q].ret;
                if let Some(b) = self.silent_after(it, t, "skip_to_end had returned") {
                    return Some(b);
                }
                for (i, o) in self.ops.iter().enumerate() {
                    if o.iter == it && o.k == K::HasMore && o.inv > t && o.ret > 0 && !o.panicked && o.q != 0 {
                        return bad("skip", format!("{} is not No although skip_to_end had returned", d(i)));
                    }
                }
            }
        }
        None
    }
    /// a call that cannot return although it started after an end report / a skip
    pub fn hang_after(&self, skip: bool) -> R {
        if !self.hung {
            return None;
        }
        for (i, o) in self.ops.iter().enumerate() {
            if o.ret != 0 || !(o.k.pull() || o.k.looped()) {
                continue;
            }
            let q = self.ops.iter().any(|x| {
                x.iter == o.iter && x.ret > 0 && x.ret < o.inv && if skip { x.k == K::Skip } else { ended(x) }
            });
            if q {
                return bad("hang", format!("{} never returns although it started after the iteration was over", d(i)));
            }
        }
        None
    }
    pub fn hang(&self) -> R {
        self.runtime(&["hang"])
    }

    fn known_size(&self) -> Option<bool> {
        let k = self.scn.kind;
        if k.known() || k == Kind::IterStd {
            return Some(true);
        }
        if k == Kind::IterInf {
            return Some(false);
        }
        match self.scn.hint {
            Hint::Exact => Some(true),
            Hint::Upper if self.scn.len == 0 => None,
            _ => Some(false),
        }
    }
    pub fn lens(&self) -> R {
        let n = self.n();
        for it in 0..self.niter() {
            if self.clone_base(it).is_some() {
                continue;
            }
            let qs: Vec<usize> = (0..self.ops.len())
                .filter(|&i| {
                    let o = &self.ops[i];
                    o.iter == it && matches!(o.k, K::Len | K::HasMore) && o.ret > 0 && !o.panicked
                })
                .collect();
            let cursor = |o: &OpRec| o.k.pull() || o.k.looped() || o.k == K::Skip;
            for &i in &qs {
                let q = &self.ops[i];
                if let Some(m) = &q.bad {
                    return bad("len", format!("{}: {m}", d(i)));
                }
                if q.k == K::HasMore && q.q == -1 && self.known_size() == Some(true) {
                    return bad("len", format!("{} is Maybe for a source of known size", d(i)));
                }
                // an end was reported by a single or one-shot chunk pull
                if q.k == K::HasMore && q.q != 0 {
                    let e = self.ops.iter().any(|o| {
                        o.iter == it && ended(o) && matches!(o.k, K::Single | K::Chunk) && o.ret > 0 && o.ret < q.inv
                    });
                    if e {
                        return bad("len", format!("{} is not No although the end had been reported", d(i)));
                    }
                }
                // definitive
                if q.q == 0 {
                    for x in &g().hist.dl {
                        let o = &self.ops[x.op as usize];
                        if o.iter == it && o.inv > q.ret {
                            return bad("len", format!("{} answered no more, then {} delivered {}", d(i), d(x.op as usize), x.val as i64));
                        }
                    }
                    for (j, o) in self.ops.iter().enumerate() {
                        if o.iter == it && o.inv > q.ret && o.ret > 0 && o.ann.is_some_and(|a| a > 0) && !o.ended {
                            return bad("len", format!("{} answered no more, then {} delivered", d(i), d(j)));
                        }
                    }
                }
                // quiescent
                let busy = self.ops.iter().any(|o| {
                    let fin = if o.k.looped() { o.fin } else { o.ret };
                    o.iter == it && cursor(o) && o.inv < q.ret && (fin == 0 || fin > q.inv)
                });
                if !busy && !self.src.infinite() {
                    let got: i128 = self.evs.iter().filter(|e| e.iter == it && e.ret < q.inv).map(|e| e.hi - e.lo).sum();
                    let skipped = self.ops.iter().any(|o| o.iter == it && o.k == K::Skip && o.ret > 0 && o.ret < q.inv);
                    let rem = if skipped { 0 } else { n - got };
                    let known = self.known_size();
                    if known == Some(true) && q.q != rem {
                        return bad(
                            "len",
                            format!("{} is {} with no pull in flight, but {} elements are left", d(i), q.q, rem),
                        );
                    }
                    if q.q > 0 && q.q != rem {
                        return bad("len", format!("{} is {} with no pull in flight, but {} elements are left", d(i), q.q, rem));
                    }
                    if q.q == 0 && rem > 0 {
                        return bad("len", format!("{} answers no more, but {} elements are left", d(i), rem));
                    }
                    if known == Some(false) && q.q > 0 {
                        return bad("len", format!("{} is {} for a source of unknown size", d(i), q.q));
                    }
                }
            }
            for &a in &qs {
                for &b in &qs {
                    let (x, y) = (&self.ops[a], &self.ops[b]);
                    if x.ret < y.inv && x.q >= 0 && y.q > x.q {
                        return bad("len", format!("remaining length grew from {} ({}) to {} ({})", x.q, d(a), y.q, d(b)));
                    }
                }
            }
        }
        None
    }
    pub fn loops(&self) -> R {
        for (i, o) in self.ops.iter().enumerate() {
            if !o.k.looped() || o.panicked || o.ret == 0 {
                continue;
            }
            if let Some(m) = &o.bad {
                return bad("visit", format!("{}: {m}", d(i)));
            }
            if o.k == K::Fold {
                let s: i128 =
                    g().hist.dl.iter().filter(|x| x.op as usize == i).map(|x| sut::exec::fold_w(x.val)).sum();
                if s != o.q {
                    return bad("visit", format!("{} returned a result that is not the fold of the {} elements it visited", d(i), o.got));
                }
            }
        }
        None
    }
    /// the remainder returned by into_seq_iter
    pub fn rest(&self) -> R {
        let End::Seq { take, .. } = self.scn.end else { return None };
        if self.hung {
            return None;
        }
        let Some(i) = (0..self.ops.len()).find(|&i| self.ops[i].k == K::IntoSeq) else { return None };
        if self.ops[i].panicked || self.ops[i].ret == 0 {
            return None;
        }
        let h = &g().hist;
        let r = &h.seq_rest;
        let full = h.rest_full;
        let n = self.n();
        let take = if h.rest_count.is_some() { take.min(2) } else { take };
        let got: i128 = self.evs.iter().filter(|e| e.iter == 0).map(|e| e.hi - e.lo).sum();
        let skipped = self.ops.iter().any(|o| o.iter == 0 && o.k == K::Skip);
        // a count of all that is left, and bounds on it
        let total = h.rest_count.map(|x| x as i128).or(if full { Some(r.len() as i128) } else { None });
        if let Some(t) = total {
            let (lo, hi) = h.rest_hint;
            if lo as i128 > t || hi.is_some_and(|x| (x as i128) < t) {
                return bad("rest", format!("into_seq_iter announces ({lo}, {hi:?}) elements and yields {t}"));
            }
            if !self.src.infinite() && (t > n - got || (!skipped && t != n - got)) {
                return bad("rest", format!("into_seq_iter has {t} elements, {} were undelivered", n - got));
            }
        }
        if n > rt::scn::HUGE as i128 && !self.src.infinite() && !skipped {
            // too many to count
            let (lo, hi) = h.rest_hint;
            if lo as i128 > n - got || hi.is_some_and(|x| (x as i128) < n - got) {
                return bad("rest", format!("into_seq_iter announces ({lo}, {hi:?}) elements, {} were undelivered", n - got));
            }
        }
        if self.src.zst() || self.evs.iter().any(|e| e.iter == 0 && !e.known) {
            let und = n - got;
            let m = r.len() as i128;
            if m > und || (full && !skipped && m != und) || (!full && m < (take as i128).min(und) && !skipped) {
                return bad("rest", format!("into_seq_iter yields {m} elements, {und} were undelivered"));
            }
            return None;
        }
        let mut v: Vec<(i128, i128)> = self.evs.iter().filter(|e| e.iter == 0).map(|e| (e.lo, e.hi)).collect();
        v.sort();
        // first undelivered positions, as many as needed
        let und_at = |k: i128| -> Option<i128> {
            // k-th undelivered position
            let mut next = 0;
            let mut left = k;
            for (a, b) in &v {
                if *a > next {
                    if left < *a - next {
                        return Some(next + left);
                    }
                    left -= *a - next;
                }
                next = next.max(*b);
            }
            if self.src.infinite() || next + left < n {
                Some(next + left)
            } else {
                None
            }
        };
        let und = n - got;
        let m = r.len() as i128;
        for x in r {
            match self.src.pos_of(x.val) {
                None => return bad("rest", format!("into_seq_iter yields {} which is not in the source", x.val as i64)),
                Some(p) => {
                    if v.iter().any(|(a, b)| p as i128 >= *a && (p as i128) < *b) {
                        return bad("rest", format!("into_seq_iter yields position {p} again, it had been delivered"));
                    }
                }
            }
        }
        let off = if skipped {
            if full {
                und - m
            } else {
                // contiguous among the undelivered
                match r.first().and_then(|x| self.src.pos_of(x.val)) {
                    Some(p) => (0..und.min(4096)).find(|k| und_at(*k) == Some(p as i128)).unwrap_or(0),
                    None => 0,
                }
            }
        } else {
            0
        };
        if off < 0 {
            return bad("rest", format!("into_seq_iter yields {m} elements, only {und} were undelivered"));
        }
        for (k, x) in r.iter().enumerate() {
            let want = und_at(off + k as i128);
            let p = self.src.pos_of(x.val).map(|p| p as i128);
            if p != want {
                return bad("rest", format!("element {k} of into_seq_iter is position {p:?}, expected {want:?}"));
            }
        }
        if !skipped && full && m != und {
            return bad("rest", format!("into_seq_iter yields {m} elements, but {und} were not delivered"));
        }
        None
    }
    pub fn ledger_end(&self) -> R {
        if self.hung {
            return None;
        }
        let l = &g().ledger;
        // elements left in chunks that the caller forgot may leak
        let lost: Vec<&OpRec> = self.ops.iter().filter(|o| o.forgot).collect();
        let leaked = |val: u32| {
            self.src.pos_of(val as u64).is_some_and(|p| {
                lost.iter().any(|o| {
                    let (b, a) = (o.begin.unwrap_or(0), o.ann.unwrap_or(0));
                    p >= b && p - b < a
                })
            })
        };
        for x in &l.insts {
            if x.drops == 0 && x.outs == 0 && !lost.is_empty() && leaked(x.val) {
                continue;
            }
            if x.drops != 1 {
                let c = if x.parent != NONE { "clone of " } else { "" };
                return bad(
                    "ledger",
                    format!("{c}element {} was destroyed {} times and moved out {} times", x.val, x.drops, x.outs),
                );
            }
        }
        let z_leak: u64 = lost.iter().map(|o| (o.ann.unwrap_or(0) - o.got.min(o.ann.unwrap_or(0))) as u64).sum();
        if l.z_dropped as u64 > l.z_made as u64 || l.z_made as u64 - l.z_dropped as u64 > z_leak {
            return bad("ledger", format!("{} zero-sized elements exist, {} were destroyed", l.z_made, l.z_dropped));
        }
        None
    }
    pub fn leak(&self) -> R {
        if self.hung {
            return None;
        }
        if self.ops.iter().any(|o| o.forgot) {
            return None;
        }
        let (b, k, _) = rt::alloc::live();
        if b != 0 || k != 0 {
            return bad("leak", format!("{b} bytes in {k} blocks are still allocated after everything was dropped"));
        }
        None
    }
    pub fn address(&self) -> R {
        let h = &g().hist;
        if h.src_addr.is_empty() || !self.scn.kind.by_ref() {
            return None;
        }
        for x in h.dl.iter().chain(h.seq_rest.iter()) {
            if self.src.zst() {
                continue;
            }
            let ok = self.src.pos_of(x.val).map(|p| h.src_addr.get(p).copied()) == Some(Some(x.addr));
            if !ok {
                return bad("address", format!("a delivered reference to {} does not point at the element of the collection", x.val as i64));
            }
        }
        None
    }
    /// clones start at the original's position; everything after is a cursor of its own
    pub fn clones(&self) -> R {
        for it in 0..self.niter() {
            let Some(c) = self.clone_base(it) else { continue };
            let o = &self.ops[c];
            let par = o.iter;
            if self.src.zst() {
                continue;
            }
            let mut v: Vec<(i128, i128)> = self.evs.iter().filter(|e| e.iter == it).map(|e| (e.lo, e.hi)).collect();
            v.sort();
            for w in v.windows(2) {
                if w[1].0 != w[0].1 {
                    return bad("clone", format!("a cloned iterator skipped or repeated positions between {} and {}", w[0].1, w[1].0));
                }
            }
            if self.hung {
                continue;
            }
            let skipped = self.ops.iter().any(|q| q.iter == it && q.k == K::Skip);
            let pend = !skipped && self.ops.iter().any(|q| q.iter == it && ended(q));
            let n = self.n();
            let start = match v.first() {
                Some(x) => x.0,
                None if pend => n,
                None => continue,
            };
            if pend && v.last().is_some_and(|x| x.1 != n) {
                return bad("clone", format!("a cloned iterator reported the end after position {}", v.last().map_or(0, |x| x.1)));
            }
            // position of the original when it was cloned
            if self.clone_base(par).is_some() {
                let p: Vec<i128> = self.evs.iter().filter(|e| e.iter == par).map(|e| e.lo).collect();
                if p.is_empty() {
                    continue;
                }
            }
            if self.ops.iter().any(|q| q.iter == par && q.k == K::Skip && q.inv < o.ret) {
                continue;
            }
            let pbase = if self.clone_base(par).is_some() {
                self.evs.iter().filter(|e| e.iter == par).map(|e| e.lo).min().unwrap_or(0)
            } else {
                0
            };
            let lo = self.evs.iter().filter(|e| e.iter == par && e.ret < o.inv).map(|e| e.hi).max().unwrap_or(pbase);
            let hi = self.evs.iter().filter(|e| e.iter == par && e.inv < o.ret).map(|e| e.hi).max().unwrap_or(pbase);
            if start < lo || start > hi {
                return bad(
                    "clone",
                    format!("a clone starts at position {start}, its original was between {lo} and {hi} when it was cloned"),
                );
            }
        }
        None
    }
    /// clones delivered by an adaptor are clones of the source's elements
    pub fn parents(&self) -> R {
        let l = &g().ledger;
        if !self.scn.kind.adaptor() {
            return None;
        }
        for x in g().hist.dl.iter().chain(g().hist.seq_rest.iter()) {
            if x.inst == NONE {
                continue;
            }
            let p = l.insts[x.inst as usize].parent;
            if p == NONE {
                return bad("adaptor", format!("the source element {} itself was delivered by an adaptor", x.val as i64));
            }
            if l.insts[p as usize].parent != NONE {
                return bad("adaptor", format!("a clone of a clone of element {} was delivered", x.val as i64));
            }
        }
        None
    }
    pub fn panics(&self) -> R {
        self.runtime(&["panic"])
    }
    /// zero chunk sizes
    pub fn zero(&self) -> R {
        for (i, o) in self.ops.iter().enumerate() {
            if o.n == 0 && o.k == K::Chunk && o.ret > 0 && (!o.ended || o.got > 0) && !o.panicked {
                return bad("zero", format!("{} delivered something", d(i)));
            }
            if let Some(m) = &o.bad {
                return bad("zero", format!("{}: {m}", d(i)));
            }
        }
        None
    }
}

fn first(fs: &[&dyn Fn() -> R]) -> R {
    for f in fs {
        if let Some(b) = f() {
            return Some(b);
        }
    }
    None
}

pub fn judge(prop: &str, scn: &Scn, hung: bool) -> R {
    let c = Ctx::new(scn, hung);
    match prop {
        "C01" => first(&[&|| c.panics(), &|| c.dup(), &|| c.foreign(), &|| c.runtime(&["ledger-out"]), &|| c.lost()]),
        "C02" => c.index(),
        "C03" => first(&[&|| c.panics(), &|| c.chunks()]),
        "C04" => first(&[&|| c.panics(), &|| c.foreign(), &|| c.order(), &|| c.dup(), &|| c.prefix(), &|| c.after_end(), &|| c.lost()]),
        "C05" => first(&[&|| c.panics(), &|| c.after_end(), &|| c.hang_after(false)]),
        "C06" => first(&[
            &|| c.panics(),
            &|| c.skip(),
            &|| c.dup(),
            &|| c.index(),
            &|| c.order(),
            &|| c.foreign(),
            &|| c.runtime(&["ledger-out", "ledger-held"]),
            &|| c.hang_after(true),
        ]),
        "C07" => c.runtime(&["overlap", "race"]),
        "C08" => first(&[&|| c.runtime(&["ledger-out", "ledger-held", "ledger-drop", "alloc"]), &|| c.ledger_end()]),
        "C09" => first(&[&|| c.runtime(&["hang", "stall"]), &|| c.panics()]),
        "C10" => first(&[&|| c.panics(), &|| c.rest(), &|| c.runtime(&["ledger-out"])]),
        "C11" => first(&[&|| c.panics(), &|| c.lens()]),
        "C12" => first(&[
            &|| c.hang(),
            &|| c.panics(),
            &|| c.loops(),
            &|| c.dup(),
            &|| c.foreign(),
            &|| c.index(),
            &|| c.after_end(),
            &|| c.lost(),
            &|| c.runtime(&["ledger-out"]),
        ]),
        "C13" => first(&[&|| c.runtime(&["borrow"]), &|| c.parents(), &|| c.foreign()]),
        "C15" => first(&[&|| c.runtime(&["alloc"]), &|| c.leak()]),
        "C16" => first(&[
            &|| c.panics(),
            &|| c.zero(),
            &|| c.foreign(),
            &|| c.dup(),
            &|| c.index(),
            &|| c.chunks(),
            &|| c.order(),
            &|| c.prefix(),
            &|| c.after_end(),
            &|| c.lost(),
            &|| c.runtime(&["ledger-out"]),
        ]),
        // a panic in the build with debug assertions: the caller finds out whether the other build does the same
        "C17" if scn.fine && sut::CHECKED => {
            first(&[&|| c.runtime(&["alloc"]), &|| c.panics().map(|b| Bad { class: "dbgpanic".into(), msg: b.msg })])
        }
        "C17" => c.runtime(&["alloc"]),
        "C18" => first(&[
            &|| c.hang(),
            &|| c.panics(),
            &|| c.dup(),
            &|| c.runtime(&["ledger-out", "ledger-drop", "ledger-held"]),
            &|| c.ledger_end(),
        ]),
        "C19" => first(&[
            &|| c.panics(),
            &|| c.runtime(&["borrow", "ledger-drop"]),
            &|| c.address(),
            &|| c.foreign(),
            &|| c.clones(),
            &|| c.dup(),
            &|| c.order(),
            &|| c.prefix(),
            &|| c.lost(),
        ]),
        _ => None,
    }
}

/// Everything a caller can observe, as text.
pub fn transcript(scn: &Scn, hung: bool, mem: bool) -> String {
    use std::fmt::Write;
    let h = &g().hist;
    let mut s = String::new();
    for (i, o) in h.ops.iter().enumerate() {
        let _ = write!(
            s,
            "op{i} t{} it{} {:?}({}) end={} begin={:?} len={:?} q={} panic={}{} bad={:?} full={} ret={} got=",
            o.tid, o.iter, o.k, o.n, o.ended as u8, o.begin, o.ann, o.q, o.panicked as u8, o.expected as u8, o.bad, o.cons_full as u8, (o.ret > 0) as u8
        );
        for x in h.dl.iter().filter(|x| x.op as usize == i) {
            let _ = write!(s, "{}@{}+{} ", x.val as i64, x.idx, x.off);
        }
        s.push('\n');
    }
    let _ = writeln!(s, "rest {:?} full={}", h.seq_rest.iter().map(|x| x.val as i64).collect::<Vec<_>>(), h.rest_full);
    let _ = writeln!(s, "hung {}", hung as u8);
    if mem {
        let l = &g().ledger;
        let mut m: Vec<(u32, bool, u32, u32)> = l.insts.iter().map(|x| (x.val, x.parent != NONE, x.outs, x.drops)).collect();
        m.sort();
        let _ = writeln!(s, "ledger {m:?} {} {} {}", l.z_made, l.z_dropped, l.z_out);
        let _ = writeln!(s, "live {:?}", (rt::alloc::live().0, rt::alloc::live().1));
        for v in &g().viols {
            let _ = writeln!(s, "report {}", v.class);
        }
    }
    let _ = scn.elem == Elem::Tok;
    s
}
