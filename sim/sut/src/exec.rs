//! Executes the operations of a scenario on a concurrent iterator.
use crate::elems::*;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use rt::hist::*;
use rt::ledger::Injected;
use rt::scn::{Cons, Op, Scn};
use rt::sched::{set_act, Pause};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Con: ConcurrentIter<Item = <Self as Con>::It> + AtomicIter<<Self as Con>::It> + Sized {
    type It: Obs;
    fn try_clone(&self) -> Option<Self> {
        None
    }
}
impl<'a, T: El> Con for ConIterOfSlice<'a, T> {
    type It = &'a T;
    fn try_clone(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Con for ConIterOfRange<usize> {
    type It = usize;
    fn try_clone(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl<T: Obs> Con for ConIterOfVec<T> {
    type It = T;
}
impl<const N: usize, T: Obs> Con for ConIterOfArray<N, T> {
    type It = T;
}
impl<T: Obs, I: Iterator<Item = T>> Con for ConIterOfIter<T, I> {
    type It = T;
}
impl<'a, T: El, C: Con<It = &'a T>> Con for Cloned<'a, T, C> {
    type It = T;
}
impl<'a, T: El + Copy, C: Con<It = &'a T>> Con for Copied<'a, T, C> {
    type It = T;
}

/// What one simulated caller owns.
pub struct Local<T> {
    pub keep: bool,
    pub stash: Vec<(T, u64, usize)>,
    pub cap: usize,
}
impl<T: Obs> Local<T> {
    pub fn new(s: &Scn) -> Self {
        let len = if s.len > 100_000 { 64 } else { s.len };
        Local { keep: s.keep, stash: Vec::new(), cap: 60 + 4 * len }
    }
    fn take(&mut self, v: T, op: usize, idx: i128, off: i64) {
        {
            let p = Pause::new();
            let o = v.ob();
            v.arrived();
            deliver(op, o.val, idx, off, o.addr, o.inst);
            if self.keep {
                self.stash.push((v, o.val, o.addr));
                return;
            }
            drop(p);
        }
        drop(v);
    }
    /// everything received is still what it was when it was received
    pub fn check_stash(&self) {
        let _p = Pause::new();
        for (v, val, addr) in &self.stash {
            v.alive();
            let o = v.ob();
            if o.val != *val || o.addr != *addr {
                rt::sched::violation("ledger-held", format!("a delivered element changed from {val} to {}", o.val as i64));
            }
        }
    }
}

/// Runs one call into the crate; true if it unwound.
fn guarded(i: usize, prev: i32, expect: bool, f: impl FnOnce()) -> bool {
    let was = set_act(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_act(was);
    match r {
        Ok(()) => {
            if expect {
                op_bad(i, "a chunk size of zero was accepted");
            }
            op_end(i, prev);
            false
        }
        Err(p) => {
            let inj = p.is::<Injected>();
            drop(p);
            op_cons(i, false);
            op_panicked(i, inj, expect);
            set_cur_op(prev);
            true
        }
    }
}

fn hint_ok<I: ExactSizeIterator>(v: &I, left: usize, op: usize) {
    let _p = Pause::new();
    let l = v.len();
    if l != left {
        op_bad(op, &format!("chunk announces {l} more elements where {left} are left"));
    }
    let (lo, hi) = v.size_hint();
    if lo > left || hi.is_some_and(|h| h < left) {
        op_bad(op, &format!("chunk size hint ({lo}, {hi:?}) excludes the {left} elements left"));
    }
}

/// Consumes a chunk (`skip` of its elements have been taken already).
fn consume<T: Obs, I: ExactSizeIterator<Item = T>>(mut v: I, op: usize, ann: usize, skip: usize, c: Cons, l: &mut Local<T>) {
    let mut off = skip;
    let left0 = ann - skip.min(ann);
    if left0 > 1 << 40 && c.take > 1 << 20 {
        op_bad(op, "chunk of an impossible length");
        op_cons(op, false);
        return;
    }
    if c.take < left0 && !matches!(c.style, 4 | 5 | 6 | 11) {
        op_cons(op, false);
        match c.style {
            1 => v.by_ref().take(c.take).for_each(|x| {
                l.take(x, op, -1, off as i64);
                off += 1;
            }),
            3 => {
                let w: Vec<T> = v.by_ref().take(c.take).collect();
                for x in w {
                    l.take(x, op, -1, off as i64);
                    off += 1;
                }
            }
            _ => {
                for _ in 0..c.take {
                    hint_ok(&v, ann - off, op);
                    if let Some(x) = v.next() {
                        l.take(x, op, -1, off as i64);
                        off += 1;
                    } else {
                        op_bad(op, "chunk ended early");
                        break;
                    }
                }
            }
        }
        hint_ok(&v, ann - off, op);
        if c.style == 8 {
            caller_panics();
        }
        if c.style == 10 {
            op_forgot(op);
            std::mem::forget(v);
        }
        return;
    }
    match c.style {
        1 => {
            v.for_each(|x| {
                l.take(x, op, -1, off as i64);
                off += 1;
            });
        }
        2 => {
            off = v.fold(off, |o, x| {
                l.take(x, op, -1, o as i64);
                o + 1
            });
        }
        3 => {
            let w: Vec<T> = v.collect();
            for x in w {
                l.take(x, op, -1, off as i64);
                off += 1;
            }
        }
        4 => {
            // skips every other element
            op_cons(op, false);
            loop {
                hint_ok(&v, ann.saturating_sub(off), op);
                match v.nth(1) {
                    Some(x) => {
                        l.take(x, op, -1, off as i64 + 1);
                        off += 2;
                    }
                    None => break,
                }
            }
            if v.len() != 0 {
                op_bad(op, "chunk announces elements after its end");
            }
            return;
        }
        5 => {
            op_cons(op, false);
            let k = v.count();
            if k != left0 {
                op_bad(op, &format!("chunk announced {left0} elements, count() found {k}"));
            }
            return;
        }
        6 => {
            op_cons(op, false);
            match v.last() {
                Some(x) => l.take(x, op, -1, ann as i64 - 1),
                None => {
                    if left0 != 0 {
                        op_bad(op, "last() of a non-empty chunk is None");
                    }
                }
            }
            return;
        }
        8 => {
            op_cons(op, false);
            caller_panics();
        }
        9 => {
            op_cons(op, false);
            // next, nth(2), nth(0), then the rest
            for (k, step) in [(0usize, 1usize), (2, 3), (0, 1)] {
                hint_ok(&v, ann.saturating_sub(off), op);
                match v.nth(k) {
                    Some(x) => {
                        l.take(x, op, -1, (off + k) as i64);
                        off += step;
                    }
                    None => {
                        if off + k < ann {
                            op_bad(op, "nth() of a chunk is None before its end");
                        }
                        off = ann;
                    }
                }
            }
            hint_ok(&v, ann.saturating_sub(off), op);
            v.for_each(|x| {
                l.take(x, op, -1, off as i64);
                off += 1;
            });
            if off != ann {
                op_bad(op, &format!("chunk announced {left0} elements and ended at {}", off - skip));
            }
            return;
        }
        11 => {
            op_cons(op, false);
            // one element, then far beyond the end
            for _ in 0..c.take.min(2).min(left0) {
                if let Some(x) = v.next() {
                    l.take(x, op, -1, off as i64);
                    off += 1;
                }
            }
            hint_ok(&v, ann - off, op);
            let far = if c.take % 2 == 0 { usize::MAX } else { ann };
            if v.nth(far).is_some() {
                op_bad(op, "nth() beyond the end of a chunk yields an element");
            }
            hint_ok(&v, 0, op);
            if v.next().is_some() {
                op_bad(op, "a chunk yields an element after its end");
            }
            return;
        }
        7 => {
            for (k, x) in v.enumerate() {
                l.take(x, op, -1, (skip + k) as i64);
                off += 1;
            }
        }
        _ => {
            loop {
                hint_ok(&v, ann.saturating_sub(off), op);
                match v.next() {
                    Some(x) => {
                        l.take(x, op, -1, off as i64);
                        off += 1;
                    }
                    None => break,
                }
                if off > ann + 4 {
                    break;
                }
            }
            if off == ann && v.next().is_some() {
                off += 1;
            }
        }
    }
    if off != ann {
        op_bad(op, &format!("chunk announced {} elements and yielded {}", left0, off - skip));
    }
}

/// the caller's own code panics while it holds the chunk
pub fn caller_panics() -> ! {
    {
        let _p = Pause::new();
        rt::sched::g().stats.panics_caller += 1;
    }
    std::panic::panic_any(Injected)
}

/// One chunk in hand: consume it, possibly with another operation in between.
fn chunk<T: Obs, I: ExactSizeIterator<Item = T>>(
    op: usize,
    r: Option<NextChunk<T, I>>,
    hold: Option<(usize, &mut dyn FnMut(&mut Local<T>))>,
    c: Cons,
    l: &mut Local<T>,
) -> bool {
    match r {
        None => {
            op_ret(op, true, None, None);
            true
        }
        Some(ch) => {
            let ann = ch.values.len();
            op_ret(op, false, Some(ch.begin_idx), Some(ann));
            let mut v = ch.values;
            let mut skip = 0;
            if let Some((a, inner)) = hold {
                while skip < a {
                    match v.next() {
                        Some(x) => {
                            l.take(x, op, -1, skip as i64);
                            skip += 1;
                        }
                        None => break,
                    }
                }
                let was = set_act(false);
                inner(l);
                set_act(was);
                set_cur_op(op as i32);
            }
            consume(v, op, ann, skip, c, l);
            false
        }
    }
}

/// ended?
fn single<C: Con>(c: &C, id: u16, via: u8, l: &mut Local<C::It>) -> bool {
    let prev = cur_op();
    let i = op_begin(id, K::Single, 1);
    let mut end = false;
    guarded(i, prev, false, || {
        let r = match via {
            1 => c.next_id_and_value().map(|x| (x.idx as i128, x.value)),
            2 => c.values().next().map(|x| (-1, x)),
            3 => c.ids_and_values().next().map(|x| (x.0 as i128, x.1)),
            4 => {
                op_low(i);
                c.fetch_one().map(|x| (x.idx as i128, x.value))
            }
            _ => ConcurrentIter::next(c).map(|x| (-1, x)),
        };
        match r {
            Some((idx, v)) => {
                op_ret(i, false, if idx >= 0 { Some(idx as usize) } else { None }, Some(1));
                l.take(v, i, idx, 0)
            }
            None => {
                end = true;
                op_ret(i, true, None, None)
            }
        }
    });
    end
}

fn one_chunk<C: Con>(
    c: &C,
    id: u16,
    low: bool,
    n: usize,
    hold: Option<(usize, &mut dyn FnMut(&mut Local<C::It>))>,
    cons: Cons,
    l: &mut Local<C::It>,
) -> bool {
    let prev = cur_op();
    let i = op_begin(id, K::Chunk, n);
    let mut end = false;
    guarded(i, prev, false, || {
        end = if low {
            op_low(i);
            chunk(i, c.fetch_n(n), hold, cons, l)
        } else {
            chunk(i, c.next_chunk(n), hold, cons, l)
        };
    });
    end
}

/// an operation to run inside the `at`-th invocation of a closure
type Within<'x, T> = Option<(usize, &'x mut dyn FnMut(&mut Local<T>))>;
fn within<T>(w: &mut Within<T>, op: usize, l: &mut Local<T>) {
    if let Some((at, f)) = w {
        if *at > 0 {
            *at -= 1;
        } else {
            let was = set_act(false);
            f(l);
            set_act(was);
            set_cur_op(op as i32);
            *w = None;
        }
    }
}

fn looped<C: Con>(c: &C, id: u16, k: K, n: usize, l: &mut Local<C::It>) -> bool {
    looped_with(c, id, k, n, None, l)
}
fn looped_with<C: Con>(c: &C, id: u16, k: K, n: usize, mut w: Within<C::It>, l: &mut Local<C::It>) -> bool {
    let prev = cur_op();
    let i = op_begin(id, k, n);
    let mut end = false;
    guarded(i, prev, n == 0, || {
        let mut fold = 0i128;
        match k {
            K::ForEach => c.for_each(n, |v| {
                l.take(v, i, -1, -1);
                within(&mut w, i, l);
                closure();
            }),
            K::EnumForEach => c.enumerate_for_each(n, |idx, v| {
                l.take(v, i, idx as i128, -1);
                within(&mut w, i, l);
                closure();
            }),
            _ => {
                let mut last = 7i128;
                let r = c.fold(n, 7i128, |acc, v| {
                    if acc != last {
                        op_bad(i, "fold passes an accumulator its closure did not return");
                    }
                    last = acc + fold_w(v.ob().val);
                    l.take(v, i, -1, -1);
                    within(&mut w, i, l);
                    closure();
                    last
                });
                if r != last {
                    op_bad(i, "fold returns something its closure did not return");
                }
                fold = r - 7;
            }
        }
        end = true;
        op_q(i, fold);
        op_ret(i, true, None, None);
    });
    end
}
/// a loop over the for-loop adaptors: 0 values().for_each, 1 ids_and_values().for_each, 2 values().collect, 3 ids_and_values().fold
fn adaptor_loop<C: Con>(c: &C, id: u16, how: u8, l: &mut Local<C::It>) -> bool {
    let prev = cur_op();
    let i = op_begin(id, if how == 1 || how == 3 { K::EnumForEach } else { K::ForEach }, 1);
    let mut end = false;
    guarded(i, prev, false, || {
        match how {
            0 => c.values().for_each(|v| {
                l.take(v, i, -1, -1);
                closure();
            }),
            1 => c.ids_and_values().for_each(|(idx, v)| {
                l.take(v, i, idx as i128, -1);
                closure();
            }),
            2 => {
                let w: Vec<C::It> = c.values().collect();
                for v in w {
                    l.take(v, i, -1, -1);
                }
            }
            _ => {
                let n = c.ids_and_values().fold(0usize, |n, (idx, v)| {
                    l.take(v, i, idx as i128, -1);
                    closure();
                    n + 1
                });
                if n > l.cap {
                    op_bad(i, "more elements than the source has");
                }
            }
        }
        end = true;
        op_ret(i, true, None, None);
    });
    end
}
/// several elements from one for-loop adaptor; ended?
fn for_loop<C: Con>(c: &C, id: u16, ids: bool, k: usize, l: &mut Local<C::It>) -> bool {
    let prev = cur_op();
    let was = set_act(true);
    let mut vals = c.values();
    let mut both = c.ids_and_values();
    set_act(was);
    for _ in 0..k {
        let i = op_begin(id, K::Single, 1);
        let mut end = false;
        let unwound = guarded(i, prev, false, || {
            let r = if ids { both.next().map(|x| (x.0 as i128, x.1)) } else { vals.next().map(|x| (-1, x)) };
            match r {
                Some((idx, v)) => {
                    op_ret(i, false, if idx >= 0 { Some(idx as usize) } else { None }, Some(1));
                    l.take(v, i, idx, 0)
                }
                None => {
                    end = true;
                    op_ret(i, true, None, None)
                }
            }
        });
        if end {
            return true;
        }
        if unwound {
            break;
        }
    }
    false
}

/// one call on a for-loop adaptor that goes over several elements
fn pick<C: Con>(c: &C, id: u16, ids: bool, how: u8, k: usize, l: &mut Local<C::It>) {
    let prev = cur_op();
    let i = op_begin(id, K::Pick, k);
    guarded(i, prev, false, || {
        // (number of elements gone over if that is known, the last one if it is seen, whether the end was)
        let (found, last, end) = if ids {
            let mut a = c.ids_and_values();
            let (n, x, e) = picked(&mut a, how, k);
            (n, x.map(|x| (x.0 as i128, x.1)), e)
        } else {
            let mut a = c.values();
            let (n, x, e) = picked(&mut a, how, k);
            (n, x.map(|x| (-1, x)), e)
        };
        op_q(i, found);
        op_ret(i, end, None, None);
        if let Some((idx, v)) = last {
            l.take(v, i, idx, 0);
        }
    });
}
fn picked<I: Iterator>(a: &mut I, how: u8, k: usize) -> (i128, Option<I::Item>, bool) {
    match how {
        0 => {
            let x = a.nth(k);
            let end = x.is_none();
            (if end { -1 } else { k as i128 + 1 }, x, end)
        }
        1 => {
            let n = a.take(k).count();
            (n as i128, None, n < k)
        }
        2 => (-1, a.take(k).last(), false),
        3 => (a.count() as i128, None, true),
        _ => (-1, a.last(), true),
    }
}

/// weight of a value in the folded sum (also used by the oracle)
pub fn fold_w(v: u64) -> i128 {
    (rt::rng::Rng::new(v).next() >> 8) as i128
}

fn drain<C: Con>(c: &C, id: u16, via: u8, n: usize, extra: usize, l: &mut Local<C::It>) {
    let mut left = l.cap;
    let mut after = 0;
    let mut cont = |end: bool| {
        left -= 1;
        if left == 0 {
            note("drain gave up before an end was reported".into());
        }
        if end {
            after += 1;
        }
        left > 0 && after <= extra
    };
    let all = Cons { style: (n % 4) as u8, take: usize::MAX };
    match via {
        0 => while cont(single(c, id, 0, l)) {},
        1 => while cont(single(c, id, 1, l)) {},
        2 => while cont(one_chunk(c, id, false, n, None, all, l)) {},
        3 => {
            let prev = cur_op();
            let i = op_begin(id, K::NewBuf, n);
            let mut b = None;
            guarded(i, prev, n == 0, || b = Some(c.buffered_iter(n)));
            if let Some(b) = &mut b {
                loop {
                    let i = op_begin(id, K::BufChunk, n);
                    let mut end = false;
                    guarded(i, prev, false, || end = chunk(i, b.next(), None, all, l));
                    if !cont(end) {
                        break;
                    }
                }
            }
            let was = set_act(true);
            drop(b);
            set_act(was);
        }
        4 => while cont(single(c, id, 2, l)) {},
        5 => while cont(single(c, id, 3, l)) {},
        6 => while cont(looped(c, id, K::ForEach, n, l)) {},
        7 => while cont(looped(c, id, K::EnumForEach, n, l)) {},
        8 => while cont(looped(c, id, K::Fold, n, l)) {},
        9 => while cont(single(c, id, 4, l)) {},
        11 => while cont(adaptor_loop(c, id, 0, l)) {},
        12 => while cont(adaptor_loop(c, id, 1, l)) {},
        13 => while cont(adaptor_loop(c, id, 2, l)) {},
        14 => while cont(adaptor_loop(c, id, 3, l)) {},
        15 => while cont(for_loop(c, id, false, n.clamp(1, 1 << 17), l)) {},
        16 => while cont(for_loop(c, id, true, n.clamp(1, 1 << 17), l)) {},
        _ => while cont(one_chunk(c, id, true, n, None, all, l)) {},
    }
}

fn simple<C: Con>(c: &C, id: u16, op: &Op, l: &mut Local<C::It>) {
    match op {
        Op::Next => drop(single(c, id, 0, l)),
        Op::NextId => drop(single(c, id, 1, l)),
        Op::Fetch1 => drop(single(c, id, 4, l)),
        Op::Chunk { n, c: k } => drop(one_chunk(c, id, false, *n, None, *k, l)),
        Op::FetchN { n, c: k } => drop(one_chunk(c, id, true, *n, None, *k, l)),
        Op::Hold { n, a, inner, c: k } => {
            let mut f = |l: &mut Local<C::It>| simple(c, id, inner, l);
            drop(one_chunk(c, id, false, *n, Some((*a, &mut f)), *k, l));
        }
        Op::LoopIn { kind, n, at, inner } => {
            let mut f = |l: &mut Local<C::It>| simple(c, id, inner, l);
            let k = match kind {
                0 => K::ForEach,
                1 => K::EnumForEach,
                _ => K::Fold,
            };
            drop(looped_with(c, id, k, *n, Some((*at, &mut f)), l))
        }
        // odd: one adaptor for all of them; even: a new one for each
        Op::Pick { ids, how, k } => pick(c, id, *ids, *how, *k, l),
        Op::Values { k } if k % 2 == 1 => drop(for_loop(c, id, false, *k, l)),
        Op::Ids { k } if k % 2 == 1 => drop(for_loop(c, id, true, *k, l)),
        Op::Values { k } => {
            for _ in 0..(*k).min(l.cap) {
                if single(c, id, 2, l) {
                    break;
                }
            }
        }
        Op::Ids { k } => {
            for _ in 0..(*k).min(l.cap) {
                if single(c, id, 3, l) {
                    break;
                }
            }
        }
        Op::ForEach { n } => drop(looped(c, id, K::ForEach, *n, l)),
        Op::Enum { n } => drop(looped(c, id, K::EnumForEach, *n, l)),
        Op::Fold { n } => drop(looped(c, id, K::Fold, *n, l)),
        Op::Skip | Op::Exit => {
            let prev = cur_op();
            let i = op_begin(id, K::Skip, 0);
            guarded(i, prev, false, || {
                if *op == Op::Exit {
                    op_low(i);
                    c.early_exit()
                } else {
                    c.skip_to_end()
                }
                op_ret(i, false, None, None);
            });
        }
        Op::Len => {
            let prev = cur_op();
            let i = op_begin(id, K::Len, 0);
            guarded(i, prev, false, || {
                let r = c.try_get_len();
                op_q(i, r.map_or(-1, |x| x as i128));
                op_ret(i, false, None, None);
            });
        }
        Op::More => {
            let prev = cur_op();
            let i = op_begin(id, K::HasMore, 0);
            guarded(i, prev, false, || {
                let r = c.has_more();
                op_q(
                    i,
                    match r {
                        HasMore::Yes(0) => {
                            op_bad(i, "has_more is Yes(0)");
                            0
                        }
                        HasMore::Yes(n) => n as i128,
                        HasMore::Maybe => -1,
                        HasMore::No => 0,
                    },
                );
                op_ret(i, false, None, None);
            });
        }
        Op::Drain { via, n, extra } => drain(c, id, *via, *n, *extra, l),
        Op::Buf { .. } | Op::BufNext { .. } | Op::BufHold { .. } | Op::BufDrop | Op::BufUnwind | Op::Iter { .. } | Op::CloneIt => {}
    }
}

/// All operations of one caller.
pub fn run_ops<C: Con>(its: &[*const C], ops: &[Op], l: &mut Local<C::It>) {
    let get = |i: usize| -> &C { unsafe { &*its[i.min(its.len() - 1)] } };
    let mut cur: &C = get(0);
    let mut id = 0u16;
    let mut clones: Vec<*mut C> = Vec::new();
    let mut buf = None;
    let (mut bn, mut bid) = (0usize, 0u16);
    for op in ops {
        match op {
            Op::Iter { i } => {
                cur = get(*i);
                id = (*i).min(its.len() - 1) as u16;
            }
            Op::CloneIt => {
                let prev = cur_op();
                let i = op_begin(id, K::Clone, 0);
                let mut nc = None;
                guarded(i, prev, false, || {
                    nc = cur.try_clone();
                    op_ret(i, false, None, None);
                });
                match nc {
                    Some(x) => {
                        let p = Box::into_raw(Box::new(x));
                        clones.push(p);
                        cur = unsafe { &*p };
                        id = new_iter_id();
                        op_q(i, id as i128);
                    }
                    None => op_q(i, -1),
                }
            }
            Op::Buf { n } => {
                let prev = cur_op();
                let i = op_begin(id, K::NewBuf, *n);
                let old = buf.take();
                guarded(i, prev, *n == 0, || {
                    drop(old);
                    buf = Some(cur.buffered_iter(*n));
                });
                bn = *n;
                bid = id;
            }
            Op::BufDrop => {
                let was = set_act(true);
                let old = buf.take();
                let _ = catch_unwind(AssertUnwindSafe(|| drop(old)));
                set_act(was);
            }
            Op::BufUnwind => {
                let old = buf.take();
                if old.is_some() {
                    let was = set_act(true);
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        let _old = old;
                        caller_panics()
                    }));
                    set_act(was);
                }
            }
            Op::BufNext { c } => {
                if let Some(b) = &mut buf {
                    let prev = cur_op();
                    let i = op_begin(bid, K::BufChunk, bn);
                    guarded(i, prev, false, || drop(chunk(i, b.next(), None, *c, l)));
                }
            }
            Op::BufHold { a, inner, c } => {
                if let Some(b) = &mut buf {
                    let prev = cur_op();
                    let i = op_begin(bid, K::BufChunk, bn);
                    let mut f = |l: &mut Local<C::It>| simple(cur, id, inner, l);
                    guarded(i, prev, false, || drop(chunk(i, b.next(), Some((*a, &mut f)), *c, l)));
                }
            }
            _ => simple(cur, id, op, l),
        }
    }
    let was = set_act(true);
    let old = buf.take();
    let _ = catch_unwind(AssertUnwindSafe(|| drop(old)));
    for p in clones {
        unsafe { drop(Box::from_raw(p)) };
    }
    set_act(was);
}
