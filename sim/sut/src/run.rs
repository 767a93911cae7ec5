//! One simulated execution: build the source, run the callers, end the iterator, verify what is left.
use crate::elems::*;
use crate::exec::*;
use crate::probe::*;
use orx_concurrent_iter::*;
use rt::hist::*;
use rt::ledger::Injected;
use rt::scn::{Elem, End, Kind, Scn, Src};
use rt::sched::{g, set_act, spawn_join, violation, Pause};
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Slot<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Slot<T> {}
struct Ptr<T>(*const T);
unsafe impl<T> Sync for Ptr<T> {}

/// calls into the crate from the main thread; a panic is a violation unless injected
fn call(i: usize, f: impl FnOnce()) -> bool {
    let was = set_act(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_act(was);
    match r {
        Ok(()) => {
            op_end(i, -1);
            true
        }
        Err(p) => {
            let inj = p.is::<Injected>();
            drop(p);
            op_panicked(i, inj, false);
            set_cur_op(-1);
            false
        }
    }
}

fn harness(f: impl FnOnce()) {
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
        let m = g().last_panic.clone();
        std::mem::forget(p);
        set_act(false);
        violation("harness", format!("the harness panicked: {m}"));
    }
}

/// `make` creates the shared iterators.
fn drive<C: Con>(scn: &Scn, make: &mut dyn FnMut() -> C) {
    let mut its: Vec<*mut C> = vec![];
    for _ in 0..scn.niter.max(1) {
        let was = set_act(true);
        let it = make();
        set_act(was);
        its.push(Box::into_raw(Box::new(it)));
        new_iter_id();
    }
    let s = g();
    s.region = (its[0] as usize, its[0] as usize + std::mem::size_of::<C>());
    let shared: Vec<*const C> = its.iter().map(|p| *p as *const C).collect();
    let nt = scn.threads.len();
    let slots: Vec<Slot<Local<C::It>>> = (0..nt + 1).map(|_| Slot(UnsafeCell::new(Local::new(scn)))).collect();
    let sh = Ptr(&shared as *const Vec<*const C>);
    let sh = &sh;
    s.hist.phase = 0;
    harness(|| run_ops::<C>(unsafe { &*sh.0 }, &scn.pre, unsafe { &mut *slots[0].0.get() }));
    if nt > 0 {
        g().hist.phase = 1;
        let slots = &slots;
        spawn_join(nt, &|t| {
            harness(|| run_ops::<C>(unsafe { &*sh.0 }, &scn.threads[t - 1], unsafe { &mut *slots[t].0.get() }));
        });
    }
    g().hist.phase = 2;
    harness(|| run_ops::<C>(unsafe { &*sh.0 }, &scn.post, unsafe { &mut *slots[0].0.get() }));
    g().hist.phase = 3;
    for s in &slots {
        unsafe { &*s.0.get() }.check_stash();
    }
    // every iterator but the first is simply dropped
    let mut rest = its.split_off(1);
    let first = its[0];
    match scn.end {
        End::Drop => {
            let b = unsafe { Box::from_raw(first) };
            let i = op_begin(0, K::DropIter, 0);
            call(i, || drop(*b));
        }
        End::DropElsewhere => {
            let b = Slot(UnsafeCell::new(Some(unsafe { Box::from_raw(first) })));
            let b = &b;
            spawn_join(1, &|_| {
                let x = unsafe { &mut *b.0.get() }.take();
                let i = op_begin(0, K::DropIter, 0);
                call(i, move || drop(*x.expect("box")));
            });
        }
        End::DropUnwind => {
            let b = unsafe { Box::from_raw(first) };
            let i = op_begin(0, K::DropIter, 0);
            call(i, || {
                let _b = b;
                caller_panics()
            });
        }
        End::Seq { take, style } => {
            let b = unsafe { Box::from_raw(first) };
            let i = op_begin(0, K::IntoSeq, 0);
            let n = if scn.len > 100_000 { 64 } else { scn.len + 20 };
            let keep = &slots[0];
            // styles that run to the end need one
            let style = if take == usize::MAX && n > 64 && scn.len > 100_000 { 0 } else { style };
            call(i, || {
                let mut it = (*b).into_seq_iter();
                op_ret(i, false, None, None);
                {
                    let h = it.size_hint();
                    let _p = Pause::new();
                    g().hist.rest_hint = h;
                }
                let get = |v: C::It| {
                    let l = unsafe { &mut *keep.0.get() };
                    let p = Pause::new();
                    let o = v.ob();
                    v.arrived();
                    deliver_rest(o.val, o.addr, o.inst);
                    if l.keep {
                        l.stash.push((v, o.val, o.addr));
                    } else {
                        drop(p);
                        drop(v);
                    }
                };
                let all = take == usize::MAX;
                match style {
                    1 if all => {
                        it.for_each(get);
                        g().hist.rest_full = true;
                    }
                    1 => it.by_ref().take(take).for_each(get),
                    2 => {
                        let v: Vec<C::It> = it.by_ref().take(take).collect();
                        let m = v.len();
                        v.into_iter().for_each(get);
                        g().hist.rest_full = m < take;
                    }
                    3 if all => {
                        it.fold((), |_, v| get(v));
                        g().hist.rest_full = true;
                    }
                    5 | 6 if all => {
                        // two in hand, the others only counted
                        let mut m = 0;
                        for v in it.by_ref().take(2) {
                            get(v);
                            m += 1;
                        }
                        let m = m + if style == 5 {
                            it.count()
                        } else {
                            let mut k = 0;
                            it.inspect(|_| k += 1).last();
                            k
                        };
                        g().hist.rest_count = Some(m);
                    }
                    _ => {
                        let mut k = 0;
                        while k < take {
                            match if style == 4 && k % 2 == 1 { it.nth(0) } else { it.next() } {
                                Some(v) => {
                                    get(v);
                                    k += 1;
                                }
                                None => {
                                    g().hist.rest_full = true;
                                    break;
                                }
                            }
                            if k > n {
                                break;
                            }
                        }
                    }
                }
            });
        }
    }
    for p in rest.drain(..) {
        let b = unsafe { Box::from_raw(p) };
        let i = op_begin(99, K::DropIter, 0);
        call(i, || drop(*b));
    }
    for s in slots {
        let l = s.0.into_inner();
        l.check_stash();
        let was = set_act(true);
        drop(l);
        set_act(was);
    }
}

fn build<T: El>(scn: &Scn, src: &Src) -> Vec<T> {
    if src.huge() {
        // zero-sized elements without destructor, too many to be made one by one
        assert!(std::mem::size_of::<T>() == 0 && !std::mem::needs_drop::<T>());
        let mut v = Vec::new();
        unsafe { v.set_len(src.n) };
        return v;
    }
    let was = set_act(true);
    let mut v = Vec::with_capacity(src.n + scn.cap);
    for x in &src.vals {
        v.push(T::make(*x));
    }
    set_act(was);
    v
}
fn ghosts<T: El>(scn: &Scn) -> Vec<T> {
    let was = set_act(true);
    let mut v = Vec::new();
    if scn.nonfused {
        for k in 0..12u32 {
            v.push(T::make(1_000_000 + k));
        }
    }
    set_act(was);
    v
}

/// the borrowed collection is intact, and may be dropped from now on
fn verify<T: El>(v: &[T], src: &Src) {
    let _p = Pause::new();
    // (of too many indistinguishable elements a few will do)
    for (i, x) in v.iter().enumerate().take(if src.huge() { 8 } else { 1 << 20 }) {
        x.alive();
        let e = src.val_at(i).unwrap_or(0);
        if x.peek() != e {
            violation("borrow", format!("element {i} of the borrowed collection changed from {e} to {}", x.peek()));
        }
    }
    g().ledger.collection_phase = true;
}
fn borrowed<T: El>(scn: &Scn, src: &Src, f: impl FnOnce(&Vec<T>)) {
    let v = build::<T>(scn, src);
    {
        let _p = Pause::new();
        g().ledger.borrowed = true;
        g().hist.src_addr = v.iter().take(if src.huge() { 8 } else { 1 << 20 }).map(|x| x as *const T as usize).collect();
    }
    f(&v);
    if v.len() != src.n {
        violation("borrow", "the length of the borrowed collection changed".into());
    }
    verify(&v, src);
    let was = set_act(true);
    drop(v);
    set_act(was);
}

fn slice_iter<'a, T: El>(v: &'a Vec<T>, how: u64) -> ConIterOfSlice<'a, T> {
    fn arr<const N: usize, T: El>(v: &[T]) -> ConIterOfSlice<'_, T> {
        let a: &[T; N] = v.try_into().expect("len");
        a.con_iter()
    }
    match (how % 7, v.len()) {
        (1, _) => v.as_slice().into_con_iter(),
        (2, _) => ConIterOfSlice::new(v),
        (4, _) => ConIterOfSlice::from(v.as_slice()),
        (5, _) => {
            // borrows the slice reference itself
            let r: &'a &'a [T] = {
                let _p = Pause::new();
                Box::leak(Box::new(v.as_slice()))
            };
            r.con_iter()
        }
        (3, 0) => arr::<0, T>(v),
        (3, 2) => arr::<2, T>(v),
        (3, 3) => arr::<3, T>(v),
        (3, 5) => arr::<5, T>(v),
        (3, 8) => arr::<8, T>(v),
        (3, 13) => arr::<13, T>(v),
        _ => v.con_iter(),
    }
}

/// an array of references to the elements of `v`
fn refs<const N: usize, T>(v: &[T]) -> [&T; N] {
    std::array::from_fn(|i| &v[i])
}
/// the collections behind the slice kinds
macro_rules! by_base {
    ($scn:expr, $v:expr, $f:expr) => {{
        let (scn, v) = ($scn, $v);
        let mut k = scn.perm;
        match (scn.base, v.len()) {
            (2, 1) => drive(scn, &mut || $f(refs::<1, _>(v).into_con_iter())),
            (2, 2) => drive(scn, &mut || $f(refs::<2, _>(v).into_con_iter())),
            (2, 4) => drive(scn, &mut || $f(refs::<4, _>(v).into_con_iter())),
            (2, 6) => drive(scn, &mut || $f(refs::<6, _>(v).into_con_iter())),
            (0, _) => drive(scn, &mut || {
                k += 1;
                $f(slice_iter(v, k))
            }),
            _ => drive(scn, &mut || $f(v.iter().collect::<Vec<_>>().into_con_iter())),
        }
    }};
}

fn by_elem<T: El>(scn: &Scn, src: &Src) {
    match scn.kind {
        Kind::Slice => borrowed::<T>(scn, src, |v| by_base!(scn, v, |x| x)),
        Kind::SliceCloned => borrowed::<T>(scn, src, |v| by_base!(scn, v, IntoCloned::cloned)),
        Kind::Vec => {
            let mut k = scn.perm;
            drive(scn, &mut || {
                k += 1;
                let v = build::<T>(scn, src);
                match k % 4 {
                    0 => ConIterOfVec::new(v),
                    1 => ConIterOfVec::from(v),
                    _ => v.into_con_iter(),
                }
            })
        }
        Kind::Iter => {
            let mut k = scn.perm;
            drive(scn, &mut || {
                k += 1;
                let p = Probe::new(build::<T>(scn, src).into_iter(), src.n, scn.hint, ghosts::<T>(scn));
                match k % 4 {
                    0 => ConIterOfIter::new(p),
                    1 => ConIterOfIter::from(p),
                    _ => p.into_con_iter(),
                }
            })
        }
        Kind::IterStd => {
            drive(scn, &mut || IterIntoConcurrentIter::into_con_iter(build::<T>(scn, src).into_iter()))
        }
        Kind::IterRef | Kind::IterRefCloned => {
            let gh = ghosts::<T>(scn);
            borrowed::<T>(scn, src, |v| {
                let mk = || Probe::new(v.iter(), src.n, scn.hint, gh.iter().collect()).into_con_iter();
                if scn.kind == Kind::IterRef {
                    drive(scn, &mut || mk())
                } else {
                    drive(scn, &mut || IntoCloned::cloned(mk()))
                }
            });
            let was = set_act(true);
            drop(gh);
            set_act(was);
        }
        _ => unreachable!(),
    }
}

pub const ARRAY_LENS: [usize; 8] = [0, 1, 2, 3, 5, 8, 17, 64];
fn array<const N: usize, T: El>(scn: &Scn, src: &Src) {
    let mut k = scn.perm;
    drive(scn, &mut || {
        k += 1;
        let v = build::<T>(scn, src);
        let a: Result<[T; N], Vec<T>> = v.try_into();
        let a = a.ok().expect("array length");
        match k % 4 {
            0 => ConIterOfArray::new(a),
            1 => ConIterOfArray::from(a),
            _ => a.into_con_iter(),
        }
    })
}

#[inline(never)]
pub fn run(scn: &Scn) {
    let src = scn.src();
    match scn.kind {
        Kind::Range => {
            let r = scn.start..scn.end_;
            drive(scn, &mut || match scn.perm % 4 {
                0 => r.con_iter(),
                1 => ConIterOfRange::new(r.clone()),
                2 => ConIterOfRange::from(r.clone()),
                _ => IntoConcurrentIter::into_con_iter(r.clone()),
            });
            if r.start != scn.start || r.end != scn.end_ {
                violation("borrow", "the range changed".into());
            }
        }
        Kind::IterInf => {
            drive(scn, &mut || Inf::new(scn.hint).into_con_iter())
        }
        Kind::SliceCopied => borrowed::<Ct>(scn, &src, |v| by_base!(scn, v, IntoCopied::copied)),
        Kind::IterRefCopied => {
            let gh = ghosts::<Ct>(scn);
            borrowed::<Ct>(scn, &src, |v| {
                let mk = || Probe::new(v.iter(), src.n, scn.hint, gh.iter().collect()).into_con_iter();
                drive(scn, &mut || IntoCopied::copied(mk()))
            });
            let was = set_act(true);
            drop(gh);
            set_act(was);
        }
        Kind::Array => match (scn.elem, scn.len) {
            (Elem::Tok, 0) => array::<0, Tok>(scn, &src),
            (Elem::Tok, 1) => array::<1, Tok>(scn, &src),
            (Elem::Tok, 2) => array::<2, Tok>(scn, &src),
            (Elem::Tok, 3) => array::<3, Tok>(scn, &src),
            (Elem::Tok, 5) => array::<5, Tok>(scn, &src),
            (Elem::Tok, 8) => array::<8, Tok>(scn, &src),
            (Elem::Tok, 17) => array::<17, Tok>(scn, &src),
            (Elem::Tok, 64) => array::<64, Tok>(scn, &src),
            (Elem::Boxed, 1) => array::<1, Bx>(scn, &src),
            (Elem::Boxed, 3) => array::<3, Bx>(scn, &src),
            (Elem::Boxed, 5) => array::<5, Bx>(scn, &src),
            (Elem::Small, 5) => array::<5, Sm>(scn, &src),
            (Elem::Plain, 3) => array::<3, Ct>(scn, &src),
            (Elem::Plain, 5) => array::<5, Ct>(scn, &src),
            (Elem::Unit, 5) => array::<5, Un>(scn, &src),
            (Elem::Zst, 3) => array::<3, Zs>(scn, &src),
            (Elem::Zst, 5) => array::<5, Zs>(scn, &src),
            (Elem::Large, 3) => array::<3, Lg>(scn, &src),
            (Elem::Large, 5) => array::<5, Lg>(scn, &src),
            x => panic!("no array of {x:?}"),
        },
        _ => match scn.elem {
            Elem::Tok => by_elem::<Tok>(scn, &src),
            Elem::Boxed => by_elem::<Bx>(scn, &src),
            Elem::Zst => by_elem::<Zs>(scn, &src),
            Elem::Large => by_elem::<Lg>(scn, &src),
            Elem::Small => by_elem::<Sm>(scn, &src),
            Elem::Plain => by_elem::<Ct>(scn, &src),
            Elem::Unit => by_elem::<Un>(scn, &src),
        },
    }
}
