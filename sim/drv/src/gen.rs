//! Seed -> scenario, one profile per property.
use rt::rng::Rng;
use rt::scn::*;
use rt::sched::Strat;

#[derive(Clone)]
struct Cfg {
    /// relative weights: single, chunk, buffered, loops, low-level, queries, skip, clone, zero-chunk
    w: [usize; 9],
    /// chance (of 100) that a chunk is abandoned / held
    abandon: usize,
    hold: usize,
    drain: bool,
    extra: usize,
    big: bool,
    /// consumption styles that skip elements are allowed
    lossy: bool,
    /// unbounded or astronomically long source: no drains, no loops, bounded consumption
    endless: bool,
    len: usize,
    extreme: bool,
    start: usize,
    chunks: Vec<usize>,
    niter: usize,
    /// callers may panic while they hold a chunk or a buffer
    unwind: bool,
    /// calls on the for-loop adaptors that go over several elements
    pick: bool,
    /// callers may forget a chunk
    forget: bool,
    /// operations inside closures
    nest: bool,
}

fn strat(r: &mut Rng, nt: usize) -> Strat {
    match r.below(12) {
        0 => Strat::Random { den: 1 },
        1 | 2 => Strat::Random { den: 2 },
        3 | 4 => Strat::Random { den: r.range(3, 8) as u32 },
        5 | 6 => Strat::Pct { d: r.range(1, 5) as u32, k: r.pick(&[15, 40, 80, 160]) },
        7 | 8 => Strat::AfterRmw,
        9 => Strat::Quantum { max: r.range(1, 12) as u32 },
        10 => Strat::Starve { victim: r.range(1, nt.max(1)) as u8 },
        _ => Strat::Coarse { den: r.range(1, 4) as u32 },
    }
}

fn cons(r: &mut Rng, c: &Cfg, n: usize) -> Cons {
    if c.endless {
        return Cons { style: r.pick(&[0, 0, 1, 3]), take: r.below(4) };
    }
    if r.below(100) < c.abandon {
        if c.forget && r.chance(1, 4) {
            return Cons { style: 10, take: r.below(n.min(6) + 1) };
        }
        let styles: &[u8] = if c.unwind { &[0, 1, 3, 8, 8] } else { &[0, 0, 1, 3] };
        return Cons { style: r.pick(styles), take: r.below(n.min(6) + 1) };
    }
    if c.lossy && r.chance(1, 8) {
        let style = r.pick(&[4, 5, 6, 9, 11]);
        return Cons { style, take: if style == 11 { r.below(4) } else { usize::MAX } };
    }
    Cons { style: r.pick(&[0, 0, 0, 1, 2, 3, 7]), take: usize::MAX }
}

fn chunk_size(r: &mut Rng, c: &Cfg) -> usize {
    if c.extreme && r.chance(1, 2) {
        let m = usize::MAX;
        let l = if c.endless { 7 } else { c.len };
        return r.pick(&[
            m,
            m - 1,
            m - 2,
            m / 2,
            m / 2 + 1,
            m / 2 + 2,
            m - l,
            (m - l).saturating_add(1),
            m - l - 1,
            m - c.start,
            (m - c.start).saturating_add(1),
            1 << 32,
            (1 << 32) + 1,
            1 << 31,
            (1 << 16) + 1,
            256,
            m / 3 + 1,
        ])
        .max(1);
    }
    if c.big {
        return r.pick(&[97, 200, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000, 32767, 32768, 65535, 65536, 65537]);
    }
    if r.chance(1, 10) && !c.endless {
        return (c.len + r.below(3)).saturating_sub(1).clamp(1, 300);
    }
    if r.chance(1, 25) {
        return r.pick(&[16, 37, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1024]);
    }
    if r.chance(1, 60) && !c.endless {
        let m = usize::MAX;
        return r.pick(&[2000, 2048, 4096, 5000, 10_000, 1 << 16, (1 << 16) + 1, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 1, m / 2 + 1, m - 1, m]);
    }
    if r.chance(2, 3) {
        r.pick(&c.chunks)
    } else {
        r.range(1, 6)
    }
}

fn inner(r: &mut Rng, c: &Cfg) -> Op {
    let mut d = c.clone();
    d.pick = false;
    d.hold = 0;
    d.w[2] = 0;
    d.w[7] = 0;
    d.w[3] = 0;
    if d.w.iter().sum::<usize>() == 0 {
        return Op::Next;
    }
    loop {
        let mut v = op(r, &d, &mut false);
        if let Some(x) = v.pop() {
            return x;
        }
    }
}

/// one random step (possibly several operations)
fn op(r: &mut Rng, c: &Cfg, buf: &mut bool) -> Vec<Op> {
    let tot: usize = c.w.iter().sum();
    let mut x = r.below(tot.max(1));
    let mut k = 0;
    while k < 8 && x >= c.w[k] {
        x -= c.w[k];
        k += 1;
    }
    match k {
        0 if c.pick && r.chance(1, 8) => {
            // (zero-sized elements without an index leave no trace of how many there were)
            let how = if c.endless { r.below(2) } else { r.below(5) } as u8;
            vec![Op::Pick { ids: r.chance(1, 2), how, k: if how == 1 || how == 2 { r.range(1, 5) } else { r.below(5) } }]
        }
        0 => match r.below(5) {
            0 | 1 => vec![Op::Next],
            2 => vec![Op::NextId],
            3 => vec![Op::Values { k: r.range(1, 5) }],
            _ => vec![Op::Ids { k: r.range(1, 5) }],
        },
        1 => {
            let n = chunk_size(r, c);
            if r.below(100) < c.hold {
                vec![Op::Hold { n, a: r.below(n.min(4) + 1), inner: Box::new(inner(r, c)), c: cons(r, c, n) }]
            } else {
                vec![Op::Chunk { n, c: cons(r, c, n) }]
            }
        }
        2 => {
            let mut v = vec![];
            if !*buf || r.chance(1, 5) {
                if *buf && r.chance(1, 3) {
                    v.push(if c.unwind && r.chance(1, 2) { Op::BufUnwind } else { Op::BufDrop });
                }
                v.push(Op::Buf { n: chunk_size(r, c) });
                *buf = true;
            }
            for _ in 0..r.range(1, 3) {
                if r.below(100) < c.hold {
                    v.push(Op::BufHold { a: r.below(4), inner: Box::new(inner(r, c)), c: cons(r, c, 4) });
                } else {
                    v.push(Op::BufNext { c: cons(r, c, 4) });
                }
            }
            v
        }
        3 => {
            if c.endless {
                return vec![Op::NextId];
            }
            let n = if r.chance(1, 3) && !c.big { 1 } else { chunk_size(r, c) };
            if c.nest && r.chance(1, 4) {
                let at = if r.chance(1, 2) { 0 } else { r.below(c.len.min(12) + 1) };
                return vec![Op::LoopIn { kind: r.below(3) as u8, n, at, inner: Box::new(inner(r, c)) }];
            }
            match r.below(3) {
                0 => vec![Op::ForEach { n }],
                1 => vec![Op::Enum { n }],
                _ => vec![Op::Fold { n }],
            }
        }
        4 => {
            let n = chunk_size(r, c);
            if r.chance(1, 2) {
                vec![Op::Fetch1]
            } else {
                vec![Op::FetchN { n, c: cons(r, c, n) }]
            }
        }
        5 => {
            if r.chance(1, 2) {
                vec![Op::Len]
            } else {
                vec![Op::More]
            }
        }
        6 => {
            if r.chance(1, 4) {
                vec![Op::Exit]
            } else {
                vec![Op::Skip]
            }
        }
        7 => {
            if c.niter > 1 && r.chance(1, 2) {
                vec![Op::Iter { i: r.below(c.niter) }]
            } else {
                vec![Op::CloneIt]
            }
        }
        _ => match r.below(6) {
            0 | 1 => vec![Op::Chunk { n: 0, c: ALL }],
            2 => vec![Op::FetchN { n: 0, c: ALL }],
            3 => {
                *buf = false;
                vec![Op::Buf { n: 0 }]
            }
            4 => vec![Op::ForEach { n: 0 }],
            _ => vec![if r.chance(1, 2) { Op::Fold { n: 0 } } else { Op::Enum { n: 0 } }],
        },
    }
}
fn drain(r: &mut Rng, c: &Cfg, loops_only: bool) -> Vec<Op> {
    if c.endless || !c.drain {
        return vec![];
    }
    let via = if loops_only {
        r.pick(&[6, 7, 8, 6, 7, 8, 11, 12, 13, 14])
    } else if c.big {
        r.pick(&[2, 3, 3, 6, 7, 8, 10])
    } else {
        r.pick(&[0, 1, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16])
    };
    let n = if via == 6 || via == 7 || via == 8 {
        if r.chance(1, 3) && !c.big {
            1
        } else {
            chunk_size(r, c)
        }
    } else {
        chunk_size(r, c)
    };
    vec![Op::Drain { via, n, extra: r.below(c.extra + 1) }]
}
fn ops(r: &mut Rng, c: &Cfg, k: usize) -> Vec<Op> {
    let mut v = vec![];
    let mut buf = false;
    for _ in 0..k {
        v.extend(op(r, c, &mut buf));
    }
    v
}

const ALLK: [Kind; 11] = [
    Kind::Slice,
    Kind::Vec,
    Kind::Array,
    Kind::Range,
    Kind::Iter,
    Kind::Iter,
    Kind::IterRef,
    Kind::SliceCloned,
    Kind::SliceCopied,
    Kind::IterRefCloned,
    Kind::IterStd,
];

fn kind(prop: &str, r: &mut Rng) -> Kind {
    use Kind::*;
    match prop {
        "C07" => r.pick(&[Iter, Iter, Iter, Iter, IterRef, IterRefCloned, IterStd, Vec, Array, Slice, Range, SliceCloned, IterInf]),
        "C08" => r.pick(&[Vec, Vec, Vec, Array, Array, Array, Iter, Iter, IterStd]),
        "C15" => r.pick(&[Vec, Vec, Vec, Array, Array, Iter, Iter, IterStd, IterRef, IterRefCloned, Slice, SliceCloned]),
        "C13" => r.pick(&[SliceCloned, SliceCopied, IterRefCloned, IterRefCopied]),
        "C16" => r.pick(&[Range, Range, Range, Range, Slice, Vec, Array, Iter, IterStd, IterRef, SliceCloned, IterRefCopied]),
        "C17" => r.pick(&[Range, Range, Slice, Vec, Vec, Array, Array, Iter, IterStd, IterRef, SliceCloned, SliceCopied, IterRefCloned]),
        "C18" => r.pick(&[Iter, Iter, Iter, IterRef, IterRefCloned, SliceCloned, SliceCloned, Vec, Array, Slice, IterStd]),
        "C19" => r.pick(&[Slice, Slice, Slice, Range]),
        "C12" => r.pick(&[Slice, Vec, Array, Range, Iter, Iter, IterRef, SliceCloned, IterRefCloned, IterStd]),
        _ => {
            if r.chance(1, 40) && matches!(prop, "C02" | "C03" | "C04" | "C06" | "C09" | "C10" | "C11") {
                IterInf
            } else if r.chance(1, 20) {
                IterRefCopied
            } else {
                r.pick(&ALLK)
            }
        }
    }
}

pub fn gen(prop: &str, seed: u64) -> Scn {
    let mut h = seed;
    for b in prop.bytes() {
        h = h.wrapping_mul(0x100_0000_01b3) ^ b as u64;
    }
    let mut r = Rng::new(h);
    let r = &mut r;
    let mut s = Scn { kind: kind(prop, r), ..Default::default() };
    s.seed = seed;
    s.elem = r.pick(&[Elem::Tok, Elem::Tok, Elem::Tok, Elem::Boxed, Elem::Large, Elem::Zst, Elem::Small, Elem::Plain, Elem::Unit]);
    if matches!(prop, "C08" | "C15") {
        s.elem = r.pick(&[Elem::Tok, Elem::Tok, Elem::Boxed, Elem::Boxed, Elem::Large, Elem::Zst, Elem::Small, Elem::Plain, Elem::Unit]);
    }
    if matches!(prop, "C04" | "C06" | "C02") && matches!(s.elem, Elem::Zst | Elem::Unit) {
        s.elem = Elem::Tok;
    }
    s.len = match r.below(40) {
        0..=2 => 0,
        3..=6 => 1,
        7..=11 => 2,
        12..=16 => 3,
        17..=21 => 4,
        22..=26 => 5,
        27..=29 => 6,
        30..=32 => 8,
        33..=34 => 10,
        35..=36 => 13,
        37 => r.range(14, 26),
        38 => r.pick(&[7, 9, 12, 15, 16, 17, 20, 24, 30, 31, 32, 33]),
        _ => r.pick(&[33, 40, 48, 50, 63, 64, 65, 96, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513]),
    };
    if s.kind == Kind::Array {
        let mut lens: Vec<usize> = sut_lens(s.elem);
        lens.push(lens[lens.len() - 1]);
        s.len = r.pick(&lens);
    }
    let mut big = false;
    if !matches!(s.kind, Kind::Array | Kind::IterInf) {
        // long sources: 16-bit and other thresholds
        let k = r.below(4000);
        if k < 9 {
            big = true;
            s.len = if k == 0 { 65_530 + r.below(3000) } else { r.range(1020, 5000) };
            if s.len > 10_000 && !matches!(s.elem, Elem::Zst | Elem::Unit) {
                s.elem = Elem::Tok;
            }
        }
    }
    s.perm = if r.chance(1, 10) { 0 } else { 1 + r.below(1 << 20) as u64 };
    s.cap = if r.chance(1, 3) { r.range(1, 9) } else { 0 };
    s.hint = r.pick(&[Hint::Exact, Hint::Exact, Hint::NoUpper, Hint::Upper, Hint::Loose]);
    if prop != "C19" && matches!(s.kind, Kind::Slice | Kind::SliceCloned | Kind::SliceCopied) {
        s.base = r.pick(&[0, 0, 0, 0, 1, 2]);
    }
    s.keep = r.chance(1, 4);
    s.plain = r.chance(1, 5);
    let mut c = Cfg {
        w: [4, 4, 4, 0, 1, 0, 0, 0, 0],
        abandon: 0,
        hold: 12,
        drain: true,
        extra: 1,
        big,
        lossy: false,
        endless: s.kind == Kind::IterInf,
        len: s.len,
        extreme: false,
        start: 0,
        chunks: vec![1, 2, 2, 3, 4],
        niter: 1,
        unwind: false,
        pick: false,
        forget: matches!(prop, "C02" | "C03" | "C04" | "C06" | "C08" | "C10" | "C13" | "C17" | "C19") && r.chance(1, 4),
        nest: r.chance(1, 2),
    };
    // swarm: a run uses a random subset of the features
    if r.chance(1, 3) {
        c.chunks = vec![r.range(1, 4)];
    }
    let mut nt = match r.below(20) {
        0..=2 => 0,
        3 => 1,
        4..=11 => 2,
        12..=16 => 3,
        17..=18 => 4,
        _ => r.pick(&[5, 5, 5, 6, 6, 7, 8, 10]),
    };
    if big {
        nt = nt.min(3);
        if s.len < 6000 && r.chance(1, 3) {
            // many small pulls
            c.big = false;
        }
    }
    if !matches!(prop, "C19" | "C07") && r.chance(1, 12) {
        // a second iterator, with a source of its own, in the hands of the same callers
        s.niter = 2;
        c.niter = 2;
    }
    let mut seq_end = r.chance(1, 4);
    match prop {
        "C01" => {
            c.w[3] = 1;
            s.nonfused = r.chance(1, 10);
        }
        "C02" => {
            c.w = [4, 3, 3, 2, 2, 0, 0, 0, 0];
            c.abandon = 15;
            c.lossy = true;
            if r.chance(1, 6) {
                c.w[6] = 1;
            }
            c.drain = r.chance(3, 4);
        }
        "C03" => {
            c.w = [1, 5, 6, 0, 1, 0, 0, 0, 0];
            s.nonfused = r.chance(1, 5);
            c.extra = 4;
            c.abandon = 30;
            c.lossy = true;
            c.hold = 20;
        }
        "C04" => {
            c.w = [4, 4, 4, 1, 1, 0, 0, 0, 0];
            s.nonfused = r.chance(1, 8);
            c.abandon = 10;
            if r.chance(1, 4) {
                nt = r.below(2);
            }
            c.drain = r.chance(2, 3);
        }
        "C05" => {
            c.extra = 6;
            c.w = [3, 3, 3, 1, 1, 2, 0, 0, 0];
            s.nonfused = r.chance(1, 2);
            c.extreme = r.chance(1, 4);
            if r.chance(1, 6) {
                c.w[6] = 1;
            }
        }
        "C06" => {
            c.w = [3, 3, 3, 1, 1, 2, 1, 0, 0];
            c.abandon = 10;
            c.extra = 4;
            s.nonfused = r.chance(1, 4);
            c.extreme = r.chance(1, 6);
            s.keep = r.chance(1, 2);
        }
        "C07" => {
            c.w = [3, 3, 3, 1, 1, 1, 0, 0, 0];
            if r.chance(1, 5) {
                c.w[6] = 1;
            }
            c.abandon = 15;
            s.plain = false;
            nt = nt.max(2);
            c.drain = r.chance(1, 2);
        }
        "C08" | "C15" => {
            c.w = [3, 4, 4, 1, 1, 0, 0, 0, 0];
            c.abandon = 35;
            c.lossy = true;
            c.drain = r.chance(1, 3);
            if r.chance(1, 3) {
                c.w[6] = 1;
            }
            if r.chance(1, 5) {
                c.extreme = true;
            }
            c.unwind = r.chance(1, 3);
            seq_end = r.chance(1, 2);
            if r.chance(1, 2) {
                nt = r.below(3);
            }
            if r.chance(1, 6) {
                // panics of foreign code
                let m = (s.len + 2).min(20);
                let k = r.range(1, m.max(2)) as u32;
                match r.below(3) {
                    0 if s.kind.wrapped() => s.faults.panic_next = k,
                    1 if s.kind.adaptor() => s.faults.panic_clone = k,
                    _ => {
                        s.faults.panic_closure = k;
                        c.w[3] = 4;
                    }
                }
            }
        }
        "C09" => {
            c.w = [3, 3, 3, 1, 1, 1, 0, 0, 0];
            if r.chance(1, 3) {
                c.w[6] = 1;
            }
            c.abandon = 10;
            s.nonfused = r.chance(1, 6);
            c.drain = r.chance(3, 4);
            nt = nt.max(2);
        }
        "C10" => {
            c.w = [4, 4, 4, 0, 1, 1, 0, 0, 0];
            c.abandon = 20;
            c.lossy = true;
            c.drain = r.chance(1, 6);
            if r.chance(1, 5) {
                c.w[6] = 1;
            }
            c.extreme = r.chance(1, 8);
            seq_end = true;
            if r.chance(1, 2) {
                nt = r.below(3);
            }
        }
        "C11" => {
            c.w = [3, 3, 3, 1, 1, 5, 0, 0, 0];
            s.nonfused = r.chance(1, 5);
            c.abandon = 10;
            c.extra = 3;
            c.extreme = r.chance(1, 8);
            c.drain = r.chance(1, 2);
            if r.chance(1, 6) {
                c.w[6] = 1;
            }
            if r.chance(1, 4) {
                nt = r.below(2);
            }
        }
        "C12" => {
            c.w = [2, 1, 1, 3, 0, 0, 0, 0, 0];
            if r.chance(1, 6) {
                c.w[5] = 1;
            }
            s.nonfused = r.chance(1, 6);
        }
        "C13" => {
            c.w = [3, 3, 3, 1, 2, 3, 0, 0, 0];
            c.abandon = 20;
            c.lossy = true;
            c.extra = 3;
            c.drain = r.chance(2, 3);
            if r.chance(1, 4) {
                c.w[6] = 1;
            }
            if r.chance(1, 10) {
                c.w[8] = 1;
            }
            c.extreme = r.chance(1, 8);
            seq_end = r.chance(1, 2);
            if r.chance(1, 2) {
                nt = r.below(2);
            }
        }
        "C16" => {
            c.w = [3, 4, 4, 1, 2, 1, 0, 0, 1];
            c.extreme = r.chance(3, 4);
            c.extra = 4;
            c.abandon = 5;
            if r.chance(1, 2) {
                nt = r.below(2);
            }
            seq_end = false;
        }
        "C17" => {
            c.w = [3, 4, 4, 1, 2, 2, 0, 0, 0];
            c.extreme = r.chance(1, 3);
            c.abandon = 25;
            c.lossy = true;
            c.extra = 3;
            c.drain = r.chance(1, 2);
            if r.chance(1, 4) {
                c.w[6] = 1;
            }
            if r.chance(1, 6) {
                c.w[8] = 1;
            }
            s.nonfused = r.chance(1, 10);
            seq_end = r.chance(1, 2);
            if r.chance(1, 2) {
                nt = r.below(2);
            }
        }
        "C18" => {
            c.w = [3, 3, 3, 2, 1, 0, 0, 0, 0];
            c.abandon = 15;
            c.extra = 2;
            if r.chance(1, 4) {
                c.lossy = true;
            }
            if r.chance(1, 8) {
                c.w[6] = 1;
            }
            if r.chance(1, 6) {
                c.w[5] = 1;
            }
            nt = nt.max(1);
            c.unwind = r.chance(1, 4);
            let m = (s.len + 2).min(20);
            let k = r.range(1, m.max(2)) as u32;
            let p = match s.kind {
                Kind::Iter | Kind::IterRef => r.pick(&[0, 0, 0, 2]),
                Kind::IterRefCloned => r.pick(&[0, 1, 1, 2]),
                Kind::SliceCloned => r.pick(&[1, 1, 1, 2]),
                _ => 2,
            };
            match p {
                0 => s.faults.panic_next = k,
                1 => s.faults.panic_clone = k,
                _ => {
                    s.faults.panic_closure = k;
                    c.w[3] = 4;
                }
            }
            if r.chance(1, 5) {
                s.faults.panic_next = if s.kind.wrapped() { r.range(1, m.max(2)) as u32 } else { 0 };
                s.faults.panic_closure = r.range(0, m) as u32;
            }
            if r.chance(1, 3) {
                s.faults.again = r.range(1, 5) as u32;
            }
        }
        "C19" => {
            c.w = [3, 3, 3, 1, 1, 0, 0, 2, 0];
            c.abandon = 10;
            s.niter = r.range(1, 3);
            c.niter = s.niter;
            s.keep = r.chance(1, 2);
            if r.chance(1, 10) {
                c.w[6] = 1;
            }
            if r.chance(1, 3) {
                nt = r.below(2);
            }
            c.drain = r.chance(2, 3);
        }
        _ => {}
    }
    // random feature subset
    for k in 0..5 {
        if r.chance(1, 6) && k != 3 {
            c.w[k] = 0;
        }
    }
    if c.w.iter().sum::<usize>() == 0 {
        c.w[0] = 1;
        c.w[1] = 1;
    }
    if s.kind == Kind::Range {
        let m = usize::MAX;
        let l = s.len;
        let wild = match prop {
            "C16" => r.chance(5, 6),
            "C17" | "C05" | "C10" | "C11" => r.chance(1, 2),
            "C01" | "C02" | "C03" | "C04" | "C06" | "C19" | "C12" => r.chance(1, 4),
            _ => false,
        };
        let base = r.pick(&[0, 0, 1, 3, 7, 10, 100, 1000]);
        s.start = base;
        s.end_ = base + l;
        if wild {
            let k = r.below(12);
            let (a, b) = match k {
                0 => (m - l, m),
                1 => (m - l - 1, m - 1),
                2 => (m - l - r.below(5), m - r.below(5).min(l)),
                3 => (5 + l, r.below(5)),
                4 => (m, 0),
                5 => (m, m),
                6 => (m - 1, r.below(3)),
                7 => (m / 2 - l / 2, m / 2 - l / 2 + l),
                8 => (0, m),
                9 => (r.below(3), m - r.below(3)),
                10 => (1 << 32, (1 << 32) + l),
                _ => (m / 2 + 1, m),
            };
            s.start = a;
            s.end_ = b;
        }
        s.len = s.end_.saturating_sub(s.start);
        c.len = s.len.min(300);
        c.start = s.start;
        if s.len > 1000 && !(big && !wild) {
            c.endless = true;
            s.keep = false;
            if matches!(prop, "C02" | "C03" | "C10" | "C11" | "C05" | "C16" | "C17" | "C04") {
                c.extreme = true;
            }
            if matches!(prop, "C01" | "C12") {
                s.len = 5;
                s.end_ = s.start.saturating_add(5);
                s.len = s.end_ - s.start;
                c.endless = false;
            }
        }
    }
    // (an unoptimised build may legitimately walk over the remaining elements of a vector)
    if (matches!(s.kind, Kind::Slice | Kind::SliceCloned) || s.kind == Kind::Vec && !cfg!(debug_assertions) && prop != "C17")
        && matches!(prop, "C16" | "C17" | "C11" | "C10" | "C05" | "C03" | "C13")
        && r.chance(1, if prop == "C16" { 3 } else { 25 })
    {
        // more elements than memory could hold, were they not zero-sized
        let m = usize::MAX;
        s.elem = Elem::Unit;
        let m = if s.kind == Kind::Vec { (1 << 33) + 7 } else { m };
        s.len = r.pick(&[m, m - 1, m - 2, m / 2, m / 2 + 1, m / 2 + 5, 1 << 32, (1 << 32) + 1]);
        s.base = 0;
        s.cap = 0;
        s.keep = false;
        c.len = 300;
        c.endless = true;
        c.extreme = true;
    }
    if s.kind == Kind::IterInf {
        s.nonfused = false;
        s.len = 0;
        c.extreme = false;
        c.chunks = vec![1, 2, 3, 4];
    }
    if !s.kind.wrapped() || s.kind == Kind::IterStd {
        s.nonfused = false;
    }
    let picks = !matches!(prop, "C19");
    // finite work for endless sources: chunks of an unbounded wrapped iterator are materialised
    let lots = if s.len > 30 && !c.endless { 3 } else { 0 };
    if r.chance(1, 3) || nt == 0 {
        let k = r.range(1, if nt == 0 { 8 } else { 4 });
        c.pick = picks && !matches!(s.elem, Elem::Zst | Elem::Unit);
        s.pre = ops(r, &c, k);
    }
    c.pick = matches!(prop, "C02" | "C08" | "C13" | "C15" | "C17" | "C18");
    let loops_only = prop == "C12" && r.chance(3, 4);
    for _ in 0..nt {
        let k = r.range(if loops_only { 0 } else { 1 }, 5 + lots);
        let mut v = if loops_only { vec![] } else { ops(r, &c, k) };
        if c.niter > 1 && prop != "C19" {
            let at = r.below(v.len() + 1);
            v.insert(at, Op::Iter { i: r.below(2) });
        }
        v.extend(drain(r, &c, prop == "C12"));
        s.threads.push(v);
    }
    if nt == 0 {
        s.pre.extend(drain(r, &c, prop == "C12"));
    }
    if matches!(prop, "C04" | "C05" | "C06" | "C10" | "C11" | "C13" | "C16" | "C17" | "C18") && r.chance(1, 2) {
        let k = r.range(1, 4);
        c.pick = picks && !matches!(s.elem, Elem::Zst | Elem::Unit);
        s.post = ops(r, &c, k);
        if r.chance(1, 2) {
            s.post.extend(drain(r, &c, false));
        }
    }
    if matches!(prop, "C08" | "C15" | "C10" | "C11" | "C17" | "C19") && r.chance(1, 25) {
        // an iterator nobody pulls from
        s.pre.clear();
        s.threads.clear();
        s.post.clear();
    }
    if prop == "C12" {
        // whoever is left over: everything must have been visited
        s.post = vec![Op::ForEach { n: r.range(1, 3) }];
        if c.endless {
            s.post.clear();
        }
    }
    if prop == "C06" && !has(&s, &|o| matches!(o, Op::Skip | Op::Exit)) {
        let sk = Op::Skip;
        if nt == 0 {
            let p = r.below(s.pre.len() + 1);
            s.pre.insert(p, sk);
        } else {
            let t = r.below(nt);
            let p = r.below(s.threads[t].len() + 1);
            s.threads[t].insert(p, sk);
        }
    }
    if prop == "C11" {
        s.post.push(Op::More);
        s.post.push(Op::Len);
    }
    s.end = if seq_end {
        Op_end(r, &c)
    } else if matches!(prop, "C08" | "C15" | "C18") && r.chance(1, 6) {
        End::DropUnwind
    } else if r.chance(1, 5) {
        End::DropElsewhere
    } else {
        End::Drop
    };
    // transient stalls
    let nt = s.threads.len();
    s.fine = prop == "C17" && nt > 1 && r.chance(1, 2);
    if nt > 1 && prop != "C13" && (prop != "C17" || s.fine) {
        let k = if prop == "C09" { r.below(3) } else if r.chance(1, 4) { 1 } else { 0 };
        for _ in 0..k {
            s.faults.stalls.push(if !s.kind.known() && r.chance(1, 2) {
                (0, r.range(1, 12) as u32)
            } else {
                (r.range(1, nt) as u8, r.range(1, 60) as u32)
            });
        }
        if !s.faults.stalls.is_empty() {
            // how often the others look in vain before the stalled thread goes on
            s.faults.patience = match r.below(400_000) {
                0..=80 => 30_000_000,
                81..=250 => 140_000,
                251..=500 => 20_000,
                501..=2000 => 4200,
                2001..=8000 => 2100,
                8001..=30_000 => 1100,
                30_001..=70_000 => 270,
                70_001..=120_000 => 110,
                120_001..=180_000 => 20,
                _ => 0,
            };
        }
        if s.faults.patience > 100_000 && !s.kind.known() {
            s.faults.stalls = vec![(0, r.range(1, 6) as u32)];
        }
        if prop == "C09" && s.kind.known() {
            s.strict = true;
            if s.faults.stalls.is_empty() {
                s.faults.stalls.push((r.range(1, nt) as u8, r.range(1, 40) as u32));
            }
        }
    }
    if matches!(prop, "C07") && r.chance(1, 4) {
        s.faults.stale_den = r.range(2, 6) as u32;
    }
    s.strat = if matches!(prop, "C13" | "C17") && !s.fine {
        s.plain = false;
        Strat::Coarse { den: r.range(1, 4) as u32 }
    } else {
        strat(r, nt)
    };
    s
}
#[allow(non_snake_case)]
fn Op_end(r: &mut Rng, c: &Cfg) -> End {
    let take = if c.endless || r.chance(1, 4) { r.below(4) } else { usize::MAX };
    End::Seq { take, style: if c.endless { 0 } else { r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6]) } }
}
fn has(s: &Scn, f: &dyn Fn(&Op) -> bool) -> bool {
    s.pre.iter().chain(s.threads.iter().flatten()).chain(s.post.iter()).any(|o| match o {
        Op::LoopIn { inner, .. } | Op::Hold { inner, .. } | Op::BufHold { inner, .. } => f(inner) || f(o),
        _ => f(o),
    })
}
fn sut_lens(e: Elem) -> Vec<usize> {
    match e {
        Elem::Tok => vec![0, 1, 2, 3, 5, 8, 17, 64],
        Elem::Boxed => vec![1, 3, 5],
        Elem::Small | Elem::Unit => vec![5],
        _ => vec![3, 5],
    }
}
