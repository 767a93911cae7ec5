//! Scenario: everything that determines a run, with a line-based text form (the replay file).
use crate::sched::{Faults, Strat};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Slice,
    Vec,
    Array,
    Range,
    /// wrapped owning probe iterator
    Iter,
    /// wrapped probe iterator over references
    IterRef,
    SliceCloned,
    SliceCopied,
    IterRefCloned,
    IterRefCopied,
    /// wrapped std vec::IntoIter
    IterStd,
    /// wrapped unbounded iterator
    IterInf,
}
pub const KINDS: [(Kind, &str); 12] = [
    (Kind::Slice, "slice"),
    (Kind::Vec, "vec"),
    (Kind::Array, "array"),
    (Kind::Range, "range"),
    (Kind::Iter, "iter"),
    (Kind::IterRef, "iterref"),
    (Kind::SliceCloned, "slicecloned"),
    (Kind::SliceCopied, "slicecopied"),
    (Kind::IterRefCloned, "iterrefcloned"),
    (Kind::IterRefCopied, "iterrefcopied"),
    (Kind::IterStd, "iterstd"),
    (Kind::IterInf, "iterinf"),
];
impl Kind {
    pub fn name(self) -> &'static str {
        KINDS.iter().find(|x| x.0 == self).map(|x| x.1).unwrap_or("?")
    }
    pub fn known(self) -> bool {
        matches!(
            self,
            Kind::Slice | Kind::Vec | Kind::Array | Kind::Range | Kind::SliceCloned | Kind::SliceCopied
        )
    }
    pub fn wrapped(self) -> bool {
        !self.known()
    }
    pub fn consuming(self) -> bool {
        matches!(self, Kind::Vec | Kind::Array | Kind::Iter | Kind::IterStd)
    }
    pub fn adaptor(self) -> bool {
        matches!(self, Kind::SliceCloned | Kind::SliceCopied | Kind::IterRefCloned | Kind::IterRefCopied)
    }
    pub fn by_ref(self) -> bool {
        matches!(self, Kind::Slice | Kind::IterRef)
    }
    pub fn borrows(self) -> bool {
        self.by_ref() || self.adaptor()
    }
    pub fn underlying(self) -> Kind {
        match self {
            Kind::SliceCloned | Kind::SliceCopied => Kind::Slice,
            Kind::IterRefCloned | Kind::IterRefCopied => Kind::IterRef,
            k => k,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Elem {
    Tok,
    Boxed,
    Zst,
    Large,
    /// two bytes
    Small,
    /// no destructor
    Plain,
    /// zero-sized, no destructor
    Unit,
}
pub const ELEMS: [(Elem, &str); 7] = [
    (Elem::Tok, "tok"),
    (Elem::Boxed, "boxed"),
    (Elem::Zst, "zst"),
    (Elem::Large, "large"),
    (Elem::Small, "small"),
    (Elem::Plain, "plain"),
    (Elem::Unit, "unit"),
];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hint {
    Exact,
    Upper,
    NoUpper,
    Loose,
}
pub const HINTS: [(Hint, &str); 4] =
    [(Hint::Exact, "exact"), (Hint::Upper, "upper"), (Hint::NoUpper, "noupper"), (Hint::Loose, "loose")];

/// how a chunk is consumed
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cons {
    /// 0 next-loop with len checks, 1 for_each, 2 fold, 3 collect, 4 nth(1) skipping, 5 count, 6 last, 7 enumerate,
    /// 8 take some, then the caller panics while it holds the chunk, 9 a mix of next, nth and for_each,
    /// 10 take some, then forget the chunk
    pub style: u8,
    /// elements to take before abandoning the chunk; usize::MAX = all
    pub take: usize,
}
pub const ALL: Cons = Cons { style: 0, take: usize::MAX };

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Next,
    NextId,
    Chunk { n: usize, c: Cons },
    /// pull a chunk, take `a`, run `inner` while holding it, consume the rest with `c`
    Hold { n: usize, a: usize, inner: Box<Op>, c: Cons },
    Buf { n: usize },
    BufNext { c: Cons },
    BufHold { a: usize, inner: Box<Op>, c: Cons },
    BufDrop,
    Values { k: usize },
    Ids { k: usize },
    /// one for-loop adaptor (ids: with indices), how: 0 nth(k), 1 take(k).count(), 2 take(k).last(), 3 count(), 4 last()
    Pick { ids: bool, how: u8, k: usize },
    ForEach { n: usize },
    Enum { n: usize },
    Fold { n: usize },
    Skip,
    Len,
    More,
    Fetch1,
    FetchN { n: usize, c: Cons },
    Exit,
    /// pull by method `via` until the end is observed, then `extra` more pulls
    Drain { via: u8, n: usize, extra: usize },
    /// for_each (0), enumerate_for_each (1) or fold (2) whose closure runs `inner` in its `at`-th invocation
    LoopIn { kind: u8, n: usize, at: usize, inner: Box<Op> },
    /// the buffered iterator is dropped while its owner unwinds
    BufUnwind,
    /// switch to shared iterator i
    Iter { i: usize },
    /// clone the current iterator and continue on the clone
    CloneIt,
}

#[derive(Clone, PartialEq, Debug)]
pub enum End {
    Drop,
    /// take k of the remainder, then drop it; usize::MAX = all.
    /// style: 0 next loop, 1 for_each, 2 collect, 3 fold, 4 next then nth(0), 5 count, 6 last
    Seq { take: usize, style: u8 },
    /// dropped while its owner unwinds
    DropUnwind,
    /// dropped by a simulated worker thread rather than the creator
    DropElsewhere,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Scn {
    pub kind: Kind,
    pub elem: Elem,
    pub len: usize,
    pub start: usize,
    pub end_: usize,
    pub hint: Hint,
    /// wrapped iterator yields extra elements when polled after its first None
    pub nonfused: bool,
    /// callers keep what they received until the end
    pub keep: bool,
    pub niter: usize,
    /// slice kinds: 0 iterator over a slice, 1 over a vector of references, 2 over an array of references (when there is one)
    pub base: u8,
    pub perm: u64,
    /// capacity beyond the length for vectors
    pub cap: usize,
    pub pre: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub post: Vec<Op>,
    pub end: End,
    pub faults: Faults,
    pub strict: bool,
    pub plain: bool,
    /// C17 only: preempted at every access, so that executions of different builds are not compared step by step
    pub fine: bool,
    pub strat: Strat,
    pub seed: u64,
}

impl Default for Scn {
    fn default() -> Self {
        Scn {
            kind: Kind::Slice,
            elem: Elem::Tok,
            len: 0,
            start: 0,
            end_: 0,
            hint: Hint::Exact,
            nonfused: false,
            keep: false,
            niter: 1,
            base: 0,
            perm: 1,
            cap: 0,
            pre: vec![],
            threads: vec![],
            post: vec![],
            end: End::Drop,
            faults: Faults::default(),
            strict: false,
            plain: false,
            fine: false,
            strat: Strat::Random { den: 2 },
            seed: 0,
        }
    }
}

fn num(n: usize) -> String {
    if n == usize::MAX {
        "max".into()
    } else if n > usize::MAX / 2 + 1000 {
        format!("max-{}", usize::MAX - n)
    } else {
        n.to_string()
    }
}
fn unnum(s: &str) -> Result<usize, String> {
    if s == "max" {
        Ok(usize::MAX)
    } else if let Some(r) = s.strip_prefix("max-") {
        r.parse::<usize>().map(|x| usize::MAX - x).map_err(|e| format!("{s}: {e}"))
    } else {
        s.parse().map_err(|e| format!("{s}: {e}"))
    }
}
fn cons(c: &Cons) -> String {
    format!("c{}.{}", c.style, num(c.take))
}
fn uncons(s: &str) -> Result<Cons, String> {
    let s = s.strip_prefix('c').ok_or("cons")?;
    let (a, b) = s.split_once('.').ok_or("cons")?;
    Ok(Cons { style: a.parse().map_err(|_| "cons")?, take: unnum(b)? })
}
pub fn op_str(o: &Op) -> String {
    match o {
        Op::Next => "next".into(),
        Op::NextId => "nextid".into(),
        Op::Chunk { n, c } => format!("chunk:{}:{}", num(*n), cons(c)),
        Op::Hold { n, a, inner, c } => format!("hold:{}:{}:{}:[{}]", num(*n), num(*a), cons(c), op_str(inner)),
        Op::Buf { n } => format!("buf:{}", num(*n)),
        Op::BufNext { c } => format!("bufnext:{}", cons(c)),
        Op::BufHold { a, inner, c } => format!("bufhold:{}:{}:[{}]", num(*a), cons(c), op_str(inner)),
        Op::BufDrop => "bufdrop".into(),
        Op::Values { k } => format!("values:{}", num(*k)),
        Op::Ids { k } => format!("ids:{}", num(*k)),
        Op::Pick { ids, how, k } => format!("pick:{}:{how}:{}", *ids as u8, num(*k)),
        Op::ForEach { n } => format!("foreach:{}", num(*n)),
        Op::Enum { n } => format!("enum:{}", num(*n)),
        Op::Fold { n } => format!("fold:{}", num(*n)),
        Op::Skip => "skip".into(),
        Op::Len => "len".into(),
        Op::More => "more".into(),
        Op::Fetch1 => "fetch1".into(),
        Op::FetchN { n, c } => format!("fetchn:{}:{}", num(*n), cons(c)),
        Op::Exit => "exit".into(),
        Op::Drain { via, n, extra } => format!("drain:{}:{}:{}", via, num(*n), extra),
        Op::LoopIn { kind, n, at, inner } => format!("loopin:{kind}:{}:{}:[{}]", num(*n), num(*at), op_str(inner)),
        Op::BufUnwind => "bufunwind".into(),
        Op::Iter { i } => format!("iter:{i}"),
        Op::CloneIt => "clone".into(),
    }
}
pub fn op_parse(s: &str) -> Result<Op, String> {
    let s = s.trim();
    let (head, inner) = match s.find('[') {
        Some(p) => {
            let e = s.rfind(']').ok_or("]")?;
            (s[..p].trim_end_matches(':'), Some(Box::new(op_parse(&s[p + 1..e])?)))
        }
        None => (s, None),
    };
    let f: Vec<&str> = head.split(':').collect();
    let a = |i: usize| -> Result<&str, String> { f.get(i).copied().ok_or_else(|| format!("bad op {s}")) };
    Ok(match f[0] {
        "next" => Op::Next,
        "nextid" => Op::NextId,
        "chunk" => Op::Chunk { n: unnum(a(1)?)?, c: uncons(a(2)?)? },
        "hold" => Op::Hold { n: unnum(a(1)?)?, a: unnum(a(2)?)?, c: uncons(a(3)?)?, inner: inner.ok_or("inner")? },
        "buf" => Op::Buf { n: unnum(a(1)?)? },
        "bufnext" => Op::BufNext { c: uncons(a(1)?)? },
        "bufhold" => Op::BufHold { a: unnum(a(1)?)?, c: uncons(a(2)?)?, inner: inner.ok_or("inner")? },
        "bufdrop" => Op::BufDrop,
        "values" => Op::Values { k: unnum(a(1)?)? },
        "ids" => Op::Ids { k: unnum(a(1)?)? },
        "pick" => Op::Pick { ids: unnum(a(1)?)? != 0, how: unnum(a(2)?)? as u8, k: unnum(a(3)?)? },
        "foreach" => Op::ForEach { n: unnum(a(1)?)? },
        "enum" => Op::Enum { n: unnum(a(1)?)? },
        "fold" => Op::Fold { n: unnum(a(1)?)? },
        "skip" => Op::Skip,
        "len" => Op::Len,
        "more" => Op::More,
        "fetch1" => Op::Fetch1,
        "fetchn" => Op::FetchN { n: unnum(a(1)?)?, c: uncons(a(2)?)? },
        "exit" => Op::Exit,
        "drain" => Op::Drain {
            via: a(1)?.parse().map_err(|_| "via")?,
            n: unnum(a(2)?)?,
            extra: a(3)?.parse().map_err(|_| "extra")?,
        },
        "loopin" => Op::LoopIn {
            kind: a(1)?.parse().map_err(|_| "kind")?,
            n: unnum(a(2)?)?,
            at: unnum(a(3)?)?,
            inner: inner.ok_or("inner")?,
        },
        "bufunwind" => Op::BufUnwind,
        "iter" => Op::Iter { i: unnum(a(1)?)? },
        "clone" => Op::CloneIt,
        x => return Err(format!("unknown op {x}")),
    })
}
fn ops_str(v: &[Op]) -> String {
    v.iter().map(op_str).collect::<Vec<_>>().join("; ")
}
fn ops_parse(s: &str) -> Result<Vec<Op>, String> {
    s.split(';').map(|x| x.trim()).filter(|x| !x.is_empty()).map(op_parse).collect()
}
pub fn strat_str(s: &Strat) -> String {
    match s {
        Strat::Random { den } => format!("random {den}"),
        Strat::Pct { d, k } => format!("pct {d} {k}"),
        Strat::AfterRmw => "afterrmw".into(),
        Strat::Quantum { max } => format!("quantum {max}"),
        Strat::Coarse { den } => format!("coarse {den}"),
        Strat::Starve { victim } => format!("starve {victim}"),
        Strat::Explicit(v) => {
            let mut r = String::from("explicit");
            for (a, b) in v {
                let _ = write!(r, " {a}:{b}");
            }
            r
        }
    }
}
fn strat_parse(s: &str) -> Result<Strat, String> {
    let f: Vec<&str> = s.split_whitespace().collect();
    let p = |i: usize| -> Result<u32, String> { f.get(i).and_then(|x| x.parse().ok()).ok_or_else(|| format!("strat {s}")) };
    Ok(match f[0] {
        "random" => Strat::Random { den: p(1)? },
        "pct" => Strat::Pct { d: p(1)?, k: p(2)? },
        "afterrmw" => Strat::AfterRmw,
        "quantum" => Strat::Quantum { max: p(1)? },
        "coarse" => Strat::Coarse { den: p(1)? },
        "starve" => Strat::Starve { victim: p(1)? as u8 },
        "explicit" => {
            let mut v = vec![];
            for x in &f[1..] {
                let (a, b) = x.split_once(':').ok_or("explicit")?;
                v.push((a.parse().map_err(|_| "explicit")?, b.parse().map_err(|_| "explicit")?));
            }
            Strat::Explicit(v)
        }
        x => return Err(format!("unknown strategy {x}")),
    })
}

impl Scn {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let name = |e: Elem| ELEMS.iter().find(|x| x.0 == e).map(|x| x.1).unwrap_or("?");
        let hn = HINTS.iter().find(|x| x.0 == self.hint).map(|x| x.1).unwrap_or("?");
        let _ = writeln!(s, "kind {}", self.kind.name());
        let _ = writeln!(s, "elem {}", name(self.elem));
        let _ = writeln!(s, "len {}", num(self.len));
        let _ = writeln!(s, "range {} {}", num(self.start), num(self.end_));
        let _ = writeln!(s, "hint {hn}");
        let _ = writeln!(
            s,
            "opt nonfused={} keep={} niter={} base={} perm={} cap={} strict={} plain={} fine={}",
            self.nonfused as u8, self.keep as u8, self.niter, self.base, self.perm, self.cap, self.strict as u8, self.plain as u8, self.fine as u8
        );
        let _ = writeln!(s, "pre {}", ops_str(&self.pre));
        for t in &self.threads {
            let _ = writeln!(s, "t {}", ops_str(t));
        }
        let _ = writeln!(s, "post {}", ops_str(&self.post));
        let _ = writeln!(
            s,
            "end {}",
            match &self.end {
                End::Drop => "drop".into(),
                End::DropElsewhere => "dropelsewhere".into(),
                End::DropUnwind => "dropunwind".into(),
                End::Seq { take, style } => format!("seq {} {style}", num(*take)),
            }
        );
        let st: Vec<String> = self.faults.stalls.iter().map(|x| format!("{}:{}", x.0, x.1)).collect();
        let _ = writeln!(
            s,
            "faults pnext={} pclone={} pclos={} again={} stale={} patience={} stalls={}",
            self.faults.panic_next,
            self.faults.panic_clone,
            self.faults.panic_closure,
            self.faults.again,
            self.faults.stale_den,
            self.faults.patience,
            st.join(",")
        );
        let _ = writeln!(s, "sched {}", strat_str(&self.strat));
        let _ = writeln!(s, "seed {}", self.seed);
        s
    }
    pub fn parse(text: &str) -> Result<Scn, String> {
        let mut s = Scn::default();
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            let v = v.trim();
            match k {
                "kind" => s.kind = KINDS.iter().find(|x| x.1 == v).map(|x| x.0).ok_or(format!("kind {v}"))?,
                "elem" => s.elem = ELEMS.iter().find(|x| x.1 == v).map(|x| x.0).ok_or(format!("elem {v}"))?,
                "len" => s.len = unnum(v)?,
                "range" => {
                    let (a, b) = v.split_once(' ').ok_or("range")?;
                    s.start = unnum(a)?;
                    s.end_ = unnum(b)?;
                }
                "hint" => s.hint = HINTS.iter().find(|x| x.1 == v).map(|x| x.0).ok_or(format!("hint {v}"))?,
                "opt" => {
                    for kv in v.split_whitespace() {
                        let (a, b) = kv.split_once('=').ok_or("opt")?;
                        let n: u64 = b.parse().map_err(|_| "opt")?;
                        match a {
                            "nonfused" => s.nonfused = n != 0,
                            "keep" => s.keep = n != 0,
                            "niter" => s.niter = n as usize,
                            "base" => s.base = n as u8,
                            "perm" => s.perm = n,
                            "cap" => s.cap = n as usize,
                            "strict" => s.strict = n != 0,
                            "plain" => s.plain = n != 0,
                            "fine" => s.fine = n != 0,
                            x => return Err(format!("opt {x}")),
                        }
                    }
                }
                "pre" => s.pre = ops_parse(v)?,
                "t" => s.threads.push(ops_parse(v)?),
                "post" => s.post = ops_parse(v)?,
                "end" => {
                    s.end = match v {
                        "drop" => End::Drop,
                        "dropelsewhere" => End::DropElsewhere,
                        "dropunwind" => End::DropUnwind,
                        _ => {
                            let x = v.strip_prefix("seq ").ok_or("end")?;
                            let (a, b) = x.split_once(' ').unwrap_or((x, "0"));
                            End::Seq { take: unnum(a)?, style: b.parse().map_err(|_| "end")? }
                        }
                    }
                }
                "faults" => {
                    for kv in v.split_whitespace() {
                        let (a, b) = kv.split_once('=').ok_or("faults")?;
                        let n = || b.parse::<u32>().map_err(|_| "faults".to_string());
                        match a {
                            "pnext" => s.faults.panic_next = n()?,
                            "pclone" => s.faults.panic_clone = n()?,
                            "pclos" => s.faults.panic_closure = n()?,
                            "again" => s.faults.again = n()?,
                            "stale" => s.faults.stale_den = n()?,
                            "patience" => s.faults.patience = n()?,
                            "stalls" => {
                                for x in b.split(',').filter(|x| !x.is_empty()) {
                                    let (t, p) = x.split_once(':').ok_or("stalls")?;
                                    s.faults.stalls.push((
                                        t.parse().map_err(|_| "stalls")?,
                                        p.parse().map_err(|_| "stalls")?,
                                    ));
                                }
                            }
                            x => return Err(format!("faults {x}")),
                        }
                    }
                }
                "sched" => s.strat = strat_parse(v)?,
                "seed" => s.seed = v.parse().map_err(|_| "seed")?,
                // header lines of replay files
                "property" | "build" | "class" | "message" | "verdict" => {}
                x => return Err(format!("unknown line {x}")),
            }
        }
        Ok(s)
    }
}

/// What a sequential iteration of the source produces.
pub struct Src {
    kind: Kind,
    zst: bool,
    start: usize,
    pub n: usize,
    pub vals: Vec<u32>,
    inv: Vec<u32>,
}
pub const ZVAL: u64 = u64::MAX;
/// longer sources are never run through
pub const HUGE: usize = 1 << 20;
impl Src {
    pub fn new(s: &Scn) -> Src {
        let n = match s.kind {
            Kind::Range => s.end_.saturating_sub(s.start),
            Kind::IterInf => usize::MAX,
            _ => s.len,
        };
        let mut vals = vec![];
        let mut inv = vec![];
        let zst = matches!(s.elem, Elem::Zst | Elem::Unit) && s.has_elem();
        if !matches!(s.kind, Kind::Range | Kind::IterInf) && !(zst && n > HUGE) {
            vals = (0..n as u32).collect();
            if s.perm != 0 {
                let mut r = crate::rng::Rng::new(s.perm);
                for i in (1..n).rev() {
                    let j = r.below(i + 1);
                    vals.swap(i, j);
                }
            }
            inv = vec![0; n];
            for (i, v) in vals.iter().enumerate() {
                inv[*v as usize] = i as u32;
            }
        }
        Src { kind: s.kind, zst, start: s.start, n, vals, inv }
    }
    pub fn zst(&self) -> bool {
        self.zst
    }
    /// more zero-sized elements than can be made one by one
    pub fn huge(&self) -> bool {
        self.zst && self.n > HUGE
    }
    pub fn infinite(&self) -> bool {
        self.kind == Kind::IterInf
    }
    pub fn inf_val(i: usize) -> u32 {
        (i as u32 & 0xffff).wrapping_mul(40503) & 0xffff
    }
    /// value a sequential iteration produces at position `p`
    pub fn val_at(&self, p: usize) -> Option<u64> {
        if p >= self.n {
            return None;
        }
        Some(match self.kind {
            Kind::Range => (self.start + p) as u64,
            Kind::IterInf => Self::inf_val(p) as u64,
            _ if self.zst => ZVAL,
            _ => self.vals[p] as u64,
        })
    }
    /// position of a value; None if it is no value of the source (or not identifiable)
    pub fn pos_of(&self, v: u64) -> Option<usize> {
        match self.kind {
            Kind::Range => {
                let v = v as usize;
                if v >= self.start && v - self.start < self.n {
                    Some(v - self.start)
                } else {
                    None
                }
            }
            Kind::IterInf => (0..0x10000usize).find(|i| Self::inf_val(*i) as u64 == v),
            _ if self.zst => None,
            _ => self.inv.get(v as usize).map(|x| *x as usize),
        }
    }
}
impl Scn {
    /// the element type of the scenario applies to its kind
    pub fn has_elem(&self) -> bool {
        !matches!(self.kind, Kind::Range | Kind::IterInf | Kind::SliceCopied | Kind::IterRefCopied)
    }
    pub fn src(&self) -> Src {
        Src::new(self)
    }
}
