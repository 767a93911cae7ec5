//! Deterministic scheduler: real OS threads, parked and released one at a time.
use crate::hist::Hist;
use crate::ledger::Ledger;
use crate::race::{Race, Vc};
use crate::rng::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const MAXT: usize = 12;
/// simulated time at which every run starts, ns
pub const EPOCH: u64 = 1_000_000_000_000;
/// idle steps (nothing written, nobody advanced) after which "everybody spins" is called a hang
const HANG_IDLE: u64 = 3000;
const STRICT_IDLE: u64 = 400;
const FAIR_AFTER: u64 = 6_000;
const NO_PROGRESS: u64 = 40_000;
/// far beyond what any generated scenario needs
const MAX_STEPS: u64 = 500_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Off,
    Ready,
    Blocked(usize),
    Frozen,
    Done,
}

/// Kinds of scheduling points.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Pt {
    Load = 1,
    Store,
    Rmw,
    Cas,
    Fence,
    Plain,
    Yield,
    OpBegin,
    OpRet,
    OpEnd,
    NextIn,
    NextMid,
    NextOut,
    Clone,
    Drop,
    Closure,
    Elem,
    Start,
    Finish,
    Futex,
}
impl Pt {
    /// points declared by the harness (identical in every build of the crate, and for an adaptor and its underlying)
    pub fn harness(self) -> bool {
        matches!(
            self,
            Pt::OpBegin
                | Pt::OpRet
                | Pt::OpEnd
                | Pt::NextIn
                | Pt::NextMid
                | Pt::NextOut
                | Pt::Closure
                | Pt::Elem
        )
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Strat {
    /// stay with the running thread with probability (den-1)/den
    Random { den: u32 },
    Pct { d: u32, k: u32 },
    /// switch preferably right after a value-changing read-modify-write
    AfterRmw,
    /// round robin with a random quantum
    Quantum { max: u32 },
    /// switch only at harness-declared points
    Coarse { den: u32 },
    /// replay: at decision `i` switch to thread `t`, else stay
    Explicit(Vec<(u32, u8)>),
    /// one victim thread runs only when drawn with low probability
    Starve { victim: u8 },
}

pub struct Th {
    pub st: St,
    pub steps: u32,
    pub spin: u32,
    pub spin_ep: u64,
    pub spin_start: u64,
    pub spinning: bool,
    pub prio: u32,
    pub after_rmw: bool,
    pub vc: Vc,
    pub acq_pend: Vc,
    pub rel_fence: Option<Vc>,
    pub stack: (usize, usize),
    /// index of the running operation in the history, or -1
    pub op: i32,
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// race | overlap | hang | stall | ledger | alloc | panic
    pub class: &'static str,
    pub msg: String,
    pub at: u64,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub points: u64,
    pub switches: u64,
    pub preempts: u64,
    pub stalls_fired: u64,
    pub stalls_released: u64,
    pub spins: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub panics_next: u64,
    pub panics_clone: u64,
    pub panics_closure: u64,
    pub panics_caller: u64,
    pub races: u64,
    pub futex_blocks: u64,
    pub stale_reads: u64,
    pub atomics: u64,
    pub plain: u64,
}

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Faults {
    /// (thread, local scheduling point), or (0, k): whoever executes the k-th wrapped `next`
    pub stalls: Vec<(u8, u32)>,
    /// a stalled thread is released when the others have looked this often in vain (they may lose their patience)
    pub patience: u32,
    /// panic at the k-th (1-based) invocation; 0 = never
    pub panic_next: u32,
    pub panic_clone: u32,
    pub panic_closure: u32,
    /// after the first one a panic follows at every `again`-th further invocation, a few times; 0 = never
    pub again: u32,
    /// loads that permit it may return an older value with probability 1/stale_den (0 = never)
    pub stale_den: u32,
}

impl Faults {
    /// whether the k-th invocation panics, when the first panic is at `first`
    pub fn fires(&self, first: u32, k: u32) -> bool {
        first > 0
            && (k == first || self.again > 0 && k > first && (k - first) % self.again == 0 && (k - first) / self.again <= 4)
            && (k == first || !std::thread::panicking())
    }
}

pub struct State {
    pub th: [Th; MAXT],
    pub n: usize,
    pub cur: usize,
    pub steps: u64,
    pub seq: u64,
    pub write_ep: u64,
    pub hsteps: u64,
    /// what happened in which order at the level of the harness, for runs that are compared with each other; an entry
    /// whose lowest bit is set is a switch the run was forced to make because the running thread had to wait
    pub level: Vec<u64>,
    pub level_on: bool,
    /// looks in vain while a thread is stalled
    pub waited: u64,
    pub rounds: u64,
    pub idle: u64,
    /// simulated time, ns
    pub now: u64,
    clock_seed: u64,
    clock_reads: u64,
    clock_row: u32,
    clock_tid: usize,
    pub last_progress: u64,
    pub strat: Strat,
    pub exp_pos: usize,
    pub pct_points: Vec<u64>,
    pub pct_low: u32,
    pub quantum: u32,
    pub rng: Rng,
    /// decisions about stale reads (separate, so that a replayed schedule sees the same ones)
    pub srng: Rng,
    pub faults: Faults,
    pub strict_stall: bool,
    pub plain_points: bool,
    pub cnt_next: u32,
    pub cnt_clone: u32,
    pub cnt_closure: u32,
    /// per wrapped iterator: threads inside its next, and the last to enter
    pub in_next: [u32; 4],
    pub in_next_tid: [usize; 4],
    pub probes: usize,
    pub trace: Vec<(u32, u8)>,
    /// additional steps granted to runs over long sources
    pub allow: u64,
    pub log_trace: bool,
    pub log: Vec<String>,
    pub hash: u64,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub hist: Hist,
    pub ledger: Ledger,
    pub race: Race,
    pub region: (usize, usize),
    pub on_fatal: Option<fn()>,
    job: Option<*const (dyn Fn(usize) + Sync)>,
    pub running: bool,
    pub run_id: u32,
    pub last_panic: String,
}

static mut G: *mut State = std::ptr::null_mut();
static TURN: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
pub static IN_RUN: AtomicBool = AtomicBool::new(false);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static ACT: Cell<bool> = const { Cell::new(false) };
}

#[inline(always)]
pub fn g() -> &'static mut State {
    unsafe { &mut *G }
}
#[inline(always)]
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
#[inline(always)]
pub fn active() -> bool {
    ACT.with(|a| a.get())
}
#[inline(never)]
pub fn set_act(on: bool) -> bool {
    ACT.with(|a| a.replace(on))
}

/// While alive, instrumented accesses and allocations of this thread are not attributed to the system under test.
pub struct Pause(bool);
impl Pause {
    #[inline(never)]
    pub fn new() -> Pause {
        Pause(set_act(false))
    }
}
impl Drop for Pause {
    #[inline(never)]
    fn drop(&mut self) {
        set_act(self.0);
    }
}

fn new_th() -> Th {
    Th {
        st: St::Off,
        steps: 0,
        spin: 0,
        spin_ep: 0,
        spin_start: 0,
        spinning: false,
        prio: 0,
        after_rmw: false,
        vc: [0; MAXT],
        acq_pend: [0; MAXT],
        rel_fence: None,
        stack: (0, 0),
        op: -1,
    }
}

pub fn sys_futex(addr: &AtomicU32, op: i32, val: u32) {
    unsafe {
        crate::interpose::raw_syscall(
            202,
            addr as *const _ as usize,
            op as usize,
            val as usize,
            0,
            0,
            0,
        );
    }
}
fn wake(t: usize) {
    TURN[t].store(1, Ordering::Release);
    sys_futex(&TURN[t], 1 | 128, 1);
}
fn wait_turn(t: usize) {
    loop {
        if TURN[t].swap(0, Ordering::AcqRel) == 1 {
            return;
        }
        sys_futex(&TURN[t], 128, 0);
    }
}

fn stack_bounds() -> (usize, usize) {
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getattr_np(t: usize, attr: *mut u8) -> i32;
        fn pthread_attr_getstack(attr: *const u8, addr: *mut usize, size: *mut usize) -> i32;
        fn pthread_attr_destroy(attr: *mut u8) -> i32;
    }
    unsafe {
        let mut attr = [0u64; 16];
        let (mut a, mut s) = (0usize, 0usize);
        if pthread_getattr_np(pthread_self(), attr.as_mut_ptr() as *mut u8) == 0 {
            pthread_attr_getstack(attr.as_ptr() as *const u8, &mut a, &mut s);
            pthread_attr_destroy(attr.as_mut_ptr() as *mut u8);
        }
        (a, a + s)
    }
}

/// Once per process: create the pool of parked threads.
pub fn init() {
    unsafe {
        assert!(G.is_null());
        let st = State {
            th: std::array::from_fn(|_| new_th()),
            n: 0,
            cur: 0,
            steps: 0,
            seq: 0,
            write_ep: 0,
            hsteps: 0,
            level: Vec::new(),
            level_on: false,
            waited: 0,
            rounds: 0,
            now: 0,
            clock_seed: 0,
            clock_reads: 0,
            clock_row: 0,
            clock_tid: 0,
            idle: 0,
            last_progress: 0,
            strat: Strat::Random { den: 1 },
            exp_pos: 0,
            pct_points: vec![],
            pct_low: 0,
            quantum: 0,
            rng: Rng::new(0),
            srng: Rng::new(0),
            faults: Faults::default(),
            strict_stall: false,
            plain_points: false,
            cnt_next: 0,
            cnt_clone: 0,
            cnt_closure: 0,
            in_next: [0; 4],
            in_next_tid: [0; 4],
            probes: 0,
            trace: Vec::with_capacity(1 << 12),
            allow: 0,
            log_trace: false,
            log: vec![],
            hash: 0,
            stats: Stats::default(),
            viols: vec![],
            hist: Hist::default(),
            ledger: Ledger::default(),
            race: Race::new(),
            region: (0, 0),
            on_fatal: None,
            job: None,
            running: false,
            run_id: 0,
            last_panic: String::new(),
        };
        G = Box::into_raw(Box::new(st));
    }
    TID.with(|t| t.set(0));
    g().th[0].stack = stack_bounds();
    let ready = std::sync::Arc::new(AtomicU32::new(0));
    for t in 1..MAXT {
        let up = ready.clone();
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                TID.with(|x| x.set(t));
                g().th[t].stack = stack_bounds();
                up.fetch_add(1, Ordering::SeqCst);
                loop {
                    wait_turn(t);
                    let job = g().job.expect("job");
                    let f = unsafe { &*job };
                    f(t);
                    finish(t);
                }
            })
            .expect("spawn");
        while ready.load(Ordering::SeqCst) != t as u32 {
            std::thread::yield_now();
        }
    }
}

pub fn begin_run(strat: Strat, seed: u64, faults: Faults, strict: bool, plain_points: bool) {
    let s = g();
    for t in 0..MAXT {
        let stack = s.th[t].stack;
        s.th[t] = new_th();
        s.th[t].stack = stack;
        s.th[t].vc[t] = 1;
    }
    s.n = 0;
    s.cur = 0;
    s.steps = 0;
    s.seq = 0;
    s.write_ep = 0;
    s.hsteps = 0;
    s.level.clear();
    s.waited = 0;
    s.rounds = 0;
    s.now = EPOCH;
    s.clock_seed = seed | 1;
    s.clock_reads = 0;
    s.clock_row = 0;
    s.clock_tid = 0;
    s.idle = 0;
    s.last_progress = 0;
    s.allow = 0;
    s.strat = strat;
    s.exp_pos = 0;
    s.rng = Rng::new(seed ^ 0x5CED_5CED);
    s.srng = Rng::new(seed ^ 0x57A1_E57A);
    s.pct_points.clear();
    s.pct_low = 0;
    s.quantum = 0;
    s.faults = faults;
    s.strict_stall = strict;
    s.plain_points = plain_points;
    s.cnt_next = 0;
    s.cnt_clone = 0;
    s.cnt_closure = 0;
    s.in_next = [0; 4];
    s.probes = 0;
    s.trace.clear();
    s.log.clear();
    s.hash = 0xcbf2_9ce4_8422_2325;
    s.stats = Stats::default();
    s.viols.clear();
    s.hist.clear();
    s.ledger.clear();
    s.race.clear();
    s.region = (0, 0);
    s.job = None;
    s.run_id = s.run_id.wrapping_add(1);
    s.running = true;
    s.th[0].st = St::Ready;
    crate::alloc::begin_run(s.run_id);
    IN_RUN.store(true, Ordering::SeqCst);
}

pub fn end_run() {
    IN_RUN.store(false, Ordering::SeqCst);
    set_act(false);
    g().running = false;
    crate::alloc::end_run();
}

/// Runs `f(1..=n)` on the simulated threads; returns when all of them are done.
#[inline(never)]
pub fn spawn_join(n: usize, f: &(dyn Fn(usize) + Sync)) {
    let _p = Pause::new();
    let s = g();
    if n == 0 {
        return;
    }
    assert!(n < MAXT);
    s.job = Some(unsafe { std::mem::transmute::<&(dyn Fn(usize) + Sync), *const (dyn Fn(usize) + Sync)>(f) });
    s.n = n;
    s.th[0].st = St::Off;
    let vc0 = s.th[0].vc;
    for t in 1..=n {
        s.th[t].st = St::Ready;
        crate::race::join(&mut s.th[t].vc, &vc0);
    }
    s.th[0].vc[0] += 1;
    if let Strat::Pct { d, k } = s.strat {
        let mut pr: Vec<u32> = (1..=n as u32).map(|x| x + 1000).collect();
        for i in (1..pr.len()).rev() {
            let j = s.rng.below(i + 1);
            pr.swap(i, j);
        }
        for t in 1..=n {
            s.th[t].prio = pr[t - 1];
        }
        let base = s.steps;
        for _ in 0..d {
            let p = base + 1 + s.rng.below(k.max(1) as usize) as u64;
            s.pct_points.push(p);
        }
        s.pct_low = 900;
    }
    let next = pick(usize::MAX, Pt::Start);
    g().cur = next;
    wake(next);
    wait_turn(0);
    let s = g();
    s.cur = 0;
    s.th[0].st = St::Ready;
    for t in 1..=n {
        let v = s.th[t].vc;
        crate::race::join(&mut s.th[0].vc, &v);
    }
    s.n = 0;
    s.idle = 0;
    s.last_progress = s.steps;
}

fn finish(t: usize) {
    set_act(false);
    let s = g();
    s.th[t].st = St::Done;
    s.idle = 0;
    s.last_progress = s.steps;
    let all = (1..=s.n).all(|t| s.th[t].st == St::Done);
    if all {
        wake(0);
    } else {
        s.steps += 1;
        let next = pick(t, Pt::Finish);
        g().cur = next;
        wake(next);
    }
}

pub fn violation(class: &'static str, msg: String) {
    let _p = Pause::new();
    let s = g();
    if s.viols.len() < 16 {
        let at = s.seq;
        s.viols.push(Viol { class, msg, at });
    }
}

fn fatal(class: &'static str, msg: String) -> ! {
    violation(class, msg);
    let f = g().on_fatal.expect("on_fatal");
    f();
    unreachable!()
}

fn range_of(s: &State) -> std::ops::RangeInclusive<usize> {
    if s.n == 0 {
        0..=0
    } else {
        1..=s.n
    }
}

fn describe_waiters(s: &State) -> String {
    let mut v = vec![];
    for t in range_of(s) {
        let th = &s.th[t];
        if !matches!(th.st, St::Done | St::Off) {
            let op = if th.op >= 0 { s.hist.describe_op(th.op as usize) } else { "-".into() };
            v.push(format!("t{t}:{:?}{}{} in {}", th.st, if th.spinning { "/spinning" } else { "" }, "", op));
        }
    }
    v.join("; ")
}

/// Decides who runs next. `cur` is the calling thread (or MAX if none); it may be not ready.
fn pick(cur: usize, kind: Pt) -> usize {
    let s = g();
    let step = s.steps as u32;
    loop {
        let (mut ready, mut live) = (0u32, 0u32);
        let (mut frozen, mut blocked) = (0u32, 0u32);
        for t in range_of(s) {
            let ep = s.write_ep;
            let th = &mut s.th[t];
            match th.st {
                St::Ready => {
                    ready |= 1 << t;
                    if th.spinning && th.spin_ep != ep {
                        th.spinning = false;
                        th.spin = 0;
                    }
                    if !th.spinning {
                        live |= 1 << t;
                    }
                }
                St::Frozen => frozen |= 1 << t,
                St::Blocked(_) => blocked |= 1 << t,
                _ => {}
            }
        }
        if live == 0 {
            if frozen != 0 {
                // the promise is about pulls; what else waits (a skip, a clone) may wait
                let pulls = s.strict_stall
                    && (1..=s.n).any(|t| {
                        let th = &s.th[t];
                        matches!(th.st, St::Ready | St::Blocked(_)) && th.op >= 0 && s.hist.pulls(th.op as usize)
                    });
                if pulls {
                    if ready == 0 || s.idle > STRICT_IDLE {
                        let d = describe_waiters(s);
                        violation("stall", format!("a thread suspended forever keeps others waiting: {d}"));
                        release_frozen(s);
                        continue;
                    }
                } else if ready == 0 || s.waited >= s.faults.patience as u64 {
                    release_frozen(s);
                    continue;
                }
                s.waited += 1;
            }
            if ready == 0 {
                let d = describe_waiters(s);
                fatal("hang", format!("deadlock: {d}"));
            }
            if frozen == 0 && s.idle > HANG_IDLE + s.faults.patience as u64 {
                let d = describe_waiters(s);
                fatal("hang", format!("no thread can make progress: {d}"));
            }
            // let a spinner run; rotate now and then
            let mut c = if cur <= s.n && cur != usize::MAX { cur } else { *range_of(s).start() };
            s.rounds += 1;
            if s.rounds % 64 == 63 || ready & (1 << c) == 0 {
                c = next_in(ready, c);
            }
            record(s, cur, c, step);
            return c;
        }
        if s.steps - s.last_progress > NO_PROGRESS + s.allow {
            let d = describe_waiters(s);
            fatal("hang", format!("no operation returned within {} fair steps: {d}", NO_PROGRESS + s.allow));
        }
        if s.level_on && kind.harness() && live != (ready | blocked) {
            // who waits just now limits the choice
            s.level.push((live as u64) << 1 | 1);
        }
        let curok = cur != usize::MAX && live & (1 << cur) != 0;
        let cnt = live.count_ones();
        let c = if cnt == 1 {
            // the PRNG is consulted only when there is a choice
            live.trailing_zeros() as usize
        } else if s.steps - s.last_progress > FAIR_AFTER + s.allow {
            next_in(live, if cur == usize::MAX { 0 } else { cur })
        } else {
            choose(s, cur, curok, live, kind, step)
        };
        record(s, cur, c, step);
        return c;
    }
}

fn next_in(mask: u32, c: usize) -> usize {
    for i in 1..=MAXT {
        let t = (c + i) % MAXT;
        if mask & (1 << t) != 0 {
            return t;
        }
    }
    c
}

fn nth_bit(mask: u32, mut k: usize) -> usize {
    for t in 0..32 {
        if mask & (1 << t) != 0 {
            if k == 0 {
                return t;
            }
            k -= 1;
        }
    }
    unreachable!()
}

fn choose(s: &mut State, cur: usize, curok: bool, live: u32, kind: Pt, step: u32) -> usize {
    let cnt = live.count_ones() as usize;
    let uniform = |s: &mut State| nth_bit(live, s.rng.below(cnt));
    let other = |s: &mut State| {
        let m = if curok { live & !(1 << cur) } else { live };
        nth_bit(m, s.rng.below(m.count_ones() as usize))
    };
    match &s.strat {
        Strat::Random { den } => {
            let den = *den as usize;
            if den <= 1 {
                uniform(s)
            } else if curok && !s.rng.chance(1, den) {
                cur
            } else {
                other(s)
            }
        }
        Strat::Pct { .. } => {
            if s.pct_points.contains(&s.steps) && cur != usize::MAX && cur >= 1 {
                s.th[cur].prio = s.pct_low;
                s.pct_low = s.pct_low.saturating_sub(1);
            }
            let mut best = usize::MAX;
            for t in 1..=s.n {
                if live & (1 << t) != 0 && (best == usize::MAX || s.th[t].prio > s.th[best].prio) {
                    best = t;
                }
            }
            best
        }
        Strat::AfterRmw => {
            let hot = curok && s.th[cur].after_rmw;
            let go = if hot { s.rng.chance(3, 4) } else { s.rng.chance(1, 12) };
            if curok && !go {
                cur
            } else {
                other(s)
            }
        }
        Strat::Quantum { max } => {
            let max = *max as usize;
            if curok && s.quantum > 0 {
                s.quantum -= 1;
                cur
            } else {
                s.quantum = s.rng.below(max + 1) as u32;
                next_in(live, if cur == usize::MAX { 0 } else { cur })
            }
        }
        Strat::Coarse { den } => {
            let den = *den as usize;
            if kind.harness() {
                if curok && !s.rng.chance(1, den) {
                    cur
                } else {
                    other(s)
                }
            } else if curok {
                cur
            } else {
                next_in(live, if cur == usize::MAX { 0 } else { cur })
            }
        }
        Strat::Starve { victim } => {
            let v = *victim as usize;
            let m = live & !(1 << v);
            if m != 0 && !s.rng.chance(1, 40) {
                if curok && m & (1 << cur) != 0 && !s.rng.chance(1, 3) {
                    cur
                } else {
                    nth_bit(m, s.rng.below(m.count_ones() as usize))
                }
            } else {
                uniform(s)
            }
        }
        Strat::Explicit(list) => {
            while s.exp_pos < list.len() && list[s.exp_pos].0 < step {
                s.exp_pos += 1;
            }
            if s.exp_pos < list.len() && list[s.exp_pos].0 == step {
                let t = list[s.exp_pos].1 as usize;
                if t < 32 && live & (1 << t) != 0 {
                    return t;
                }
            }
            if curok {
                cur
            } else {
                next_in(live, if cur == usize::MAX { 0 } else { cur })
            }
        }
    }
}

fn record(s: &mut State, cur: usize, c: usize, step: u32) {
    if cur != c {
        s.stats.switches += 1;
        if cur != usize::MAX && s.th[cur].st == St::Ready && !s.th[cur].spinning && s.th[cur].op >= 0 {
            s.stats.preempts += 1;
        }
        if s.trace.len() < 100_000 {
            s.trace.push((step, c as u8));
        }
    }
    s.hash = (s.hash ^ c as u64).wrapping_mul(0x1000_0000_01b3);
}

fn release_frozen(s: &mut State) {
    for t in 1..=s.n {
        if s.th[t].st == St::Frozen {
            s.th[t].st = St::Ready;
            s.stats.stalls_released += 1;
            s.idle = 0;
            s.last_progress = s.steps;
            s.waited = 0;
        }
    }
}

fn switch_from(t: usize, next: usize) {
    if next != t {
        g().cur = next;
        wake(next);
        wait_turn(t);
    }
}

/// A scheduling point of the calling simulated thread.
#[inline(never)]
pub fn point(kind: Pt) {
    let t = tid();
    let s = g();
    let was = set_act(false);
    s.steps += 1;
    s.seq += 1;
    s.idle += 1;
    s.stats.points += 1;
    s.hash = (s.hash ^ ((t as u64) << 8 | kind as u64)).wrapping_mul(0x1000_0000_01b3);
    if s.log_trace {
        let l = format!("#{} t{} {:?}", s.seq, t, kind);
        s.log.push(l);
    }
    if s.steps > MAX_STEPS + 10 * s.allow + 10 * s.faults.patience as u64 {
        let d = describe_waiters(s);
        fatal("hang", format!("the run does not end within {} steps: {d}", MAX_STEPS + 10 * s.allow));
    }
    if kind.harness() {
        s.hsteps += 1;
        if s.level_on {
            s.level.push(((t as u64) << 16 | (kind as u64) << 8) << 1);
        }
        s.idle = 0;
        s.th[t].spin = 0;
        s.th[t].spinning = false;
    }
    if s.n > 0 {
        s.th[t].steps += 1;
        if !s.faults.stalls.is_empty() {
            let ls = s.th[t].steps;
            let at = |x: &(u8, u32)| match x.0 {
                0 => kind == Pt::NextMid && x.1 == s.cnt_next + 1,
                v => v as usize == t && x.1 == ls,
            };
            if s.faults.stalls.iter().any(at) {
                s.th[t].st = St::Frozen;
                s.stats.stalls_fired += 1;
            }
        }
        let next = pick(t, kind);
        if s.level_on && next != t && !kind.harness() {
            s.level.push((t as u64) << 9 | (next as u64) << 1 | 1);
        }
        switch_from(t, next);
    } else {
        if s.th[0].spinning && s.idle > HANG_IDLE + s.faults.patience as u64 {
            let d = describe_waiters(s);
            fatal("hang", format!("no thread can make progress: {d}"));
        }
        if s.steps - s.last_progress > NO_PROGRESS + s.allow {
            let d = describe_waiters(s);
            fatal("hang", format!("operation does not return: {d}"));
        }
    }
    g().th[t].after_rmw = false;
    set_act(was);
}

/// Accounting after an atomic operation.
pub fn after_atomic(t: usize, changed: bool, rmw: bool) {
    let s = g();
    s.stats.atomics += 1;
    if changed {
        s.write_ep += 1;
        s.idle = 0;
        s.th[t].spin = 0;
        s.th[t].spinning = false;
        s.th[t].after_rmw = rmw;
    } else {
        spin_step(t, 1);
    }
}
/// One reading of the simulated clock. Time passes with every step (1 µs), faster and faster for a thread that keeps
/// looking at the clock, and now and then it jumps: the thread had been descheduled.
pub fn clock_read(wall: bool) -> u64 {
    let t = tid();
    point(Pt::Yield);
    let s = g();
    s.stats.clock_reads += 1;
    s.clock_reads += 1;
    if s.clock_tid == t {
        s.clock_row = (s.clock_row + 1).min(36);
    } else {
        s.clock_tid = t;
        s.clock_row = 0;
    }
    s.now = s.now.saturating_add(1u64 << s.clock_row);
    let h = (s.clock_seed ^ s.clock_reads).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    if h >> 61 == 0 {
        s.stats.clock_jumps += 1;
        s.now = s.now.saturating_add(1u64 << (10 + (h >> 40) % 31));
    }
    // waiting for a moment in time is no hang, but others go first
    s.idle = 0;
    spin_step(t, 1);
    let v = s.now + ticks(s) * 1000;
    if wall {
        // wall clocks are set back as well
        return if h >> 62 == 1 { v / 2 } else { v };
    }
    v
}
/// What simulated time is counted in. Runs that are compared with each other (two builds, adaptor and underlying iterator)
/// count only the points they have in common.
fn ticks(s: &State) -> u64 {
    if matches!(s.strat, Strat::Coarse { .. }) {
        s.hsteps
    } else {
        s.steps
    }
}
pub fn clock_pass(ns: u64) {
    let s = g();
    s.now = s.now.saturating_add(ns);
}
pub fn clock_at_least(ns: u64) {
    let s = g();
    s.now = s.now.max(ns.saturating_sub(ticks(s) * 1000));
}
pub fn spin_step(t: usize, by: u32) {
    let s = g();
    let th = &mut s.th[t];
    if th.spin == 0 {
        th.spin_start = s.write_ep;
    }
    th.spin += by;
    if th.spin >= 6 && !th.spinning {
        if th.spin_start != s.write_ep {
            // something changed since it started to look
            th.spin = 0;
            return;
        }
        th.spinning = true;
        th.spin_ep = s.write_ep;
        s.stats.spins += 1;
    }
}

/// Blocks the calling thread on a futex address; returns when woken.
pub fn futex_wait(addr: usize) {
    let t = tid();
    let s = g();
    let was = set_act(false);
    s.stats.futex_blocks += 1;
    s.steps += 1;
    s.seq += 1;
    if s.n == 0 {
        let d = describe_waiters(s);
        fatal("hang", format!("blocked on a lock with no other thread: {d}"));
    }
    s.th[t].st = St::Blocked(addr);
    let next = pick(t, Pt::Futex);
    if s.level_on && next != t {
        s.level.push((t as u64) << 9 | (next as u64) << 1 | 1);
    }
    switch_from(t, next);
    set_act(was);
}
pub fn futex_wake(addr: usize, n: usize) -> usize {
    let s = g();
    let mut k = 0;
    for t in 1..=s.n {
        if k < n && s.th[t].st == St::Blocked(addr) {
            s.th[t].st = St::Ready;
            k += 1;
        }
    }
    if k > 0 {
        s.write_ep += 1;
        s.idle = 0;
    }
    k
}

pub fn progress() {
    let s = g();
    s.last_progress = s.steps;
    s.idle = 0;
}
