//! orxsim worker|replay|gen|transcript
mod gen;
mod oracle;
use rt::scn::Scn;
use rt::sched::{begin_run, end_run, g, Pause, Strat};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static mut CUR: Option<Cur> = None;
struct Cur {
    prop: String,
    scn: Scn,
    out: Mode,
    /// the underlying iterator of an adaptor is being run, for reference
    reference: bool,
}
enum Mode {
    Worker,
    Replay,
    Transcript,
    Quiet,
}
static RUN_NO: AtomicU64 = AtomicU64::new(0);
static IN_FLIGHT: AtomicU64 = AtomicU64::new(0);

fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let _p = Pause::new();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "injected".to_string()
        };
        let l = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if rt::sched::IN_RUN.load(SeqCst) {
            g().last_panic = format!("{m}{l}");
        } else {
            eprintln!("harness panic: {m}{l}");
        }
    }));
}

fn exec(scn: &Scn) {
    RUN_NO.fetch_add(1, SeqCst);
    IN_FLIGHT.store(1, SeqCst);
    begin_run(scn.strat.clone(), scn.seed, scn.faults.clone(), scn.strict, scn.plain);
    if scn.len > 1000 && scn.len <= 100_000 {
        g().allow = 20 * (scn.len * scn.niter.max(1)) as u64;
    }
    sut::run(scn);
}
fn done() {
    end_run();
    IN_FLIGHT.store(0, SeqCst);
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// A run that cannot continue: report and leave (the other threads are parked inside the crate).
fn fatal_judge(c: &Cur) -> Option<oracle::Bad> {
    if c.reference {
        return None;
    }
    let b = oracle::judge(&c.prop, &c.scn, true);
    if b.is_none() && c.prop == "C13" {
        let m = g().viols.iter().find(|v| v.class == "hang").map(|v| v.msg.clone()).unwrap_or_default();
        return Some(oracle::Bad { class: "adaptor".into(), msg: format!("the adaptor does not return where the underlying iterator does: {m}") });
    }
    b
}
#[allow(static_mut_refs)]
fn set_reference(on: bool) {
    unsafe {
        if let Some(c) = CUR.as_mut() {
            c.reference = on;
        }
    }
}
fn fatal() {
    let cur = unsafe { (*std::ptr::addr_of!(CUR)).as_ref() };
    let Some(c) = cur else { std::process::exit(9) };
    match c.out {
        Mode::Worker => {
            let b = fatal_judge(c);
            let h = &g().viols.iter().find(|v| v.class == "hang").map(|v| v.msg.clone()).unwrap_or_default();
            println!("{{\"ev\":\"hang\",\"seed\":{},\"msg\":\"{}\"}}", c.scn.seed, esc(h));
            if let Some(b) = b {
                report(c.scn.seed, &b);
            }
            if c.prop == "C17" && !c.scn.fine {
                println!("{{\"ev\":\"tr\",\"seed\":{},\"h\":\"{:016x}\"}}", c.scn.seed, fnv(&tr_text(&c.scn, true)));
            }
            finish_worker();
        }
        Mode::Replay => {
            let b = fatal_judge(c);
            verdict(b, true);
        }
        Mode::Transcript => {
            println!("{}", tr_text(&c.scn, true));
        }
        Mode::Quiet => println!("hang"),
    }
    let _ = std::io::stdout().flush();
    unsafe { rt::interpose::raw_syscall(231, 4, 0, 0, 0, 0, 0) };
}
fn tr_text(s: &Scn, hung: bool) -> String {
    oracle::transcript(s, hung, true)
}
fn report(seed: u64, b: &oracle::Bad) {
    println!("{{\"ev\":\"viol\",\"seed\":{},\"class\":\"{}\",\"msg\":\"{}\"}}", seed, esc(&b.class), esc(&b.msg));
}

fn trace_text() -> String {
    let t: Vec<String> = g().trace.iter().map(|x| format!("{}:{}", x.0, x.1)).collect();
    format!("explicit {}", t.join(" "))
}
fn verdict(b: Option<oracle::Bad>, hung: bool) {
    println!("hash {:016x}", g().hash);
    println!("steps {}", g().steps);
    println!("hung {}", hung as u8);
    println!("trace {}", trace_text());
    if g().log_trace {
        for l in &g().log {
            println!("| {l}");
        }
    }
    for v in &g().viols {
        println!("runtime {} {}", v.class, v.msg.replace('\n', " "));
    }
    match b {
        Some(b) => println!("VERDICT violation {} {}", b.class, b.msg.replace('\n', " ")),
        None => println!("VERDICT ok"),
    }
}

/// executes one scenario and judges it
fn run_one(prop: &str, scn: &Scn) -> Option<oracle::Bad> {
    let mut reference = None;
    if prop == "C13" {
        let mut u = scn.clone();
        u.kind = scn.kind.underlying();
        if matches!(u.elem, rt::scn::Elem::Zst | rt::scn::Elem::Unit) && !scn.src().zst() {
            u.elem = rt::scn::Elem::Tok;
        }
        set_reference(true);
        g().level_on = true;
        exec(&u);
        set_reference(false);
        let upan = g().viols.iter().any(|v| v.class == "panic");
        reference = Some((oracle::transcript(&u, false, false), upan, std::mem::take(&mut g().level)));
        done();
    }
    exec(scn);
    if let Some(v) = g().viols.iter().find(|v| v.class == "harness") {
        let m = v.msg.clone();
        done();
        eprintln!("HARNESS {m} seed {}", scn.seed);
        println!("{{\"ev\":\"harness\",\"seed\":{},\"msg\":\"{}\"}}", scn.seed, esc(&m));
        return None;
    }
    let mut b = oracle::judge(prop, scn, false);
    if let (Some((w, upan, level)), true) = (reference, b.is_none()) {
        let a = oracle::transcript(scn, false, false);
        let pan = g().viols.iter().any(|v| v.class == "panic");
        // the two runs cannot be compared further if one of them had to wait where the other had not
        let k = level.iter().zip(&g().level).take_while(|x| x.0 == x.1).count();
        let waits = |v: &[u64]| v.get(k).is_some_and(|x| x & 1 != 0);
        if a != w && (waits(&level) || waits(&g().level)) {
            return None;
        }
        if a != w {
            let l = a.lines().zip(w.lines()).find(|x| x.0 != x.1);
            let (x, y) = l.unwrap_or(("(more)", "(less)"));
            b = Some(oracle::Bad {
                class: "adaptor".into(),
                msg: format!("adaptor and underlying iterator differ: adaptor [{x}] underlying [{y}]"),
            });
        } else if pan && !upan {
            b = Some(oracle::Bad { class: "panic".into(), msg: "the adaptor panics, the underlying iterator does not".into() });
        }
    }
    if b.as_ref().is_some_and(|b| b.class == "leak") {
        // confirmed only if it repeats
        for _ in 0..2 {
            done();
            exec(scn);
            if oracle::judge(prop, scn, false).is_none() {
                b = None;
                break;
            }
        }
    }
    b
}

#[derive(Default)]
struct Tot {
    runs: u64,
    points: u64,
    maxsteps: u64,
    switches: u64,
    preempts: u64,
    atomics: u64,
    plain: u64,
    spins: u64,
    stalls: u64,
    stall_rel: u64,
    stale: u64,
    p_next: u64,
    p_clone: u64,
    p_closure: u64,
    p_caller: u64,
    futex: u64,
    simns: u64,
    ops: u64,
    delivered: u64,
    nontrivial: u64,
    kinds: BTreeMap<String, u64>,
    strats: BTreeMap<String, u64>,
    opk: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
}
static mut TOT: Option<Tot> = None;
static mut HASHES: Option<HashSet<u64>> = None;
static mut TRFILE: Option<std::fs::File> = None;
static mut HASHPATH: Option<String> = None;

#[allow(static_mut_refs)]
fn tot() -> &'static mut Tot {
    unsafe { TOT.get_or_insert_with(Default::default) }
}
#[allow(static_mut_refs)]
fn hashes() -> &'static mut HashSet<u64> {
    unsafe { HASHES.get_or_insert_with(Default::default) }
}
fn account(s: &Scn) {
    let t = tot();
    let st = &g().stats;
    t.runs += 1;
    t.points += st.points;
    t.maxsteps = t.maxsteps.max(g().steps);
    t.switches += st.switches;
    t.preempts += st.preempts;
    t.atomics += st.atomics;
    t.plain += st.plain;
    t.spins += st.spins;
    t.stalls += st.stalls_fired;
    t.stall_rel += st.stalls_released;
    t.stale += st.stale_reads;
    t.p_next += st.panics_next;
    t.p_clone += st.panics_clone;
    t.p_closure += st.panics_closure;
    t.p_caller += st.panics_caller;
    t.futex += st.futex_blocks;
    t.simns += (g().now - rt::sched::EPOCH).min(1 << 50) + g().steps * 1000;
    let h = &g().hist;
    t.ops += h.ops.len() as u64;
    t.delivered += h.dl.len() as u64;
    *t.kinds.entry(s.kind.name().into()).or_default() += 1;
    let sn = rt::scn::strat_str(&s.strat);
    *t.strats.entry(sn.split(' ').next().unwrap_or("").into()).or_default() += 1;
    let mut ab = 0;
    let mut ex = 0;
    for o in &h.ops {
        *t.opk.entry(format!("{:?}", o.k)).or_default() += 1;
        if !o.cons_full {
            ab += 1;
        }
        if o.n > 1 << 30 || o.n == 0 && matches!(o.k, rt::hist::K::Chunk | rt::hist::K::NewBuf) {
            ex += 1;
        }
    }
    let mut f = |k: &str, n: u64| {
        if n > 0 {
            *t.faults.entry(k.into()).or_default() += n;
        }
    };
    f("thread stalled at a chosen point", st.stalls_fired);
    f("stalled thread released after everyone else was blocked or done", st.stalls_released);
    f("panic injected in wrapped next", st.panics_next);
    f("panic injected in element clone", st.panics_clone);
    f("panic injected in user closure", st.panics_closure);
    f("panic of a caller holding a chunk, a buffer or the iterator", st.panics_caller);
    f("preemption inside an operation", st.preempts);
    f("reading of the simulated clock", st.clock_reads);
    f("jump of the simulated clock", st.clock_jumps);
    f("stale value returned by a weak load", st.stale_reads);
    f("chunk abandoned or partly consumed", ab);
    f("extreme or zero chunk size", ex);
    f("skip_to_end at a chosen point", h.ops.iter().filter(|o| o.k == rt::hist::K::Skip).count() as u64);
    f("iterator dropped before its end", if h.ops.iter().all(|o| !o.ended) { 1 } else { 0 });
    f("non-fused wrapped iterator", s.nonfused as u64);
    f("range bound near the largest index", (s.kind == rt::scn::Kind::Range && s.start.max(s.end_) > usize::MAX - 1000) as u64);
    let nontriv = st.preempts > 0
        || st.stalls_fired + st.panics_next + st.panics_clone + st.panics_closure + st.panics_caller > 0
        || (s.threads.len() < 2 && h.ops.len() >= 3);
    if nontriv {
        t.nontrivial += 1;
        // identity of the execution: scenario and schedule
        let mut x = g().hash ^ fnv(&s.to_text().lines().filter(|l| !l.starts_with("seed") && !l.starts_with("sched")).collect::<Vec<_>>().join("\n"));
        x ^= x >> 29;
        hashes().insert(x);
    }
}
fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}
#[allow(static_mut_refs)]
fn finish_worker() {
    let t = tot();
    let m = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    println!(
        "{{\"ev\":\"stats\",\"runs\":{},\"points\":{},\"maxsteps\":{},\"switches\":{},\"preempts\":{},\"simns\":{},\"atomics\":{},\"plain\":{},\"spins\":{},\"futex\":{},\"ops\":{},\"delivered\":{},\"nontrivial\":{},\"distinct\":{},\"kinds\":{},\"strats\":{},\"opk\":{},\"faults\":{}}}",
        t.runs, t.points, t.maxsteps, t.switches, t.preempts, t.simns, t.atomics, t.plain, t.spins, t.futex, t.ops, t.delivered, t.nontrivial,
        hashes().len(), m(&t.kinds), m(&t.strats), m(&t.opk), m(&t.faults)
    );
    unsafe {
        if let Some(p) = &HASHPATH {
            let mut b = Vec::with_capacity(hashes().len() * 8);
            for h in hashes().iter() {
                b.extend_from_slice(&h.to_le_bytes());
            }
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
                let _ = f.write_all(&b);
            }
        }
        if let Some(f) = &mut TRFILE {
            let _ = f.flush();
        }
    }
    let _ = std::io::stdout().flush();
}

fn watchdog(limit: u64) {
    std::thread::spawn(move || {
        let mut last = (0, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let n = RUN_NO.load(SeqCst);
            if IN_FLIGHT.load(SeqCst) == 0 || n != last.0 {
                last = (n, 0);
                continue;
            }
            last.1 += 1;
            if last.1 >= limit {
                // a run that does not even reach a scheduling point any more
                println!("{{\"ev\":\"stuck\"}}");
                println!("VERDICT stuck");
                let _ = std::io::stdout().flush();
                unsafe { rt::interpose::raw_syscall(231, 5, 0, 0, 0, 0, 0) };
            }
        }
    });
}

fn set_cur(prop: &str, scn: &Scn, out: Mode) {
    unsafe { *std::ptr::addr_of_mut!(CUR) = Some(Cur { prop: prop.into(), scn: scn.clone(), out, reference: false }) };
}

fn warm() {
    for seed in 0..12 {
        let mut s = gen::gen("C08", 1_000_000 + seed);
        s.faults = Default::default();
        s.strat = Strat::Coarse { den: 2 };
        set_cur("-", &s, Mode::Quiet);
        exec(&s);
        done();
    }
    // one unwinding, so that the panic machinery has allocated what it keeps
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(rt::ledger::Injected));
}

#[allow(static_mut_refs)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    rt::sched::init();
    g().on_fatal = Some(fatal);
    hook_quiet();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        // worker PROP FIRST STRIDE COUNT SECONDS DIR NAME
        "worker" => {
            let prop = a[2].clone();
            let (first, stride, count): (u64, u64, u64) =
                (a[3].parse().expect("first"), a[4].parse().expect("stride"), a[5].parse().expect("count"));
            let secs: f64 = a[6].parse().expect("secs");
            let dir = a[7].clone();
            let name = a[8].clone();
            unsafe {
                HASHPATH = Some(format!("{dir}/{name}.hash"));
                if prop == "C17" {
                    TRFILE = std::fs::OpenOptions::new().append(true).create(true).open(format!("{dir}/{name}.tr")).ok();
                }
            }
            let prog = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(format!("{dir}/{name}.seed")).expect("progress");
            use std::os::unix::fs::FileExt;
            // not yet at the first seed
            let _ = prog.write_all_at(&(u64::MAX - 1).to_le_bytes(), 0);
            watchdog(20);
            if std::env::var("ORXSIM_NOWARM").is_err() {
                warm();
            }
            hook();
            let t0 = std::time::Instant::now();
            let mut i = 0;
            while i < count && t0.elapsed().as_secs_f64() < secs {
                let seed = first + i * stride;
                i += 1;
                let _ = prog.write_all_at(&seed.to_le_bytes(), 0);
                let scn = gen::gen(&prop, seed);
                set_cur(&prop, &scn, Mode::Worker);
                let b = run_one(&prop, &scn);
                account(&scn);
                if prop == "C17" && !scn.fine {
                    let h = fnv(&tr_text(&scn, false));
                    unsafe {
                        if let Some(f) = &mut TRFILE {
                            let mut x = [0u8; 16];
                            x[..8].copy_from_slice(&seed.to_le_bytes());
                            x[8..].copy_from_slice(&h.to_le_bytes());
                            let _ = f.write_all(&x);
                        }
                    }
                }
                done();
                if let Some(b) = b {
                    report(seed, &b);
                    break;
                }
            }
            let _ = prog.write_all_at(&u64::MAX.to_le_bytes(), 0);
            finish_worker();
        }
        // distinct FILE...: how many different 64-bit values the files hold
        "distinct" => {
            let mut v: Vec<u64> = vec![];
            for f in &a[2..] {
                let b = std::fs::read(f).unwrap_or_default();
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().expect("8 bytes"))));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
        }
        "gen" => {
            let s = gen::gen(&a[2], a[3].parse().expect("seed"));
            print!("{}", s.to_text());
        }
        // sweep PROP FILE N: the scenario under N schedules; prints the panics of the crate
        "sweep" => {
            let mut scn = if let Some(n) = a[3].strip_prefix("seed:") {
                gen::gen(&a[2], n.parse().expect("seed"))
            } else {
                Scn::parse(&std::fs::read_to_string(&a[3]).expect("replay file")).expect("scenario")
            };
            watchdog(20);
            hook();
            if matches!(scn.strat, Strat::Explicit(_)) {
                scn.strat = Strat::Random { den: 2 };
            }
            for k in 0..a[4].parse::<u64>().expect("count") {
                scn.seed = 1 + k * 7919;
                set_cur(&a[2], &scn, Mode::Quiet);
                exec(&scn);
                for v in g().viols.iter().filter(|v| v.class == "panic") {
                    println!("panic {}", v.msg.rsplit(" at ").next().unwrap_or("").replace('\n', " "));
                }
                done();
            }
            println!("swept");
        }
        // replay PROP FILE [log]   (FILE may be "seed:N")
        "replay" | "transcript" => {
            let prop = a[2].clone();
            let scn = if let Some(n) = a[3].strip_prefix("seed:") {
                gen::gen(&prop, n.parse().expect("seed"))
            } else {
                match Scn::parse(&std::fs::read_to_string(&a[3]).expect("replay file")) {
                    Ok(s) => s,
                    Err(e) => {
                        println!("VERDICT unusable {e}");
                        return;
                    }
                }
            };
            watchdog(20);
            hook();
            g().log_trace = a.get(4).is_some_and(|x| x == "log");
            if cmd == "replay" {
                set_cur(&prop, &scn, Mode::Replay);
                let b = run_one(&prop, &scn);
                verdict(b, false);
                done();
            } else {
                set_cur(&prop, &scn, Mode::Transcript);
                exec(&scn);
                println!("{}", tr_text(&scn, false));
                done();
            }
        }
        _ => eprintln!("orxsim worker|gen|replay|transcript"),
    }
    let _ = std::io::stdout().flush();
    // parked pool threads need no goodbye
    unsafe { rt::interpose::raw_syscall(231, 0, 0, 0, 0, 0, 0) };
}
fn hook_quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
