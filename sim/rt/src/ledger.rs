//! Element ledger: every element instance has an identity; moves out and destructor runs are counted.
use crate::sched::{g, point, violation, Pause, Pt};

pub const NONE: u32 = u32::MAX;
pub const MAGIC: u64 = 0x70C3_11FE_55AA_0F17;

#[derive(Clone, Debug)]
pub struct Inst {
    pub val: u32,
    pub parent: u32,
    pub outs: u32,
    pub drops: u32,
    pub born_in_op: i32,
}
#[derive(Default)]
pub struct Ledger {
    pub insts: Vec<Inst>,
    pub sealed: bool,
    pub z_made: u64,
    pub z_dropped: u64,
    pub z_out: u64,
    pub z_cloned: u64,
    /// elements of the borrowed collection may be dropped only from here on
    pub collection_phase: bool,
    pub borrowed: bool,
}
impl Ledger {
    pub fn clear(&mut self) {
        self.insts.clear();
        self.sealed = false;
        self.z_made = 0;
        self.z_dropped = 0;
        self.z_out = 0;
        self.z_cloned = 0;
        self.collection_phase = false;
        self.borrowed = false;
    }
}

#[inline(never)]
pub fn tok_new(val: u32) -> u32 {
    let _p = Pause::new();
    let l = &mut g().ledger;
    l.insts.push(Inst { val, parent: NONE, outs: 0, drops: 0, born_in_op: -1 });
    (l.insts.len() - 1) as u32
}
pub struct Injected;
#[inline(never)]
pub fn tok_val(inst: u32) -> u64 {
    let _p = Pause::new();
    g().ledger.insts.get(inst as usize).map_or(0xBAD0_0000, |x| x.val as u64)
}

#[inline(never)]
pub fn tok_clone(inst: u32, magic: u64) -> u32 {
    if g().running && crate::sched::active() {
        point(Pt::Clone);
    }
    let boom = {
        let _p = Pause::new();
        let s = g();
        check(inst, magic, "cloned");
        s.cnt_clone += 1;
        s.faults.fires(s.faults.panic_clone, s.cnt_clone)
    };
    if boom {
        g().stats.panics_clone += 1;
        std::panic::panic_any(Injected);
    }
    let _p = Pause::new();
    let s = g();
    let l = &mut s.ledger;
    let val = l.insts.get(inst as usize).map(|x| x.val).unwrap_or(NONE);
    let op = s.th[crate::sched::tid()].op;
    l.insts.push(Inst { val, parent: inst, outs: 0, drops: 0, born_in_op: op });
    (l.insts.len() - 1) as u32
}
fn class_of(what: &str) -> &'static str {
    if what == "held by a caller" {
        "ledger-held"
    } else {
        "ledger-out"
    }
}
fn check(inst: u32, magic: u64, what: &str) -> bool {
    let l = &g().ledger;
    if magic != MAGIC ^ inst as u64 || inst as usize >= l.insts.len() {
        violation(class_of(what), format!("garbage {what} as an element (not an element of the source)"));
        return false;
    }
    if l.insts[inst as usize].drops > 0 {
        violation(class_of(what), format!("element {} {what} after its destructor ran", l.insts[inst as usize].val));
        return false;
    }
    true
}
#[inline(never)]
pub fn tok_drop(inst: u32, magic: u64) {
    if g().running && crate::sched::active() {
        point(Pt::Drop);
    }
    let _p = Pause::new();
    if magic != MAGIC ^ inst as u64 || inst as usize >= g().ledger.insts.len() {
        violation("ledger-drop", "garbage dropped as an element".into());
        return;
    }
    let l = &mut g().ledger;
    let borrowed_src = l.borrowed && !l.collection_phase && l.insts[inst as usize].parent == NONE;
    let i = &mut l.insts[inst as usize];
    i.drops += 1;
    let (v, d) = (i.val, i.drops);
    if d > 1 {
        violation("ledger-drop", format!("element {v} dropped {d} times"));
    }
    if borrowed_src {
        violation("borrow", format!("element {v} of the borrowed collection was dropped"));
    }
}
/// The caller received this element by value.
#[inline(never)]
pub fn tok_out(inst: u32, magic: u64) {
    let _p = Pause::new();
    if !check(inst, magic, "delivered") {
        return;
    }
    let l = &mut g().ledger;
    let i = &mut l.insts[inst as usize];
    i.outs += 1;
    let (v, o) = (i.val, i.outs);
    if o > 1 {
        violation("ledger-out", format!("element {v} moved out {o} times"));
    }
}
/// The caller still holds (a reference to) this element.
#[inline(never)]
pub fn tok_alive(inst: u32, magic: u64) {
    let _p = Pause::new();
    check(inst, magic, "held by a caller");
}
#[inline(never)]
pub fn z_made() {
    g().ledger.z_made += 1;
}
#[inline(never)]
pub fn z_drop() {
    if g().running && crate::sched::active() {
        point(Pt::Drop);
    }
    let l = &mut g().ledger;
    l.z_dropped += 1;
    if l.z_dropped > l.z_made {
        let m = format!("zero-sized element dropped {} times, only {} exist", l.z_dropped, l.z_made);
        violation("ledger-drop", m);
    }
    if l.borrowed && !l.collection_phase && l.z_dropped > l.z_cloned {
        violation("borrow", "a zero-sized element of the borrowed collection was dropped".into());
    }
}
#[inline(never)]
pub fn z_out() {
    g().ledger.z_out += 1;
}
#[inline(never)]
pub fn z_clone() {
    if g().running && crate::sched::active() {
        point(Pt::Clone);
    }
    let boom = {
        let s = g();
        s.cnt_clone += 1;
        s.faults.fires(s.faults.panic_clone, s.cnt_clone)
    };
    if boom {
        g().stats.panics_clone += 1;
        std::panic::panic_any(Injected);
    }
    g().ledger.z_made += 1;
    g().ledger.z_cloned += 1;
}
