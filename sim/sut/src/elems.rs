//! Element types whose identity, moves and destructor runs are observed.
use rt::ledger::*;

pub struct Ob {
    pub val: u64,
    pub addr: usize,
    pub inst: u32,
}
/// What a caller sees of a delivered item.
pub trait Obs: Send + Sync {
    fn ob(&self) -> Ob;
    /// ownership (if any) arrived at the caller
    fn arrived(&self);
    fn alive(&self);
}
/// Element stored in a source collection.
pub trait El: Obs + Clone + 'static {
    fn make(val: u32) -> Self;
    /// harness-internal read of the value, without any side effect
    fn peek(&self) -> u64;
}

pub struct Tok {
    pub inst: u32,
    pub val: u32,
    pub magic: u64,
}
impl Tok {
    fn new(val: u32) -> Tok {
        let inst = tok_new(val);
        Tok { inst, val, magic: MAGIC ^ inst as u64 }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        let inst = tok_clone(self.inst, self.magic);
        Tok { inst, val: self.val, magic: MAGIC ^ inst as u64 }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        tok_drop(self.inst, self.magic);
    }
}
impl Obs for Tok {
    fn ob(&self) -> Ob {
        Ob { val: self.val as u64, addr: 0, inst: self.inst }
    }
    fn arrived(&self) {
        tok_out(self.inst, self.magic)
    }
    fn alive(&self) {
        tok_alive(self.inst, self.magic)
    }
}
impl El for Tok {
    fn make(val: u32) -> Self {
        Tok::new(val)
    }
    fn peek(&self) -> u64 {
        self.val as u64
    }
}

#[derive(Clone)]
pub struct Bx(Box<Tok>);
impl Obs for Bx {
    fn ob(&self) -> Ob {
        self.0.ob()
    }
    fn arrived(&self) {
        self.0.arrived()
    }
    fn alive(&self) {
        self.0.alive()
    }
}
impl El for Bx {
    fn make(val: u32) -> Self {
        Bx(Box::new(Tok::new(val)))
    }
    fn peek(&self) -> u64 {
        self.0.peek()
    }
}

#[repr(align(64))]
pub struct Lg {
    tok: Tok,
    pad: [u64; 13],
}
fn pad(magic: u64) -> [u64; 13] {
    std::array::from_fn(|i| magic.rotate_left(i as u32 * 3))
}
impl Clone for Lg {
    fn clone(&self) -> Lg {
        let tok = self.tok.clone();
        let pad = pad(tok.magic);
        Lg { tok, pad }
    }
}
impl Obs for Lg {
    fn ob(&self) -> Ob {
        let mut o = self.tok.ob();
        o.val = self.peek();
        o
    }
    fn arrived(&self) {
        self.tok.arrived()
    }
    fn alive(&self) {
        self.tok.alive()
    }
}
impl El for Lg {
    fn make(val: u32) -> Self {
        let tok = Tok::new(val);
        let pad = pad(tok.magic);
        Lg { tok, pad }
    }
    fn peek(&self) -> u64 {
        if self.pad != pad(self.tok.magic) {
            return 0xBAD0_0000;
        }
        self.tok.val as u64
    }
}

/// two bytes: the identity alone
pub struct Sm(u16);
impl Sm {
    fn inst(inst: u32) -> Sm {
        Sm(u16::try_from(inst).expect("too many small elements"))
    }
}
fn magic(inst: u16) -> u64 {
    MAGIC ^ inst as u64
}
impl Clone for Sm {
    fn clone(&self) -> Sm {
        Sm::inst(tok_clone(self.0 as u32, magic(self.0)))
    }
}
impl Drop for Sm {
    fn drop(&mut self) {
        tok_drop(self.0 as u32, magic(self.0));
    }
}
impl Obs for Sm {
    fn ob(&self) -> Ob {
        Ob { val: self.peek(), addr: 0, inst: self.0 as u32 }
    }
    fn arrived(&self) {
        tok_out(self.0 as u32, magic(self.0))
    }
    fn alive(&self) {
        tok_alive(self.0 as u32, magic(self.0))
    }
}
impl El for Sm {
    fn make(val: u32) -> Self {
        Sm::inst(tok_new(val))
    }
    fn peek(&self) -> u64 {
        tok_val(self.0 as u32)
    }
}

pub struct Zs;
impl Clone for Zs {
    fn clone(&self) -> Self {
        z_clone();
        Zs
    }
}
impl Drop for Zs {
    fn drop(&mut self) {
        z_drop()
    }
}
impl Obs for Zs {
    fn ob(&self) -> Ob {
        Ob { val: u64::MAX, addr: 0, inst: NONE }
    }
    fn arrived(&self) {
        z_out()
    }
    fn alive(&self) {}
}
impl El for Zs {
    fn make(_: u32) -> Self {
        z_made();
        Zs
    }
    fn peek(&self) -> u64 {
        u64::MAX
    }
}

/// zero-sized, no destructor
#[derive(Clone, Copy)]
pub struct Un;
impl Obs for Un {
    fn ob(&self) -> Ob {
        Ob { val: u64::MAX, addr: 0, inst: NONE }
    }
    fn arrived(&self) {}
    fn alive(&self) {}
}
impl El for Un {
    fn make(_: u32) -> Self {
        Un
    }
    fn peek(&self) -> u64 {
        u64::MAX
    }
}

/// for copied(): no destructor, no identity beyond its value
#[derive(Clone, Copy)]
pub struct Ct {
    val: u32,
    magic: u64,
}
impl Obs for Ct {
    fn ob(&self) -> Ob {
        let ok = self.magic == MAGIC ^ self.val as u64;
        Ob { val: if ok { self.val as u64 } else { 0xBAD0_0000 }, addr: 0, inst: NONE }
    }
    fn arrived(&self) {}
    fn alive(&self) {}
}
impl El for Ct {
    fn make(val: u32) -> Self {
        Ct { val, magic: MAGIC ^ val as u64 }
    }
    fn peek(&self) -> u64 {
        self.ob().val
    }
}

impl Obs for usize {
    fn ob(&self) -> Ob {
        Ob { val: *self as u64, addr: 0, inst: NONE }
    }
    fn arrived(&self) {}
    fn alive(&self) {}
}
impl<T: Obs> Obs for &T {
    fn ob(&self) -> Ob {
        let mut o = (**self).ob();
        o.addr = *self as *const T as usize;
        o
    }
    fn arrived(&self) {
        (**self).alive()
    }
    fn alive(&self) {
        (**self).alive()
    }
}
