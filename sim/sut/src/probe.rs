//! The wrapped sequential iterator: a plain iterator that reports every use to the simulator.
use rt::hist::{new_probe, next_enter, next_exit, next_mid};
use rt::scn::{Hint, Src};

pub struct Probe<I: Iterator> {
    inner: I,
    id: usize,
    /// plain state, so that unordered uses are data races
    pos: usize,
    left: usize,
    hint: Hint,
    ended: bool,
    /// what a non-fused iterator yields when it is polled after its end
    ghosts: Vec<I::Item>,
}
impl<I: Iterator> Probe<I> {
    pub fn new(inner: I, len: usize, hint: Hint, ghosts: Vec<I::Item>) -> Self {
        Probe { inner, id: new_probe(), pos: 0, left: len, hint, ended: false, ghosts }
    }
}
impl<I: Iterator> Iterator for Probe<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        next_enter(self.id);
        let p = self.pos;
        next_mid(self.id);
        let r = if self.ended {
            self.ghosts.pop()
        } else {
            let r = self.inner.next();
            if r.is_none() {
                self.ended = true;
            }
            r
        };
        self.pos = p + 1;
        self.left = self.left.saturating_sub(1);
        next_exit(self.id);
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let l = self.left;
        match self.hint {
            Hint::Exact => (l, Some(l)),
            Hint::Upper => (0, Some(l)),
            Hint::NoUpper => (l, None),
            Hint::Loose => (l / 2, Some(l + 3)),
        }
    }
}

pub struct Inf {
    id: usize,
    pos: usize,
    hint: Hint,
}
impl Inf {
    pub fn new(hint: Hint) -> Self {
        Inf { id: new_probe(), pos: 0, hint }
    }
}
impl Iterator for Inf {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        next_enter(self.id);
        let p = self.pos;
        next_mid(self.id);
        self.pos = p + 1;
        next_exit(self.id);
        Some(Src::inf_val(p) as usize)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            Hint::Exact | Hint::NoUpper => (usize::MAX, None),
            _ => (0, None),
        }
    }
}
