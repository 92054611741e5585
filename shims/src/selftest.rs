//! Positive examples for the effect rules (engine/effects.py): each item here breaks one of
//! them and has to be reported on every run, or the rules are not working.
#![allow(dead_code, static_mut_refs)]
use std::cell::{Cell, OnceCell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};

pub trait Run { fn run(&self, x: usize) -> usize; }

// statics
static COUNT: AtomicUsize = AtomicUsize::new(0);
static mut RAW: usize = 0;
thread_local! { static LOCAL: Cell<usize> = Cell::new(0); }

// unsafe code
pub unsafe fn unsafe_fn() {}
pub fn unsafe_block() -> usize { unsafe { RAW } }
pub struct U(*const u8);
unsafe impl Send for U {}

// environment
pub fn clock() -> std::time::SystemTime { std::time::SystemTime::now() }
pub fn output() { println!("x"); }
pub fn atomic() -> usize { COUNT.fetch_add(1, Ordering::SeqCst) }
pub fn random() -> std::collections::hash_map::RandomState { std::collections::hash_map::RandomState::new() }
pub fn address(x: &usize) -> usize { x as *const usize as usize }
pub fn taken() -> fn() -> std::time::Instant { std::time::Instant::now }

// state changed while parsing
pub struct Counter { n: Cell<usize> }
impl Run for Counter { fn run(&self, x: usize) -> usize { bump(&self.n); x } }
fn bump(n: &Cell<usize>) { n.set(n.get() + 1) }
pub struct Memo { m: Rc<RefCell<Vec<usize>>> }
impl Run for Memo { fn run(&self, x: usize) -> usize { self.m.borrow_mut().push(x); x } }
pub struct Lazy { c: OnceCell<usize> }
impl Run for Lazy { fn run(&self, x: usize) -> usize { *self.c.get_or_init(|| x) } }
pub struct Shared { s: Rc<usize> }
impl Run for Shared { fn run(&self, x: usize) -> usize { if Rc::strong_count(&self.s) == 1 { x } else { 0 } } }
pub struct Held<F> { f: F }
impl<F: Fn(usize) -> usize> Run for Held<F> { fn run(&self, x: usize) -> usize { (self.f)(x) } }
pub fn factory() -> impl Fn(usize) -> usize { let c = Cell::new(0u16); move |x| { c.set(1); x } }

// unfaithful clones
pub struct Limits { lo: usize, hi: Option<usize>, on: bool }
impl Clone for Limits { fn clone(&self) -> Self { Limits { lo: self.lo, hi: self.hi, on: false } } }

// no state: none of these may be reported
pub struct Fine<F> { f: F, n: usize, r: Rc<RefCell<Option<usize>>> }
impl<F: Clone> Clone for Fine<F> { fn clone(&self) -> Self { Fine { f: self.f.clone(), n: self.n, r: self.r.clone() } } }
impl<F: Fn(usize) -> usize> Run for Fine<F> {
    fn run(&self, x: usize) -> usize {
        let seen = Cell::new(0u8);
        let look = |y: usize| { seen.set(1); y };
        let d = self.r.borrow().unwrap_or(0);
        (self.f)(look(x)) + seen.get() as usize + d + self.n
    }
}
impl<F> Fine<F> { pub fn define(&self, x: usize) { *self.r.borrow_mut() = Some(x); } }

// type rules (engine/typespec.py)
pub trait Complete {}
pub trait Partial {}
pub struct Both;
impl Complete for Both {}
impl Partial for Both {}
impl<T: Run> Complete for &T {}
impl<T: Complete> Complete for Box<T> {}
impl<T: Run> Partial for Box<T> {}
pub struct Place { pub open: usize, n: Rc<Cell<u8>> }
pub struct Places;
impl Clone for Place { fn clone(&self) -> Self { Place { open: self.open, n: self.n.clone() } } }
impl Place {
    pub fn forge(x: usize) -> Option<Place> { Some(Place { open: x, n: Rc::new(Cell::new(0)) }) }
    pub fn bump(&mut self) { self.open += 1 }
    pub fn inside(&self) -> &Rc<Cell<u8>> { &self.n }
    pub fn look(&self) -> usize { self.open }
    fn hidden() -> Place { Place { open: 0, n: Rc::new(Cell::new(0)) } }
}
impl Places { pub fn mark(&self) -> Place { Place::hidden() } }

// equality that leaves out a part, and one that does not
pub enum Half<T> { A(T, usize), B }
impl<T: PartialEq> PartialEq for Half<T> {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) { (Half::A(x, _), Half::A(y, _)) => x == y, (Half::B, Half::B) => true, _ => false }
    }
}
#[derive(PartialEq)]
pub enum Whole<T> { A(T, usize), B }

// functions that call themselves
pub fn even(n: usize) -> bool { n == 0 || odd(n - 1) }
pub fn odd(n: usize) -> bool { n != 0 && even(n - 1) }
pub trait Again { fn once(&self) -> usize; fn twice(&self) -> usize { self.once() + 1 } }
pub struct Loopy;
impl Again for Loopy { fn once(&self) -> usize { self.twice() } }
