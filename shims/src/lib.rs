//! Reference definitions of the std functions the analysed crate uses (or a
//! refactoring of it might use). They are never compiled into anything: the
//! analyser reads their MIR and interprets it abstractly in place of the std
//! function whose name they carry (`<type>_<method>`).
#![allow(clippy::all)]
#![allow(unused)]
use std::cmp::Ordering;
pub mod selftest;

// ------------------------------------------------------------------ Option
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn option_and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> { match o { Some(_) => b, None => None } }
pub fn option_or<T>(o: Option<T>, b: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => b } }
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn option_xor<T>(o: Option<T>, b: Option<T>) -> Option<T> { match (o, b) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None } }
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn option_filter<T, P: FnOnce(&T) -> bool>(o: Option<T>, p: P) -> Option<T> { if let Some(x) = o { if p(&x) { return Some(x); } } None }
pub fn option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn option_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn option_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn option_cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn option_copied<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn option_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!("unwrap on None") } }
pub fn option_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => panic!("expect on None") } }
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn option_replace<T>(o: &mut Option<T>, x: T) -> Option<T> { std::mem::replace(o, Some(x)) }
pub fn option_insert<T>(o: &mut Option<T>, x: T) -> &mut T { *o = Some(x); match o { Some(x) => x, None => panic!() } }
pub fn option_get_or_insert<T>(o: &mut Option<T>, x: T) -> &mut T { if option_is_none(o) { *o = Some(x); } match o { Some(x) => x, None => panic!() } }
pub fn option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if option_is_none(o) { *o = Some(f()); } match o { Some(x) => x, None => panic!() } }
pub fn option_zip<T, U>(a: Option<T>, b: Option<U>) -> Option<(T, U)> { match (a, b) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { if let Some(x) = &o { f(x); } o }
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub struct OptIter<T>(pub Option<T>);
impl<T> Iterator for OptIter<T> { type Item = T; fn next(&mut self) -> Option<T> { std::mem::replace(&mut self.0, None) } }
pub fn option_into_iter<T>(o: Option<T>) -> OptIter<T> { OptIter(o) }
pub fn option_iter<T>(o: &Option<T>) -> OptIter<&T> { OptIter(match o { Some(x) => Some(x), None => None }) }
pub fn iter_once<T>(x: T) -> OptIter<T> { OptIter(Some(x)) }
pub fn iter_empty<T>() -> OptIter<T> { OptIter(None) }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }

// ------------------------------------------------------------------ Result
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn result_map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(x) => f(x), Err(_) => d } }
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(x) => f(x), Err(e) => d(e) } }
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn result_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(r: Result<T, E>, f: F) -> Result<T, U> { match r { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn result_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn result_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn result_is_ok<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => true, Err(_) => false } }
pub fn result_is_err<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => false, Err(_) => true } }
pub fn result_unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => panic!("unwrap on Err") } }
pub fn result_expect<T, E>(r: Result<T, E>, _m: &str) -> T { match r { Ok(x) => x, Err(_) => panic!("expect on Err") } }
pub fn result_unwrap_err<T, E>(r: Result<T, E>) -> E { match r { Err(x) => x, Ok(_) => panic!("unwrap_err on Ok") } }
pub fn result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }
pub fn result_as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> { match r { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn result_as_mut<T, E>(r: &mut Result<T, E>) -> Result<&mut T, &mut E> { match r { Ok(x) => Ok(x), Err(e) => Err(e) } }

// ------------------------------------------------------------------- mem
pub fn mem_replace<T>(d: &mut T, x: T) -> T { std::mem::replace(d, x) }

// ------------------------------------------------------- iterator adapters
pub struct Map<I, F> { it: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> { type Item = B; fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } } }
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> { fn next_back(&mut self) -> Option<B> { match self.it.next_back() { Some(x) => Some((self.f)(x)), None => None } } }
pub fn iter_map<B, I: Iterator, F: FnMut(I::Item) -> B>(it: I, f: F) -> Map<I, F> { Map { it, f } }

pub struct Enumerate<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Enumerate<I> { type Item = (usize, I::Item); fn next(&mut self) -> Option<(usize, I::Item)> { match self.it.next() { Some(x) => { let i = self.n; self.n = i + 1; Some((i, x)) } None => None } } }
impl<I: DoubleEndedIterator + ExactSizeIterator> DoubleEndedIterator for Enumerate<I> { fn next_back(&mut self) -> Option<(usize, I::Item)> { match self.it.next_back() { Some(x) => { let l = self.it.len(); Some((self.n + l, x)) } None => None } } }
pub fn iter_enumerate<I: Iterator>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }

pub struct Rev<I> { it: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.it.next_back() } }
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> { fn next_back(&mut self) -> Option<I::Item> { self.it.next() } }
pub fn iter_rev<I: DoubleEndedIterator>(it: I) -> Rev<I> { Rev { it } }

pub struct Filter<I, P> { it: I, p: P }
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for Filter<I, P> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { while let Some(x) = self.it.next() { if (self.p)(&x) { return Some(x); } } None } }
pub fn iter_filter<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, p: P) -> Filter<I, P> { Filter { it, p } }

pub struct FilterMap<I, F> { it: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> { type Item = B; fn next(&mut self) -> Option<B> { while let Some(x) = self.it.next() { if let Some(y) = (self.f)(x) { return Some(y); } } None } }
pub fn iter_filter_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }

pub struct Take<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Take<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.n == 0 { None } else { self.n -= 1; self.it.next() } } }
pub fn iter_take<I: Iterator>(it: I, n: usize) -> Take<I> { Take { it, n } }

pub struct Skip<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { while self.n > 0 { self.n -= 1; if self.it.next().is_none() { return None; } } self.it.next() } }
pub fn iter_skip<I: Iterator>(it: I, n: usize) -> Skip<I> { Skip { it, n } }

pub struct Chain<A, B> { a: Option<A>, b: B }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> { type Item = A::Item; fn next(&mut self) -> Option<A::Item> { if let Some(a) = &mut self.a { match a.next() { Some(x) => return Some(x), None => () } } self.a = None; self.b.next() } }
pub fn iter_chain<A: Iterator, B: IntoIterator<Item = A::Item>>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a: Some(a), b: b.into_iter() } }

pub struct Zip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> { type Item = (A::Item, B::Item); fn next(&mut self) -> Option<(A::Item, B::Item)> { match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None } } }
pub fn iter_zip<A: Iterator, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }

pub struct Cloned<I> { it: I }
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> { type Item = T; fn next(&mut self) -> Option<T> { match self.it.next() { Some(x) => Some(x.clone()), None => None } } }
impl<'a, T: Clone + 'a, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Cloned<I> { fn next_back(&mut self) -> Option<T> { match self.it.next_back() { Some(x) => Some(x.clone()), None => None } } }
pub fn iter_cloned<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(it: I) -> Cloned<I> { Cloned { it } }
pub fn iter_copied<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(it: I) -> Cloned<I> { Cloned { it } }

pub struct Peekable<I: Iterator> { it: I, p: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { match std::mem::replace(&mut self.p, None) { Some(x) => x, None => self.it.next() } } }
pub fn iter_peekable<I: Iterator>(it: I) -> Peekable<I> { Peekable { it, p: None } }
pub fn peekable_peek<I: Iterator>(s: &mut Peekable<I>) -> Option<&I::Item> { if s.p.is_none() { let n = s.it.next(); s.p = Some(n); } match &s.p { Some(Some(x)) => Some(x), _ => None } }
pub fn peekable_next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(s: &mut Peekable<I>, f: F) -> Option<I::Item> { match s.next() { Some(x) => if f(&x) { Some(x) } else { s.p = Some(Some(x)); None }, None => { s.p = Some(None); None } } }

pub struct FlatMap<I, U, F> { it: I, cur: Option<U>, f: F }
impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, U::IntoIter, F> { type Item = U::Item; fn next(&mut self) -> Option<U::Item> { loop { if let Some(c) = &mut self.cur { if let Some(x) = c.next() { return Some(x); } } match self.it.next() { Some(x) => { self.cur = Some((self.f)(x).into_iter()); } None => return None } } } }
pub fn iter_flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(it: I, f: F) -> FlatMap<I, U::IntoIter, F> { FlatMap { it, cur: None, f } }
pub struct Flatten<I, U> { it: I, cur: Option<U> }
impl<I: Iterator> Iterator for Flatten<I, <I::Item as IntoIterator>::IntoIter> where I::Item: IntoIterator { type Item = <I::Item as IntoIterator>::Item; fn next(&mut self) -> Option<Self::Item> { loop { if let Some(c) = &mut self.cur { if let Some(x) = c.next() { return Some(x); } } match self.it.next() { Some(x) => { self.cur = Some(x.into_iter()); } None => return None } } } }
pub fn iter_flatten<I: Iterator>(it: I) -> Flatten<I, <I::Item as IntoIterator>::IntoIter> where I::Item: IntoIterator { Flatten { it, cur: None } }

pub struct TakeWhile<I, P> { it: I, p: P, done: bool }
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, P> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.done { return None; } match self.it.next() { Some(x) => if (self.p)(&x) { Some(x) } else { self.done = true; None }, None => None } } }
pub fn iter_take_while<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, p: P) -> TakeWhile<I, P> { TakeWhile { it, p, done: false } }
pub struct SkipWhile<I, P> { it: I, p: P, done: bool }
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, P> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { loop { match self.it.next() { Some(x) => { if self.done { return Some(x); } if !(self.p)(&x) { self.done = true; return Some(x); } } None => return None } } } }
pub fn iter_skip_while<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, p: P) -> SkipWhile<I, P> { SkipWhile { it, p, done: false } }
pub struct MapWhile<I, F> { it: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> { type Item = B; fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(x), None => None } } }
pub fn iter_map_while<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }
pub struct Inspect<I, F> { it: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } } }
pub fn iter_inspect<I: Iterator, F: FnMut(&I::Item)>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub struct FromFn<F> { f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }
pub fn iter_from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFn<F> { FromFn { f } }
pub struct Successors<T, F> { n: Option<T>, f: F }
impl<T, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> { type Item = T; fn next(&mut self) -> Option<T> { match std::mem::replace(&mut self.n, None) { Some(x) => { self.n = (self.f)(&x); Some(x) } None => None } } }
pub fn iter_successors<T, F: FnMut(&T) -> Option<T>>(n: Option<T>, f: F) -> Successors<T, F> { Successors { n, f } }
pub struct Repeat<T> { x: T }
impl<T: Clone> Iterator for Repeat<T> { type Item = T; fn next(&mut self) -> Option<T> { Some(self.x.clone()) } }
pub fn iter_repeat<T: Clone>(x: T) -> Repeat<T> { Repeat { x } }

pub fn iter_by_ref<I: Iterator>(it: &mut I) -> &mut I { it }
pub fn iter_fuse<I: Iterator>(it: I) -> I { it }
pub fn range_next(r: &mut std::ops::Range<usize>) -> Option<usize> { if r.start < r.end { let x = r.start; r.start = x + 1; Some(x) } else { None } }
pub fn range_next_back(r: &mut std::ops::Range<usize>) -> Option<usize> { if r.start < r.end { r.end -= 1; Some(r.end) } else { None } }
pub fn rangefrom_next(r: &mut std::ops::RangeFrom<usize>) -> Option<usize> { let x = r.start; r.start = x + 1; Some(x) }
pub fn range_contains(r: &std::ops::Range<usize>, x: &usize) -> bool { r.start <= *x && *x < r.end }
pub fn range_is_empty(r: &std::ops::Range<usize>) -> bool { !(r.start < r.end) }

// ------------------------------------------------------ iterator consumers
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; while let Some(x) = it.next() { acc = f(acc, x); } acc }
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { None => None, Some(x) => { let mut acc = x; while let Some(x) = it.next() { acc = f(acc, x); } Some(acc) } } }
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn iter_find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut n = 0; while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; } None }
pub fn iter_rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut n = it.len(); while let Some(x) = it.next_back() { n -= 1; if f(x) { return Some(n); } } None }
pub fn iter_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next_back() { if f(&x) { return Some(x); } } None }
pub fn iter_count<I: Iterator>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n += 1; } n }
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> { let mut n = n; while let Some(x) = it.next() { if n == 0 { return Some(x); } n -= 1; } None }
pub fn iter_min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord { match it.next() { None => None, Some(x) => { let mut m = x; while let Some(x) = it.next() { if let Ordering::Less = x.cmp(&m) { m = x; } } Some(m) } } }
pub fn iter_max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord { match it.next() { None => None, Some(x) => { let mut m = x; while let Some(x) = it.next() { if let Ordering::Less = x.cmp(&m) {} else { m = x; } } Some(m) } } }
pub fn iter_min_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { None => None, Some(x) => { let mut k = f(&x); let mut m = x; while let Some(x) = it.next() { let k2 = f(&x); if let Ordering::Less = k2.cmp(&k) { m = x; k = k2; } } Some(m) } } }
pub fn iter_max_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { None => None, Some(x) => { let mut k = f(&x); let mut m = x; while let Some(x) = it.next() { let k2 = f(&x); if let Ordering::Less = k2.cmp(&k) {} else { m = x; k = k2; } } Some(m) } } }
pub fn iter_min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { None => None, Some(x) => { let mut m = x; while let Some(x) = it.next() { if let Ordering::Less = f(&x, &m) { m = x; } } Some(m) } } }
pub fn iter_max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { None => None, Some(x) => { let mut m = x; while let Some(x) = it.next() { if let Ordering::Less = f(&x, &m) {} else { m = x; } } Some(m) } } }
pub fn iter_sum<I: Iterator<Item = usize>>(mut it: I) -> usize { let mut n = 0; while let Some(x) = it.next() { n += x; } n }
pub fn vec_from_iter<T, I: Iterator<Item = T>>(mut it: I) -> Vec<T> { let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x); } v }
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.push(x); } }
pub fn iter_partition<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(mut it: I, mut f: F) -> (Vec<T>, Vec<T>) { let mut a = Vec::new(); let mut b = Vec::new(); while let Some(x) = it.next() { if f(&x) { a.push(x); } else { b.push(x); } } (a, b) }

// -------------------------------------------------------------- vec/slices
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) { let old = std::mem::replace(v, Vec::new()); let mut it = old.into_iter(); while let Some(x) = it.next() { if f(&x) { v.push(x); } } }
pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) { let old = std::mem::replace(v, Vec::new()); let mut it = old.into_iter(); while let Some(mut x) = it.next() { if f(&mut x) { v.push(x); } } }
pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut Vec<T>, mut f: F) { let mut i = 1; while i < v.len() { let mut j = i; while j > 0 { if let Ordering::Less = f(&v[j]).cmp(&f(&v[j - 1])) { v.swap(j - 1, j); j -= 1; } else { break; } } i += 1; } }
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> Ordering>(v: &mut Vec<T>, mut f: F) { let mut i = 1; while i < v.len() { let mut j = i; while j > 0 { if let Ordering::Less = f(&v[j], &v[j - 1]) { v.swap(j - 1, j); j -= 1; } else { break; } } i += 1; } }
pub fn slice_contains<T: PartialEq>(v: &[T], x: &T) -> bool { for y in v.iter() { if *y == *x { return true; } } false }
pub fn slice_starts_with<T: PartialEq>(v: &[T], w: &[T]) -> bool { let mut a = v.iter(); for y in w.iter() { match a.next() { Some(x) => if *x != *y { return false; }, None => return false } } true }

// ---------------------------------------------------------------- ordering
pub fn ordering_reverse(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub fn ordering_then(o: Ordering, p: Ordering) -> Ordering { match o { Ordering::Equal => p, o => o } }
pub fn ordering_then_with<F: FnOnce() -> Ordering>(o: Ordering, f: F) -> Ordering { match o { Ordering::Equal => f(), o => o } }
pub fn ordering_is_eq(o: Ordering) -> bool { match o { Ordering::Equal => true, _ => false } }
pub fn ordering_is_ne(o: Ordering) -> bool { match o { Ordering::Equal => false, _ => true } }
pub fn ordering_is_lt(o: Ordering) -> bool { match o { Ordering::Less => true, _ => false } }
pub fn ordering_is_gt(o: Ordering) -> bool { match o { Ordering::Greater => true, _ => false } }
pub fn ordering_is_le(o: Ordering) -> bool { match o { Ordering::Greater => false, _ => true } }
pub fn ordering_is_ge(o: Ordering) -> bool { match o { Ordering::Less => false, _ => true } }

// ---------------------------------------------------------------- try
pub fn option_branch<T>(o: Option<T>) -> std::ops::ControlFlow<Option<std::convert::Infallible>, T> { match o { Some(x) => std::ops::ControlFlow::Continue(x), None => std::ops::ControlFlow::Break(None) } }
pub fn option_from_residual<T>(_r: Option<std::convert::Infallible>) -> Option<T> { None }
pub fn result_branch<T, E>(r: Result<T, E>) -> std::ops::ControlFlow<Result<std::convert::Infallible, E>, T> { match r { Ok(x) => std::ops::ControlFlow::Continue(x), Err(e) => std::ops::ControlFlow::Break(Err(e)) } }
pub fn set_from_iter<T: Eq + std::hash::Hash, I: Iterator<Item = T>>(mut it: I) -> std::collections::HashSet<T> { let mut v = std::collections::HashSet::new(); while let Some(x) = it.next() { v.insert(x); } v }

// intrinsics of the analysis
pub fn mk_ef<T, U, V>(_l: Vec<T>, _f: U, _a: V) {}
pub fn error_expected_found<T, J: IntoIterator<Item = T>, U, V>(j: J, f: U, a: V) { mk_ef(vec_from_iter(j.into_iter()), f, a) }
pub fn drive<I: Iterator>(it: &mut I) { while let Some(x) = it.next() { sink(x); } }
pub fn sink<T>(_x: T) {}
