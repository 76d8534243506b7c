//! Reference bodies for the higher-order functions of std that the analysed
//! code calls.  Nothing here is ever executed: the driver compiles this file,
//! and the analyser inlines these bodies at calls of the std functions that
//! /verif/va/stdmap.py maps to them.
#![allow(dead_code)]

pub struct Map<I, F> { pub it: I, pub f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.it.next() { None => None, Some(x) => Some((self.f)(x)) }
    }
}
pub struct Filter<I, F> { pub it: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.it.next() { if (self.f)(&x) { return Some(x) } }
        None
    }
}
pub struct FilterMap<I, F> { pub it: I, pub f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        while let Some(x) = self.it.next() { if let Some(y) = (self.f)(x) { return Some(y) } }
        None
    }
}
pub struct Cloned<I> { pub it: I }
impl<'a, T: 'a + Clone, I: Iterator<Item = &'a T>> Iterator for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() { None => None, Some(x) => Some(x.clone()) }
    }
}
pub struct Enumerate<I> { pub it: I, pub n: usize }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next() { None => None, Some(x) => { Some((index_of(&self.it, &x), x)) } }
    }
}
pub struct TakeWhile<I, F> { pub it: I, pub f: F, pub over: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.over { return None }
        match self.it.next() { None => None, Some(x) => if (self.f)(&x) { Some(x) } else { self.over = true; None } }
    }
}
pub struct MapWhile<I, F> { pub it: I, pub f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.it.next() { None => None, Some(x) => (self.f)(x) }
    }
}
pub struct Inspect<I, F> { pub it: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.it.next() { None => None, Some(x) => { (self.f)(&x); Some(x) } }
    }
}
fn any_usize() -> usize { std::process::id() as usize }
fn any_positive() -> usize { any_usize() }
fn any_bool() -> bool { std::process::id() > 7 }
/// the position of an element of an iterator (the analyser knows this function)
fn index_of<I, T>(_: &I, _: &T) -> usize { any_usize() }
pub struct SkipWhile<I, F> { pub it: I, pub f: F, pub on: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.it.next() { if self.on || !(self.f)(&x) { self.on = true; return Some(x) } }
        None
    }
}
pub struct Chain<A, B> { pub a: A, pub b: B, pub on: bool }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if !self.on { match self.a.next() { Some(x) => return Some(x), None => self.on = true } }
        self.b.next()
    }
}
pub struct Zip<A, B> { pub a: A, pub b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() { None => None, Some(x) => match self.b.next() { None => None, Some(y) => Some((x, y)) } }
    }
}
/// some number of elements
pub struct Take<I> { pub it: I }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if any_bool() { None } else { self.it.next() } }
}
pub struct Skip<I> { pub it: I }
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.it.next() { if any_bool() { return Some(x) } }
        None
    }
}
pub fn it_skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, on: false } }
pub fn it_chain<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a, b: b.into_iter(), on: false } }
pub fn it_zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn it_take<I>(it: I, _: usize) -> Take<I> { Take { it } }
pub fn it_skip<I>(it: I, _: usize) -> Skip<I> { Skip { it } }
pub fn it_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() { l = Some(x) }
    l
}
pub fn it_unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) {
    let mut v = Vec::new();
    let mut w = Vec::new();
    while let Some((x, y)) = it.next() { v.push(x); w.push(y) }
    (v, w)
}
pub fn it_partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut v = Vec::new();
    let mut w = Vec::new();
    while let Some(x) = it.next() { if f(&x) { v.push(x) } else { w.push(x) } }
    (v, w)
}
pub fn it_try_opt<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() { if let None = f(x) { return None } }
    Some(())
}
pub fn it_try_res<E, I: Iterator, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() { if let Err(e) = f(x) { return Err(e) } }
    Ok(())
}
pub fn max<T: PartialOrd>(a: T, b: T) -> T { if b < a { a } else { b } }
pub fn min<T: PartialOrd>(a: T, b: T) -> T { if b < a { b } else { a } }
pub fn compare<T: PartialOrd>(a: &T, b: &T) -> std::cmp::Ordering {
    if *a < *b { std::cmp::Ordering::Less } else if *b < *a { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }
}

pub fn it_map<I, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }
pub fn it_filter<I, F>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }
pub fn it_filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub fn it_cloned<I>(it: I) -> Cloned<I> { Cloned { it } }
pub fn it_enumerate<I>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }
pub fn it_take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, over: false } }
pub fn it_map_while<I, F>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }
pub fn it_inspect<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true } }
    false
}
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false } }
    true
}
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x) } }
    None
}
pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y) } }
    None
}
pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    while let Some(x) = it.next() { let ix = index_of(it, &x); if f(x) { return Some(ix) } }
    None
}
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x) }
}
pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x) }
    acc
}
pub fn it_collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x) }
    v
}
pub fn it_collect_hashmap<K: std::hash::Hash + Eq, V, I: Iterator<Item = (K, V)>>(mut it: I)
    -> std::collections::HashMap<K, V>
{
    let mut m = std::collections::HashMap::new();
    while let Some((k, v)) = it.next() { m.insert(k, v); }
    m
}
pub fn it_count<I: Iterator>(mut it: I) -> usize {
    let mut some = false;
    while let Some(_) = it.next() { some = true }
    if some { any_positive() } else { 0 }
}
pub fn vec_extend<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() { v.push(x) }
}
pub fn vec_append<T>(v: &mut Vec<T>, w: &mut Vec<T>) {
    let xs = std::mem::replace(w, Vec::new());
    for x in xs { v.push(x) }
}
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::replace(v, Vec::new());
    for x in old { if f(&x) { v.push(x) } }
}
pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
}
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn opt_or<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match o { Some(x) => Some(x), None => p }
}
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o { Some(x) => x, None => f() }
}
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => false }
}
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => true }
}
pub fn opt_is_some<T>(o: &Option<T>) -> bool { match *o { Some(_) => true, None => false } }
pub fn opt_is_none<T>(o: &Option<T>) -> bool { match *o { Some(_) => false, None => true } }
pub fn opt_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!("unwrap on None") } }
pub fn opt_as_ref<T>(o: &Option<T>) -> Option<&T> { match *o { Some(ref x) => Some(x), None => None } }
pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match *o { Some(ref mut x) => Some(x), None => None } }
pub fn opt_cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn res_is_ok<T, E>(o: &Result<T, E>) -> bool { match *o { Ok(_) => true, Err(_) => false } }
pub fn res_is_err<T, E>(o: &Result<T, E>) -> bool { match *o { Ok(_) => false, Err(_) => true } }
pub fn res_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn res_unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!("unwrap on Err") } }
pub fn res_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, t: T) -> Option<T> { if b { Some(t) } else { None } }
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn opt_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn opt_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
    match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None }
}
pub fn opt_replace<T>(o: &mut Option<T>, x: T) -> Option<T> { std::mem::replace(o, Some(x)) }
pub fn opt_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if let None = *o { *o = Some(f()) }
    match *o { Some(ref mut x) => x, None => panic!("unreachable") }
}
pub fn opt_branch<T>(o: Option<T>) -> std::ops::ControlFlow<Option<std::convert::Infallible>, T> {
    match o { Some(x) => std::ops::ControlFlow::Continue(x), None => std::ops::ControlFlow::Break(None) }
}
pub fn opt_from_residual<T>(_: Option<std::convert::Infallible>) -> Option<T> { None }
pub fn res_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn res_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn res_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
