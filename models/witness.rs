//! One use of every macro form of the crate, with symbolic arguments.  Nothing here is ever executed: the driver compiles
//! this file against the tree, and the analyser decides from the expansion what each form does.  The functions e1, f1, f2,
//! f3, g2, b2, p2 and q2 are opaque to it.  The name of a witness says what is expected of it (see rules_macros.py).
#![allow(dead_code, unused_imports)]
#[macro_use]
extern crate adapton;
use adapton::engine::*;
use adapton::macros::*;

pub fn e1(a: usize) -> usize { a }
pub fn f1(a: usize) -> usize { a }
pub fn f2(a: usize, b: usize) -> usize { a + b }
pub fn f3(a: usize, b: usize, c: usize) -> usize { a + b + c }
pub fn g2(a: usize, b: usize) -> usize { a * b }
pub fn b2(a: usize, b: usize) -> usize { a - b }
pub fn p2<A, B>(a: A, b: B) -> (A, B) { (a, b) }
pub fn q2<A, B>(a: A, b: B) -> (A, B) { (a, b) }

// get!
pub fn get_1(x: Art<usize>) -> usize { get!(x) }
pub fn get_2(x: Art<usize>, d: usize) -> usize { get!(x, d) }
// cell!
pub fn cell_op(n: Option<Name>, v: usize) -> Art<usize> { cell!([n]? v) }
pub fn cell_id(v: usize) -> Art<usize> { cell!([ident] v) }
pub fn cell_ctr(v: usize) -> Art<usize> { cell!(v) }
// thunk!
pub fn thunk_op(n: Option<Name>, a: usize, b: usize) -> Art<usize> { thunk!([n]? f2 ; x:a, y:b) }
pub fn thunk_op1(n: Option<Name>, a: usize) -> Art<usize> { thunk!([n]? f1 ; x:a) }
pub fn thunk_op3(n: Option<Name>, a: usize, b: usize, c: usize) -> Art<usize> { thunk!([n]? f3 ; x:a, y:b, z:c) }
pub fn thunk_opg(n: Option<Name>, a: usize, b: usize) -> Art<usize> { thunk!([n]? g2 ; x:a, y:b) }
pub fn thunk_hid(n: Option<Name>, a: usize, b: usize) -> Art<usize> { thunk!([n]? f2 ; x:a ;; y:b) }
pub fn thunk_hid3(n: Option<Name>, a: usize, b: usize, c: usize) -> Art<usize> { thunk!([n]? f3 ; x:a ;; y:b, z:c) }
pub fn thunk_id(a: usize, b: usize) -> Art<usize> { thunk!([ident] f2 ; x:a, y:b) }
pub fn thunk_arr(n: Name, a: usize, b: usize) -> Art<usize> { thunk!(n =>> f2 , x:a, y:b) }
pub fn thunk_arrhid(n: Name, a: usize, b: usize) -> Art<usize> { thunk!(n =>> f2 , x:a ;; y:b) }
pub fn thunk_opbody(n: Option<Name>, a: usize, b: usize) -> Art<usize> { thunk![[n]? b2(a, b)] }
pub fn thunk_idbody(a: usize, b: usize) -> Art<usize> { thunk![[ident] b2(a, b)] }
pub fn thunk_ctrbody(a: usize, b: usize) -> Art<usize> { thunk![b2(a, b)] }
// fork!, forko!
pub fn fork_1(n: Name) -> (Name, Name) { fork!(n) }
pub fn forko_1(n: Option<Name>) -> (Option<Name>, Option<Name>) { forko!(n) }
// memo!
pub fn memo_op(n: Option<Name>, a: usize, b: usize) -> (Art<usize>, usize) { memo!([n]? f2 ; x:a, y:b) }
pub fn memo_opg(n: Option<Name>, a: usize, b: usize) -> (Art<usize>, usize) { memo!([n]? g2 ; x:a, y:b) }
pub fn memo_hid(n: Option<Name>, a: usize, b: usize) -> (Art<usize>, usize) { memo!([n]? f2 ; x:a ;; y:b) }
pub fn memo_arr(n: Name, a: usize, b: usize) -> usize { memo!(n =>> f2 , x:a, y:b) }
pub fn memo_arrg(n: Name, a: usize, b: usize) -> usize { memo!(n =>> g2 , x:a, y:b) }
pub fn memo_arrhid(n: Name, a: usize, b: usize) -> usize { memo!(n =>> f2 , x:a ;; y:b) }
// eager!
pub fn eager_arrt(n: Name, a: usize, b: usize) -> (Art<(usize, usize)>, (usize, usize)) { eager!(n =>> p2 :: <usize, usize>, x:a, y:b) }
pub fn eager_arr(n: Name, a: usize, b: usize) -> (Art<usize>, usize) { eager!(n =>> f2 , x:a, y:b) }
pub fn eager_arrg(n: Name, a: usize, b: usize) -> (Art<usize>, usize) { eager!(n =>> g2 , x:a, y:b) }
pub fn eager_strt(a: usize, b: usize) -> (Art<(usize, usize)>, (usize, usize)) { eager!(p2 :: <usize, usize>, x:a, y:b) }
pub fn eager_str(a: usize, b: usize) -> (Art<usize>, usize) { eager!(f2 , x:a, y:b) }
pub fn eager_strg(a: usize, b: usize) -> (Art<usize>, usize) { eager!(g2 , x:a, y:b) }
pub fn eager_arrhid(n: Name, a: usize, b: usize) -> (Art<(usize, usize)>, (usize, usize)) { eager!(n =>> p2 =>> <usize, usize>, x:a ;; y:b) }
// cell_call!
pub fn cell_call_t(n: Name, a: usize, b: usize) -> Art<(usize, usize)> { cell_call!(n =>> p2 :: <usize, usize>, x:a, y:b) }
pub fn cell_call_1(n: Name, a: usize, b: usize) -> Art<usize> { cell_call!(n =>> f2 , x:a, y:b) }
// let_cell!, let_thunk!, let_memo!
pub fn let_cell_1(a: usize) -> (Art<usize>, Art<usize>) { let_cell!{ident = a; (ident.clone(), ident)} }
pub fn let_cell_2(a: usize, b: usize) -> (Art<usize>, Art<usize>) { let_cell!{ident = a; jdent = b; (ident, jdent)} }
pub fn let_thunk_1(a: usize, b: usize) -> Art<usize> { let_thunk!{ident = b2(a, b); ident} }
pub fn let_thunk_2(a: usize, b: usize) -> (Art<usize>, Art<usize>) { let_thunk!{ident = b2(a, b); jdent = b2(b, a); (ident, jdent)} }
pub fn let_memo_1(a: usize, b: usize) -> (Art<usize>, usize) { let_memo!{x = (ident) = b2(a, b); (ident, x)} }
pub fn let_memo_2(a: usize, b: usize) -> (usize, usize) { let_memo!{x = (ident) = b2(a, b); y = (jdent) = b2(b, a); (x, y)} }
// arguments are evaluated once, when the form is
pub fn cell_opev(n: Option<Name>, a: usize) -> Art<usize> { cell!([n]? e1(a)) }
pub fn cell_idev(a: usize) -> Art<usize> { cell!([ident] e1(a)) }
pub fn cell_ctrev(a: usize) -> Art<usize> { cell!(e1(a)) }
pub fn thunk_opev(n: Option<Name>, a: usize, b: usize) -> Art<usize> { thunk!([n]? f2 ; x:e1(a), y:b) }
pub fn thunk_hidev(n: Option<Name>, a: usize, b: usize) -> Art<usize> { thunk!([n]? f2 ; x:e1(a) ;; y:e1(b)) }
pub fn thunk_idev(a: usize, b: usize) -> Art<usize> { thunk!([ident] f2 ; x:e1(a), y:b) }
pub fn thunk_arrev(n: Name, a: usize, b: usize) -> Art<usize> { thunk!(n =>> f2 , x:e1(a), y:b) }
pub fn memo_opev(n: Option<Name>, a: usize, b: usize) -> (Art<usize>, usize) { memo!([n]? f2 ; x:e1(a), y:b) }
pub fn memo_hidev(n: Option<Name>, a: usize, b: usize) -> (Art<usize>, usize) { memo!([n]? f2 ; x:e1(a) ;; y:e1(b)) }
pub fn memo_arrev(n: Name, a: usize, b: usize) -> usize { memo!(n =>> f2 , x:e1(a), y:b) }
pub fn eager_arrev(n: Name, a: usize, b: usize) -> (Art<usize>, usize) { eager!(n =>> f2 , x:e1(a), y:b) }
pub fn eager_strev(a: usize, b: usize) -> (Art<usize>, usize) { eager!(f2 , x:e1(a), y:b) }
// names from the counter
pub fn ctr_cells(a: usize) -> (Art<usize>, Art<usize>) { (cell!(a), cell!(a)) }
pub fn ctr_mixed(a: usize, b: usize) -> (Art<usize>, Art<usize>) { (cell!(a), thunk![b2(a, b)]) }
pub fn ctr_thunks(a: usize, b: usize) -> (Art<usize>, Art<usize>) { (thunk![b2(a, b)], thunk![b2(a, b)]) }
// other functions and bodies in each form
pub fn thunk_hidg(n: Option<Name>, a: usize, b: usize) -> Art<usize> { thunk!([n]? g2 ; x:a ;; y:b) }
pub fn thunk_idg(a: usize, b: usize) -> Art<usize> { thunk!([ident] g2 ; x:a, y:b) }
pub fn thunk_arrg(n: Name, a: usize, b: usize) -> Art<usize> { thunk!(n =>> g2 , x:a, y:b) }
pub fn thunk_arrhidg(n: Name, a: usize, b: usize) -> Art<usize> { thunk!(n =>> g2 , x:a ;; y:b) }
pub fn thunk_opbodyg(n: Option<Name>, a: usize, b: usize) -> Art<usize> { thunk![[n]? g2(a, b)] }
pub fn thunk_idbodyg(a: usize, b: usize) -> Art<usize> { thunk![[ident] g2(a, b)] }
pub fn thunk_ctrbodyg(a: usize, b: usize) -> Art<usize> { thunk![g2(a, b)] }
pub fn memo_hidg(n: Option<Name>, a: usize, b: usize) -> (Art<usize>, usize) { memo!([n]? g2 ; x:a ;; y:b) }
pub fn memo_arrhidg(n: Name, a: usize, b: usize) -> usize { memo!(n =>> g2 , x:a ;; y:b) }
pub fn eager_arrtq(n: Name, a: usize, b: usize) -> (Art<(usize, usize)>, (usize, usize)) { eager!(n =>> q2 :: <usize, usize>, x:a, y:b) }
pub fn eager_strtq(a: usize, b: usize) -> (Art<(usize, usize)>, (usize, usize)) { eager!(q2 :: <usize, usize>, x:a, y:b) }
pub fn eager_arrhidq(n: Name, a: usize, b: usize) -> (Art<(usize, usize)>, (usize, usize)) { eager!(n =>> q2 =>> <usize, usize>, x:a ;; y:b) }
