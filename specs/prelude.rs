#![feature(allocator_api)]
use vstd::prelude::*;
use core::marker::PhantomData;
use core::ops::{Deref, DerefMut};

verus! {

// ---------------------------------------------------------------------------------------------
// Environment of the extracted code: core::task / core::pin types, with the contracts of the
// operations the extracted code uses.  Bodies are verified unless marked external_body.
// ---------------------------------------------------------------------------------------------

pub enum Poll<T> { Ready(T), Pending }

impl<T> Poll<T> {
    pub fn is_ready(&self) -> (b: bool) ensures b == (*self is Ready) { match self { Poll::Ready(_) => true, Poll::Pending => false } }
    pub fn is_pending(&self) -> (b: bool) ensures b == (*self is Pending) { match self { Poll::Ready(_) => false, Poll::Pending => true } }
}

/// A waker: only its identity matters.
#[verifier::external_body]
pub struct Waker { x: u8 }

// a wake-up of the task with this waker has been requested (persistent fact: only a call of wake/wake_by_ref establishes it)
pub uninterp spec fn wake_requested(w: int) -> bool;
impl Waker {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn wake_by_ref(&self) ensures wake_requested(self.id()) { }
    #[verifier::external_body]
    pub fn wake(self) ensures wake_requested(self.id()) { }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Waker) ensures r.id() == self.id() { Waker { x: 0 } }
    #[verifier::external_body]
    pub fn clone_from(&mut self, o: &Waker) ensures final(self).id() == o.id() { }
    #[verifier::external_body]
    pub fn will_wake(&self, o: &Waker) -> (r: bool) ensures r ==> self.id() == o.id() { true }
}

pub fn vopt_mut<T>(o: &mut Option<T>) -> (r: &mut T) requires *old(o) is Some ensures *r == old(o)->0, *final(o) == Some(*final(r)) { match o { Some(x) => x, None => { proof { assert(false); } unreached() } } }

pub struct Context<'a> { pub w: &'a Waker }

impl<'a> Context<'a> {
    pub open spec fn id(&self) -> int { self.w.id() }
    pub fn waker(&self) -> (r: &'a Waker) ensures r.id() == self.id() { self.w }
}

pub struct Pin<P> { pub ptr: P }

impl<'a, T> Deref for Pin<&'a mut T> {
    type Target = T;
    fn deref(&self) -> (r: &T) ensures *r == *old(self.ptr) { &*self.ptr }
}
impl<'a, T> DerefMut for Pin<&'a mut T> {
    fn deref_mut(&mut self) -> (r: &mut T)
        ensures *r == *old(self).ptr, *final(r) == *final(self).ptr, *final(final(self).ptr) == *final(old(self).ptr)
    { &mut *self.ptr }
}
impl<'a, T> Pin<&'a mut T> {
    pub fn new(p: &'a mut T) -> (r: Pin<&'a mut T>) ensures *r.ptr == *old(p), *final(p) == *final(r.ptr) { Pin { ptr: p } }
    pub fn new_unchecked(p: &'a mut T) -> (r: Pin<&'a mut T>) ensures *r.ptr == *old(p), *final(p) == *final(r.ptr) { Pin { ptr: p } }
    pub fn as_mut(&mut self) -> (r: Pin<&mut T>)
        ensures *r.ptr == *old(self).ptr, *final(r.ptr) == *final(self).ptr, *final(final(self).ptr) == *final(old(self).ptr),
    { Pin { ptr: &mut *self.ptr } }
    pub fn set(&mut self, v: T)
        ensures *final(self).ptr == v, *final(final(self).ptr) == *final(old(self).ptr),
    { *self.ptr = v; }
    // set on a pin that is not used afterwards
    pub fn vset(self, v: T) ensures *final(self.ptr) == v { *self.ptr = v; }
    pub fn get_mut(self) -> (r: &'a mut T) ensures *r == *old(self.ptr), *final(self.ptr) == *final(r) { self.ptr }
    pub fn get_unchecked_mut(self) -> (r: &'a mut T) ensures *r == *old(self.ptr), *final(self.ptr) == *final(r) { self.ptr }
}
impl<'a, T> Pin<&'a mut Option<T>> {
    pub fn as_pin_mut(self) -> (r: Option<Pin<&'a mut T>>)
        ensures
            *old(self.ptr) is None ==> r is None && *final(self.ptr) == *old(self.ptr),
            *old(self.ptr) is Some ==> r is Some && *r->0.ptr == (*old(self.ptr))->0 && *final(self.ptr) == Some(*final(r->0.ptr)),
    { match self.ptr { Some(x) => Some(Pin { ptr: x }), None => None } }
}

pub fn drop<T>(x: T) {}
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::reserve_exact ](v: &mut Vec<T, A>, n: usize)
    ensures final(v)@ == old(v)@;
/// Pin<Box<[T]>>
pub struct PinBoxSlice<T> { pub v: Vec<T> }
impl<T> PinBoxSlice<T> {
    pub fn empty() -> (r: Self) ensures r.v@ == Seq::<T>::empty() { PinBoxSlice { v: Vec::new() } }
}
// panic!/unreachable!: reaching one is a contract violation
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
// panic! whose reachability is part of the documented behaviour (the call does not return)
#[verifier::external_body]
pub fn vpanics() -> ! { panic!() }
pub fn vassert(c: bool) requires c {}
// assert! that documents a panic: execution continues only if the condition holds
#[verifier::external_body]
pub fn vmayassert(c: bool) ensures c { assert!(c) }

pub fn vusize_from(b: bool) -> (r: usize) ensures r == if b { 1usize } else { 0usize } { if b { 1 } else { 0 } }

// core::convert::From as a pure function
pub trait VFrom<T>: Sized {
    spec fn conv(t: T) -> Self;
    fn vfrom(t: T) -> (r: Self) ensures r == Self::conv(t);
}
pub trait VDefault: Sized {
    spec fn is_default(&self) -> bool;
    fn vdefault() -> (r: Self) ensures r.is_default();
}
impl<T> VDefault for Vec<T> {
    open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() }
    fn vdefault() -> Vec<T> { Vec::new() }
}
impl<T> VDefault for Option<T> {
    open spec fn is_default(&self) -> bool { *self is None }
    fn vdefault() -> Option<T> { None }
}
impl VDefault for usize {
    open spec fn is_default(&self) -> bool { *self == 0 }
    fn vdefault() -> usize { 0 }
}
impl VDefault for bool {
    open spec fn is_default(&self) -> bool { *self == false }
    fn vdefault() -> bool { false }
}
pub mod mem {
    use vstd::prelude::*;
    use super::VDefault;
    verus! {
    pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
    pub fn forget<T>(x: T) {}
    pub fn replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { let mut v = v; core::mem::swap(d, &mut v); v }
    pub fn take<T: VDefault>(d: &mut T) -> (r: T) ensures r == *old(d), final(d).is_default() { let mut v = T::vdefault(); core::mem::swap(d, &mut v); v }
    }
}
pub mod cmp {
    use vstd::prelude::*;
    verus! {
    pub trait VInt: Copy { spec fn v(self) -> int; fn le(self, o: Self) -> (r: bool) ensures r == (self.v() <= o.v()); }
    impl VInt for usize { open spec fn v(self) -> int { self as int } fn le(self, o: usize) -> bool { self <= o } }
    impl VInt for u64 { open spec fn v(self) -> int { self as int } fn le(self, o: u64) -> bool { self <= o } }
    pub fn min<I: VInt>(a: I, b: I) -> (r: I) ensures r == if a.v() <= b.v() { a } else { b } { if a.le(b) { a } else { b } }
    pub fn max<I: VInt>(a: I, b: I) -> (r: I) ensures r == if b.v() <= a.v() { a } else { b } { if b.le(a) { a } else { b } }
    }
}

// ---------------------------------------------------------------------------------------------
// User closures.  `step` is the (prophesied) effect of one call: the closure's next state and its
// result.  A contract stated with `step` therefore pins how often, in which order and with which
// arguments the closure is called.
// ---------------------------------------------------------------------------------------------
pub trait FnMut0: Sized {
    type Output;
    spec fn step(&self) -> (Self, Self::Output);
    fn call_mut(&mut self) -> (r: Self::Output) ensures (*final(self), r) == old(self).step();
}
pub trait FnMut1<A>: Sized {
    type Output;
    spec fn step(&self, a: A) -> (Self, Self::Output);
    fn call_mut(&mut self, a: A) -> (r: Self::Output) ensures (*final(self), r) == old(self).step(a);
}
pub trait FnMut2<A, B>: Sized {
    type Output;
    spec fn step(&self, a: A, b: B) -> (Self, Self::Output);
    fn call_mut(&mut self, a: A, b: B) -> (r: Self::Output) ensures (*final(self), r) == old(self).step(a, b);
}
// std::iter::Iterator, core::default::Default, core::iter::Extend as used by the extracted code
pub trait Iterator: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            r is Some ==> old(self).rest() == seq![r->0] + final(self).rest(),
            r is None ==> old(self).rest() == Seq::<Self::Item>::empty() && final(self).rest() == Seq::<Self::Item>::empty();
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 <= self.rest().len(), r.1 is Some ==> self.rest().len() <= r.1->0;
}
pub trait Extend<A>: Sized {
    spec fn ext(&self, a: A) -> Self;
    fn extend(&mut self, a: Option<A>) ensures a is Some ==> *final(self) == old(self).ext(a->0), a is None ==> *final(self) == *old(self);
}
pub trait FnOnce1<A>: Sized {
    type Output;
    spec fn app(&self, a: A) -> Self::Output;
    fn call_once(self, a: A) -> (r: Self::Output) ensures r == self.app(a);
}
pub trait FnOnce0: Sized {
    type Output;
    spec fn app(&self) -> Self::Output;
    fn call_once(self) -> (r: Self::Output) ensures r == self.app();
}

// ---------------------------------------------------------------------------------------------
// Future
//   wf      representation invariant
//   done    the future has completed; polling it again is a misuse
//   output  (prophesied) value it completes with
//   armed w a wake-up of waker w is guaranteed once progress is possible
// ---------------------------------------------------------------------------------------------
pub trait Future: Sized {
    type Output;
    spec fn wf(&self) -> bool;
    spec fn done(&self) -> bool;
    spec fn output(&self) -> Self::Output;
    spec fn armed(&self, w: int) -> bool;
    // the state after completion (done, unless the type is documented to be less exact)
    open spec fn fin(&self) -> bool { self.done() }
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Self::Output>)
        requires
            (*old(self.ptr)).wf(), // the future is polled while its invariant holds
            !(*old(self.ptr)).done(), // [term] a completed future is never polled again
        ensures
            *final(cx) == *old(cx),
            (*final(self.ptr)).wf(),
            r is Ready ==> r->0 == (*old(self.ptr)).output(), // completes with the specified value
            r is Pending ==> !(*final(self.ptr)).done() && (*final(self.ptr)).output() == (*old(self.ptr)).output(), // pending changes nothing observable
            r is Ready ==> (*final(self.ptr)).fin(), // [term] a future that completed knows that it did
            r is Pending ==> (*final(self.ptr)).armed(old(cx).id()), // [wake] pending only with the current task's waker registered
    ;
}
pub trait FusedFuture: Future {
    // there is nothing to wait for (any more)
    open spec fn over(&self) -> bool { self.done() }
    fn is_terminated(&self) -> (r: bool)
        requires self.wf(),
        ensures
            !r ==> !self.done(), // [term] reported as live: safe to poll
            r ==> self.over(), // [term] reported as terminated: no output is still to come
    ;
}

// ---------------------------------------------------------------------------------------------
// Stream
//   rest    (prophesied) sequence of items it still yields, in the execution considered
//   ended   it returned None and does not promise anything when polled again
// ---------------------------------------------------------------------------------------------
pub trait Stream: Sized {
    type Item;
    spec fn wf(&self) -> bool;
    spec fn ended(&self) -> bool;
    spec fn rest(&self) -> Seq<Self::Item>;
    spec fn armed(&self, w: int) -> bool;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Option<Self::Item>>)
        requires
            (*old(self.ptr)).wf(), // the stream is polled while its invariant holds
            !(*old(self.ptr)).ended(), // [term] a finished stream is never polled again
        ensures
            *final(cx) == *old(cx),
            (*final(self.ptr)).wf(),
            r is Ready && r->0 is Some ==> (*old(self.ptr)).rest() == seq![r->0->0] + (*final(self.ptr)).rest(), // yields exactly the next item, loses none
            r is Ready && r->0 is Some ==> !(*final(self.ptr)).ended(), // an item does not end the stream
            r is Ready && r->0 is None ==> (*old(self.ptr)).rest() == Seq::<Self::Item>::empty() && (*final(self.ptr)).rest() == Seq::<Self::Item>::empty(), // ends only when nothing is left
            r is Pending ==> (*final(self.ptr)).rest() == (*old(self.ptr)).rest(), // pending loses no item
            r is Pending ==> !(*final(self.ptr)).ended(),
            r is Pending ==> (*final(self.ptr)).armed(old(cx).id()), // [wake] pending only with the current task's waker registered
    ;
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.wf(),
        ensures
            r.0 <= self.rest().len(), // [size] lower bound is sound
            r.1 is Some ==> self.rest().len() <= r.1->0, // [size] upper bound is sound
    { (0, None) }
}
pub trait FusedStream: Stream {
    fn is_terminated(&self) -> (r: bool)
        requires self.wf(),
        ensures
            r ==> self.rest() == Seq::<Self::Item>::empty(), // [term] reported as terminated: nothing is left
            !r ==> !self.ended(), // [term] reported as live: safe to poll
    ;
}

pub trait StreamExt: Stream {
    fn poll_next_unpin(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<Self::Item>>)
        requires
            (*old(self)).wf(),
            !(*old(self)).ended(),
        ensures
            *final(cx) == *old(cx),
            (*final(self)).wf(),
            r is Ready && r->0 is Some ==> (*old(self)).rest() == seq![r->0->0] + (*final(self)).rest(),
            r is Ready && r->0 is Some ==> !(*final(self)).ended(),
            r is Ready && r->0 is None ==> (*old(self)).rest() == Seq::<Self::Item>::empty() && (*final(self)).rest() == Seq::<Self::Item>::empty(),
            r is Pending ==> (*final(self)).rest() == (*old(self)).rest(),
            r is Pending ==> !(*final(self)).ended(),
            r is Pending ==> (*final(self)).armed(old(cx).id()), // [wake]
    { Pin::new(self).poll_next(cx) }
}
impl<S: Stream> StreamExt for S {}
pub trait FutureExt: Future {
    fn poll_unpin(&mut self, cx: &mut Context<'_>) -> (r: Poll<Self::Output>)
        requires
            (*old(self)).wf(),
            !(*old(self)).done(), // [term]
        ensures
            *final(cx) == *old(cx),
            (*final(self)).wf(),
            r is Ready ==> r->0 == (*old(self)).output(),
            r is Pending ==> !(*final(self)).done() && (*final(self)).output() == (*old(self)).output(),
            r is Pending ==> (*final(self)).armed(old(cx).id()), // [wake]
    { Pin::new(self).poll(cx) }
}
impl<F: Future> FutureExt for F {}

} // verus!
verus! {
pub broadcast proof fn lemma_push_front<A>(x: A, s: Seq<A>)
    ensures (#[trigger] (seq![x] + s)).len() == s.len() + 1, (seq![x] + s)[0] == x, (seq![x] + s).skip(1) == s
{
    assert((seq![x] + s).skip(1) =~= s);
}
pub broadcast group group_streams { lemma_push_front }
}
