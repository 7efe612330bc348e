//@ include sink_base
verus! {
use vstd::std_specs::vecdeque::*;
use std::collections::VecDeque;
pub struct Infallible { pub x: u8 } // never built: see the postconditions below
//@ substall P::Target =>> S
//@ file futures-sink/src/lib.rs
//@ impl Sink for Pin<P>
//@ header impl<Item, S: Sink<Item>> Sink<Item> for Pin<&mut S>
//@ noassoc
    type Error = S::Error;
    open spec fn kwf(&self) -> bool { (*self.ptr).kwf() }
    open spec fn sent(&self) -> Seq<Item> { (*self.ptr).sent() }
    open spec fn ready(&self) -> bool { (*self.ptr).ready() }
    open spec fn sflushed(&self) -> bool { (*self.ptr).sflushed() }
    open spec fn sclosed(&self) -> bool { (*self.ptr).sclosed() }
    open spec fn sarmed(&self, w: int) -> bool { (*self.ptr).sarmed(w) }
//@ fn poll_ready -> r
//@ endfn
//@ fn start_send -> r
//@ endfn
//@ fn poll_flush -> r
//@ endfn
//@ fn poll_close -> r
//@ endfn
//@ endimpl
//@ impl Sink for alloc::boxed::Box<S>
//@ header impl<Item, S: Sink<Item>> Sink<Item> for Box<S>
//@ noassoc
    type Error = S::Error;
    open spec fn kwf(&self) -> bool { (**self).kwf() }
    open spec fn sent(&self) -> Seq<Item> { (**self).sent() }
    open spec fn ready(&self) -> bool { (**self).ready() }
    open spec fn sflushed(&self) -> bool { (**self).sflushed() }
    open spec fn sclosed(&self) -> bool { (**self).sclosed() }
    open spec fn sarmed(&self, w: int) -> bool { (**self).sarmed(w) }
//@ fn poll_ready -> r
//@ endfn
//@ fn start_send -> r
//@ endfn
//@ fn poll_flush -> r
//@ endfn
//@ fn poll_close -> r
//@ endfn
//@ endimpl
//@ impl Sink for alloc::vec::Vec<T>
//@ header impl<T> Sink<T> for Vec<T>
//@ noassoc
    type Error = Infallible;
    open spec fn kwf(&self) -> bool { true }
    open spec fn sent(&self) -> Seq<T> { self@ }
    open spec fn ready(&self) -> bool { true }
    open spec fn sflushed(&self) -> bool { true }
    open spec fn sclosed(&self) -> bool { true }
    open spec fn sarmed(&self, w: int) -> bool { false }
//@ fn poll_ready -> r
    ensures r is Ready,
//@ endfn
//@ fn start_send -> r
    ensures r is Ok,
//@ endfn
//@ fn poll_flush -> r
    ensures r is Ready,
//@ endfn
//@ fn poll_close -> r
    ensures r is Ready,
//@ endfn
//@ endimpl
//@ impl Sink for alloc::collections::VecDeque<T>
//@ header impl<T> Sink<T> for VecDeque<T>
//@ noassoc
    type Error = Infallible;
    open spec fn kwf(&self) -> bool { true }
    open spec fn sent(&self) -> Seq<T> { self@ }
    open spec fn ready(&self) -> bool { true }
    open spec fn sflushed(&self) -> bool { true }
    open spec fn sclosed(&self) -> bool { true }
    open spec fn sarmed(&self, w: int) -> bool { false }
//@ fn poll_ready -> r
    ensures r is Ready,
//@ endfn
//@ fn start_send -> r
    ensures r is Ok,
//@ endfn
//@ fn poll_flush -> r
    ensures r is Ready,
//@ endfn
//@ fn poll_close -> r
    ensures r is Ready,
//@ endfn
//@ endimpl
}
