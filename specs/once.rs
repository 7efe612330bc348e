//@ include seqs
pub mod marker { pub use core::marker::PhantomData; }
verus! {
//@ file futures-util/src/stream/once.rs
//@ struct Once
//@ impl Once
//@ fn new -> r
    ensures r.future == Some(future),
//@ endfn
//@ endimpl
//@ impl Stream for Once
    open spec fn wf(&self) -> bool { self.future is Some ==> self.future->0.wf() && !self.future->0.done() }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<Fut::Output> { if self.future is Some { seq![self.future->0.output()] } else { Seq::empty() } }
    open spec fn armed(&self, w: int) -> bool { self.future is Some && self.future->0.armed(w) }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Once
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/empty.rs
//@ struct Empty
//@ impl Stream for Empty
    open spec fn wf(&self) -> bool { true }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<T> { Seq::empty() }
    open spec fn armed(&self, w: int) -> bool { false }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Empty
//@ fn is_terminated -> r
    ensures r, // [term]
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/pending.rs
//@ struct Pending
//@ impl Stream for Pending
    open spec fn wf(&self) -> bool { true }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<T> { Seq::empty() }
    open spec fn armed(&self, w: int) -> bool { true } // nothing will ever happen
//@ fn poll_next -> r
    ensures r is Pending, // never yields and never ends
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Pending
//@ fn is_terminated -> r
    ensures r, // [term]
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/iter.rs
//@ struct Iter
//@ impl Stream for Iter
    open spec fn wf(&self) -> bool { true }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<I::Item> { self.iter.rest() }
    open spec fn armed(&self, w: int) -> bool { false }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
}
