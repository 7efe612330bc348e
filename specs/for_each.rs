//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/for_each.rs
//@ struct ForEach
// closure state after being called once for every remaining item, in order
pub open spec fn called_all<A, Fut: Future, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>) -> F
    decreases s.len()
{ if s.len() == 0 { f } else { called_all(f.step(s[0]).0, s.skip(1)) } }
//@ impl ForEach
//@ fn new -> r
    ensures r.stream == stream, r.f == f, r.future is None,
//@ endfn
//@ endimpl
//@ impl Future for ForEach
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf() && futs_ok(self.f, self.stream.rest())
        &&& self.future is Some ==> self.future->0.wf() && !self.future->0.done() && !self.stream.ended()
    }
    open spec fn done(&self) -> bool { self.future is None && self.stream.ended() }
    open spec fn fin(&self) -> bool { self.future is None && self.stream.rest() == Seq::<St::Item>::empty() }
    open spec fn output(&self) -> () { () }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll -> r
    ensures
        r is Ready ==> final(self.ptr).stream.rest() == Seq::<St::Item>::empty() && final(self.ptr).future is None && final(self.ptr).f == called_all(old(self.ptr).f, old(self.ptr).stream.rest()), // completes only after every item was processed
        called_all(final(self.ptr).f, final(self.ptr).stream.rest()) == called_all(old(self.ptr).f, old(self.ptr).stream.rest()), // each item is handed to the closure once, in order
//@ entry
    let ghost all0 = called_all(self.ptr.f, self.ptr.stream.rest());
//@ loop 0
    invariant
        this.stream.ptr.wf(), futs_ok(*this.f, this.stream.ptr.rest()),
        !this.stream.ptr.ended(),
        *this.future.ptr is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done(),
        called_all(*this.f, this.stream.ptr.rest()) == all0,
//@ endfn
//@ endimpl
//@ impl FusedFuture for ForEach
    open spec fn over(&self) -> bool { self.future is None && self.stream.rest() == Seq::<St::Item>::empty() }
//@ fn is_terminated
//@ endfn
//@ endimpl
}
