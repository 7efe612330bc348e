//@ include seqs
verus! {
// does some remaining item decide the answer early
pub open spec fn hit<A, Fut: Future<Output = bool>, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>) -> bool
    decreases s.len()
{ s.len() != 0 && (!f.step(s[0]).1.output() || hit(f.step(s[0]).0, s.skip(1))) }
//@ file futures-util/src/stream/stream/all.rs
//@ struct All
//@ impl All
//@ fn new -> r
    ensures r.stream == stream, r.f == f, !r.done, r.future is None,
//@ endfn
//@ endimpl
//@ impl Future for All
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& !self.done ==> !self.stream.ended() && futs_ok(self.f, self.stream.rest())
        &&& self.future is Some ==> !self.done && self.future->0.wf() && !self.future->0.done()
    }
    open spec fn done(&self) -> bool { self.done }
    open spec fn output(&self) -> bool { (!((self.future is Some && !self.future->0.output()) || hit(self.f, self.stream.rest()))) }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll
//@ entry
    let ghost out0 = self.ptr.output();
//@ loop 0
    invariant
        !*this.done,
        this.stream.ptr.wf(), !this.stream.ptr.ended(), futs_ok(*this.f, this.stream.ptr.rest()),
        *this.future.ptr is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done(),
        out0 == (!((*this.future.ptr is Some && !(*this.future.ptr)->0.output()) || hit(*this.f, this.stream.ptr.rest()))),
//@ endfn
//@ endimpl
//@ impl FusedFuture for All
//@ fn is_terminated
//@ endfn
//@ endimpl
}
