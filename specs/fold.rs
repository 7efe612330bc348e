//@ include seqs
verus! {
pub open spec fn fold_seq<A, T, Fut: Future<Output = T>, F: FnMut2<T, A, Output = Fut>>(f: F, a: T, s: Seq<A>) -> T
    decreases s.len()
{ if s.len() == 0 { a } else { fold_seq(f.step(a, s[0]).0, f.step(a, s[0]).1.output(), s.skip(1)) } }
pub open spec fn fold_ok<A, T, Fut: Future<Output = T>, F: FnMut2<T, A, Output = Fut>>(f: F, a: T, s: Seq<A>) -> bool
    decreases s.len()
{ s.len() == 0 || (f.step(a, s[0]).1.wf() && !f.step(a, s[0]).1.done() && fold_ok(f.step(a, s[0]).0, f.step(a, s[0]).1.output(), s.skip(1))) }
//@ file futures-util/src/stream/stream/fold.rs
//@ struct Fold
//@ impl Fold
//@ fn new -> r
    ensures r.stream == stream, r.f == f, r.accum == Some(t), r.future is None,
//@ endfn
//@ endimpl
//@ impl Future for Fold
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.accum is Some || self.future is Some ==> !self.stream.ended()
        &&& self.future is Some ==> self.future->0.wf() && !self.future->0.done() && fold_ok(self.f, self.future->0.output(), self.stream.rest())
        &&& self.accum is Some && self.future is None ==> fold_ok(self.f, self.accum->0, self.stream.rest())
    }
    open spec fn done(&self) -> bool { self.accum is None && self.future is None }
    open spec fn output(&self) -> T { fold_seq(self.f, if self.future is Some { self.future->0.output() } else { self.accum->0 }, self.stream.rest()) }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll
//@ entry
    let ghost out0 = self.ptr.output();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        *this.accum is Some || *this.future.ptr is Some,
        *this.future.ptr is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done() && fold_ok(*this.f, (*this.future.ptr)->0.output(), this.stream.ptr.rest()),
        *this.future.ptr is None ==> fold_ok(*this.f, (*this.accum)->0, this.stream.ptr.rest()),
        out0 == fold_seq(*this.f, if *this.future.ptr is Some { (*this.future.ptr)->0.output() } else { (*this.accum)->0 }, this.stream.ptr.rest()),
//@ endfn
//@ endimpl
//@ impl FusedFuture for Fold
//@ fn is_terminated
//@ endfn
//@ endimpl
}
