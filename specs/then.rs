//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/then.rs
//@ struct Then
//@ impl Stream for Then
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.future is Some ==> self.future->0.wf() && !self.future->0.done() && !self.stream.ended()
        &&& futs_ok(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<Fut::Output> {
        (if self.future is Some { seq![self.future->0.output()] } else { Seq::empty() }) + then_seq(self.f, self.stream.rest())
    }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        (*this.future.ptr) is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done(),
        futs_ok(*this.f, this.stream.ptr.rest()),
        rest0 == (if (*this.future.ptr) is Some { seq![(*this.future.ptr)->0.output()] } else { Seq::empty() }) + then_seq(*this.f, this.stream.ptr.rest()),
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Then
//@ fn is_terminated
//@ endfn
//@ endimpl
}
