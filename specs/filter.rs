//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/filter.rs
//@ struct Filter
//@ impl Stream for Filter
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.pending_fut is Some <==> self.pending_item is Some
        &&& self.pending_fut is Some ==> self.pending_fut->0.wf() && !self.pending_fut->0.done() && !self.stream.ended()
        &&& futs_ok_ref(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<St::Item> {
        (if self.pending_fut is Some && self.pending_fut->0.output() { seq![self.pending_item->0] } else { Seq::empty() })
            + filter_seq(self.f, self.stream.rest())
    }
    open spec fn armed(&self, w: int) -> bool { if self.pending_fut is Some { self.pending_fut->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        (*this.pending_fut.ptr) is Some <==> (*this.pending_item) is Some,
        (*this.pending_fut.ptr) is Some ==> (*this.pending_fut.ptr)->0.wf() && !(*this.pending_fut.ptr)->0.done(),
        futs_ok_ref(*this.f, this.stream.ptr.rest()),
        rest0 == (if (*this.pending_fut.ptr) is Some && (*this.pending_fut.ptr)->0.output() { seq![(*this.pending_item)->0] } else { Seq::empty() })
            + filter_seq(*this.f, this.stream.ptr.rest()),
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Filter
//@ fn is_terminated
//@ endfn
//@ endimpl

//@ impl Filter
//@ fn new -> r
    requires stream.wf(), futs_ok_ref(f, stream.rest()),
    ensures r.wf(), r.ended() == stream.ended(), r.rest() == filter_seq(f, stream.rest()),
//@ endfn
//@ endimpl
}
