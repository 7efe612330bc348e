//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/skip_while.rs
//@ struct SkipWhile
//@ impl Stream for SkipWhile
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.pending_fut is Some <==> self.pending_item is Some
        &&& self.pending_fut is Some ==> self.pending_fut->0.wf() && !self.pending_fut->0.done() && !self.stream.ended() && !self.done_skipping
        &&& self.done_skipping || futs_ok_ref(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<St::Item> {
        if self.done_skipping { self.stream.rest() }
        else if self.pending_fut is Some { if self.pending_fut->0.output() { skip_while_seq(self.f, self.stream.rest()) } else { seq![self.pending_item->0] + self.stream.rest() } }
        else { skip_while_seq(self.f, self.stream.rest()) }
    }
    open spec fn armed(&self, w: int) -> bool { if self.pending_fut is Some { self.pending_fut->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(), !*this.done_skipping,
        (*this.pending_fut.ptr) is Some <==> (*this.pending_item) is Some,
        (*this.pending_fut.ptr) is Some ==> (*this.pending_fut.ptr)->0.wf() && !(*this.pending_fut.ptr)->0.done(),
        futs_ok_ref(*this.f, this.stream.ptr.rest()),
        rest0 == if (*this.pending_fut.ptr) is Some { if (*this.pending_fut.ptr)->0.output() { skip_while_seq(*this.f, this.stream.ptr.rest()) } else { seq![(*this.pending_item)->0] + this.stream.ptr.rest() } }
            else { skip_while_seq(*this.f, this.stream.ptr.rest()) },
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for SkipWhile
//@ fn is_terminated
//@ endfn
//@ endimpl
}
