//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/filter_map.rs
//@ struct FilterMap
//@ impl Stream for FilterMap
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.pending is Some ==> self.pending->0.wf() && !self.pending->0.done() && !self.stream.ended()
        &&& futs_ok(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<T> {
        (if self.pending is Some { opt_seq(self.pending->0.output()) } else { Seq::empty() }) + filter_map_seq(self.f, self.stream.rest())
    }
    open spec fn armed(&self, w: int) -> bool { if self.pending is Some { self.pending->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        (*this.pending.ptr) is Some ==> (*this.pending.ptr)->0.wf() && !(*this.pending.ptr)->0.done(),
        futs_ok(*this.f, this.stream.ptr.rest()),
        rest0 == (if (*this.pending.ptr) is Some { opt_seq((*this.pending.ptr)->0.output()) } else { Seq::empty() }) + filter_map_seq(*this.f, this.stream.ptr.rest()),
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for FilterMap
//@ fn is_terminated
//@ endfn
//@ endimpl
}
