//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/skip.rs
//@ struct Skip
//@ impl Stream for Skip
    open spec fn wf(&self) -> bool { self.stream.wf() }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<St::Item> { skip_upto(self.stream.rest(), self.remaining as int) }
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll_next
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        rest0 == skip_upto(this.stream.ptr.rest(), *this.remaining as int),
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Skip
//@ fn is_terminated
//@ endfn
//@ endimpl
}
