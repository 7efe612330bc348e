//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/fuse.rs
//@ struct Fuse
//@ impl Stream for Fuse
    open spec fn wf(&self) -> bool { self.stream.wf() && (self.done ==> self.stream.rest() == Seq::<S::Item>::empty()) && (!self.done ==> !self.stream.ended()) }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<S::Item> { self.stream.rest() }
    open spec fn armed(&self, w: int) -> bool { !self.done && self.stream.armed(w) }
//@ fn poll_next -> r
    ensures
        old(self.ptr).done ==> r is Ready && r->0 is None && final(self.ptr).stream == old(self.ptr).stream, // fused: after None always None, inner not touched
        final(self.ptr).done == (old(self.ptr).done || (r is Ready && r->0 is None)),
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Fuse
//@ fn is_terminated -> r
    ensures r == self.done,
//@ endfn
//@ endimpl
//@ impl Fuse
//@ fn is_done -> r
    ensures r == self.done,
//@ endfn
//@ fn new -> r
    ensures r.stream == stream, !r.done,
//@ endfn
//@ endimpl
}
