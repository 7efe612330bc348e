//@ include chunks
verus! {
pub trait StreamFuse: Stream {
    fn fuse(self) -> (r: Fuse<Self>) ensures r.stream == self, !r.done { Fuse::new(self) }
}
impl<S: Stream> StreamFuse for S {}
//@ file futures-util/src/stream/stream/ready_chunks.rs
//@ struct ReadyChunks
//@ impl ReadyChunks
    pub open spec fn wf(&self) -> bool { self.stream.wf() && self.cap > 0 }
    pub open spec fn all(&self) -> Seq<St::Item> { self.stream.rest() }
//@ fn new -> r
//@ panics
    requires stream.wf(), !stream.ended(),
    ensures capacity > 0, r.wf(), r.cap == capacity, r.all() == stream.rest(),
//@ endfn
//@ endimpl
//@ impl Stream for ReadyChunks
//@ header impl<St: Stream> ReadyChunks<St>
//@ noassoc
//@ fn poll_next -> r
//@ subst Self::Item =>> Vec<St::Item>
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).wf(), final(self.ptr).cap == old(self.ptr).cap,
        r is Ready && r->0 is Some ==> old(self.ptr).all() == r->0->0@ + final(self.ptr).all(), // every item is in exactly one chunk, in order
        r is Ready && r->0 is Some ==> 0 < r->0->0@.len() <= old(self.ptr).cap, // a chunk is never empty and never exceeds the capacity
        r is Ready && r->0 is Some && r->0->0@.len() < old(self.ptr).cap ==> final(self.ptr).stream.armed(old(cx).id()) || final(self.ptr).stream.done, // a short chunk only when nothing more was ready
        r is Ready && r->0 is None ==> old(self.ptr).all() == Seq::<St::Item>::empty() && final(self.ptr).all() == Seq::<St::Item>::empty(),
        r is Pending ==> final(self.ptr).all() == old(self.ptr).all(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ entry
    let ghost all0 = self.ptr.all();
    let ghost cap0 = self.ptr.cap;
//@ loop 0
    invariant
        this.stream.ptr.wf(), *this.cap == cap0, items@.len() < cap0,
        items@ + this.stream.ptr.rest() == all0,
//@ endfn
//@ fn size_hint -> r
    requires self.wf(),
    ensures
        r.0 <= ceil_div(self.all().len() as int, self.cap as int), // between ceil(n/cap) and n chunks follow
        r.1 is Some ==> self.all().len() <= r.1->0,
//@ after self.stream.size_hint();
    proof { lemma_chunk_bounds(lower as int, 0, self.stream.rest().len() as int, self.cap as int); }
//@ endfn
//@ endimpl
//@ impl FusedStream for ReadyChunks
//@ header impl<St: Stream> ReadyChunks<St>
//@ fn is_terminated -> r
    requires self.wf(),
    ensures r ==> self.all() == Seq::<St::Item>::empty(),
//@ endfn
//@ endimpl
}
