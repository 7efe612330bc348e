//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/take.rs
//@ struct Take
//@ impl Stream for Take
    open spec fn wf(&self) -> bool { self.stream.wf() }
    open spec fn ended(&self) -> bool { self.remaining > 0 && self.stream.ended() }
    open spec fn rest(&self) -> Seq<St::Item> { take_upto(self.stream.rest(), self.remaining as int) }
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Take
//@ fn is_terminated
//@ endfn
//@ endimpl

//@ impl Take
//@ fn new -> r
    requires stream.wf(),
    ensures r.wf(), r.rest() == take_upto(stream.rest(), n as int), stream.ended() || !r.ended(),
//@ endfn
//@ endimpl
}
