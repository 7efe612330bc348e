//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/chain.rs
//@ struct Chain
//@ impl Stream for Chain
    open spec fn wf(&self) -> bool {
        &&& self.first is Some ==> self.first->0.wf() && !self.first->0.ended() && !self.second.ended()
        &&& self.second.wf()
    }
    open spec fn ended(&self) -> bool { self.first is None && self.second.ended() }
    open spec fn rest(&self) -> Seq<St1::Item> { (if self.first is Some { self.first->0.rest() } else { Seq::empty() }) + self.second.rest() }
    open spec fn armed(&self, w: int) -> bool { if self.first is Some { self.first->0.armed(w) } else { self.second.armed(w) } }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Chain
//@ fn is_terminated
//@ endfn
//@ endimpl

//@ impl Chain
//@ fn new -> r
    requires stream1.wf(), stream2.wf(), !stream1.ended(), !stream2.ended(),
    ensures r.wf(), !r.ended(), r.rest() == stream1.rest() + stream2.rest(),
//@ endfn
//@ endimpl
}
