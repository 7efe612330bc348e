//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/count.rs
//@ struct Count
//@ impl Count
//@ fn new -> r
    ensures r.stream == stream, r.count == 0,
//@ endfn
//@ endimpl
//@ impl Future for Count
    open spec fn wf(&self) -> bool { self.stream.wf() && self.count + self.stream.rest().len() <= usize::MAX } // assumed: at most usize::MAX items
    open spec fn done(&self) -> bool { self.stream.ended() }
    open spec fn fin(&self) -> bool { self.stream.rest() == Seq::<St::Item>::empty() }
    open spec fn output(&self) -> usize { (self.count + self.stream.rest().len()) as usize }
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll
//@ entry
    let ghost out0 = self.ptr.count + self.ptr.stream.rest().len();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(), *this.count + this.stream.ptr.rest().len() == out0, out0 <= usize::MAX,
//@ endfn
//@ endimpl
//@ impl FusedFuture for Count
    open spec fn over(&self) -> bool { self.stream.rest() == Seq::<St::Item>::empty() }
//@ fn is_terminated
//@ endfn
//@ endimpl
}
