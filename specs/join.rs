//@ include maybe_done
verus! {
//@ file futures-util/src/future/join.rs
//@ struct Join
//@ impl Join
//@ fn new -> r
    ensures r.fut1 == MaybeDone::<Fut1>::Future(fut1), r.fut2 == MaybeDone::<Fut2>::Future(fut2),
//@ endfn
//@ endimpl
//@ impl Future for Join
    open spec fn wf(&self) -> bool { self.fut1.wf() && self.fut2.wf() && (self.fut1 is Gone <==> self.fut2 is Gone) && !(self.fut1 is Done && self.fut2 is Done) }
    open spec fn done(&self) -> bool { self.fut1 is Gone }
    open spec fn output(&self) -> (Fut1::Output, Fut2::Output) { (md_val(self.fut1), md_val(self.fut2)) }
    open spec fn armed(&self, w: int) -> bool { (self.fut1 is Future ==> self.fut1.armed(w)) && (self.fut2 is Future ==> self.fut2.armed(w)) }
//@ fn poll
//@ endfn
//@ endimpl
//@ impl FusedFuture for Join
//@ fn is_terminated -> r
    ensures r == self.done(), // [term]
//@ endfn
//@ endimpl
}
