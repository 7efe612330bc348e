//@ include seqs
verus! {
//@ file futures-util/src/future/maybe_done.rs
//@ struct MaybeDone
pub open spec fn md_val<Fut: Future>(m: MaybeDone<Fut>) -> Fut::Output { if m is Future { m->Future_0.output() } else { m->Done_0 } }
//@ impl MaybeDone
    pub open spec fn pending_ok(&self, w: int) -> bool { self is Future && self->Future_0.armed(w) }
//@ fn output_mut -> r
    ensures
        *old(self.ptr) is Done ==> r is Some && *(r->0) == old(self.ptr)->Done_0 && *final(self.ptr) == MaybeDone::<Fut>::Done(*final(r->0)),
        !(*old(self.ptr) is Done) ==> r is None && *final(self.ptr) == *old(self.ptr),
//@ endfn
//@ fn take_output -> r
    ensures
        *old(self.ptr) is Done ==> r == Some(old(self.ptr)->Done_0) && *final(self.ptr) is Gone, // the output is handed out once
        !(*old(self.ptr) is Done) ==> r is None && *final(self.ptr) == *old(self.ptr),
//@ endfn
//@ endimpl
//@ impl Future for MaybeDone
    open spec fn wf(&self) -> bool { self is Future ==> self->Future_0.wf() && !self->Future_0.done() }
    open spec fn done(&self) -> bool { self is Gone }
    open spec fn fin(&self) -> bool { !(self is Future) }
    open spec fn output(&self) -> () { () }
    open spec fn armed(&self, w: int) -> bool { self is Future && self->Future_0.armed(w) }
//@ fn poll -> r
    ensures
        r is Ready ==> *final(self.ptr) is Done && md_val(*final(self.ptr)) == md_val(*old(self.ptr)), // the value is stored, once
        r is Pending ==> *final(self.ptr) is Future && md_val(*final(self.ptr)) == md_val(*old(self.ptr)),
//@ endfn
//@ endimpl
//@ impl FusedFuture for MaybeDone
    open spec fn over(&self) -> bool { !(self is Future) }
//@ fn is_terminated -> r
    ensures r == !(self is Future), // [term]
//@ endfn
//@ endimpl
//@ fn maybe_done -> r
//@ subst assert_future::<(), _> =>>
    ensures r == MaybeDone::<Fut>::Future(future),
//@ endfn
}
