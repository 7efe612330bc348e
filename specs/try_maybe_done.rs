//@ include trys
verus! {
//@ file futures-util/src/future/try_maybe_done.rs
//@ struct TryMaybeDone
//@ impl TryMaybeDone
//@ fn output_mut -> r
    ensures
        *old(self.ptr) is Done ==> r is Some && *(r->0) == old(self.ptr)->Done_0 && *final(self.ptr) == TryMaybeDone::<Fut>::Done(*final(r->0)),
        !(*old(self.ptr) is Done) ==> r is None && *final(self.ptr) == *old(self.ptr),
//@ endfn
//@ fn take_output -> r
    ensures
        *old(self.ptr) is Done ==> r == Some(old(self.ptr)->Done_0) && *final(self.ptr) is Gone, // the output is handed out once
        !(*old(self.ptr) is Done) ==> r is None && *final(self.ptr) == *old(self.ptr),
//@ endfn
//@ endimpl
pub open spec fn tmd_val<Fut: TryFuture>(m: TryMaybeDone<Fut>) -> Result<Fut::Ok, Fut::Error> { if m is Future { m->Future_0.output() } else { Ok(m->Done_0) } }
//@ impl Future for TryMaybeDone
    open spec fn wf(&self) -> bool { self is Future ==> self->Future_0.wf() && !self->Future_0.done() }
    open spec fn done(&self) -> bool { self is Gone }
    open spec fn fin(&self) -> bool { !(self is Future) }
    open spec fn output(&self) -> Result<(), Fut::Error> { match tmd_val(*self) { Ok(_) => Ok(()), Err(e) => Err(e) } }
    open spec fn armed(&self, w: int) -> bool { self is Future && self->Future_0.armed(w) }
//@ fn poll -> r
    ensures
        r is Ready && r->0 is Ok ==> *final(self.ptr) is Done && tmd_val(*final(self.ptr)) == tmd_val(*old(self.ptr)), // the value is stored, once
        r is Ready && r->0 is Err ==> *final(self.ptr) is Gone, // [term] the failed future is dropped
        r is Pending ==> *final(self.ptr) is Future && tmd_val(*final(self.ptr)) == tmd_val(*old(self.ptr)),
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryMaybeDone
    open spec fn over(&self) -> bool { !(self is Future) }
//@ fn is_terminated -> r
    ensures r == !(self is Future), // [term]
//@ endfn
//@ endimpl
//@ fn try_maybe_done -> r
//@ subst assert_future::<Result<(), Fut::Error>, _> =>>
    ensures r == TryMaybeDone::<Fut>::Future(future),
//@ endfn
}
