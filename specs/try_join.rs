//@ include try_maybe_done
verus! {
//@ file futures-util/src/future/try_join.rs
//@ struct TryJoin
//@ impl TryJoin
//@ fn new -> r
    ensures r.fut1 == TryMaybeDone::<Fut1>::Future(fut1), r.fut2 == TryMaybeDone::<Fut2>::Future(fut2),
//@ endfn
//@ endimpl
//@ impl Future for TryJoin
//@ header impl<Fut1: TryFuture, Fut2: TryFuture<Error = Fut1::Error>> TryJoin<Fut1, Fut2>
//@ noassoc
    pub open spec fn wf(&self) -> bool { self.fut1.wf() && self.fut2.wf() && !(self.fut1 is Done && self.fut2 is Done) }
    pub open spec fn live(&self) -> bool { !(self.fut1 is Gone) && !(self.fut2 is Gone) }
//@ fn poll -> r
//@ subst Self::Output =>> Result<(Fut1::Ok, Fut2::Ok), Fut1::Error>
    requires old(self.ptr).wf(), old(self.ptr).live(),
    ensures
        *final(cx) == *old(cx),
        r is Ready && r->0 is Ok ==> tmd_val(old(self.ptr).fut1) == Ok::<Fut1::Ok, Fut1::Error>(((r->0)->Ok_0).0) && tmd_val(old(self.ptr).fut2) == Ok::<Fut2::Ok, Fut2::Error>(((r->0)->Ok_0).1), // both results, each in its place
        r is Ready && r->0 is Err ==> tmd_val(old(self.ptr).fut1) == Err::<Fut1::Ok, Fut1::Error>((r->0)->Err_0) || tmd_val(old(self.ptr).fut2) == Err::<Fut2::Ok, Fut2::Error>((r->0)->Err_0), // an error of one of the futures
        r is Ready ==> !final(self.ptr).live(),
        r is Pending ==> final(self.ptr).wf() && final(self.ptr).live() && tmd_val(final(self.ptr).fut1) == tmd_val(old(self.ptr).fut1) && tmd_val(final(self.ptr).fut2) == tmd_val(old(self.ptr).fut2),
        r is Pending ==> (final(self.ptr).fut1 is Future ==> final(self.ptr).fut1.armed(old(cx).id())) && (final(self.ptr).fut2 is Future ==> final(self.ptr).fut2.armed(old(cx).id())), // [wake]
//@ endfn
//@ endimpl
}
