//@ include trys
verus! {
pub enum Either<A, B> { Left(A), Right(B) }
//@ file futures-util/src/future/select.rs
//@ struct Select
pub open spec fn sel_wf<A: Future, B: Future>(i: Option<(A, B)>) -> bool { i is Some ==> (i->0).0.wf() && !(i->0).0.done() && (i->0).1.wf() && !(i->0).1.done() }
//@ impl Future for Select
//@ header impl<A: Future, B: Future> Select<A, B>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Either<(A::Output, B), (B::Output, A)>
    requires old(self.ptr).inner is Some, sel_wf(old(self.ptr).inner),
    ensures
        *final(cx) == *old(cx),
        r is Ready ==> final(self.ptr).inner is None,
        r is Ready && r->0 is Left ==> ((r->0)->Left_0).0 == (old(self.ptr).inner->0).0.output() && ((r->0)->Left_0).1 == (old(self.ptr).inner->0).1, // first wins: its output, the other untouched
        r is Ready && r->0 is Right ==> ((r->0)->Right_0).0 == (old(self.ptr).inner->0).1.output() && ((r->0)->Right_0).1.output() == (old(self.ptr).inner->0).0.output() && ((r->0)->Right_0).1.wf() && !((r->0)->Right_0).1.done(), // second wins: the first is still live
        r is Pending ==> final(self.ptr).inner is Some && sel_wf(final(self.ptr).inner) && (final(self.ptr).inner->0).0.output() == (old(self.ptr).inner->0).0.output() && (final(self.ptr).inner->0).1.output() == (old(self.ptr).inner->0).1.output(),
        r is Pending ==> (final(self.ptr).inner->0).0.armed(old(cx).id()) && (final(self.ptr).inner->0).1.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl FusedFuture for Select
//@ header impl<A: Future, B: Future> Select<A, B>
//@ fn is_terminated -> r
    ensures r == self.inner is None,
//@ endfn
//@ endimpl
//@ file futures-util/src/future/try_select.rs
//@ struct TrySelect
//@ impl Future for TrySelect
//@ header impl<A: TryFuture, B: TryFuture> TrySelect<A, B>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Result<Either<(<A as TryFuture>::Ok, B), (<B as TryFuture>::Ok, A)>, Either<(<A as TryFuture>::Error, B), (<B as TryFuture>::Error, A)>>
    requires old(self.ptr).inner is Some, sel_wf(old(self.ptr).inner),
    ensures
        *final(cx) == *old(cx),
        r is Ready ==> final(self.ptr).inner is None,
        r is Ready ==> match r->0 {
            Ok(Either::Left((x, b))) => (old(self.ptr).inner->0).0.output() == Ok::<A::Ok, A::Error>(x) && b == (old(self.ptr).inner->0).1,
            Err(Either::Left((x, b))) => (old(self.ptr).inner->0).0.output() == Err::<A::Ok, A::Error>(x) && b == (old(self.ptr).inner->0).1,
            Ok(Either::Right((x, a))) => (old(self.ptr).inner->0).1.output() == Ok::<B::Ok, B::Error>(x) && a.output() == (old(self.ptr).inner->0).0.output() && a.wf() && !a.done(),
            Err(Either::Right((x, a))) => (old(self.ptr).inner->0).1.output() == Err::<B::Ok, B::Error>(x) && a.output() == (old(self.ptr).inner->0).0.output() && a.wf() && !a.done(),
        }, // the winner's result and the other future, still live
        r is Pending ==> final(self.ptr).inner is Some && sel_wf(final(self.ptr).inner) && (final(self.ptr).inner->0).0.output() == (old(self.ptr).inner->0).0.output() && (final(self.ptr).inner->0).1.output() == (old(self.ptr).inner->0).1.output(),
        r is Pending ==> (final(self.ptr).inner->0).0.armed(old(cx).id()) && (final(self.ptr).inner->0).1.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
