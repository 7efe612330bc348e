//@ include seqs
verus! {
pub trait TryFuture: Future<Output = Result<<Self as TryFuture>::Ok, <Self as TryFuture>::Error>> {
    type Ok;
    type Error;
    fn try_poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Result<Self::Ok, Self::Error>>)
        requires
            old(self.ptr).wf(),
            !old(self.ptr).done(), // [term] a completed future is never polled again
        ensures
            *final(cx) == *old(cx),
            final(self.ptr).wf(),
            r is Ready ==> r->0 == old(self.ptr).output(),
            r is Ready ==> final(self.ptr).fin(), // [term] a future that completed knows that it did
            r is Pending ==> !final(self.ptr).done() && final(self.ptr).output() == old(self.ptr).output(),
            r is Pending ==> final(self.ptr).armed(old(cx).id()), // [wake]
    ;
}
//@ file futures-core/src/future.rs
//@ impl TryFuture for F
//@ header impl<F, T, E> TryFuture for F where F: Future<Output = Result<T, E>>
//@ fn try_poll
//@ subst Self::Output =>> Result<T, E>
//@ endfn
//@ endimpl
pub trait TryStream: Stream<Item = Result<<Self as TryStream>::Ok, <Self as TryStream>::Error>> {
    type Ok;
    type Error;
    fn try_poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Option<Result<Self::Ok, Self::Error>>>)
        requires
            old(self.ptr).wf(),
            !old(self.ptr).ended(), // [term] a finished stream is never polled again
        ensures
            *final(cx) == *old(cx),
            final(self.ptr).wf(),
            r is Ready && r->0 is Some ==> old(self.ptr).rest() == seq![r->0->0] + final(self.ptr).rest(),
            r is Ready && r->0 is Some ==> !final(self.ptr).ended(),
            r is Ready && r->0 is None ==> old(self.ptr).rest() == Seq::<Result<Self::Ok, Self::Error>>::empty() && final(self.ptr).rest() == Seq::<Result<Self::Ok, Self::Error>>::empty(),
            r is Pending ==> final(self.ptr).rest() == old(self.ptr).rest(),
            r is Pending ==> !final(self.ptr).ended(),
            r is Pending ==> final(self.ptr).armed(old(cx).id()), // [wake]
    ;
}
//@ file futures-core/src/stream.rs
//@ impl TryStream for S
//@ header impl<S, T, E> TryStream for S where S: Stream<Item = Result<T, E>>
//@ fn try_poll_next
//@ subst Self::Ok =>> T
//@ subst Self::Error =>> E
//@ endfn
//@ endimpl
pub trait TryFutureExt: TryFuture {
    fn try_poll_unpin(&mut self, cx: &mut Context<'_>) -> (r: Poll<Result<Self::Ok, Self::Error>>)
        requires old(self).wf(), !old(self).done(), // [term]
        ensures
            *final(cx) == *old(cx), final(self).wf(),
            r is Ready ==> r->0 == old(self).output(),
            r is Pending ==> !final(self).done() && final(self).output() == old(self).output(),
            r is Pending ==> final(self).armed(old(cx).id()), // [wake]
    { Pin::new(self).try_poll(cx) }
}
impl<F: TryFuture> TryFutureExt for F {}
pub trait TryStreamExt: TryStream {
    fn try_poll_next_unpin(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<Result<Self::Ok, Self::Error>>>)
        requires old(self).wf(), !old(self).ended(), // [term]
        ensures
            *final(cx) == *old(cx), final(self).wf(),
            r is Ready && r->0 is Some ==> old(self).rest() == seq![r->0->0] + final(self).rest() && !final(self).ended(),
            r is Ready && r->0 is None ==> old(self).rest() == Seq::<Result<Self::Ok, Self::Error>>::empty() && final(self).rest() == Seq::<Result<Self::Ok, Self::Error>>::empty(),
            r is Pending ==> final(self).rest() == old(self).rest() && !final(self).ended(),
            r is Pending ==> final(self).armed(old(cx).id()), // [wake]
    { Pin::new(self).try_poll_next(cx) }
}
impl<S: TryStream> TryStreamExt for S {}
}
