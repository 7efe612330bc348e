//@ include deleg_core
verus! {
//@ file futures-channel/src/mpsc/mod.rs
//@ struct RecvError
//@ struct Recv
//@ impl Recv
//@ dropbound + Unpin =>>
//@ fn new -> r
    ensures *r.stream == *old(stream),
//@ endfn
//@ endimpl
//@ impl Future for Recv
//@ header impl<St: Stream> Recv<'_, St>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Result<St::Item, RecvError>
    requires old(self.ptr).stream.wf(), !old(self.ptr).stream.ended(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).stream.wf(),
        r is Ready && r->0 is Ok ==> old(self.ptr).stream.rest() == seq![r->0->Ok_0] + final(self.ptr).stream.rest() && !final(self.ptr).stream.ended(), // the next message
        r is Ready && r->0 is Err ==> old(self.ptr).stream.rest() == Seq::<St::Item>::empty(), // an error only when no message is left and none can come
        r is Pending ==> final(self.ptr).stream.rest() == old(self.ptr).stream.rest() && !final(self.ptr).stream.ended(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl FusedFuture for Recv
//@ header impl<St: FusedStream> Recv<'_, St>
//@ fn is_terminated -> r
    requires self.stream.wf(),
    ensures
        r ==> old(self.stream).rest() == Seq::<St::Item>::empty(), // [term] reported as terminated: nothing is left
        !r ==> !old(self.stream).ended(), // [term] reported as live: safe to poll
//@ endfn
//@ endimpl
}
