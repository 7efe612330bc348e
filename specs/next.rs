//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/into_future.rs
//@ struct StreamFuture
//@ impl StreamFuture
//@ dropbound + Unpin =>>
//@ fn new -> r
    ensures r.stream == Some(stream),
//@ endfn
//@ endimpl
//@ impl Future for StreamFuture
//@ header impl<St: Stream> StreamFuture<St>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> (Option<St::Item>, St)
    requires old(self.ptr).stream is Some, old(self.ptr).stream->0.wf(), !old(self.ptr).stream->0.ended(),
    ensures
        *final(cx) == *old(cx),
        r is Ready && (r->0).0 is Some ==> old(self.ptr).stream->0.rest() == seq![((r->0).0)->0] + (r->0).1.rest() && (r->0).1.wf() && !(r->0).1.ended(), // next item and the rest of the stream
        r is Ready && (r->0).0 is None ==> old(self.ptr).stream->0.rest() == Seq::<St::Item>::empty() && (r->0).1.wf(),
        r is Ready ==> final(self.ptr).stream is None,
        r is Pending ==> final(self.ptr).stream is Some && final(self.ptr).stream->0.wf() && !final(self.ptr).stream->0.ended() && final(self.ptr).stream->0.rest() == old(self.ptr).stream->0.rest(),
        r is Pending ==> final(self.ptr).stream->0.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl FusedFuture for StreamFuture
//@ header impl<St: Stream> StreamFuture<St>
//@ fn is_terminated -> r
    ensures r == self.stream is None,
//@ endfn
//@ endimpl
}
verus! {
//@ file futures-util/src/stream/stream/next.rs
//@ struct Next
//@ impl Future for Next
//@ header impl<St: Stream> Next<'_, St>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Option<St::Item>
    requires old(self.ptr).stream.wf(), !old(self.ptr).stream.ended(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).stream.wf(),
        r is Ready && (r->0) is Some ==> old(self.ptr).stream.rest() == seq![(r->0)->0] + final(self.ptr).stream.rest() && !final(self.ptr).stream.ended(), // the next item
        r is Ready && (r->0) is None ==> old(self.ptr).stream.rest() == Seq::<St::Item>::empty(),
        r is Pending ==> final(self.ptr).stream.rest() == old(self.ptr).stream.rest() && !final(self.ptr).stream.ended(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl FusedFuture for Next
//@ header impl<St: FusedStream> Next<'_, St>
//@ fn is_terminated -> r
    requires self.stream.wf(),
    ensures
        r ==> old(self.stream).rest() == Seq::<St::Item>::empty(), // [term] reported as terminated: nothing is left
        !r ==> !old(self.stream).ended(), // [term] reported as live: safe to poll
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/stream/select_next_some.rs
//@ struct SelectNextSome
//@ impl Future for SelectNextSome
//@ header impl<St: FusedStream> SelectNextSome<'_, St>
//@ noassoc
//@ fn poll -> r
//@ panics
//@ subst Self::Output =>> St::Item
    requires old(self.ptr).stream.wf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).stream.wf(),
        r is Ready ==> old(self.ptr).stream.rest() == seq![(r->0)] + final(self.ptr).stream.rest() && !final(self.ptr).stream.ended(), // the next item
        r is Pending ==> final(self.ptr).stream.rest() == old(self.ptr).stream.rest(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()) || (wake_requested(old(cx).id()) && old(self.ptr).stream.rest() == Seq::<St::Item>::empty()), // [wake]
//@ endfn
//@ endimpl
//@ impl FusedFuture for SelectNextSome
//@ header impl<St: FusedStream> SelectNextSome<'_, St>
//@ fn is_terminated -> r
    requires self.stream.wf(),
    ensures
        r ==> old(self.stream).rest() == Seq::<St::Item>::empty(), // [term] reported as terminated: nothing is left
        !r ==> !old(self.stream).ended(), // [term] reported as live: safe to poll
//@ endfn
//@ endimpl
}
