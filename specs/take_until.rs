//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/take_until.rs
//@ struct TakeUntil
//@ impl TakeUntil
    pub open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.fut is Some ==> self.fut->0.wf() && !self.fut->0.done()
        &&& self.fut is Some || self.free ==> !self.stream.ended()
        &&& self.fut is Some ==> !self.free
    }
    pub open spec fn stopped(&self) -> bool { !self.free && self.fut is None }
//@ fn new -> r
    requires stream.wf(), !stream.ended(), fut.wf(), !fut.done(),
    ensures r.wf(), !r.stopped(), r.stream == stream, r.fut == Some(fut), r.fut_result is None,
//@ endfn
//@ fn take_future -> r
    requires old(self).wf(),
    ensures
        final(self).wf(), r == old(self).fut, final(self).fut is None, final(self).stream == old(self).stream, final(self).fut_result == old(self).fut_result,
        r is Some ==> final(self).free, r is None ==> final(self).free == old(self).free,
//@ endfn
//@ fn take_result -> r
    ensures r == old(self).fut_result, final(self).fut_result is None, final(self).stream == old(self).stream, final(self).fut == old(self).fut, final(self).free == old(self).free,
//@ endfn
//@ fn is_stopped -> r
    ensures r == self.stopped(),
//@ endfn
//@ endimpl
//@ impl Stream for TakeUntil
//@ header impl<St: Stream, Fut: Future> TakeUntil<St, Fut>
//@ noassoc
//@ fn poll_next -> r
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).wf(), // [term]
        r is Ready && r->0 is Some ==> old(self.ptr).stream.rest() == seq![r->0->0] + final(self.ptr).stream.rest() && !final(self.ptr).stopped(), // items of the stream, in order
        r is Ready && r->0 is None ==> final(self.ptr).stopped(), // [term] the end is permanent
        r is Ready && r->0 is None ==> old(self.ptr).stopped() || old(self.ptr).stream.rest() == Seq::<St::Item>::empty()
            || (old(self.ptr).fut is Some && final(self.ptr).fut_result == Some(old(self.ptr).fut->0.output())), // ends only with the stream or with the future, whose result is kept
        old(self.ptr).stopped() ==> r is Ready && r->0 is None,
        r is Ready && r->0 is Some ==> final(self.ptr).fut is Some == old(self.ptr).fut is Some, // the future is polled first: no item after it resolved
        r is Pending ==> final(self.ptr).stream.rest() == old(self.ptr).stream.rest() && !final(self.ptr).stopped(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
        r is Pending && final(self.ptr).fut is Some ==> final(self.ptr).fut->0.armed(old(cx).id()), // [wake]
        r is Pending ==> final(self.ptr).free == old(self.ptr).free,
//@ endfn
//@ fn size_hint -> r
    requires self.wf(),
    ensures
        r.0 == 0 || (self.free && r.0 <= self.stream.rest().len()), // the future may stop the stream at any time
        !self.stopped() && r.1 is Some ==> self.stream.rest().len() <= r.1->0,
//@ endfn
//@ endimpl
//@ impl FusedStream for TakeUntil
//@ header impl<St: Stream, Fut: Future> TakeUntil<St, Fut>
//@ fn is_terminated -> r
    ensures r == self.stopped(),
//@ endfn
//@ endimpl
}
