//@ include seqs
verus! {
#[verifier::external_body]
pub struct Payload { x: u8 }
// std::panic::catch_unwind: what the closure returns, or the payload of its panic
#[verifier::external_body]
pub fn vcatch<T>(x: T) -> (r: Result<T, Payload>) ensures r matches Ok(y) ==> y == x { unimplemented!() }
//@ file futures-util/src/stream/stream/catch_unwind.rs
//@ substall Box<dyn Any + Send> =>> Payload
//@ substall catch_unwind(AssertUnwindSafe(|| =>> vcatch((
//@ struct CatchUnwind
//@ impl CatchUnwind
//@ header impl<St: Stream> CatchUnwind<St>
//@ fn new -> r
    ensures r.stream == stream, !r.caught_unwind,
//@ endfn
//@ endimpl
//@ impl Stream for CatchUnwind
//@ header impl<St: Stream> CatchUnwind<St>
//@ noassoc
    pub open spec fn wf(&self) -> bool { !self.caught_unwind ==> self.stream.wf() }
//@ fn poll_next -> r
//@ kinds option,poll
//@ subst Self::Item =>> Result<St::Item, Payload>
    requires old(self.ptr).wf(), !old(self.ptr).caught_unwind ==> !old(self.ptr).stream.ended(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).wf(),
        old(self.ptr).caught_unwind ==> r == Poll::Ready(None::<Result<St::Item, Payload>>) && *final(self.ptr) == *old(self.ptr), // [core] after a panic the stream is over and is not polled again
        r matches Poll::Ready(Some(Ok(x))) ==> !final(self.ptr).caught_unwind && old(self.ptr).stream.rest() == seq![x] + final(self.ptr).stream.rest() && !final(self.ptr).stream.ended(), // the next item
        r matches Poll::Ready(Some(Err(_))) ==> final(self.ptr).caught_unwind, // a panic is yielded once, as the last item
        r matches Poll::Ready(None) ==> old(self.ptr).caught_unwind || old(self.ptr).stream.rest().len() == 0, // ends only with the source
        r is Pending ==> !final(self.ptr).caught_unwind && final(self.ptr).stream.rest() == old(self.ptr).stream.rest() && !final(self.ptr).stream.ended(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ endfn
//@ fn size_hint -> r
    requires self.wf(),
    ensures
        self.caught_unwind ==> r.0 == 0, // [size] nothing is promised after a panic
        !self.caught_unwind ==> r.0 <= self.stream.rest().len(), // [size]
        !self.caught_unwind ==> (r.1 matches Some(n) ==> self.stream.rest().len() <= n), // [size]
//@ endfn
//@ endimpl
//@ impl FusedStream for CatchUnwind
//@ header impl<St: FusedStream> CatchUnwind<St>
//@ fn is_terminated -> r
    requires self.wf(),
    ensures
        self.caught_unwind ==> r, // [term] after a panic the stream is over
        !self.caught_unwind && self.stream.ended() ==> r, // [term]
        !self.caught_unwind && r ==> self.stream.rest().len() == 0, // [term]
//@ endfn
//@ endimpl
}
