//@ include seqs
verus! {
pub trait VClone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
//@ file futures-util/src/stream/stream/cycle.rs
//@ struct Cycle
//@ impl Cycle
//@ dropbound Clone =>> VClone
//@ fn new -> r
    ensures r.orig == stream, r.stream == stream,
//@ endfn
//@ endimpl
//@ impl Stream for Cycle
//@ header impl<St: VClone + Stream> Cycle<St>
//@ noassoc
    pub open spec fn wf(&self) -> bool { self.orig.wf() && !self.orig.ended() && self.stream.wf() && (self.orig.rest().len() == 0 ==> self.stream.rest().len() == 0) }
//@ fn poll_next -> r
//@ subst Self::Item =>> St::Item
    requires old(self.ptr).wf(), !old(self.ptr).stream.ended(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).wf(), final(self.ptr).orig == old(self.ptr).orig,
        r is Ready && r->0 is Some ==> !final(self.ptr).stream.ended(),
        r is Ready && r->0 is Some ==> seq![r->0->0] + final(self.ptr).stream.rest() == old(self.ptr).stream.rest()
            || (old(self.ptr).stream.rest().len() == 0 && seq![r->0->0] + final(self.ptr).stream.rest() == old(self.ptr).orig.rest()), // the next item of the current round, or the first of the next round
        r is Ready && r->0 is None ==> old(self.ptr).orig.rest() == Seq::<St::Item>::empty(), // ends only if there is nothing to repeat
        r is Pending ==> !final(self.ptr).stream.ended() && (final(self.ptr).stream.rest() == old(self.ptr).stream.rest() || (old(self.ptr).stream.rest().len() == 0 && final(self.ptr).stream.rest() == old(self.ptr).orig.rest())),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ endfn
//@ fn size_hint -> r
    requires self.wf(),
    ensures
        self.orig.rest().len() == 0 ==> r.0 == 0, // [size] nothing to repeat: no item is promised
        self.orig.rest().len() > 0 ==> r.1 is None, // [size] repeats for ever
//@ endfn
//@ endimpl
//@ impl FusedStream for Cycle
//@ header impl<St: VClone + Stream> Cycle<St>
//@ fn is_terminated -> r
    requires self.wf(),
    ensures r ==> self.orig.rest().len() == 0, // [term]
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/repeat.rs
//@ struct Repeat
//@ impl Stream for Repeat
//@ header impl<T: VClone> Repeat<T>
//@ noassoc
//@ fn poll_next -> r
//@ subst Self::Item =>> T
    ensures r == Poll::Ready(Some(old(self.ptr).item)), *final(self.ptr) == *old(self.ptr), // the item, for ever
//@ endfn
//@ fn size_hint -> r
    ensures r == (usize::MAX, None::<usize>), // [size] endless
//@ endfn
//@ endimpl
//@ impl FusedStream for Repeat
//@ header impl<T: VClone> Repeat<T>
//@ fn is_terminated -> r
    ensures !r, // [term]
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/repeat_with.rs
//@ struct RepeatWith
//@ impl Stream for RepeatWith
//@ header impl<A, F: FnMut0<Output = A>> RepeatWith<F>
//@ noassoc
//@ fn poll_next -> r
//@ subst Self::Item =>> A
    ensures r == Poll::Ready(Some(old(self.ptr).repeater.step().1)), final(self.ptr).repeater == old(self.ptr).repeater.step().0, // one call per item
//@ endfn
//@ fn size_hint -> r
    ensures r == (usize::MAX, None::<usize>), // [size] endless
//@ endfn
//@ endimpl
//@ impl FusedStream for RepeatWith
//@ header impl<A, F: FnMut0<Output = A>> RepeatWith<F>
//@ fn is_terminated -> r
    ensures !r, // [term]
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/poll_immediate.rs
//@ struct PollImmediate
//@ impl Stream for PollImmediate
//@ header impl<T, S> PollImmediate<S> where S: Stream<Item = T>
//@ noassoc
    pub open spec fn wf(&self) -> bool { self.stream is Some ==> self.stream->0.wf() && !self.stream->0.ended() }
    pub open spec fn rest(&self) -> Seq<T> { if self.stream is Some { self.stream->0.rest() } else { Seq::empty() } }
//@ fn poll_next -> r
//@ subst Self::Item =>> Poll<T>
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).wf(),
        r is Ready, // never pending
        r matches Poll::Ready(Some(Poll::Ready(x))) ==> old(self.ptr).rest() == seq![x] + final(self.ptr).rest(),
        r matches Poll::Ready(Some(Poll::Pending)) ==> old(self.ptr).rest() == final(self.ptr).rest(),
        r matches Poll::Ready(None) ==> old(self.ptr).rest() == Seq::<T>::empty() && final(self.ptr).stream is None,
//@ endfn
//@ fn size_hint -> r
    requires self.wf(),
    ensures
        r.0 <= self.rest().len(), // [size] every item of the stream is still to come
        r.1 is Some ==> self.stream is None, // [size] any number of Pending items may come in between
//@ endfn
//@ endimpl
//@ impl FusedStream for PollImmediate
//@ header impl<S: Stream> PollImmediate<S>
//@ fn is_terminated -> r
    ensures r == (self.stream is None), // [term]
//@ endfn
//@ endimpl
}
