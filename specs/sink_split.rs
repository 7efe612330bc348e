//@ include sink_base
//@ include bl_base
verus! {
#[verifier::external_body]
pub broadcast proof fn axiom_sink_view<S: Sink<Item>, Item>(a: S, b: S)
    requires #[trigger] other_half(a, b),
    ensures (#[trigger] <S as Sink<Item>>::sent(&b)) == <S as Sink<Item>>::sent(&a),
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_sink_wf<S: Sink<Item>, Item>(a: S, b: S)
    requires #[trigger] other_half(a, b), <S as Sink<Item>>::kwf(&a),
    ensures #[trigger] <S as Sink<Item>>::kwf(&b),
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_stream_view<S: Stream>(a: S, b: S)
    requires #[trigger] other_half(a, b),
    ensures a.rest() == b.rest() && a.ended() == b.ended() && (a.wf() ==> b.wf()),
{ }
pub broadcast group group_halves { group_seqs, axiom_sink_view, axiom_sink_wf, axiom_stream_view }
//@ bcast group_halves
//@ trackall poll_lock poll_lock_and_flush_slot => Tracked(&mut *turn)
//@ file futures-util/src/stream/stream/split.rs
//@ struct SplitStream
//@ struct SplitSink
//@ struct ReuniteError
// everything given to the sink half, in order: what the sink accepted and the item waiting for room
pub open spec fn given<S: Sink<Item>, Item>(k: SplitSink<S, Item>, t: Turn<S>) -> Seq<Item> {
    match k.slot { Some(x) => t.s.sent().push(x), None => t.s.sent() }
}
//@ impl SplitStream
//@ fn is_pair_of -> r
    ensures r == (self.0.id() == other.lock.id()),
//@ endfn
//@ endimpl
//@ impl Stream for SplitStream
//@ header impl<S: Stream> SplitStream<S>
//@ noassoc
//@ fn poll_next -> r
//@ params Tracked(turn): Tracked<&mut Turn<S>>
    requires old(turn).s.wf(), !old(turn).s.ended(),
    ensures
        *final(cx) == *old(cx),
        *final(self.ptr) == *old(self.ptr),
        final(turn).s.wf(),
        r matches Poll::Ready(Some(x)) ==> old(turn).s.rest() == seq![x] + final(turn).s.rest() && !final(turn).s.ended(), // yields exactly the next item
        r matches Poll::Ready(None) ==> old(turn).s.rest() == Seq::<S::Item>::empty() && final(turn).s.rest() == Seq::<S::Item>::empty(), // ends only when nothing is left
        r is Pending ==> final(turn).s.rest() == old(turn).s.rest() && !final(turn).s.ended(), // pending loses no item
        r is Pending ==> old(self.ptr).0.parked(old(cx).id()) || final(turn).s.armed(old(cx).id()), // [wake] waits for the lock or for the stream
//@ endfn
//@ endimpl
//@ impl SplitStream
//@ fn reunite -> r
    ensures r is Ok <==> self.0.id() == other.lock.id(), r is Err ==> r->Err_0.0.lock == other.lock && r->Err_0.1.0 == self.0, // together again exactly if they belong together, else both handed back
//@ endfn
//@ endimpl
//@ impl SplitSink
//@ fn reunite -> r
    ensures r is Ok <==> self.lock.id() == other.0.id(), r is Err ==> r->Err_0.0.lock == self.lock && r->Err_0.1.0 == other.0,
//@ endfn
//@ endimpl
//@ fn SplitSink -> r
    ensures r.lock == lock, r.slot is None, // starts with nothing waiting
//@ endfn
//@ impl SplitSink
//@ fn is_pair_of -> r
    ensures r == (self.lock.id() == other.0.id()),
//@ endfn
//@ endimpl
//@ impl SplitSink
//@ fn poll_flush_slot -> ret
//@ tries result
    requires (*old(inner.ptr)).kwf(),
    ensures
        *final(cx) == *old(cx),
        !(ret matches Poll::Ready(Err(_))) ==> (*final(inner.ptr)).kwf(),
        ret matches Poll::Ready(Ok(_)) ==> *final(slot) is None && (*final(inner.ptr)).sent() == (match *old(slot) { Some(x) => (*old(inner.ptr)).sent().push(x), None => (*old(inner.ptr)).sent() }), // the slotted item reaches the sink once
        ret is Pending ==> *final(slot) == *old(slot) && *old(slot) is Some && (*final(inner.ptr)).sent() == (*old(inner.ptr)).sent(), // and is kept until then
        ret is Pending ==> (*final(inner.ptr)).sarmed(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_lock_and_flush_slot -> ret
//@ params Tracked(turn): Tracked<&mut Turn<S>>
    requires old(turn).s.kwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).lock == old(self.ptr).lock,
        !(ret matches Poll::Ready(Err(_))) ==> final(turn).s.kwf() && given(*final(self.ptr), *final(turn)) == given(*old(self.ptr), *old(turn)),
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).slot is None,
        ret is Pending ==> old(self.ptr).lock.parked(old(cx).id()) || final(turn).s.sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl Sink for SplitSink
//@ header impl<S: Sink<Item>, Item> SplitSink<S, Item>
//@ noassoc
//@ fn poll_ready -> ret
//@ tries result
//@ params Tracked(turn): Tracked<&mut Turn<S>>
    requires old(turn).s.kwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).lock == old(self.ptr).lock,
        !(ret matches Poll::Ready(Err(_))) ==> final(turn).s.kwf() && given(*final(self.ptr), *final(turn)) == given(*old(self.ptr), *old(turn)), // accepts nothing by itself, loses nothing
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).slot is None, // room for the next item
        ret is Pending ==> old(self.ptr).lock.parked(old(cx).id()) || final(turn).s.sarmed(old(cx).id()), // [wake]
//@ loop 0
    invariant
        self.ptr.lock == __self0.ptr.lock,
        turn.s.kwf(), given(*self.ptr, *turn) == given(*__self0.ptr, *old(turn)),
//@ endfn
//@ fn start_send -> ret
//@ params Ghost(turn): Ghost<Turn<S>>
    requires old(self.ptr).slot is None, // after poll_ready reported room
    ensures ret is Ok, final(self.ptr).lock == old(self.ptr).lock, given(*final(self.ptr), turn) == given(*old(self.ptr), turn).push(item), // the item is accepted, once, after all earlier ones
//@ endfn
//@ fn poll_flush -> ret
//@ tries result
//@ params Tracked(turn): Tracked<&mut Turn<S>>
    requires old(turn).s.kwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).lock == old(self.ptr).lock,
        !(ret matches Poll::Ready(Err(_))) ==> final(turn).s.kwf() && given(*final(self.ptr), *final(turn)) == given(*old(self.ptr), *old(turn)),
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).slot is None && final(turn).s.sflushed(), // completes only when everything given was delivered
        ret is Pending ==> old(self.ptr).lock.parked(old(cx).id()) || final(turn).s.sarmed(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_close -> ret
//@ tries result
//@ params Tracked(turn): Tracked<&mut Turn<S>>
    requires old(turn).s.kwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).lock == old(self.ptr).lock,
        !(ret matches Poll::Ready(Err(_))) ==> final(turn).s.kwf() && given(*final(self.ptr), *final(turn)) == given(*old(self.ptr), *old(turn)),
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).slot is None && final(turn).s.sflushed() && final(turn).s.sclosed(), // closes only after everything was delivered
        ret is Pending ==> old(self.ptr).lock.parked(old(cx).id()) || final(turn).s.sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ fn split -> r
    ensures r.0.lock.id() == r.1.0.id(), r.0.slot is None, // two halves of one lock
//@ endfn
}
