//@ include seqs
verus! {
//@ file futures-util/src/stream/select_with_strategy.rs
//@ struct PollNext
impl Clone for PollNext { fn clone(&self) -> Self { *self } }
impl Copy for PollNext {}
//@ impl PollNext
//@ fn toggle -> r
    ensures r == *old(self), *final(self) == other_of(*old(self)), // alternates
//@ endfn
//@ fn other -> r
    ensures r == other_of(*self),
//@ endfn
//@ endimpl
pub open spec fn other_of(p: PollNext) -> PollNext { match p { PollNext::Left => PollNext::Right, PollNext::Right => PollNext::Left } }
//@ struct InternalState
pub open spec fn finish_of(s: InternalState, p: PollNext) -> InternalState {
    match (s, p) {
        (InternalState::Start, PollNext::Left) => InternalState::LeftFinished,
        (InternalState::Start, PollNext::Right) => InternalState::RightFinished,
        (InternalState::LeftFinished, PollNext::Right) => InternalState::BothFinished,
        (InternalState::RightFinished, PollNext::Left) => InternalState::BothFinished,
        _ => s,
    }
}
//@ impl InternalState
//@ fn finish
    ensures *final(self) == finish_of(*old(self), ps),
//@ endfn
//@ endimpl
// the user's strategy: any function of its state
pub trait Pick<State> { fn pick(&mut self, s: &mut State) -> PollNext; }
//@ struct SelectWithStrategy
pub open spec fn sel_wf<A: Stream, B: Stream>(s1: A, s2: B, st: InternalState) -> bool {
    s1.wf() && s2.wf() && match st {
        InternalState::Start => !s1.ended() && !s2.ended(),
        InternalState::LeftFinished => s1.rest() == Seq::<A::Item>::empty() && !s2.ended(),
        InternalState::RightFinished => s2.rest() == Seq::<B::Item>::empty() && !s1.ended(),
        InternalState::BothFinished => s1.rest() == Seq::<A::Item>::empty() && s2.rest() == Seq::<B::Item>::empty(),
    }
}
// one step of the merge: r is what is returned, the streams go from (a0, b0) to (a1, b1)
pub open spec fn sel_step<A: Stream, B: Stream<Item = A::Item>>(a0: A, b0: B, a1: A, b1: B, st: InternalState, w: int, r: Poll<Option<A::Item>>) -> bool {
    match r {
        Poll::Ready(Some(x)) => (a0.rest() == seq![x] + a1.rest() && b1.rest() == b0.rest()) || (b0.rest() == seq![x] + b1.rest() && a1.rest() == a0.rest()),
        Poll::Ready(None) => st is BothFinished && a0.rest() == Seq::<A::Item>::empty() && b0.rest() == Seq::<A::Item>::empty(),
        Poll::Pending => a1.rest() == a0.rest() && b1.rest() == b0.rest() && !(st is BothFinished),
    }
}
pub open spec fn sel_armed<A: Stream, B: Stream>(a: A, b: B, st: InternalState, w: int) -> bool {
    (st is LeftFinished || st is BothFinished || a.armed(w)) && (st is RightFinished || st is BothFinished || b.armed(w))
}
//@ fn poll_side -> ret
    requires
        side is Left ==> (*old(select).stream1.ptr).wf() && !(*old(select).stream1.ptr).ended(),
        side is Right ==> (*old(select).stream2.ptr).wf() && !(*old(select).stream2.ptr).ended(),
    ensures
        *final(cx) == *old(cx),
        *final(select).internal_state == *old(select).internal_state, *final(final(select).internal_state) == *final(old(select).internal_state),
        *final(final(select).stream1.ptr) == *final(old(select).stream1.ptr), *final(final(select).stream2.ptr) == *final(old(select).stream2.ptr),
        *final(final(select).state) == *final(old(select).state), *final(final(select).clos) == *final(old(select).clos),
        side is Left ==> *final(select).stream2.ptr == *old(select).stream2.ptr && (*final(select).stream1.ptr).wf() && ((ret is Ready && ret->0 is None) || !(*final(select).stream1.ptr).ended()) && (match ret { // asks exactly the given side
            Poll::Ready(Some(x)) => (*old(select).stream1.ptr).rest() == seq![x] + (*final(select).stream1.ptr).rest(),
            Poll::Ready(None) => (*old(select).stream1.ptr).rest() == Seq::<St1::Item>::empty() && (*final(select).stream1.ptr).rest() == Seq::<St1::Item>::empty(),
            Poll::Pending => (*old(select).stream1.ptr).rest() == (*final(select).stream1.ptr).rest() }),
        side is Left && ret is Pending ==> (*final(select).stream1.ptr).armed(old(cx).id()), // [wake]
        side is Right ==> *final(select).stream1.ptr == *old(select).stream1.ptr && (*final(select).stream2.ptr).wf() && ((ret is Ready && ret->0 is None) || !(*final(select).stream2.ptr).ended()) && (match ret { // asks exactly the given side
            Poll::Ready(Some(x)) => (*old(select).stream2.ptr).rest() == seq![x] + (*final(select).stream2.ptr).rest(),
            Poll::Ready(None) => (*old(select).stream2.ptr).rest() == Seq::<St1::Item>::empty() && (*final(select).stream2.ptr).rest() == Seq::<St1::Item>::empty(),
            Poll::Pending => (*old(select).stream2.ptr).rest() == (*final(select).stream2.ptr).rest() }),
        side is Right && ret is Pending ==> (*final(select).stream2.ptr).armed(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_inner -> ret
    requires
        sel_wf(*old(select).stream1.ptr, *old(select).stream2.ptr, *old(select).internal_state), *old(select).internal_state is Start,
    ensures
        *final(cx) == *old(cx),
        *final(final(select).internal_state) == *final(old(select).internal_state),
        *final(final(select).stream1.ptr) == *final(old(select).stream1.ptr), *final(final(select).stream2.ptr) == *final(old(select).stream2.ptr),
        *final(final(select).state) == *final(old(select).state), *final(final(select).clos) == *final(old(select).clos),
        sel_wf(*final(select).stream1.ptr, *final(select).stream2.ptr, *final(select).internal_state), // each side's end is remembered
        sel_step(*old(select).stream1.ptr, *old(select).stream2.ptr, *final(select).stream1.ptr, *final(select).stream2.ptr, *final(select).internal_state, old(cx).id(), ret), // an item of one side, or pending, or both at their end
        ret is Pending ==> sel_armed(*final(select).stream1.ptr, *final(select).stream2.ptr, *final(select).internal_state, old(cx).id()), // [wake] every live side wakes the task
//@ endfn
//@ impl Stream for SelectWithStrategy
//@ header impl<St1, St2, Clos, State> SelectWithStrategy<St1, St2, Clos, State> where St1: Stream, St2: Stream<Item = St1::Item>, Clos: Pick<State>
//@ noassoc
    pub open spec fn swf(&self) -> bool { sel_wf(self.stream1, self.stream2, self.internal_state) }
//@ fn poll_next -> ret
//@ subst (this.clos)(this.state) =>> this.clos.pick(this.state)
    requires (*old(self.ptr)).swf(), // [term] neither side was polled after its end
    ensures
        *final(cx) == *old(cx),
        (*final(self.ptr)).swf(),
        sel_step((*old(self.ptr)).stream1, (*old(self.ptr)).stream2, (*final(self.ptr)).stream1, (*final(self.ptr)).stream2, (*final(self.ptr)).internal_state, old(cx).id(), ret), // the next item of one side, nothing lost; ends when both ended
        ret is Pending ==> sel_armed((*final(self.ptr)).stream1, (*final(self.ptr)).stream2, (*final(self.ptr)).internal_state, old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl FusedStream for SelectWithStrategy
//@ header impl<St1, St2, Clos, State> SelectWithStrategy<St1, St2, Clos, State> where St1: Stream, St2: Stream<Item = St1::Item>, Clos: Pick<State>
//@ noassoc
//@ fn is_terminated -> r
    requires self.swf(),
    ensures r ==> self.stream1.rest() == Seq::<St1::Item>::empty() && self.stream2.rest() == Seq::<St1::Item>::empty(), // [term]
        r == (self.internal_state is BothFinished), // [term]
//@ endfn
//@ endimpl
}
