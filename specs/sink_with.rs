//@ include sink_base
verus! {
//@ file futures-util/src/sink/with.rs
//@ struct With
// the item in flight, once its future has produced it
pub open spec fn with_out<Item, E, Fut: Future<Output = Result<Item, E>>>(s: Option<Fut>) -> Seq<Item> {
    match s { Some(f) => match f.output() { Ok(x) => seq![x], Err(_) => Seq::empty() }, None => Seq::empty() }
}
pub broadcast proof fn lemma_push_seq<T>(a: Seq<T>, x: T)
    ensures #[trigger] a.push(x) == a + seq![x]
{ assert(a.push(x) =~= a + seq![x]); }
//@ impl With
//@ header impl<Si, Item, U, Fut, F, E> With<Si, Item, U, Fut, F> where Si: Sink<Item>, F: FnMut1<U, Output = Fut>, Fut: Future<Output = Result<Item, E>>, E: VFrom<Si::Error>
    pub open spec fn wwf(&self) -> bool { self.sink.kwf() && (self.state matches Some(f) ==> f.wf() && !f.done() && self.sink.ready()) }
    pub open spec fn total(&self) -> Seq<Item> { self.sink.sent() + with_out(self.state) }
//@ fn poll -> ret
//@ tries result,result-from
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).f == (*old(self.ptr)).f,
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).wwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(), // the item in flight reaches the sink once
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).state is None && ((*old(self.ptr)).state is None ==> *final(self.ptr) == *old(self.ptr)) && ((*old(self.ptr)).state matches Some(f) ==> f.output() is Ok),
        ret is Pending ==> (*final(self.ptr)).state is Some && (*final(self.ptr)).state->0.armed(old(cx).id()), // [wake]
//@ entry
    broadcast use lemma_push_seq;
//@ endfn
//@ endimpl
//@ impl Sink for With
//@ header impl<Si, Item, U, Fut, F, E> With<Si, Item, U, Fut, F> where Si: Sink<Item>, F: FnMut1<U, Output = Fut>, Fut: Future<Output = Result<Item, E>>, E: VFrom<Si::Error>
//@ noassoc
//@ fn poll_ready -> ret
//@ tries result,poll-from
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).f == (*old(self.ptr)).f,
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).wwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).state is None && (*final(self.ptr)).sink.ready(), // ready only when the previous item was handed over and the sink has room
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()) || ((*final(self.ptr)).state is Some && (*final(self.ptr)).state->0.armed(old(cx).id())), // [wake]
//@ endfn
//@ fn start_send -> ret
//@ subst assert!(this.state.is_none()) =>> vassert((*this.state.ptr).is_none())
    requires (*old(self.ptr)).wwf(), (*old(self.ptr)).state is None, (*old(self.ptr)).sink.ready(),
        (*old(self.ptr)).f.step(item).1.wf(), !(*old(self.ptr)).f.step(item).1.done(),
    ensures
        ret is Ok, (*final(self.ptr)).wwf(), (*final(self.ptr)).sink == (*old(self.ptr)).sink,
        (*final(self.ptr)).f == (*old(self.ptr)).f.step(item).0 && (*final(self.ptr)).state == Some((*old(self.ptr)).f.step(item).1), // the closure is called once, on this item
//@ endfn
//@ fn poll_flush -> ret
//@ tries result,poll-from
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).f == (*old(self.ptr)).f,
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).wwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).state is None && (*final(self.ptr)).sink.sflushed(), // completes only when the item in flight was handed over and flushed
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()) || ((*final(self.ptr)).state is Some && (*final(self.ptr)).state->0.armed(old(cx).id())), // [wake]
//@ endfn
//@ fn poll_close -> ret
//@ tries result,poll-from
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).f == (*old(self.ptr)).f,
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).wwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).state is None && (*final(self.ptr)).sink.sflushed() && (*final(self.ptr)).sink.sclosed(), // closes only after the item in flight was handed over
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()) || ((*final(self.ptr)).state is Some && (*final(self.ptr)).state->0.armed(old(cx).id())), // [wake]
//@ endfn
//@ endimpl
}
