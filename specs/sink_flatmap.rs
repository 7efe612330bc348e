//@ include sink_base
verus! {
//@ file futures-util/src/sink/with_flat_map.rs
//@ struct WithFlatMap
pub broadcast proof fn lemma_push_seq<T>(a: Seq<T>, x: T)
    ensures #[trigger] a.push(x) == a + seq![x]
{ assert(a.push(x) =~= a + seq![x]); }
// the Ok items before the first error
pub open spec fn oks<T, E>(s: Seq<Result<T, E>>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 || s[0] is Err { Seq::empty() } else { seq![s[0]->Ok_0] + oks(s.skip(1)) } }
pub open spec fn fm_rest<T, E, St: Stream<Item = Result<T, E>>>(s: Option<St>) -> Seq<T> { match s { Some(s) => oks(s.rest()), None => Seq::empty() } }
//@ impl WithFlatMap
    pub open spec fn wwf(&self) -> bool { self.sink.kwf() && (self.stream matches Some(s) ==> s.wf() && !s.ended()) && (self.stream is None ==> self.buffer is None) }
    pub open spec fn total(&self) -> Seq<Item> { self.sink.sent() + opt_seq(self.buffer) + fm_rest(self.stream) }
    pub open spec fn farmed(&self, w: int) -> bool { self.sink.sarmed(w) || (self.stream is Some && self.stream->0.armed(w)) }
//@ fn try_empty_stream -> ret
//@ noauto
//@ tries result,result,pollopt,poll,result
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).f == (*old(self.ptr)).f,
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).wwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(), // every item of the inner stream reaches the sink once, in order
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).stream is None && (*final(self.ptr)).buffer is None, // done only when the inner stream is exhausted
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).sink.sent() == (*old(self.ptr)).total(),
        ret is Pending ==> (*final(self.ptr)).farmed(old(cx).id()), // [wake]
//@ entry
    broadcast use lemma_push_seq;
    let ghost t0 = (*self.ptr).total();
//@ beforeloop 0
    let ghost st0 = some_stream;
//@ loop 0
    invariant
        *final(some_stream.ptr) == *final(st0.ptr), *final(this.sink.ptr) == *final(__this0.sink.ptr), *final(this.buffer) == *final(__this0.buffer), *cx == *old(cx),
        *this.buffer is None,
        (*this.sink.ptr).kwf(), (*some_stream.ptr).wf(), !(*some_stream.ptr).ended(),
        (*this.sink.ptr).sent() + oks((*some_stream.ptr).rest()) == t0,
//@ endfn
//@ endimpl
//@ impl Sink for WithFlatMap
//@ header impl<Si, Item, U, St, F> WithFlatMap<Si, Item, U, St, F> where Si: Sink<Item>, F: FnMut1<U, Output = St>, St: Stream<Item = Result<Item, Si::Error>>
//@ noassoc
//@ fn poll_ready -> ret
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).f == (*old(self.ptr)).f,
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).wwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).stream is None, // ready only when the previous inner stream was handed over
        ret is Pending ==> (*final(self.ptr)).farmed(old(cx).id()), // [wake]
//@ endfn
//@ fn start_send -> ret
//@ subst assert!(this.stream.is_none()) =>> vassert((*this.stream.ptr).is_none())
    requires (*old(self.ptr)).wwf(), (*old(self.ptr)).stream is None, (*old(self.ptr)).f.step(item).1.wf(), !(*old(self.ptr)).f.step(item).1.ended(),
    ensures
        ret is Ok, (*final(self.ptr)).wwf(), (*final(self.ptr)).sink == (*old(self.ptr)).sink, (*final(self.ptr)).buffer == (*old(self.ptr)).buffer,
        (*final(self.ptr)).f == (*old(self.ptr)).f.step(item).0 && (*final(self.ptr)).stream == Some((*old(self.ptr)).f.step(item).1), // the closure is called once, on this item
//@ endfn
//@ fn poll_flush -> ret
//@ tries poll
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).f == (*old(self.ptr)).f,
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).wwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).stream is None && (*final(self.ptr)).sink.sflushed(), // completes only when everything was handed over and flushed
        ret is Pending ==> (*final(self.ptr)).farmed(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_close -> ret
//@ tries poll
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).f == (*old(self.ptr)).f,
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).wwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).stream is None && (*final(self.ptr)).sink.sflushed() && (*final(self.ptr)).sink.sclosed(), // closes only after everything was handed over
        ret is Pending ==> (*final(self.ptr)).farmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
