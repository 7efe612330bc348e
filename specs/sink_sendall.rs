//@ include sink_base
//@ include fuse
verus! {
//@ file futures-util/src/sink/send_all.rs
//@ struct SendAll
// the Ok items before the first error
pub open spec fn oks<T, E>(s: Seq<Result<T, E>>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 || s[0] is Err { Seq::empty() } else { seq![s[0]->Ok_0] + oks(s.skip(1)) } }
pub broadcast proof fn lemma_push_seq<T>(a: Seq<T>, x: T)
    ensures #[trigger] a.push(x) == a + seq![x]
{ assert(a.push(x) =~= a + seq![x]); }
//@ impl SendAll
//@ header impl<'a, Si: Sink<Ok, Error = Error>, St: TryStream<Ok = Ok, Error = Error>, Ok, Error> SendAll<'a, Si, St>
    pub open spec fn awf(&self) -> bool { self.sink.kwf() && self.stream.wf() }
    pub open spec fn total(&self) -> Seq<Ok> { self.sink.sent() + opt_seq(self.buffered) + oks(self.stream.rest()) }
//@ fn new -> r
//@ subst stream.fuse() =>> Fuse::new(stream)
    ensures *r.sink == *old(sink), *final(r.sink) == *final(sink), r.stream.stream == stream, !r.stream.done, r.buffered is None,
//@ endfn
//@ fn try_start_send -> ret
    requires (*old(self.ptr)).awf(), (*old(self.ptr)).buffered is None,
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).stream == (*old(self.ptr)).stream,
        *final((*final(self.ptr)).sink) == *final((*old(self.ptr)).sink),
        ret matches Poll::Ready(Result::Ok(_)) ==> (*final(self.ptr)).awf() && (*final(self.ptr)).buffered is None && (*final(self.ptr)).sink.sent() == (*old(self.ptr)).sink.sent().push(item),
        ret is Pending ==> (*final(self.ptr)).awf() && (*final(self.ptr)).buffered == Some(item) && (*final(self.ptr)).sink.sent() == (*old(self.ptr)).sink.sent(), // a refused item is kept
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl Future for SendAll
//@ header impl<Si: Sink<Ok, Error = Error>, St: TryStream<Ok = Ok, Error = Error>, Ok, Error> SendAll<'_, Si, St>
//@ noassoc
//@ fn poll -> ret
    requires (*old(self.ptr)).awf(),
    ensures
        *final(cx) == *old(cx),
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).awf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(), // every item is sent once, in order
        ret matches Poll::Ready(Result::Ok(_)) ==> (*final(self.ptr)).sink.sent() == (*old(self.ptr)).total() && (*final(self.ptr)).sink.sflushed(), // completes only when all items were accepted and flushed
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()) || (*final(self.ptr)).sink.sflushed(), // it waits for the stream only once everything sent is flushed
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()) || (*final(self.ptr)).stream.armed(old(cx).id()), // [wake]
//@ entry
    broadcast use lemma_push_seq;
    let ghost t0 = (*self.ptr).total();
//@ loop 0
    invariant
        (*self.ptr).awf(), (*self.ptr).buffered is None, (*self.ptr).total() == t0,
//@ endfn
//@ endimpl
}
