//@ include sink_base
//@ include fuse
//@ include into_stream
verus! {
//@ file futures-util/src/stream/try_stream/try_forward.rs
//@ struct TryForward
// the Ok items before the first error
pub open spec fn oks<T, E>(s: Seq<Result<T, E>>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 || s[0] is Err { Seq::empty() } else { seq![s[0]->Ok_0] + oks(s.skip(1)) } }
pub broadcast proof fn lemma_push_seq<T>(a: Seq<T>, x: T)
    ensures #[trigger] a.push(x) == a + seq![x]
{ assert(a.push(x) =~= a + seq![x]); }
//@ impl TryForward
//@ header impl<St: TryStream, Si, Item> TryForward<St, Si, Item>
//@ fn new -> r
    ensures r.sink == Some(sink), r.stream.stream.stream == stream, !r.stream.done, r.buffered_item is None,
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryForward
//@ header impl<St: TryStream<Ok = Item, Error = E>, Si: Sink<Item, Error = E>, Item, E> TryForward<St, Si, Item>
//@ fn is_terminated -> r
    ensures r == (self.sink is None), // [term]
//@ endfn
//@ endimpl
//@ impl Future for TryForward
//@ header impl<St: TryStream<Ok = Item, Error = E>, Si: Sink<Item, Error = E>, Item, E> TryForward<St, Si, Item>
//@ noassoc
    pub open spec fn fwf(&self) -> bool { self.sink is Some ==> self.sink->0.kwf() && self.stream.wf() }
    pub open spec fn total(&self) -> Seq<Item> { self.sink->0.sent() + opt_seq(self.buffered_item) + oks(self.stream.rest()) }
//@ fn poll -> ret
//@ subst sink.set(None) =>> sink.vset(None)
//@ noauto
    requires (*old(self.ptr)).fwf(), (*old(self.ptr)).sink is Some,
    ensures
        *final(cx) == *old(cx),
        ret is Pending ==> (*final(self.ptr)).sink is Some && (*final(self.ptr)).fwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(), // every Ok item is forwarded once, in order
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).sink is None && (exists|s: Si| s.sent() == (*old(self.ptr)).total() && s.sflushed() && #[trigger] s.sclosed()), // completes only when all items were accepted, flushed and the sink closed
        ret is Pending ==> (*final(self.ptr)).sink->0.sarmed(old(cx).id()) || (*final(self.ptr)).sink->0.sflushed(), // it waits for the stream only once everything sent is flushed
        ret is Pending ==> (*final(self.ptr)).sink->0.sarmed(old(cx).id()) || (*final(self.ptr)).stream.armed(old(cx).id()), // [wake]
//@ entry
    broadcast use lemma_push_seq;
    let ghost t0 = (*self.ptr).total();
//@ beforeloop 0
    let ghost si0 = si; let ghost stream0 = stream; let ghost b0 = buffered_item;
//@ loop 0
    invariant
        *final(si.ptr) == *final(si0.ptr), *final(stream.ptr) == *final(stream0.ptr), *final(buffered_item) == *final(b0), *cx == *old(cx),
        (*si.ptr).kwf(), (*stream.ptr).wf(),
        (*si.ptr).sent() + opt_seq(*buffered_item) + oks((*stream.ptr).rest()) == t0,
//@ endfn
//@ endimpl
}
