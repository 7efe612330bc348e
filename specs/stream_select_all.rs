//@ include next
verus! {
pub use vstd::multiset::Multiset;
// Assumed contract of FuturesUnordered holding StreamFutures (each completes as unit `next` proves of StreamFuture::poll):
// rests() is the multiset of what the held streams still yield.
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct FuturesUnordered<Fut> { x: Vec<Fut> }
impl<St: Stream> FuturesUnordered<StreamFuture<St>> {
    pub uninterp spec fn rests(&self) -> Multiset<Seq<St::Item>>;
    pub uninterp spec fn uarmed(&self, w: int) -> bool;
    pub uninterp spec fn term(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.rests() == Multiset::<Seq<St::Item>>::empty(), !r.term() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rests().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.rests().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, f: StreamFuture<St>)
        requires f.stream is Some && f.stream->0.wf() && !f.stream->0.ended(), // [term] only streams that have not ended
        ensures final(self).rests() == old(self).rests().insert(f.stream->0.rest()), !final(self).term()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).rests() == Multiset::<Seq<St::Item>>::empty(), !final(self).term() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_terminated(&self) -> (r: bool) ensures r == self.term(), r ==> self.rests().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_next_unpin(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<(Option<St::Item>, St)>>)
        ensures
            *final(cx) == *old(cx),
            r matches Poll::Ready(Some((Some(x), st))) ==> st.wf() && !st.ended() && old(self).rests().count(seq![x] + st.rest()) > 0 && final(self).rests() == old(self).rests().remove(seq![x] + st.rest()),
            r matches Poll::Ready(Some((None, st))) ==> old(self).rests().count(Seq::<St::Item>::empty()) > 0 && final(self).rests() == old(self).rests().remove(Seq::<St::Item>::empty()),
            r matches Poll::Ready(None) ==> old(self).rests().len() == 0 && final(self).rests() == old(self).rests() && final(self).term(),
            r is Pending ==> final(self).rests() == old(self).rests() && old(self).rests().len() > 0,
            r is Pending ==> final(self).uarmed(old(cx).id()), // [wake]
    { unimplemented!() }
}
pub trait StreamIntoFuture: Stream { fn into_future(self) -> (r: StreamFuture<Self>) ensures r.stream == Some(self); }
impl<S: Stream> StreamIntoFuture for S { fn into_future(self) -> (r: StreamFuture<Self>) { StreamFuture { stream: Some(self) } } }
// same streams, up to streams that yield nothing any more
pub open spec fn eqv<T>(a: Multiset<Seq<T>>, b: Multiset<Seq<T>>) -> bool { forall|s: Seq<T>| #![trigger a.count(s)] #![trigger b.count(s)] s.len() > 0 ==> a.count(s) == b.count(s) }
// x is the next item of one of the streams in a; b is what is left
pub open spec fn took<T>(a: Multiset<Seq<T>>, x: T, b: Multiset<Seq<T>>) -> bool { exists|t: Seq<T>| #[trigger] a.count(seq![x] + t) > 0 && eqv(b, a.remove(seq![x] + t).insert(t)) }
pub broadcast proof fn lemma_took<T>(a0: Multiset<Seq<T>>, a: Multiset<Seq<T>>, x: T, t: Seq<T>)
    requires #[trigger] eqv(a, a0), a.count(seq![x] + t) > 0
    ensures took(a0, x, (#[trigger] a.remove(seq![x] + t).insert(t)))
{
    assert((seq![x] + t).len() > 0);
    let b = a.remove(seq![x] + t).insert(t);
    assert(a0.count(seq![x] + t) > 0);
    assert(eqv(b, a0.remove(seq![x] + t).insert(t)));
}
//@ file futures-util/src/stream/select_all.rs
//@ struct SelectAll
//@ impl SelectAll
//@ dropbound + Unpin =>>
//@ fn new -> r
    ensures r.inner.rests() == Multiset::<Seq<St::Item>>::empty(),
//@ endfn
//@ fn len -> r
    ensures r == self.inner.rests().len(),
//@ endfn
//@ fn is_empty -> r
    ensures r == (self.inner.rests().len() == 0),
//@ endfn
//@ fn push
//@ subst &self =>> &mut self
    requires stream.wf(), !stream.ended(),
    ensures final(self).inner.rests() == old(self).inner.rests().insert(stream.rest()), !final(self).inner.term(), // the stream takes part
//@ endfn
//@ fn clear
    ensures final(self).inner.rests() == Multiset::<Seq<St::Item>>::empty(),
//@ endfn
//@ endimpl
//@ impl Stream for SelectAll
//@ header impl<St: Stream> SelectAll<St>
//@ noassoc
//@ fn poll_next -> r
//@ subst Self::Item =>> St::Item
    ensures
        *final(cx) == *old(cx),
        r matches Poll::Ready(Some(x)) ==> took(old(self.ptr).inner.rests(), x, final(self.ptr).inner.rests()), // the next item of one stream, nothing lost
        r matches Poll::Ready(None) ==> (forall|s: Seq<St::Item>| #[trigger] old(self.ptr).inner.rests().count(s) > 0 ==> s.len() == 0) && final(self.ptr).inner.term(), // ends only when all streams ended
        r is Pending ==> eqv(final(self.ptr).inner.rests(), old(self.ptr).inner.rests()),
        r is Pending ==> final(self.ptr).inner.uarmed(old(cx).id()), // [wake]
//@ entry
    broadcast use lemma_took;
    let ghost r0 = self.ptr.inner.rests();
//@ loop 0
    invariant eqv(self.ptr.inner.rests(), r0),
//@ endfn
//@ endimpl
//@ impl FusedStream for SelectAll
//@ header impl<St: Stream> SelectAll<St>
//@ fn is_terminated -> r
    ensures r ==> self.inner.rests().len() == 0, // [term]
//@ endfn
//@ endimpl
}
