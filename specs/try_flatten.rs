//@ include into_stream
verus! {
//@ file futures-util/src/stream/try_stream/try_flatten.rs
//@ struct TryFlatten
pub open spec fn tflat_seq<E1, E2: VFrom<E1>, U: TryStream<Error = E2>>(s: Seq<Result<U, E1>>) -> Seq<Result<U::Ok, E2>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s[0] { Ok(u) => u.rest() + tflat_seq(s.skip(1)), Err(e) => seq![Err::<U::Ok, E2>(E2::conv(e))] + tflat_seq(s.skip(1)) } }
}
pub open spec fn tsubs_ok<E1, U: Stream>(s: Seq<Result<U, E1>>) -> bool
    decreases s.len()
{
    s.len() == 0 || ((s[0] is Ok ==> s[0]->Ok_0.wf() && !s[0]->Ok_0.ended()) && tsubs_ok(s.skip(1)))
}
//@ impl TryFlatten
//@ dropbound From< =>> VFrom<
//@ fn new -> r
    ensures r.stream == stream, r.next is None,
//@ endfn
//@ endimpl
//@ impl Stream for TryFlatten
//@ dropbound From< =>> VFrom<
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf() && tsubs_ok(self.stream.rest())
        &&& self.next is Some ==> self.next->0.wf() && !self.next->0.ended() && !self.stream.ended()
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<Result<<St::Ok as TryStream>::Ok, <St::Ok as TryStream>::Error>> {
        (if self.next is Some { self.next->0.rest() } else { Seq::empty() }) + tflat_seq::<St::Error, <St::Ok as TryStream>::Error, St::Ok>(self.stream.rest())
    }
    open spec fn armed(&self, w: int) -> bool { if self.next is Some { self.next->0.armed(w) } else { self.stream.armed(w) } }
    // provided method of the trait: (0, None)
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { (0, None) }
//@ fn poll_next
//@ tries pollopt, pollopt-from
//@ subst Self::Item =>> Result<<St::Ok as TryStream>::Ok, <St::Ok as TryStream>::Error>
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(), tsubs_ok(this.stream.ptr.rest()),
        (*this.next.ptr) is Some ==> (*this.next.ptr)->0.wf() && !(*this.next.ptr)->0.ended(),
        rest0 == (if (*this.next.ptr) is Some { (*this.next.ptr)->0.rest() } else { Seq::empty() }) + tflat_seq::<St::Error, <St::Ok as TryStream>::Error, St::Ok>(this.stream.ptr.rest()),
//@ endfn
//@ endimpl
//@ impl FusedStream for TryFlatten
//@ dropbound From< =>> VFrom<
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/try_stream/try_unfold.rs
//@ struct TryUnfold
pub open spec fn tuf_step<T, Item, E, Fut: Future<Output = Result<Option<(Item, T)>, E>>, F: FnMut1<T, Output = Fut>>(u: TryUnfold<T, F, Fut>) -> (F, Result<Option<(Item, T)>, E>) {
    if u.state is Some { (u.f.step(u.state->0).0, u.f.step(u.state->0).1.output()) }
    else if u.fut is Some { (u.f, u.fut->0.output()) }
    else { (u.f, Ok(None)) }
}
//@ impl Stream for TryUnfold
//@ header impl<T, F, E, Fut, Item> TryUnfold<T, F, Fut> where F: FnMut1<T, Output = Fut>, Fut: Future<Output = Result<Option<(Item, T)>, E>>,
//@ noassoc
    pub open spec fn wf(&self) -> bool {
        &&& self.state is Some ==> self.f.step(self.state->0).1.wf() && !self.f.step(self.state->0).1.done() && self.fut is None
        &&& self.fut is Some ==> self.fut->0.wf() && !self.fut->0.done()
    }
//@ fn poll_next -> r
//@ subst Self::Item =>> Result<Item, E>
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        r matches Poll::Ready(Some(Ok(x))) ==> final(self.ptr).state is Some && final(self.ptr).fut is None && tuf_step(*old(self.ptr)) == (final(self.ptr).f, Ok::<Option<(Item, T)>, E>(Some((x, final(self.ptr).state->0)))), // the closure's item is yielded and its state kept
        r matches Poll::Ready(Some(Err(e))) ==> tuf_step(*old(self.ptr)) == (final(self.ptr).f, Err::<Option<(Item, T)>, E>(e)) && final(self.ptr).state is None && final(self.ptr).fut is None, // an error ends it
        r matches Poll::Ready(None) ==> tuf_step(*old(self.ptr)) == (final(self.ptr).f, Ok::<Option<(Item, T)>, E>(None)) && final(self.ptr).state is None && final(self.ptr).fut is None,
        r is Pending ==> final(self.ptr).wf() && tuf_step(*final(self.ptr)) == tuf_step(*old(self.ptr)), // the step in flight is kept
        r is Pending ==> final(self.ptr).fut is Some && final(self.ptr).fut->0.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
