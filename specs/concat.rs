//@ include trys
verus! {
// Extend<Item> + IntoIterator + Default: `a.extend(b)` appends b to a
pub trait VConcat: Sized {
    spec fn cat(&self, o: Self) -> Self;
    fn extend(&mut self, o: Self) ensures *final(self) == old(self).cat(o);
}
pub open spec fn cat_all<A: VConcat>(a: A, s: Seq<A>) -> A
    decreases s.len()
{ if s.len() == 0 { a } else { cat_all(a.cat(s[0]), s.skip(1)) } }
pub open spec fn acc_front<A>(a: Option<A>, s: Seq<A>) -> Seq<A> { match a { Some(x) => seq![x] + s, None => s } }
pub open spec fn concat_ok<A: VConcat + VDefault>(s: Seq<A>, r: A) -> bool {
    if s.len() == 0 { r.is_default() } else { r == cat_all(s[0], s.skip(1)) }
}
pub proof fn lemma_cat_step<A: VConcat + VDefault>(a: A, x: A, s: Seq<A>, r: A)
    ensures concat_ok(seq![a] + (seq![x] + s), r) == concat_ok(seq![a.cat(x)] + s, r)
{
    assert((seq![a] + (seq![x] + s)).skip(1) =~= seq![x] + s);
    assert((seq![a.cat(x)] + s).skip(1) =~= s);
    assert((seq![x] + s).skip(1) =~= s);
}
//@ file futures-util/src/stream/stream/concat.rs
//@ struct Concat
//@ impl Concat
//@ header impl<St> Concat<St> where St: Stream, St::Item: VConcat + VDefault
//@ fn new -> r
    ensures r.stream == stream, r.accum is None,
//@ endfn
//@ endimpl
//@ impl Future for Concat
//@ header impl<St> Concat<St> where St: Stream, St::Item: VConcat + VDefault
//@ noassoc
    pub open spec fn all(&self) -> Seq<St::Item> { acc_front(self.accum, self.stream.rest()) }
//@ fn poll -> r
//@ subst Self::Output =>> St::Item
    requires old(self.ptr).stream.wf(), !old(self.ptr).stream.ended(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).stream.wf(),
        r is Ready ==> concat_ok(old(self.ptr).all(), r->0), // the items appended in order, or the default
        r is Pending ==> !final(self.ptr).stream.ended(),
        r is Pending ==> (forall|z: St::Item| concat_ok(old(self.ptr).all(), z) == concat_ok(final(self.ptr).all(), z)),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ entry
    let ghost all0 = self.ptr.all();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        forall|z: St::Item| concat_ok(all0, z) == concat_ok(acc_front(*this.accum, this.stream.ptr.rest()), z),
//@ loopentry 0
    let ghost acc1 = *this.accum;
    let ghost rest1 = this.stream.ptr.rest();
//@ loopend 0
    proof {
        let rest2 = this.stream.ptr.rest();
        assert forall|z: St::Item| concat_ok(all0, z) == concat_ok(acc_front(*this.accum, rest2), z) by {
            if acc1 is Some {
                lemma_cat_step(acc1->0, rest1[0], rest2, z);
            }
        }
    }
//@ endfn
//@ endimpl
//@ impl FusedFuture for Concat
//@ header impl<St> Concat<St> where St: FusedStream, St::Item: VConcat + VDefault
//@ fn is_terminated -> r
    requires self.stream.wf(),
    ensures !r && self.accum is None ==> !self.stream.ended(), // [term]
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/try_stream/try_concat.rs
//@ struct TryConcat
pub open spec fn try_all<A, E>(s: Seq<Result<A, E>>) -> (Seq<A>, Option<E>)
    decreases s.len()
{ if s.len() == 0 { (Seq::empty(), None) } else { match s[0] { Err(e) => (Seq::empty(), Some(e)), Ok(a) => (seq![a] + try_all(s.skip(1)).0, try_all(s.skip(1)).1) } } }
pub open spec fn after_err<A, E>(s: Seq<Result<A, E>>) -> Seq<Result<A, E>>
    decreases s.len()
{ if s.len() == 0 { s } else { match s[0] { Ok(a) => after_err(s.skip(1)), Err(e) => s.skip(1) } } }
//@ impl TryConcat
//@ header impl<St> TryConcat<St> where St: TryStream, St::Ok: VConcat + VDefault
//@ fn new -> r
    ensures r.stream == stream, r.accum is None,
//@ endfn
//@ endimpl
//@ impl Future for TryConcat
//@ header impl<St> TryConcat<St> where St: TryStream, St::Ok: VConcat + VDefault
//@ noassoc
    pub open spec fn all(&self) -> Seq<St::Ok> { acc_front(self.accum, try_all(self.stream.rest()).0) }
    pub open spec fn err(&self) -> Option<St::Error> { try_all(self.stream.rest()).1 }
//@ fn poll -> r
//@ subst Self::Output =>> Result<St::Ok, St::Error>
    requires old(self.ptr).stream.wf(), !old(self.ptr).stream.ended(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).stream.wf(),
        r matches Poll::Ready(Ok(x)) ==> old(self.ptr).err() is None && concat_ok(old(self.ptr).all(), x), // the items appended in order, or the default
        r matches Poll::Ready(Err(e)) ==> old(self.ptr).err() == Some(e), // the first error
        r is Ready ==> final(self.ptr).stream.rest() == after_err(old(self.ptr).stream.rest()), // nothing beyond the first error is consumed
        r is Pending ==> !final(self.ptr).stream.ended() && final(self.ptr).err() == old(self.ptr).err(),
        r is Pending ==> (forall|z: St::Ok| concat_ok(old(self.ptr).all(), z) == concat_ok(final(self.ptr).all(), z)),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ entry
    let ghost all0 = self.ptr.all();
    let ghost err0 = self.ptr.err();
    let ghost ae0 = after_err(self.ptr.stream.rest());
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(), try_all(this.stream.ptr.rest()).1 == err0, after_err(this.stream.ptr.rest()) == ae0,
        forall|z: St::Ok| concat_ok(all0, z) == concat_ok(acc_front(*this.accum, try_all(this.stream.ptr.rest()).0), z),
//@ loopentry 0
    let ghost acc1 = *this.accum;
    let ghost rest1 = this.stream.ptr.rest();
//@ loopend 0
    proof {
        let rest2 = this.stream.ptr.rest();
        assert forall|z: St::Ok| concat_ok(all0, z) == concat_ok(acc_front(*this.accum, try_all(rest2).0), z) by {
            if acc1 is Some {
                lemma_cat_step(acc1->0, rest1[0]->Ok_0, try_all(rest2).0, z);
            }
        }
    }
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/stream/select_next_some.rs
//@ struct SelectNextSome
//@ impl Future for SelectNextSome
//@ header impl<St: FusedStream> SelectNextSome<'_, St>
//@ noassoc
//@ fn poll -> r
//@ panics
//@ subst Self::Output =>> St::Item
    requires old(self.ptr).stream.wf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).stream.wf(),
        r is Ready ==> old(self.ptr).stream.rest() == seq![r->0] + final(self.ptr).stream.rest() && !final(self.ptr).stream.ended(), // the next item
        r is Pending ==> final(self.ptr).stream.rest() == old(self.ptr).stream.rest(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()) || (wake_requested(old(cx).id()) && old(self.ptr).stream.rest() == Seq::<St::Item>::empty()), // [wake] registered, or woken because the stream just ended
//@ endfn
//@ endimpl
//@ impl FusedFuture for SelectNextSome
//@ header impl<St: FusedStream> SelectNextSome<'_, St>
//@ fn is_terminated -> r
    requires self.stream.wf(),
    ensures r ==> old(self.stream).rest() == Seq::<St::Item>::empty(), !r ==> !old(self.stream).ended(), // [term]
//@ endfn
//@ endimpl
}
