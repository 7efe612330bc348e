//@ include fuse
verus! {
pub trait StreamFuse: Stream {
    fn fuse(self) -> (r: Fuse<Self>) ensures r.stream == self, !r.done { Fuse::new(self) }
}
impl<S: Stream> StreamFuse for S {}
//@ file futures-util/src/stream/stream/peek.rs
//@ struct Peekable
//@ impl Stream for Peekable
    open spec fn wf(&self) -> bool { self.stream.wf() }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<S::Item> { opt_seq(self.peeked) + self.stream.rest() }
    open spec fn armed(&self, w: int) -> bool { self.peeked is None && self.stream.armed(w) }
//@ fn poll_next -> r
    ensures r is Ready && r->0 is Some ==> final(self.ptr).peeked is None,
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Peekable
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ impl Peekable
//@ fn new -> r
    requires stream.wf(), !stream.ended(),
    ensures r.wf(), r.rest() == stream.rest(),
//@ endfn
//@ fn poll_peek -> r
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).wf(),
        old(self.ptr).peeked is Some || old(self.ptr).stream.done ==> r is Ready,
        r is Ready ==> final(self.ptr).peeked is Some || final(self.ptr).stream.done,
        final(self.ptr).rest() == old(self.ptr).rest(), // peeking consumes nothing
        r is Ready && r->0 is Some ==> old(self.ptr).rest().len() > 0 && *r->0->0 == old(self.ptr).rest()[0], // shows the next item
        r is Ready && r->0 is None ==> old(self.ptr).rest() == Seq::<St::Item>::empty(),
        r is Pending ==> final(self.ptr).armed(old(cx).id()), // [wake]
//@ entry
    let ghost rest0 = self.ptr.rest(); let ghost now0 = self.ptr.peeked is Some || self.ptr.stream.done;
//@ loop 0
    invariant
        now0 ==> *this.peeked is Some || this.stream.ptr.done,
        this.stream.ptr.wf(), opt_seq(*this.peeked) + this.stream.ptr.rest() == rest0,
//@ endfn
//@ endimpl
}
verus! {
//@ file futures-util/src/stream/stream/peek.rs
//@ impl Peekable
//@ fn poll_peek_mut -> r
//@ breakreturn
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).wf(),
        old(self.ptr).peeked is Some || old(self.ptr).stream.done ==> r is Ready,
        r is Ready ==> final(self.ptr).peeked is Some || final(self.ptr).stream.done,
        r is Ready && r->0 is Some ==> old(self.ptr).rest().len() > 0 && *(r->0->0) == old(self.ptr).rest()[0] // shows the next item
            && final(self.ptr).rest() == old(self.ptr).rest().update(0, *final(r->0->0)), // and what the caller makes of it is what comes next
        r is Ready && r->0 is None ==> old(self.ptr).rest() == Seq::<St::Item>::empty() && final(self.ptr).rest() == old(self.ptr).rest(),
        r is Pending ==> final(self.ptr).armed(old(cx).id()) && final(self.ptr).rest() == old(self.ptr).rest(), // [wake]
//@ entry
    let ghost rest0 = self.ptr.rest(); let ghost now0 = self.ptr.peeked is Some || self.ptr.stream.done;
//@ loop 0
    invariant
        now0 ==> *this.peeked is Some || this.stream.ptr.done,
        this.stream.ptr.wf(), opt_seq(*this.peeked) + this.stream.ptr.rest() == rest0,
//@ endfn
//@ endimpl
//@ struct Peek
//@ impl Future for Peek
//@ header impl<'a, St: Stream> Peek<'a, St>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Option<&'a St::Item>
    requires old(self.ptr).inner is Some, (*(old(self.ptr).inner->0).ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        r is Pending ==> final(self.ptr).inner is Some && (*(final(self.ptr).inner->0).ptr).wf() && (*(final(self.ptr).inner->0).ptr).rest() == (*(old(self.ptr).inner->0).ptr).rest()
            && *final((final(self.ptr).inner->0).ptr) == *final((old(self.ptr).inner->0).ptr),
        r is Pending ==> (*(final(self.ptr).inner->0).ptr).armed(old(cx).id()), // [wake]
        r is Ready ==> final(self.ptr).inner is None && (*final((old(self.ptr).inner->0).ptr)).wf(),
        r is Ready && r->0 is None ==> (*(old(self.ptr).inner->0).ptr).rest() == Seq::<St::Item>::empty() && (*final((old(self.ptr).inner->0).ptr)).rest() == (*(old(self.ptr).inner->0).ptr).rest(),
        r is Ready && r->0 is Some ==> (*(old(self.ptr).inner->0).ptr).rest().len() > 0 && *r->0->0 == (*(old(self.ptr).inner->0).ptr).rest()[0] // shows the next item
            && (*final((old(self.ptr).inner->0).ptr)).rest() == (*(old(self.ptr).inner->0).ptr).rest(), // which stays in place
//@ endfn
//@ endimpl
//@ impl FusedFuture for Peek
//@ header impl<'a, St: Stream> Peek<'a, St>
//@ fn is_terminated -> r
    ensures r == self.inner is None, // [term]
//@ endfn
//@ endimpl
//@ struct PeekMut
//@ impl Future for PeekMut
//@ header impl<'a, St: Stream> PeekMut<'a, St>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Option<&'a mut St::Item>
    requires old(self.ptr).inner is Some, (*(old(self.ptr).inner->0).ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        r is Pending ==> final(self.ptr).inner is Some && (*(final(self.ptr).inner->0).ptr).wf() && (*(final(self.ptr).inner->0).ptr).rest() == (*(old(self.ptr).inner->0).ptr).rest()
            && *final((final(self.ptr).inner->0).ptr) == *final((old(self.ptr).inner->0).ptr),
        r is Pending ==> (*(final(self.ptr).inner->0).ptr).armed(old(cx).id()), // [wake]
        r is Ready ==> final(self.ptr).inner is None && (*final((old(self.ptr).inner->0).ptr)).wf(),
        r is Ready && r->0 is None ==> (*(old(self.ptr).inner->0).ptr).rest() == Seq::<St::Item>::empty() && (*final((old(self.ptr).inner->0).ptr)).rest() == (*(old(self.ptr).inner->0).ptr).rest(),
        r is Ready && r->0 is Some ==> (*(old(self.ptr).inner->0).ptr).rest().len() > 0 && *(r->0->0) == (*(old(self.ptr).inner->0).ptr).rest()[0] // shows the next item
            && (*final((old(self.ptr).inner->0).ptr)).rest() == (*(old(self.ptr).inner->0).ptr).rest().update(0, *final(r->0->0)), // what the caller makes of it comes next
//@ endfn
//@ endimpl
//@ impl FusedFuture for PeekMut
//@ header impl<'a, St: Stream> PeekMut<'a, St>
//@ fn is_terminated -> r
    ensures r == self.inner is None, // [term]
//@ endfn
//@ endimpl
pub open spec fn taken_if<T, F: for<'b> FnOnce1<&'b T, Output = bool>>(f: F, x: T) -> bool { f.app(&x) }
//@ struct NextIf
//@ impl Future for NextIf
//@ header impl<'a, St: Stream, F> NextIf<'a, St, F> where F: for<'b> FnOnce1<&'b St::Item, Output = bool>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Option<St::Item>
    requires old(self.ptr).inner is Some, (*(old(self.ptr).inner->0).0.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        r is Pending ==> final(self.ptr).inner is Some && (*(final(self.ptr).inner->0).0.ptr).wf() && (*(final(self.ptr).inner->0).0.ptr).rest() == (*(old(self.ptr).inner->0).0.ptr).rest()
            && *final((final(self.ptr).inner->0).0.ptr) == *final((old(self.ptr).inner->0).0.ptr) && (final(self.ptr).inner->0).1 == (old(self.ptr).inner->0).1,
        r is Pending ==> (*(final(self.ptr).inner->0).0.ptr).armed(old(cx).id()), // [wake]
        r is Ready ==> final(self.ptr).inner is None && (*final((old(self.ptr).inner->0).0.ptr)).wf(),
        r is Ready && r->0 is Some ==> (*(old(self.ptr).inner->0).0.ptr).rest() == seq![r->0->0] + (*final((old(self.ptr).inner->0).0.ptr)).rest() && taken_if((old(self.ptr).inner->0).1, r->0->0), // takes the next item if it matches
        r is Ready && r->0 is None ==> (*final((old(self.ptr).inner->0).0.ptr)).rest() == (*(old(self.ptr).inner->0).0.ptr).rest(), // otherwise leaves it in place
        r is Ready && r->0 is None && (*(old(self.ptr).inner->0).0.ptr).rest().len() > 0 ==> !taken_if((old(self.ptr).inner->0).1, (*(old(self.ptr).inner->0).0.ptr).rest()[0]),
//@ endfn
//@ endimpl
//@ impl FusedFuture for NextIf
//@ header impl<'a, St: Stream, F> NextIf<'a, St, F>
//@ fn is_terminated -> r
    ensures r == self.inner is None, // [term]
//@ endfn
//@ endimpl
// comparison of the two types, as the user defined it
pub trait VEq<T: ?Sized> {
    spec fn same(&self, o: &T) -> bool;
    fn veq(&self, o: &T) -> (r: bool) ensures r == self.same(o);
}
//@ struct NextIfEqFn
//@ impl FnOnce1 for NextIfEqFn
//@ header impl<'b, 'a, T: ?Sized, Item: VEq<T>> FnOnce1<&'b Item> for NextIfEqFn<'a, T, Item>
    open spec fn app(&self, a: &'b Item) -> bool { a.same(self.expected) }
//@ fn call_once
//@ subst next == self.expected =>> next.veq(self.expected)
//@ subst next: &Item =>> next: &'b Item
//@ endfn
//@ endimpl
//@ struct NextIfEq
//@ impl Future for NextIfEq
//@ header impl<'a, St: Stream, T: ?Sized> NextIfEq<'a, St, T> where St::Item: VEq<T>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Option<St::Item>
    requires old(self.ptr).inner.inner is Some, (*(old(self.ptr).inner.inner->0).0.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        r is Pending ==> final(self.ptr).inner.inner is Some && (*(final(self.ptr).inner.inner->0).0.ptr).wf() && (*(final(self.ptr).inner.inner->0).0.ptr).rest() == (*(old(self.ptr).inner.inner->0).0.ptr).rest()
            && *final((final(self.ptr).inner.inner->0).0.ptr) == *final((old(self.ptr).inner.inner->0).0.ptr) && (final(self.ptr).inner.inner->0).1 == (old(self.ptr).inner.inner->0).1,
        r is Pending ==> (*(final(self.ptr).inner.inner->0).0.ptr).armed(old(cx).id()), // [wake]
        r is Ready ==> final(self.ptr).inner.inner is None && (*final((old(self.ptr).inner.inner->0).0.ptr)).wf(),
        r is Ready && r->0 is Some ==> (*(old(self.ptr).inner.inner->0).0.ptr).rest() == seq![r->0->0] + (*final((old(self.ptr).inner.inner->0).0.ptr)).rest() && (r->0->0).same((old(self.ptr).inner.inner->0).1.expected), // takes the next item if it matches
        r is Ready && r->0 is None ==> (*final((old(self.ptr).inner.inner->0).0.ptr)).rest() == (*(old(self.ptr).inner.inner->0).0.ptr).rest(), // otherwise leaves it in place
        r is Ready && r->0 is None && (*(old(self.ptr).inner.inner->0).0.ptr).rest().len() > 0 ==> !(*(old(self.ptr).inner.inner->0).0.ptr).rest()[0].same((old(self.ptr).inner.inner->0).1.expected),
//@ endfn
//@ endimpl
//@ impl FusedFuture for NextIfEq
//@ header impl<'a, St: Stream, T: ?Sized> NextIfEq<'a, St, T>
//@ fn is_terminated -> r
    ensures r == self.inner.inner is None, // [term]
//@ endfn
//@ endimpl
//@ impl Peekable
//@ fn peek -> r
    ensures r.inner == Some(self),
//@ endfn
//@ fn peek_mut -> r
    ensures r.inner == Some(self),
//@ endfn
//@ fn next_if -> r
//@ subst F: FnOnce(&St::Item) -> bool, =>> F: for<'b> FnOnce1<&'b St::Item, Output = bool>,
    ensures r.inner == Some((self, func)),
//@ endfn
//@ fn next_if_eq -> r
//@ subst St::Item: PartialEq<T>, =>> St::Item: VEq<T>,
    ensures r.inner.inner is Some, (r.inner.inner->0).0 == self, (r.inner.inner->0).1.expected == expected,
//@ endfn
//@ endimpl
}
