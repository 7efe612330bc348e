//@ include unfold_state
verus! {
//@ file futures-util/src/stream/unfold.rs
//@ struct Unfold
// the future being driven by one step: either the one in flight, or the one the closure makes from the state
pub open spec fn uf_step<T, Item, Fut: Future<Output = Option<(Item, T)>>, F: FnMut1<T, Output = Fut>>(u: Unfold<T, F, Fut>) -> (F, Option<(Item, T)>) {
    match u.state {
        UnfoldState::Value { value } => (u.f.step(value).0, u.f.step(value).1.output()),
        UnfoldState::Future { future } => (u.f, future.output()),
        UnfoldState::Empty => (u.f, None),
    }
}
//@ impl Stream for Unfold
//@ header impl<T, F, Fut, Item> Unfold<T, F, Fut> where F: FnMut1<T, Output = Fut>, Fut: Future<Output = Option<(Item, T)>>,
//@ noassoc
    pub open spec fn wf(&self) -> bool {
        &&& self.state is Value ==> self.f.step(self.state->value).1.wf() && !self.f.step(self.state->value).1.done()
        &&& self.state is Future ==> self.state->future.wf() && !self.state->future.done()
    }
//@ fn poll_next -> r
//@ subst Self::Item =>> Item
    requires
        old(self.ptr).wf(),
        !(old(self.ptr).state is Empty), // polling after the end is documented to panic
    ensures
        *final(cx) == *old(cx),
        r is Ready && r->0 is Some ==> final(self.ptr).state is Value && uf_step(*old(self.ptr)) == (final(self.ptr).f, Some((r->0->0, final(self.ptr).state->value))), // the closure's item is yielded and its state kept
        r is Ready && r->0 is None ==> uf_step(*old(self.ptr)).1 is None && final(self.ptr).state is Empty, // ends exactly when the closure says so
        r is Pending ==> final(self.ptr).state is Future && final(self.ptr).wf() && uf_step(*final(self.ptr)) == uf_step(*old(self.ptr)), // the step in flight is kept
        r is Pending ==> final(self.ptr).state->future.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl FusedStream for Unfold
//@ header impl<T, F, Fut, Item> Unfold<T, F, Fut> where F: FnMut1<T, Output = Fut>, Fut: Future<Output = Option<(Item, T)>>,
//@ fn is_terminated -> r
    ensures r == (self.state is Empty), // [term]
//@ endfn
//@ endimpl
}
