//@ include prelude
verus! {
// Streams and futures behind a pointer: the same stream, the same future.  `Pin<P>` is taken at P = &mut S.
pub struct AssertUnwindSafe<T>(pub T);
impl<T> Deref for AssertUnwindSafe<T> { type Target = T; fn deref(&self) -> (r: &T) ensures *r == self.0 { &self.0 } }
//@ substall P::Target =>> S
//@ file futures-core/src/stream.rs
//@ impl Stream for &mut S
//@ header impl<S: Stream> Stream for &mut S
//@ noassoc
    type Item = S::Item;
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn ended(&self) -> bool { (**self).ended() }
    open spec fn rest(&self) -> Seq<S::Item> { (**self).rest() }
    open spec fn armed(&self, w: int) -> bool { (**self).armed(w) }
//@ fn poll_next -> r
//@ endfn
//@ fn size_hint -> r
//@ endfn
//@ endimpl
//@ impl Stream for Pin<P>
//@ header impl<S: Stream> Stream for Pin<&mut S>
//@ noassoc
    type Item = S::Item;
    open spec fn wf(&self) -> bool { (*self.ptr).wf() }
    open spec fn ended(&self) -> bool { (*self.ptr).ended() }
    open spec fn rest(&self) -> Seq<S::Item> { (*self.ptr).rest() }
    open spec fn armed(&self, w: int) -> bool { (*self.ptr).armed(w) }
//@ fn poll_next -> r
//@ endfn
//@ fn size_hint -> r
//@ endfn
//@ endimpl
//@ impl Stream for Box<S>
//@ header impl<S: Stream> Stream for Box<S>
//@ noassoc
    type Item = S::Item;
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn ended(&self) -> bool { (**self).ended() }
    open spec fn rest(&self) -> Seq<S::Item> { (**self).rest() }
    open spec fn armed(&self, w: int) -> bool { (**self).armed(w) }
//@ fn poll_next -> r
//@ endfn
//@ fn size_hint -> r
//@ endfn
//@ endimpl
//@ impl Stream for std::panic::AssertUnwindSafe<S>
//@ header impl<S: Stream> Stream for AssertUnwindSafe<S>
//@ noassoc
    type Item = S::Item;
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn ended(&self) -> bool { self.0.ended() }
    open spec fn rest(&self) -> Seq<S::Item> { self.0.rest() }
    open spec fn armed(&self, w: int) -> bool { self.0.armed(w) }
//@ fn poll_next -> r
//@ endfn
//@ fn size_hint -> r
//@ endfn
//@ endimpl
//@ impl FusedStream for &mut F
//@ header impl<F: FusedStream> FusedStream for &mut F
//@ fn is_terminated -> r
//@ endfn
//@ endimpl
//@ impl FusedStream for Pin<P>
//@ header impl<S: FusedStream> FusedStream for Pin<&mut S>
//@ fn is_terminated -> r
//@ endfn
//@ endimpl
//@ impl FusedStream for Box<S>
//@ header impl<S: FusedStream> FusedStream for Box<S>
//@ fn is_terminated -> r
//@ endfn
//@ endimpl
//@ file futures-core/src/future.rs
// the standard library's future behind this pointer
impl<F: Future> Future for &mut F {
    type Output = F::Output;
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn done(&self) -> bool { (**self).done() }
    open spec fn fin(&self) -> bool { (**self).fin() }
    open spec fn output(&self) -> F::Output { (**self).output() }
    open spec fn armed(&self, w: int) -> bool { (**self).armed(w) }
    #[verifier::external_body]
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> { unimplemented!() }
}
//@ impl FusedFuture for &mut F
//@ header impl<F: FusedFuture> FusedFuture for &mut F
    open spec fn over(&self) -> bool { (**self).over() }
//@ fn is_terminated -> r
//@ endfn
//@ endimpl
// the standard library's future behind this pointer
impl<S: Future> Future for Pin<&mut S> {
    type Output = S::Output;
    open spec fn wf(&self) -> bool { (*self.ptr).wf() }
    open spec fn done(&self) -> bool { (*self.ptr).done() }
    open spec fn fin(&self) -> bool { (*self.ptr).fin() }
    open spec fn output(&self) -> S::Output { (*self.ptr).output() }
    open spec fn armed(&self, w: int) -> bool { (*self.ptr).armed(w) }
    #[verifier::external_body]
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<S::Output> { unimplemented!() }
}
//@ impl FusedFuture for Pin<P>
//@ header impl<S: FusedFuture> FusedFuture for Pin<&mut S>
    open spec fn over(&self) -> bool { (*self.ptr).over() }
//@ fn is_terminated -> r
//@ endfn
//@ endimpl
// the standard library's future behind this pointer
impl<F: Future> Future for Box<F> {
    type Output = F::Output;
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn done(&self) -> bool { (**self).done() }
    open spec fn fin(&self) -> bool { (**self).fin() }
    open spec fn output(&self) -> F::Output { (**self).output() }
    open spec fn armed(&self, w: int) -> bool { (**self).armed(w) }
    #[verifier::external_body]
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> { unimplemented!() }
}
//@ impl FusedFuture for Box<F>
//@ header impl<F: FusedFuture> FusedFuture for Box<F>
    open spec fn over(&self) -> bool { (**self).over() }
//@ fn is_terminated -> r
//@ endfn
//@ endimpl
// the standard library's future behind this pointer
impl<F: Future> Future for AssertUnwindSafe<F> {
    type Output = F::Output;
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn done(&self) -> bool { self.0.done() }
    open spec fn fin(&self) -> bool { self.0.fin() }
    open spec fn output(&self) -> F::Output { self.0.output() }
    open spec fn armed(&self, w: int) -> bool { self.0.armed(w) }
    #[verifier::external_body]
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> { unimplemented!() }
}
//@ impl FusedFuture for std::panic::AssertUnwindSafe<F>
//@ header impl<F: FusedFuture> FusedFuture for AssertUnwindSafe<F>
    open spec fn over(&self) -> bool { self.0.over() }
//@ fn is_terminated -> r
//@ endfn
//@ endimpl
}
