//@ include seqs
pub mod marker { pub use core::marker::PhantomData; }
verus! {
//@ file futures-util/src/future/option.rs
//@ struct OptionFuture
//@ impl Future for OptionFuture
    open spec fn wf(&self) -> bool { self.inner is Some ==> self.inner->0.wf() }
    open spec fn done(&self) -> bool { self.inner is Some && self.inner->0.done() }
    open spec fn fin(&self) -> bool { self.inner is Some ==> self.inner->0.fin() }
    open spec fn output(&self) -> Option<F::Output> { if self.inner is Some { Some(self.inner->0.output()) } else { None } }
    open spec fn armed(&self, w: int) -> bool { self.inner is Some && self.inner->0.armed(w) }
//@ fn poll
//@ kinds poll
//@ endfn
//@ endimpl
//@ impl FusedFuture for OptionFuture
    open spec fn over(&self) -> bool { self.inner is Some ==> self.inner->0.over() }
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ file futures-util/src/future/ready.rs
//@ struct Ready
//@ impl Future for Ready
    open spec fn wf(&self) -> bool { true }
    open spec fn done(&self) -> bool { self.0 is None }
    open spec fn output(&self) -> T { self.0->0 }
    open spec fn armed(&self, w: int) -> bool { false }
//@ fn poll
//@ endfn
//@ endimpl
//@ impl FusedFuture for Ready
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ impl Ready
//@ fn into_inner -> r
    requires self.0 is Some,
    ensures r == self.0->0,
//@ endfn
//@ endimpl
//@ file futures-util/src/future/try_future/into_future.rs
//@ file futures-util/src/future/poll_immediate.rs
//@ struct PollImmediate
//@ impl Future for PollImmediate
//@ header impl<T, F: Future<Output = T>> PollImmediate<F>
//@ noassoc
//@ fn poll -> r
    requires old(self.ptr).future is Some && old(self.ptr).future->0.wf() && !old(self.ptr).future->0.done(),
    ensures
        *final(cx) == *old(cx),
        r is Ready,
        (r->0) is Some ==> (r->0)->0 == old(self.ptr).future->0.output() && final(self.ptr).future is None,
        (r->0) is None ==> final(self.ptr).future is Some && final(self.ptr).future->0.wf() && !final(self.ptr).future->0.done() && final(self.ptr).future->0.output() == old(self.ptr).future->0.output(),
//@ endfn
//@ endimpl
//@ impl Stream for PollImmediate
//@ header impl<T, F: Future<Output = T>> PollImmediate<F>
//@ noassoc
//@ fn poll_next -> r
//@ kinds poll
//@ subst Self::Item =>> Poll<T>
    requires old(self.ptr).future is Some ==> old(self.ptr).future->0.wf() && !old(self.ptr).future->0.done(),
    ensures
        *final(cx) == *old(cx),
        r is Ready,
        (r->0) is None <==> old(self.ptr).future is None,
        (r->0) is Some && (r->0)->0 is Ready ==> ((r->0)->0)->0 == old(self.ptr).future->0.output() && final(self.ptr).future is None,
        (r->0) is Some && (r->0)->0 is Pending ==> final(self.ptr).future is Some && final(self.ptr).future->0.wf() && !final(self.ptr).future->0.done() && final(self.ptr).future->0.output() == old(self.ptr).future->0.output(),
        (r->0) is None ==> final(self.ptr).future is None,
//@ endfn
//@ endimpl
//@ impl FusedFuture for PollImmediate
//@ header impl<T: Future> PollImmediate<T>
//@ fn is_terminated -> r
    ensures r == self.future is None,
//@ endfn
//@ endimpl
// closures given the caller's context
pub trait FnOnceCx: Sized {
    type Output;
    spec fn app(&self) -> Self::Output;
    fn call_once(self, cx: &mut Context<'_>) -> (r: Self::Output) ensures r == self.app(), *final(cx) == *old(cx);
}
pub trait FnMutCx: Sized {
    type Output;
    spec fn fwf(&self) -> bool;
    spec fn fdone(&self) -> bool;
    spec fn fout(&self) -> Self::Output;
    spec fn farmed(&self, w: int) -> bool;
    fn call_mut(&mut self, cx: &mut Context<'_>) -> (r: Poll<Self::Output>)
        requires old(self).fwf(), !old(self).fdone(),
        ensures
            *final(cx) == *old(cx), final(self).fwf(),
            r is Ready ==> r->0 == old(self).fout(),
            r is Pending ==> !final(self).fdone() && final(self).fout() == old(self).fout() && final(self).farmed(old(cx).id());
}
//@ file futures-util/src/future/lazy.rs
//@ struct Lazy
//@ impl Future for Lazy
//@ header impl<F: FnOnceCx> Future for Lazy<F>
//@ noassoc
    type Output = F::Output;
    open spec fn wf(&self) -> bool { true }
    open spec fn done(&self) -> bool { self.f is None }
    open spec fn output(&self) -> F::Output { self.f->0.app() }
    open spec fn armed(&self, w: int) -> bool { false }
//@ fn poll -> r
//@ subst (self.f.take().expect("Lazy polled after completion"))(cx) =>> self.f.take().expect("Lazy polled after completion").call_once(cx)
//@ subst Poll<R> =>> Poll<F::Output>
    ensures r is Ready && final(self.ptr).f is None, // runs the closure in its first poll, once
//@ endfn
//@ endimpl
//@ impl FusedFuture for Lazy
//@ header impl<F: FnOnceCx> FusedFuture for Lazy<F>
//@ fn is_terminated -> r
    ensures r == (self.f is None), // [term]
//@ endfn
//@ endimpl
//@ file futures-util/src/future/poll_fn.rs
//@ struct PollFn
//@ impl Future for PollFn
//@ header impl<F: FnMutCx> Future for PollFn<F>
//@ noassoc
    type Output = F::Output;
    open spec fn wf(&self) -> bool { self.f.fwf() }
    open spec fn done(&self) -> bool { self.f.fdone() }
    open spec fn fin(&self) -> bool { true }
    open spec fn output(&self) -> F::Output { self.f.fout() }
    open spec fn armed(&self, w: int) -> bool { self.f.farmed(w) }
//@ fn poll
//@ subst (&mut self.f)(cx) =>> self.f.call_mut(cx)
//@ subst Poll<T> =>> Poll<F::Output>
//@ endfn
//@ endimpl
//@ file futures-util/src/future/pending.rs
//@ struct Pending
//@ impl Future for Pending
    open spec fn wf(&self) -> bool { true }
    open spec fn done(&self) -> bool { false }
    uninterp spec fn output(&self) -> T;
    open spec fn armed(&self, w: int) -> bool { true } // nothing will ever happen
//@ fn poll -> r
    ensures r is Pending, *final(self.ptr) == *old(self.ptr), // never completes
//@ endfn
//@ endimpl
//@ impl FusedFuture for Pending
    open spec fn over(&self) -> bool { true }
//@ fn is_terminated -> r
    ensures r, // [term] nothing to wait for
//@ endfn
//@ endimpl
}
