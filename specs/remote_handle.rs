//@ include prelude
//@ include conc
verus! {
pub use std::sync::Arc;
// Remote / RemoteHandle: a oneshot channel (unit oneshot) and a `keep_running` flag.  `forget` sets the flag and then drops the
// receiver; so the flag decides only if it is read after the receiver was seen to be gone.
pub struct Payload { }
pub type SendMsg<Fut> = Result<<Fut as Future>::Output, Payload>;
pub tracked struct RmTok<M> {
    pub ghost gone: bool,              // the receiver was seen to be gone
    pub ghost armed: Option<int>,      // waker to be woken when it goes
    pub ghost keep: Option<bool>,      // the flag, read after the receiver was seen to be gone
    pub ghost sent: Option<M>,
    pub ghost kept: bool,              // this side set the flag
}
#[verifier::external_body]
pub struct AtomicBool { x: core::sync::atomic::AtomicBool }
impl AtomicBool {
    pub uninterp spec fn init(&self) -> bool;
    #[verifier::external_body]
    pub fn new(v: bool) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn load<M>(&self, o: Ordering, Tracked(t): Tracked<&mut RmTok<M>>, p: PhantomData<M>) -> (r: bool)
        requires o.acquires(),
        ensures *final(t) == (RmTok { keep: if old(t).gone { Some(r) } else { None }, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vstore<M>(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut RmTok<M>>, p: PhantomData<M>)
        requires v && o.releases(), // once set, stays set; visible before the receiver is dropped
        ensures *final(t) == (RmTok { kept: true, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(M)]
pub struct Sender<M> { x: PhantomData<M> }
#[verifier::external_body]
#[verifier::accept_recursive_types(M)]
pub struct Receiver<M> { x: PhantomData<M> }
pub uninterp spec fn paired<M>(a: Sender<M>, b: Receiver<M>) -> bool;
pub mod oneshot {
    use super::*;
    pub struct Canceled { }
    #[verifier::external_body]
    pub fn channel<M>() -> (r: (Sender<M>, Receiver<M>)) ensures paired(r.0, r.1), r.1.wf() && !r.1.done() { unimplemented!() }
}
impl<M> Sender<M> {
    #[verifier::external_body]
    pub fn poll_canceled(&mut self, cx: &mut Context<'_>, Tracked(t): Tracked<&mut RmTok<M>>) -> (r: Poll<()>)
        ensures
            *final(cx) == *old(cx), *final(self) == *old(self),
            r is Ready ==> *final(t) == (RmTok { gone: true, ..*old(t) }),
            r is Pending ==> !old(t).gone && *final(t) == (RmTok { armed: Some(old(cx).id()), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send(self, m: M, Tracked(t): Tracked<&mut RmTok<M>>) -> (r: Result<(), M>)
        ensures *final(t) == (RmTok { sent: Some(m), ..*old(t) }), r matches Err(x) ==> x == m,
    { unimplemented!() }
}
impl<M> Future for Receiver<M> {
    type Output = Result<M, oneshot::Canceled>;
    uninterp spec fn wf(&self) -> bool;
    uninterp spec fn done(&self) -> bool;
    uninterp spec fn output(&self) -> Result<M, oneshot::Canceled>;
    uninterp spec fn armed(&self, w: int) -> bool;
    #[verifier::external_body]
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Result<M, oneshot::Canceled>>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(F)]
pub struct CatchUnwind<F> { x: F }
pub struct AssertUnwindSafe<F>(pub F);
pub uninterp spec fn payload<F>(f: F) -> Payload; // (prophesied) panic of a future
pub uninterp spec fn panics<F>(f: F) -> bool;
impl<F: Future> AssertUnwindSafe<F> {
    #[verifier::external_body]
    pub fn catch_unwind(self) -> (r: CatchUnwind<AssertUnwindSafe<F>>) ensures r.of() == self.0, r.wf() == self.0.wf(), r.done() == self.0.done() { unimplemented!() }
}
impl<F> CatchUnwind<AssertUnwindSafe<F>> { pub uninterp spec fn of(&self) -> F; }
impl<F: Future> Future for CatchUnwind<AssertUnwindSafe<F>> {
    type Output = SendMsg<F>;
    uninterp spec fn wf(&self) -> bool;
    uninterp spec fn done(&self) -> bool;
    open spec fn output(&self) -> SendMsg<F> { if panics(self.of()) { Err(payload(self.of())) } else { Ok(self.of().output()) } }
    uninterp spec fn armed(&self, w: int) -> bool;
    #[verifier::external_body]
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<SendMsg<F>>) { unimplemented!() }
}
pub mod panic {
    use super::*;
    pub trait VPanic { spec fn is_panic(&self) -> bool; }
    impl VPanic for Payload { open spec fn is_panic(&self) -> bool { true } }
    impl VPanic for Box<oneshot::Canceled> { open spec fn is_panic(&self) -> bool { true } }
    #[verifier::external_body]
    pub fn resume_unwind<P: VPanic, T>(p: P) -> (r: T) ensures false { unimplemented!() }
}
//@ trackall load store => Tracked(&mut *tok), PhantomData::<SendMsg<Fut>>
//@ trackall poll_canceled send => Tracked(&mut *tok)
//@ substall thread::Result<T> =>> Result<T, Payload>
//@ file futures-util/src/future/future/remote_handle.rs
//@ struct RemoteHandle type:rx=Receiver<Result<T,Payload>>
//@ struct Remote
//@ impl RemoteHandle
//@ fn forget
//@ subst Ordering::SeqCst) =>> Ordering::SeqCst, Tracked(&mut *tok), PhantomData::<Result<T, Payload>>)
//@ subst .store( =>> .vstore(
//@ params Tracked(tok): Tracked<&mut RmTok<Result<T, Payload>>>
    ensures final(tok).kept, // the flag is set (and the receiver dropped after that)
//@ endfn
//@ endimpl
//@ impl Future for RemoteHandle
//@ header impl<T> RemoteHandle<T>
//@ noassoc
//@ fn poll -> r
    requires old(self.ptr).rx.wf(), !old(self.ptr).rx.done(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).rx.wf(), final(self.ptr).keep_running == old(self.ptr).keep_running,
        r matches Poll::Ready(v) ==> old(self.ptr).rx.output() == Ok::<Result<T, Payload>, oneshot::Canceled>(Ok(v)), // what the remote future produced
        r is Pending ==> !final(self.ptr).rx.done() && final(self.ptr).rx.output() == old(self.ptr).rx.output(),
        r is Pending ==> final(self.ptr).rx.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl Future for Remote
//@ header impl<Fut: Future> Remote<Fut>
//@ noassoc
//@ fn poll -> r
//@ params Tracked(tok): Tracked<&mut RmTok<SendMsg<Fut>>>
    requires old(self.ptr).tx is Some, old(self.ptr).future.wf() && !old(self.ptr).future.done(), old(tok).sent is None, old(tok).armed is None, old(tok).keep is None,
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).keep_running == old(self.ptr).keep_running,
        r is Ready && final(tok).sent is None ==> final(tok).gone && final(tok).keep == Some(false) && final(self.ptr).future == old(self.ptr).future, // gives up only if the handle is gone and was not forgotten, and polls the future no more
        final(tok).sent matches Some(m) ==> r is Ready && m == old(self.ptr).future.output(), // sends what the future produced (or its panic), in the poll in which it completes
        r is Pending ==> final(self.ptr).tx == old(self.ptr).tx && final(self.ptr).future.wf() && !final(self.ptr).future.done() && final(self.ptr).future.output() == old(self.ptr).future.output(),
        r is Pending ==> final(self.ptr).future.armed(old(cx).id()), // [wake]
        r is Pending ==> final(tok).armed == Some(old(cx).id()) || final(tok).keep == Some(true), // [wake] woken when the handle goes, unless it was forgotten
        old(tok).gone && r is Pending ==> final(tok).keep == Some(true), // a dropped handle cancels
//@ endfn
//@ endimpl
//@ fn remote_handle -> r
    requires future.wf() && !future.done(),
    ensures
        r.0.tx is Some && paired(r.0.tx->0, r.1.rx), r.0.keep_running == r.1.keep_running && !r.0.keep_running.init(), r.0.future.of() == future,
        r.0.future.wf() && !r.0.future.done(),
//@ endfn
}
