//@ include ab_base
verus! {
// The machine: one task, any number of handles (AtomicWaker: a wake after the registration wakes it)
pub struct Sys { pub flag: bool, pub reg: bool, pub pend: bool, pub woken: bool, pub calls: int /* set the flag, not woken yet */ }
pub open spec fn inv(s: Sys) -> bool { s.calls >= 0 && (s.calls > 0 ==> s.flag) && (s.pend ==> s.reg) && (s.pend && s.flag ==> s.calls > 0 || s.woken) }
pub enum Step { Register, Check, Repoll, Set, Wake }
pub open spec fn next(s: Sys, x: Step, n: Sys) -> bool {
    match x {
        Step::Register => !s.pend && n == (Sys { reg: true, woken: false, ..s }),
        Step::Check => s.reg && !s.flag && n == (Sys { pend: true, ..s }),
        Step::Repoll => n == (Sys { pend: false, ..s }),
        Step::Set => n == (Sys { flag: true, calls: s.calls + 1, ..s }),
        Step::Wake => s.calls > 0 && n == (Sys { calls: s.calls - 1, woken: s.woken || s.reg, ..s }),
    }
}
pub proof fn machine_init() ensures inv(Sys { flag: false, reg: false, pend: false, woken: false, calls: 0 }) {}
pub proof fn machine_step(s: Sys, x: Step, n: Sys) requires inv(s), next(s, x, n) ensures inv(n) {}
pub proof fn machine_no_lost_wake(s: Sys) // once every abort() has returned, a pending task has been woken
    requires inv(s), s.calls == 0, s.flag, s.pend ensures s.woken {}

// the closure handed to try_poll
pub trait VPoll<T, I> {
    spec fn pre(&self, t: T) -> bool;
    spec fn post(&self, a: T, b: T, w: int, r: Poll<I>) -> bool;
    fn call(&self, t: Pin<&mut T>, cx: &mut Context<'_>) -> (r: Poll<I>)
        requires self.pre(*old(t.ptr)),
        ensures *final(cx) == *old(cx), self.post(*old(t.ptr), *final(t.ptr), old(cx).id(), r);
}
pub struct VFutPoll { }
impl<F: Future> VPoll<F, F::Output> for VFutPoll {
    open spec fn pre(&self, t: F) -> bool { t.wf() && !t.done() }
    open spec fn post(&self, a: F, b: F, w: int, r: Poll<F::Output>) -> bool {
        b.wf() && (r matches Poll::Ready(v) ==> v == a.output()) && (r is Pending ==> !b.done() && b.output() == a.output() && b.armed(w))
    }
    fn call(&self, fut: Pin<&mut F>, cx: &mut Context<'_>) -> (r: Poll<F::Output>) { fut.poll(cx) }
}
pub struct VStrPoll { }
impl<S: Stream> VPoll<S, Option<S::Item>> for VStrPoll {
    open spec fn pre(&self, t: S) -> bool { t.wf() && !t.ended() }
    open spec fn post(&self, a: S, b: S, w: int, r: Poll<Option<S::Item>>) -> bool {
        b.wf() && (r matches Poll::Ready(Some(v)) ==> a.rest() == seq![v] + b.rest() && !b.ended()) && (r matches Poll::Ready(None) ==> a.rest() == Seq::<S::Item>::empty())
            && (r is Pending ==> !b.ended() && b.rest() == a.rest() && b.armed(w))
    }
    fn call(&self, stream: Pin<&mut S>, cx: &mut Context<'_>) -> (r: Poll<Option<S::Item>>) { stream.poll_next(cx) }
}
pub trait VOkFlat<I> { spec fn flat(self) -> Poll<Option<I>>; fn vok_flatten(self) -> (r: Poll<Option<I>>) where Self: Sized ensures r == self.flat(); }
impl<I> VOkFlat<I> for Poll<Result<Option<I>, Aborted>> {
    open spec fn flat(self) -> Poll<Option<I>> { match self { Poll::Ready(Ok(x)) => Poll::Ready(x), Poll::Ready(Err(_)) => Poll::Ready(None), Poll::Pending => Poll::Pending } }
    fn vok_flatten(self) -> (r: Poll<Option<I>>) { match self { Poll::Ready(Ok(x)) => Poll::Ready(x), Poll::Ready(Err(_)) => Poll::Ready(None), Poll::Pending => Poll::Pending } }
}
//@ trackall load store swap register wake is_aborted try_poll => Tracked(&mut *tok)
//@ substall |fut, cx| fut.poll(cx) =>> VFutPoll { }
//@ substall |stream, cx| stream.poll_next(cx) =>> VStrPoll { }
//@ substall .map(Result::ok).map(Option::flatten) =>> .vok_flatten()
//@ file futures-util/src/abortable.rs
//@ struct Aborted
//@ struct AbortInner
//@ struct AbortRegistration
//@ struct AbortHandle
//@ struct Abortable
//@ impl Abortable
//@ fn new -> r
    ensures r.task == task && r.inner == reg.inner, // tied to the handle of the registration
//@ endfn
//@ fn is_aborted -> r
//@ params Tracked(tok): Tracked<&mut AbTok>
    ensures
        old(tok).known ==> r, // true once abort was called
        *final(tok) == (AbTok { known: r, checked: old(tok).checked || (!r && old(tok).reg is Some), ..*old(tok) }),
//@ endfn
//@ fn try_poll -> r
//@ subst fn try_poll<I> =>> fn try_poll<I, P: VPoll<T, I>>
//@ subst poll: impl Fn(Pin<&mut T>, &mut Context<'_>) -> Poll<I> =>> poll: P
//@ subst poll(self =>> poll.call(self
//@ params Tracked(tok): Tracked<&mut AbTok>
    requires poll.pre(old(self.ptr).task),
    ensures
        *final(cx) == *old(cx), final(self.ptr).inner == old(self.ptr).inner,
        old(tok).known ==> r is Ready && r->Ready_0 is Err && final(self.ptr).task == old(self.ptr).task, // aborted: makes no further progress
        r matches Poll::Ready(Err(_)) ==> final(tok).known, // only if abort was called
        r matches Poll::Ready(Ok(x)) ==> poll.post(old(self.ptr).task, final(self.ptr).task, old(cx).id(), Poll::Ready(x)), // what the task produced
        r is Pending ==> poll.post(old(self.ptr).task, final(self.ptr).task, old(cx).id(), Poll::Pending), // [wake] the task was polled with this waker
        r is Pending ==> final(tok).reg == Some(old(cx).id()) && final(tok).checked && !final(tok).known, // [wake] registered with the handle, flag unset after that
//@ endfn
//@ endimpl
//@ impl Future for Abortable
//@ header impl<Fut: Future> Abortable<Fut>
//@ noassoc
//@ fn poll -> r
//@ params Tracked(tok): Tracked<&mut AbTok>
    requires old(self.ptr).task.wf(), !old(self.ptr).task.done(),
    ensures
        *final(cx) == *old(cx),
        old(tok).known ==> r is Ready && r->Ready_0 is Err && final(self.ptr).task == old(self.ptr).task, // aborted: completes without polling the task again
        r matches Poll::Ready(Err(_)) ==> final(tok).known, // Aborted only if abort was called
        r matches Poll::Ready(Ok(v)) ==> v == old(self.ptr).task.output(),
        r is Pending ==> final(self.ptr).task.wf() && !final(self.ptr).task.done() && final(self.ptr).task.output() == old(self.ptr).task.output(),
        r is Pending ==> final(self.ptr).task.armed(old(cx).id()) && final(tok).reg == Some(old(cx).id()) && final(tok).checked, // [wake]
//@ endfn
//@ endimpl
//@ impl Stream for Abortable
//@ header impl<St: Stream> Abortable<St>
//@ noassoc
//@ fn poll_next -> r
//@ params Tracked(tok): Tracked<&mut AbTok>
    requires old(self.ptr).task.wf(), !old(self.ptr).task.ended(),
    ensures
        *final(cx) == *old(cx),
        old(tok).known ==> r == Poll::Ready(None::<St::Item>) && final(self.ptr).task == old(self.ptr).task, // aborted: ends without polling the stream again
        r matches Poll::Ready(Some(v)) ==> old(self.ptr).task.rest() == seq![v] + final(self.ptr).task.rest() && !final(self.ptr).task.ended(), // the next item
        r matches Poll::Ready(None) ==> final(tok).known || old(self.ptr).task.rest() == Seq::<St::Item>::empty(), // ends only if the stream did, or aborted
        r is Pending ==> final(self.ptr).task.rest() == old(self.ptr).task.rest() && !final(self.ptr).task.ended(),
        r is Pending ==> final(self.ptr).task.armed(old(cx).id()) && final(tok).reg == Some(old(cx).id()) && final(tok).checked, // [wake]
//@ endfn
//@ endimpl
//@ impl AbortHandle
//@ fn new_pair -> r
    ensures r.0.inner == r.1.inner && !r.0.inner.aborted.init(), // not aborted yet
//@ endfn
//@ fn abort
//@ params Tracked(tok): Tracked<&mut AbTok>
    ensures
        final(tok).known, // aborted
        final(tok).notified, // [wake] and the task is woken after that
//@ endfn
//@ fn is_aborted -> r
//@ params Tracked(tok): Tracked<&mut AbTok>
    ensures old(tok).known ==> r,
//@ endfn
//@ endimpl
//@ impl AbortRegistration
//@ fn handle -> r
    ensures r.inner == self.inner,
//@ endfn
//@ endimpl
}
