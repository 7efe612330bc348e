//@ include prelude
//@ include conc
verus! {
// The single-threaded executors.  inc: futures spawned and not yet taken into the pool (shared with the spawners: polling any future may append
// to it).  The executor's wake flag: set by a waker, which also unparks the thread if it was not set; taken by the executor before it sleeps.
pub tracked struct LpTok {
    pub ghost inc: Seq<LocalFutureObj>,
    pub ghost spawned: int,
    pub ghost completed: int,
    pub ghost saw: Option<bool>,  // the flag, looked at after the last poll
    pub ghost may: bool,          // executor: first turn, or woken since the last one
    pub ghost clear: bool,        // executor: the flag was not set, nothing else happened since
    pub ghost set: bool,          // waker: flag set
    pub ghost duty: bool,         // waker: the flag was not set before, so the thread may be asleep
    pub ghost entered: bool,
    pub ghost alive: bool,        // spawner: the pool exists
}
pub open spec fn grown(a: LpTok, b: LpTok) -> bool {
    &&& a.inc.len() <= b.inc.len() && a.inc =~= b.inc.subrange(0, a.inc.len() as int)
    &&& b.spawned == a.spawned + b.inc.len() - a.inc.len()
    &&& b.may == a.may && b.clear == a.clear && b.set == a.set && b.duty == a.duty && b.entered == a.entered && b.alive == a.alive
}
#[verifier::external_body]
pub struct LocalFutureObj { x: u8 }
#[verifier::external_body]
pub struct FutureObj { x: u8 }
pub uninterp spec fn as_local(f: FutureObj) -> LocalFutureObj;
impl FutureObj { #[verifier::external_body] pub fn into(self) -> (r: LocalFutureObj) ensures r == as_local(self) { unimplemented!() } }
// FuturesUnordered by its contract (unit futures_unordered)
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct FuturesUnordered<Fut> { x: PhantomData<Fut> }
impl FuturesUnordered<LocalFutureObj> {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn uarmed(&self, w: int) -> bool;
    #[verifier::external_body]
    pub fn push(&mut self, f: LocalFutureObj) ensures final(self).n() == old(self).n() + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.n() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_next_unpin(&mut self, cx: &mut Context<'_>, Tracked(t): Tracked<&mut LpTok>) -> (r: Poll<Option<()>>)
        requires old(t).inc.len() == 0, // every future spawned so far is in the pool: none is left waiting while the others run
        ensures
            *final(cx) == *old(cx), grown(*old(t), *final(t)), final(t).saw is None,
            r matches Poll::Ready(Some(_)) ==> old(self).n() > 0 && final(self).n() == old(self).n() - 1 && final(t).completed == old(t).completed + 1,
            r matches Poll::Ready(None) ==> old(self).n() == 0 && final(self).n() == 0 && final(t).inc == old(t).inc && final(t).completed == old(t).completed,
            r is Pending ==> final(self).n() == old(self).n() && old(self).n() > 0 && final(self).uarmed(old(cx).id()) && final(t).completed == old(t).completed,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Inc { x: u8 }
#[verifier::external_body]
pub struct IncRef { x: u8 }
#[verifier::external_body]
pub struct IncVec { x: u8 }
impl IncVec {
    pub uninterp spec fn v(&self) -> Seq<LocalFutureObj>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.v().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, f: LocalFutureObj) ensures final(self).v() == old(self).v().push(f) { unimplemented!() }
    // drain(..), one element at a time
    #[verifier::external_body]
    pub fn vdrain(&mut self) -> (r: Option<LocalFutureObj>)
        ensures r is None ==> old(self).v().len() == 0 && final(self).v() == old(self).v(), r matches Some(f) ==> old(self).v().len() > 0 && f == old(self).v()[0] && final(self).v() == old(self).v().subrange(1, old(self).v().len() as int),
    { unimplemented!() }
}
impl Inc {
    #[verifier::external_body]
    pub fn borrow<'a>(&self, Tracked(t): Tracked<&'a mut LpTok>) -> (r: &'a IncVec) ensures r.v() == old(t).inc, *final(t) == *old(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut<'a>(&self, Tracked(t): Tracked<&'a mut LpTok>) -> (r: &'a mut IncVec)
        ensures r.v() == old(t).inc, *final(t) == (LpTok { inc: final(r).v(), ..*old(t) }) { unimplemented!() }
}
#[verifier::external_body]
pub struct IncWeak { x: u8 }
impl IncWeak {
    #[verifier::external_body]
    pub fn upgrade(&self, Tracked(t): Tracked<&mut LpTok>) -> (r: Option<Inc>) ensures r is Some == old(t).alive, *final(t) == *old(t) { unimplemented!() }
}
pub struct SpawnError { pub down: bool }
impl SpawnError { pub fn shutdown() -> (r: Self) ensures r.down { SpawnError { down: true } } }
#[verifier::external_body]
pub struct NotifyFlag { x: u8 }
impl NotifyFlag {
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut LpTok>) -> (r: bool)
        requires o.acquires(),
        ensures *final(t) == (LpTok { saw: Some(r), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut LpTok>) -> (r: bool)
        requires
            v ==> o.releases(), // what happened before the wake-up is visible to the task
            !v ==> o.acquires(),
        ensures
            v ==> *final(t) == (LpTok { set: true, duty: !r, ..*old(t) }),
            !v ==> *final(t) == (LpTok { may: old(t).may || r, clear: !r, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Thread { x: u8 }
impl Thread {
    #[verifier::external_body]
    pub fn unpark(&self, Tracked(t): Tracked<&mut LpTok>)
        requires old(t).set, // flag first: the thread that wakes up sees it
        ensures *final(t) == (LpTok { duty: false, ..*old(t) }) { unimplemented!() }
}
pub mod thread {
    use super::*;
    #[verifier::external_body]
    pub fn park(Tracked(t): Tracked<&mut LpTok>)
        requires old(t).clear, // sleeps only if no wake-up arrived
        ensures *final(t) == (LpTok { clear: false, ..*old(t) }) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { x: PhantomData<T> }
impl<T> Arc<T> { pub uninterp spec fn v(&self) -> T; pub uninterp spec fn wid(&self) -> int; }
impl<T> core::ops::Deref for Arc<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.v() { unimplemented!() } }
pub struct WakerRef { pub w: Waker }
impl core::ops::Deref for WakerRef { type Target = Waker; fn deref(&self) -> (r: &Waker) ensures *r == self.w { &self.w } }
#[verifier::external_body]
pub fn waker_ref(a: &Arc<ThreadNotify>) -> (r: WakerRef) ensures r.w.id() == a.wid() { unimplemented!() }
impl<'a> Context<'a> { pub fn from_waker(w: &'a Waker) -> (r: Context<'a>) ensures r.id() == w.id() { Context { w } } }
pub uninterp spec fn my_waker() -> int; // the waker of this thread's executor
#[verifier::external_body]
pub fn vtls_CURRENT_THREAD_NOTIFY() -> (r: &'static Arc<ThreadNotify>) ensures r.wid() == my_waker() { unimplemented!() }
// one turn of an executor
pub trait ExecFn<T>: Sized {
    spec fn out(&self) -> T;
    fn vcall(&mut self, cx: &mut Context<'_>, Tracked(t): Tracked<&mut LpTok>) -> (r: Poll<T>)
        requires
            old(t).may, // polled first, and again only after a wake-up
            old(cx).id() == my_waker(), // with the waker that wakes this thread
        ensures *final(cx) == *old(cx), !final(t).may, final(self).out() == old(self).out(), r matches Poll::Ready(x) ==> x == old(self).out(),
    ;
}
// the main future of run_until and block_on: polling it may spawn
pub trait MainFut: Sized {
    type Output;
    spec fn done(&self) -> bool;
    spec fn output(&self) -> Self::Output;
    spec fn armed(&self, w: int) -> bool;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>, Tracked(t): Tracked<&mut LpTok>) -> (r: Poll<Self::Output>)
        requires !old(self.ptr).done(),
        ensures
            *final(cx) == *old(cx), grown(*old(t), *final(t)), final(t).saw is None, final(t).completed == old(t).completed,
            r is Ready ==> r->0 == old(self.ptr).output(),
            r is Pending ==> !final(self.ptr).done() && final(self.ptr).output() == old(self.ptr).output() && final(self.ptr).armed(old(cx).id()),
    ;
}
#[verifier::external_body]
pub struct EnteredCell { x: u8 }
impl EnteredCell {
    #[verifier::external_body]
    pub fn get(&self, Tracked(t): Tracked<&mut LpTok>) -> (r: bool) ensures r == old(t).entered, *final(t) == *old(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, v: bool, Tracked(t): Tracked<&mut LpTok>) ensures *final(t) == (LpTok { entered: v, ..*old(t) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&self, v: bool, Tracked(t): Tracked<&mut LpTok>) -> (r: bool) ensures r == old(t).entered, *final(t) == (LpTok { entered: v, ..*old(t) }) { unimplemented!() }
}
#[verifier::external_body]
pub fn vtls_ENTERED() -> (r: &'static EnteredCell) { unimplemented!() }
//@ trackall load swap unpark thread::park poll_next_unpin borrow borrow_mut upgrade get set replace ::enter ::woken poll_pool drain_incoming poll => Tracked(&mut *tok)
//@ file futures-executor/src/enter.rs
//@ struct Enter
//@ struct EnterError
impl core::fmt::Debug for EnterError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
//@ fn enter -> r
//@ params Tracked(tok): Tracked<&mut LpTok>
    ensures
        r is Ok == !old(tok).entered, // refused inside another executor
        *final(tok) == (LpTok { entered: true, ..*old(tok) }),
//@ endfn
//@ impl Drop for Enter
//@ header impl Enter
//@ fn drop
//@ params Tracked(tok): Tracked<&mut LpTok>
    requires old(tok).entered,
    ensures *final(tok) == (LpTok { entered: false, ..*old(tok) }), // and allowed again afterwards
//@ endfn
//@ endimpl
//@ file futures-executor/src/local_pool.rs
//@ struct LocalPool type:pool=FuturesUnordered<LocalFutureObj> type:incoming=Inc
//@ struct LocalSpawner type:incoming=IncWeak
//@ struct ThreadNotify type:unparked=NotifyFlag
//@ impl ArcWake for ThreadNotify
//@ header impl ThreadNotify
//@ fn wake_by_ref
//@ params Tracked(tok): Tracked<&mut LpTok>
    requires !old(tok).duty,
    ensures final(tok).set && !final(tok).duty, // the flag is set, and the thread unparked by whoever set it
//@ endfn
//@ endimpl
//@ fn run_executor -> r
//@ params Tracked(tok): Tracked<&mut LpTok>
//@ subst <T, F: FnMut(&mut Context<'_>) -> Poll<T>> =>> <T, F: ExecFn<T>>
//@ subst f(&mut cx) =>> f.vcall(&mut cx, Tracked(&mut *tok))
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
//@ panics
    requires old(tok).may, !old(tok).entered,
    ensures r == f.out(), // returns what the function returned, at its first Ready
//@ loop 0
    invariant tok.may, f.out() == fo, cx.id() == my_waker(),
//@ loop 1
    invariant_except_break f.out() == fo, cx.id() == my_waker(),
    ensures tok.may,
//@ entry
    let ghost fo = f.out();
//@ endfn
//@ fn woken -> r
//@ params Tracked(tok): Tracked<&mut LpTok>
    ensures *final(tok) == (LpTok { saw: Some(r), ..*old(tok) }), // a look at the flag that leaves it as it is
//@ endfn
impl LocalPool {
    // what the pool holds, against what was spawned and completed: constant
    pub open spec fn bal(&self, t: LpTok) -> int { self.pool.n() + t.inc.len() + t.completed - t.spawned }
    pub open spec fn empty(&self, t: LpTok) -> bool { self.pool.n() == 0 && t.inc.len() == 0 }
    pub open spec fn parked(&self, t: LpTok, w: int) -> bool { t.inc.len() == 0 && self.pool.n() > 0 && self.pool.uarmed(w) }
}
//@ impl LocalPool
//@ fn run -> r
//@ closurearg run_executor => (&mut self, cx: &mut Context<'_>) -> Poll<()>
//@ params Tracked(tok): Tracked<&mut LpTok>
    requires old(self).pool.n() >= 0,
    ensures
        *final(cx) == *old(cx), final(self).bal(*final(tok)) == old(self).bal(*old(tok)), final(self).pool.n() >= 0,
        r is Ready ==> final(self).empty(*final(tok)), // run() returns only when all tasks are complete, including those spawned meanwhile
        r is Pending ==> final(self).parked(*final(tok), old(cx).id()), // [wake]
//@ endfn
//@ fn run_until -> r
//@ closurearg run_executor => <F: MainFut>(&mut self, future: &mut F, cx: &mut Context<'_>) -> Poll<F::Output>
//@ subst future.as_mut() =>> Pin::new(&mut *future)
//@ params Tracked(tok): Tracked<&mut LpTok>
    requires old(self).pool.n() >= 0, !old(future).done(),
    ensures
        *final(cx) == *old(cx), final(self).bal(*final(tok)) == old(self).bal(*old(tok)), final(self).pool.n() >= 0,
        r matches Poll::Ready(x) ==> x == old(future).output(), // the main future's output, as soon as it is complete
        r is Pending ==> !final(future).done() && final(future).output() == old(future).output(),
        r is Pending ==> final(future).armed(old(cx).id()) && (final(self).parked(*final(tok), old(cx).id()) || final(self).empty(*final(tok))), // [wake] the main future and the tasks all had their turn
//@ endfn
//@ fn try_run_one -> r
//@ closurearg run_executor => (&mut self, cx: &mut Context<'_>) -> Poll<bool>
//@ params Tracked(tok): Tracked<&mut LpTok>
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires old(self).pool.n() >= 0,
    ensures
        *final(cx) == *old(cx), final(self).bal(*final(tok)) == old(self).bal(*old(tok)), final(self).pool.n() >= 0,
        r == Poll::Ready(true) ==> final(tok).completed == old(tok).completed + 1, // exactly one task was completed
        r == Poll::Ready(false) ==> final(tok).completed == old(tok).completed && (final(self).empty(*final(tok)) || (final(self).parked(*final(tok), old(cx).id()) && final(tok).saw == Some(false))), // none, and none can make progress
        r is Pending ==> final(tok).completed == old(tok).completed && final(tok).saw == Some(true), // not asleep: there is progress to be made
//@ loop 0
    invariant self.bal(*tok) == old(self).bal(*old(tok)), self.pool.n() >= 0, tok.completed == old(tok).completed,
//@ endfn
//@ fn run_until_stalled -> r
//@ closurearg run_executor => (&mut self, cx: &mut Context<'_>) -> Poll<()>
//@ params Tracked(tok): Tracked<&mut LpTok>
    requires old(self).pool.n() >= 0,
    ensures
        *final(cx) == *old(cx), final(self).bal(*final(tok)) == old(self).bal(*old(tok)), final(self).pool.n() >= 0,
        r is Ready ==> final(self).empty(*final(tok)) || (final(self).parked(*final(tok), old(cx).id()) && final(tok).saw == Some(false)), // returns only when no task can make progress
        r is Pending ==> final(tok).saw == Some(true), // never sleeps
//@ endfn
//@ fn poll_pool -> r
//@ params Tracked(tok): Tracked<&mut LpTok>
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires old(self).pool.n() >= 0,
    ensures
        *final(cx) == *old(cx), final(self).bal(*final(tok)) == old(self).bal(*old(tok)), final(self).pool.n() >= 0, // no task is lost
        r is Ready ==> final(self).empty(*final(tok)),
        r is Pending ==> final(self).parked(*final(tok), old(cx).id()), // every task had its turn, spawned ones too
//@ loop 0
    invariant self.bal(*tok) == old(self).bal(*old(tok)), self.pool.n() >= 0,
//@ endfn
//@ fn drain_incoming
//@ params Tracked(tok): Tracked<&mut LpTok>
//@ subst for task in incoming.drain(..) =>> while let Some(task) = incoming.vdrain()
    requires old(self).pool.n() >= 0,
    ensures
        *final(tok) == (LpTok { inc: Seq::empty(), ..*old(tok) }), final(self).pool.n() == old(self).pool.n() + old(tok).inc.len(), // every spawned future gets into the pool
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant self.pool.n() + incoming.v().len() == old(self).pool.n() + old(tok).inc.len(), self.pool.n() >= 0,
//@ afterloop 0
    assert(incoming.v() =~= Seq::<LocalFutureObj>::empty());
//@ endfn
//@ endimpl
//@ fn block_on -> r
//@ closurearg run_executor => <F: MainFut>(f: &mut F, cx: &mut Context<'_>) -> Poll<F::Output>
//@ subst f.as_mut() =>> Pin::new(&mut *f)
//@ params Tracked(tok): Tracked<&mut LpTok>
    requires !old(f).done(),
    ensures
        *final(cx) == *old(cx),
        r matches Poll::Ready(x) ==> x == old(f).output(), // the future's output
        r is Pending ==> !final(f).done() && final(f).output() == old(f).output() && final(f).armed(old(cx).id()), // [wake]
//@ endfn
//@ impl Spawn for LocalSpawner
//@ header impl LocalSpawner
//@ fn spawn_obj -> r
//@ subst FutureObj<'static, ()> =>> FutureObj
//@ params Tracked(tok): Tracked<&mut LpTok>
    ensures
        r is Ok == old(tok).alive, r is Err ==> r->Err_0.down, // refused only once the pool is gone
        final(tok).inc == (if r is Ok { old(tok).inc.push(as_local(future)) } else { old(tok).inc }), // accepted: will be run by the pool
//@ endfn
//@ fn status -> r
//@ params Tracked(tok): Tracked<&mut LpTok>
    ensures r is Ok == old(tok).alive, *final(tok) == *old(tok),
//@ endfn
//@ endimpl
//@ impl LocalSpawn for LocalSpawner
//@ header impl LocalSpawner
//@ fn spawn_local_obj -> r
//@ params Tracked(tok): Tracked<&mut LpTok>
//@ subst LocalFutureObj<'static, ()> =>> LocalFutureObj
    ensures
        r is Ok == old(tok).alive, r is Err ==> r->Err_0.down,
        final(tok).inc == (if r is Ok { old(tok).inc.push(future) } else { old(tok).inc }),
//@ endfn
//@ fn status_local -> r
//@ params Tracked(tok): Tracked<&mut LpTok>
    ensures r is Ok == old(tok).alive, *final(tok) == *old(tok),
//@ endfn
//@ endimpl
// The machine: the executor's thread and any number of wakers.  owner: 0 running, 1 found the flag clear and is about to sleep or asleep
pub struct Sys { pub flag: bool, pub token: bool, pub pend: int, pub owner: int }
pub enum Step { Set, SetAgain, Unpark, Foreign, Take, Clear, Return }
pub open spec fn inv(s: Sys) -> bool { s.pend >= 0 && (s.owner == 1 && s.flag ==> s.token || s.pend > 0) }
pub open spec fn next(s: Sys, x: Step, n: Sys) -> bool {
    match x {
        Step::Set => !s.flag && n == (Sys { flag: true, pend: s.pend + 1, ..s }),
        Step::SetAgain => s.flag && n == s,
        Step::Unpark => s.pend > 0 && n == (Sys { pend: s.pend - 1, token: true, ..s }),
        Step::Foreign => s.owner == 0 && n == (Sys { token: n.token, ..s }), // other code on the thread parks or unparks
        Step::Take => s.owner == 0 && s.flag && n == (Sys { flag: false, ..s }),
        Step::Clear => s.owner == 0 && !s.flag && n == (Sys { owner: 1, ..s }),
        Step::Return => s.owner == 1 && s.token && n == (Sys { owner: 0, token: false, ..s }), // park returns
    }
}
pub proof fn machine_step(s: Sys, x: Step, n: Sys) requires inv(s), next(s, x, n) ensures inv(n) {}
// a thread that sleeps although the flag is set is about to be unparked, or may go on
pub proof fn machine_no_lost_wake(s: Sys) requires inv(s), s.owner == 1, s.flag, s.pend == 0 ensures s.token {}
}
