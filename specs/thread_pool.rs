//@ include prelude
//@ include conc
verus! {
// A task of the thread pool and the word that decides who polls it (0 waiting, 1 polling, 2 polling + poll again, 3 complete).
// mode of a thread towards the task: 0 none, 1 owns the task, its poll has not begun (the task is on its way to a worker, or new),
// 2 polls it.
pub tracked struct UmTok<D> {
    pub ghost mode: int,
    pub ghost cell: Option<D>,   // contents of the cell, while this thread owns the task
    pub ghost need: bool,        // requests may have been cleared since the last poll began: poll before waiting
    pub ghost done: bool,        // the future completed
    pub ghost noted: bool,       // this thread's request is recorded: a poll begins after it, or the task is complete
    pub ghost waiting: bool,     // left waiting by this thread
    pub ghost closes: int,       // messages asking a worker to stop, sent by this thread
    pub ghost closed: bool,      // this worker was asked to stop
    pub ghost hooks: Seq<(int, usize)>,
    pub ghost last: bool,        // this was the last handle
    pub ghost handles: int,      // handles added by this thread
}
impl<D> UmTok<D> {
    pub open spec fn noticed(self, v: usize) -> UmTok<D> { UmTok { noted: self.noted || (self.mode == 0 && (v == 2 || v == 3)), ..self } }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(D)]
pub struct Status<D> { x: PhantomData<D> }
impl<D> Status<D> {
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut UmTok<D>>) -> (r: usize)
        ensures r < 4, old(t).mode == 2 ==> r == 1 || r == 2, *final(t) == old(t).noticed(r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: usize, o: Ordering, Tracked(t): Tracked<&mut UmTok<D>>)
        requires
            o is SeqCst,
            old(t).mode != 0 && (v == 1 || (v == 3 && old(t).done)), // only by the thread that polls; complete only once the future is
        ensures *final(t) == (if v == 1 { UmTok { mode: 2, need: true, ..*old(t) } } else { UmTok { mode: 0, ..*old(t) } }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: usize, o: Ordering, Tracked(t): Tracked<&mut UmTok<D>>) -> (r: usize)
        requires o is SeqCst, old(t).mode != 0 && (v == 1 || (v == 3 && old(t).done)), // only by the thread that polls; complete only once the future is
        ensures r < 3, old(t).mode == 2 ==> r == 1 || r == 2, *final(t) == (if v == 1 { UmTok { mode: 2, need: true, ..*old(t) } } else { UmTok { mode: 0, ..*old(t) } }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: usize, n: usize, os: Ordering, of: Ordering, Tracked(t): Tracked<&mut UmTok<D>>) -> (r: Result<usize, usize>)
        requires
            os is SeqCst && of is SeqCst,
            // only transitions of the protocol: take a waiting task; ask the polling thread to poll again; wait, with the task back in its cell
            (old(t).mode == 0 && ((c == 0 && n == 1) || (c == 1 && n == 2))) || (old(t).mode == 2 && ((c == 1 && n == 0 && old(t).cell is Some && !old(t).need) || (c == 2 && n == 1))),
        ensures
            r matches Ok(v) ==> v == c,
            r is Ok && c == 0 ==> final(t).cell is Some && *final(t) == (UmTok { mode: 1, cell: final(t).cell, need: true, ..*old(t) }),
            r is Ok && c == 1 && n == 2 ==> *final(t) == (UmTok { noted: true, ..*old(t) }),
            r is Ok && c == 1 && n == 0 ==> *final(t) == (UmTok { mode: 0, waiting: true, ..*old(t) }),
            r is Ok && c == 2 ==> *final(t) == (UmTok { need: true, ..*old(t) }),
            r matches Err(v) ==> v != c && v < 4 && (old(t).mode == 2 ==> v == 1 || v == 2) && *final(t) == old(t).noticed(v),
    { unimplemented!() }
}
pub struct AtomicUsize { }
impl AtomicUsize {
    #[verifier::external_body]
    pub fn new<D>(v: usize, Tracked(t): Tracked<&mut UmTok<D>>) -> (r: Status<D>)
        requires old(t).mode == 0, v == 0, // a new task: whoever creates it owns it
        ensures *final(t) == (UmTok { mode: 1, need: true, cell: None, done: false, waiting: false, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(D)]
pub struct DataCell<D> { x: PhantomData<D> }
impl<D> DataCell<D> {
    #[verifier::external_body]
    pub fn get<'a>(&self, Tracked(t): Tracked<&'a mut UmTok<D>>) -> (r: &'a mut Option<D>)
        requires old(t).mode != 0, // only the thread that owns the task touches the cell (no data race)
        ensures *r == old(t).cell, *final(t) == (UmTok { cell: *final(r), ..*old(t) }),
    { unimplemented!() }
}
pub struct UnsafeCell { }
impl UnsafeCell {
    #[verifier::external_body]
    pub fn new<D>(v: Option<D>) -> (r: DataCell<D>) { unimplemented!() }
}
//@ trackall load store swap compare_exchange get AtomicUsize::new UnparkMutex::new start_poll wait complete notify poll_unpin send recv run fetch_add fetch_sub clone call => Tracked(&mut *tok)
//@ file futures-executor/src/unpark_mutex.rs
//@ struct UnparkMutex type:status=Status<D> type:inner=DataCell<D>
//@ const WAITING
//@ const POLLING
//@ const REPOLL
//@ const COMPLETE
//@ impl UnparkMutex
//@ fn new
//@ params Tracked(tok): Tracked<&mut UmTok<D>>
    requires old(tok).mode == 0,
    ensures *final(tok) == (UmTok { mode: 1, need: true, cell: None, done: false, waiting: false, ..*old(tok) }),
//@ endfn
//@ fn notify -> r
//@ params Tracked(tok): Tracked<&mut UmTok<D>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires old(tok).mode == 0,
    ensures
        r matches Ok(d) ==> *final(tok) == (UmTok { mode: 1, need: true, cell: None, noted: final(tok).noted, ..*old(tok) }), // owns the task: has to see to a poll
        r is Err ==> *final(tok) == (UmTok { noted: true, ..*old(tok) }), // the request is recorded with whoever polls, or the task is complete
//@ loop 0
    invariant
        tok.mode == 0, status < 4, *tok == (UmTok { noted: tok.noted, ..*old(tok) }), status == 2 || status == 3 ==> tok.noted,
//@ endfn
//@ fn start_poll
//@ params Tracked(tok): Tracked<&mut UmTok<D>>
    requires old(tok).mode != 0,
    ensures *final(tok) == (UmTok { mode: 2, need: true, ..*old(tok) }),
//@ endfn
//@ fn wait -> r
//@ params Tracked(tok): Tracked<&mut UmTok<D>>
    requires old(tok).mode == 2, !old(tok).need,
    ensures
        r is Ok ==> final(tok).mode == 0 && final(tok).waiting && *final(tok) == (UmTok { mode: 0, waiting: true, cell: final(tok).cell, ..*old(tok) }), // no request came in since the poll began
        r matches Err(d) ==> d == data && *final(tok) == (UmTok { need: true, cell: None, ..*old(tok) }), // one did: the task is given back, to be polled again
//@ endfn
//@ fn complete
//@ params Tracked(tok): Tracked<&mut UmTok<D>>
    requires old(tok).mode == 2, old(tok).done,
    ensures *final(tok) == (UmTok { mode: 0, ..*old(tok) }),
//@ endfn
//@ endimpl
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { x: PhantomData<T> }
impl<T> Arc<T> {
    pub uninterp spec fn v(&self) -> T;
    pub uninterp spec fn wid(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Arc<T>) ensures r.v() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self, Tracked(t): Tracked<&mut UmTok<Task>>) -> (r: Arc<T>) ensures r == *self, *final(t) == *old(t) { unimplemented!() }
}
impl<T> core::ops::Deref for Arc<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.v() { unimplemented!() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct FutureObj<'a, T> { x: PhantomData<&'a T> }
impl<'a> FutureObj<'a, ()> {
    #[verifier::external_body]
    pub fn poll_unpin(&mut self, cx: &mut Context<'_>, Tracked(t): Tracked<&mut UmTok<Task>>) -> (r: Poll<()>)
        requires
            old(t).mode == 2, // polled by one thread at a time, once its word says so
            !old(t).done, // [term] a completed future is never polled again
        ensures
            *final(cx) == *old(cx),
            *final(t) == (UmTok { need: false, done: r is Ready, ..*old(t) }),
            r is Pending ==> final(self).armed(old(cx).id()),
    { unimplemented!() }
    pub uninterp spec fn armed(&self, w: int) -> bool;
}
pub struct WakerRef { pub w: Waker }
impl core::ops::Deref for WakerRef { type Target = Waker; fn deref(&self) -> (r: &Waker) ensures *r == self.w { &self.w } }
#[verifier::external_body]
pub fn waker_ref(a: &Arc<WakeHandle>) -> (r: WakerRef) ensures r.w.id() == a.wid() { unimplemented!() } // unit waker
impl<'a> Context<'a> { pub fn from_waker(w: &'a Waker) -> (r: Context<'a>) ensures r.id() == w.id() { Context { w } } }
#[verifier::external_body]
pub struct TxMutex { x: u8 }
pub struct TxGuard { x: u8 }
impl TxMutex { #[verifier::external_body] pub fn lock(&self) -> (r: Result<TxGuard, ()>) ensures r is Ok { unimplemented!() } }
impl TxGuard {
    // std::sync::mpsc: every message is received, once, by one of the workers; the receiver lives as long as the pool state
    #[verifier::external_body]
    pub fn send(&self, m: Message, Tracked(t): Tracked<&mut UmTok<Task>>) -> (r: Result<(), ()>)
        requires m is Run ==> old(t).mode == 1, // a task is handed over by its owner
        ensures r is Ok, *final(t) == (if m is Run { UmTok { mode: 0, noted: true, ..*old(t) } } else { UmTok { closes: old(t).closes + 1, ..*old(t) } }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct RxMutex { x: u8 }
pub struct RxGuard { x: u8 }
impl RxMutex { #[verifier::external_body] pub fn lock(&self) -> (r: Result<RxGuard, ()>) ensures r is Ok { unimplemented!() } }
impl RxGuard {
    #[verifier::external_body]
    pub fn recv(&self, Tracked(t): Tracked<&mut UmTok<Task>>) -> (r: Result<Message, ()>)
        requires old(t).mode == 0, !old(t).closed, // the task received before was run; one request to stop per worker
        ensures r is Ok, *final(t) == (if r->Ok_0 is Run { UmTok { mode: 1, need: true, done: false, waiting: false, ..*old(t) } } else { UmTok { closed: true, ..*old(t) } }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Cnt { x: u8 }
impl Cnt {
    #[verifier::external_body]
    pub fn fetch_add(&self, n: usize, o: Ordering, Tracked(t): Tracked<&mut UmTok<Task>>) -> (r: usize)
        ensures *final(t) == (UmTok { handles: old(t).handles + n, ..*old(t) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, n: usize, o: Ordering, Tracked(t): Tracked<&mut UmTok<Task>>) -> (r: usize)
        ensures *final(t) == (UmTok { handles: old(t).handles - n, last: r == n, ..*old(t) }) { unimplemented!() }
}
#[verifier::external_body]
pub struct Hook { x: u8 }
impl Hook {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn call(&self, i: usize, Tracked(t): Tracked<&mut UmTok<Task>>)
        requires old(t).mode == 0,
        ensures *final(t) == (UmTok { hooks: old(t).hooks.push((self.id(), i)), ..*old(t) }) { unimplemented!() }
}
pub open spec fn ran(h: Option<Hook>, i: usize) -> Seq<(int, usize)> { match h { Some(x) => seq![(x.id(), i)], None => Seq::empty() } }
pub struct Enter { x: u8 }
#[verifier::external_body]
pub fn enter() -> (r: Result<Enter, ()>) ensures r is Ok { unimplemented!() } // a worker thread is entered once, when it starts
//@ file futures-executor/src/thread_pool.rs
//@ struct ThreadPool
//@ struct PoolState type:tx=TxMutex type:rx=RxMutex type:cnt=Cnt
//@ struct Message
//@ struct Task
//@ struct WakeHandle
//@ impl ThreadPool
//@ fn spawn_obj_ok
//@ params Tracked(tok): Tracked<&mut UmTok<Task>>
    requires old(tok).mode == 0,
    ensures final(tok).mode == 0 && final(tok).noted && final(tok).closes == old(tok).closes, // the task is handed to the pool
        final(tok).handles == old(tok).handles + 2, // the task and its waker keep the pool running
//@ endfn
//@ endimpl
//@ impl PoolState
//@ fn send
//@ params Tracked(tok): Tracked<&mut UmTok<Task>>
    requires msg is Run ==> old(tok).mode == 1,
    ensures *final(tok) == (if msg is Run { UmTok { mode: 0, noted: true, ..*old(tok) } } else { UmTok { closes: old(tok).closes + 1, ..*old(tok) } }),
//@ endfn
//@ fn work
//@ params Tracked(tok): Tracked<&mut UmTok<Task>>
//@ subst Option<Arc<dyn Fn(usize) + Send + Sync>> =>> Option<Hook>
//@ subst after_start(idx) =>> after_start.call(idx)
//@ subst before_stop(idx) =>> before_stop.call(idx)
//@ attr #[verifier::allow_complex_invariants]
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires old(tok).mode == 0, !old(tok).closed,
    ensures
        final(tok).closed && final(tok).mode == 0, // ends only when asked to; every task it received was run
        final(tok).hooks == old(tok).hooks + ran(after_start, idx) + ran(before_stop, idx), // hooks once, with this worker's index
//@ loop 0
    invariant_except_break tok.mode == 0, !tok.closed,
    invariant tok.hooks == old(tok).hooks + ran(old_after, idx),
    ensures tok.closed, tok.mode == 0,
//@ entry
    let ghost old_after = after_start;
    assert(tok.hooks + Seq::<(int, usize)>::empty() =~= tok.hooks);
//@ endfn
//@ endimpl
//@ impl Clone for ThreadPool
//@ header impl ThreadPool
//@ fn clone -> r
//@ params Tracked(tok): Tracked<&mut UmTok<Task>>
    ensures r.state == self.state, *final(tok) == (UmTok { handles: old(tok).handles + 1, ..*old(tok) }), // every handle is counted
//@ endfn
//@ endimpl
//@ impl Drop for ThreadPool
//@ header impl ThreadPool
//@ fn drop
//@ params Tracked(tok): Tracked<&mut UmTok<Task>>
    ensures
        final(tok).handles == old(tok).handles - 1,
        final(tok).closes == old(tok).closes + (if final(tok).last { old(self).state.v().size as int } else { 0 }), // the last handle stops every worker; no other does
//@ loop 0
    invariant tok.closes == old(tok).closes + __i, tok.last, tok.handles == old(tok).handles - 1, *self == *old(self),
//@ endfn
//@ endimpl
//@ impl Task
//@ fn run
//@ params Tracked(tok): Tracked<&mut UmTok<Task>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires old(tok).mode == 1, !old(tok).done,
    ensures
        *final(tok) == (UmTok { mode: 0, cell: final(tok).cell, need: false, done: final(tok).done, waiting: final(tok).waiting, ..*old(tok) }),
        final(tok).done || final(tok).waiting, // polled until it completed, or is pending with no request left
//@ loop 0
    invariant tok.mode == 2, !tok.done, *tok == (UmTok { mode: 2, cell: tok.cell, need: tok.need, done: false, ..*old(tok) }), cx.id() == wake_handle.wid(),
//@ endfn
//@ endimpl
//@ impl ArcWake for WakeHandle
//@ header impl WakeHandle
//@ fn wake_by_ref
//@ params Tracked(tok): Tracked<&mut UmTok<Task>>
    requires old(tok).mode == 0,
    ensures final(tok).mode == 0 && final(tok).noted, // a poll begins after this, or the task is complete
//@ endfn
//@ endimpl
// The machine: one task, any number of threads that wake it.  owed: a wake-up arrived since the last poll began
pub struct Sys { pub status: int, pub holder: int, pub need: bool, pub owed: bool, pub done: bool, pub incell: bool } // holder 0 nobody, 1 on its way to a worker, 2 polling
pub enum Step { NotifyTake, NotifyFlag, NotifyNothing, Start, Poll, Complete, Wait, Again }
pub open spec fn inv(s: Sys) -> bool {
    &&& 0 <= s.status < 4 && 0 <= s.holder <= 2
    &&& s.status == 0 ==> s.holder == 0 && s.incell && !s.need
    &&& s.status == 1 ==> s.holder != 0
    &&& s.status == 2 ==> s.holder != 0
    &&& s.status == 3 ==> s.holder == 0 && s.done
    &&& s.owed ==> s.status == 2 || s.status == 3 || s.need || s.holder == 1
}
pub open spec fn next(s: Sys, x: Step, n: Sys) -> bool {
    match x {
        Step::NotifyTake => s.status == 0 && n == (Sys { status: 1, holder: 1, need: true, owed: true, incell: false, ..s }),
        Step::NotifyFlag => s.status == 1 && n == (Sys { status: 2, owed: true, ..s }),
        Step::NotifyNothing => (s.status == 2 || s.status == 3) && n == (Sys { owed: true, ..s }),
        Step::Start => s.holder == 1 && n == (Sys { status: 1, holder: 2, need: true, ..s }),
        Step::Poll => s.holder == 2 && n == (Sys { need: false, owed: if s.status == 1 { false } else { s.owed }, done: n.done, ..s }),
        Step::Complete => s.holder == 2 && s.done && n == (Sys { status: 3, holder: 0, ..s }),
        Step::Wait => s.holder == 2 && s.status == 1 && !s.need && n == (Sys { status: 0, holder: 0, incell: true, ..s }),
        Step::Again => s.holder == 2 && s.status == 2 && n == (Sys { status: 1, need: true, ..s }),
    }
}
pub proof fn machine_init() ensures inv(Sys { status: 1, holder: 1, need: true, owed: true, done: false, incell: false }) {}
pub proof fn machine_step(s: Sys, x: Step, n: Sys) requires inv(s), next(s, x, n) ensures inv(n) {}
// a wake-up is never lost: the task is not left waiting while one is outstanding
pub proof fn machine_no_lost_wake(s: Sys) requires inv(s), s.owed, !s.done ensures s.status != 0 {}
pub proof fn machine_rely(s: Sys) requires inv(s) ensures s.holder == 2 ==> s.status == 1 || s.status == 2, s.status == 0 ==> s.incell {}
}
