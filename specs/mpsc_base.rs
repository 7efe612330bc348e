//@ include prelude
//@ include conc
verus! {
global size_of usize == 8;
pub use std::sync::Arc;
pub mod thread { pub fn yield_now() {} }
//@ file futures-channel/src/mpsc/mod.rs
//@ const OPEN_MASK
//@ const INIT_STATE
//@ const MAX_CAPACITY
//@ const MAX_BUFFER
//@ struct State
// The state word: top bit = channel open, rest = number of messages.
pub open spec fn is_open(v: int) -> bool { v >= 0x8000_0000_0000_0000 }
pub open spec fn msgs(v: int) -> int { if v >= 0x8000_0000_0000_0000 { v - 0x8000_0000_0000_0000 } else { v } }
pub broadcast proof fn lemma_consts(v: usize)
    ensures
        (#[trigger] (v & OPEN_MASK) == OPEN_MASK) == is_open(v as int),
{
    assert(OPEN_MASK == 0x8000_0000_0000_0000usize) by (compute);
    assert(((v & 0x8000_0000_0000_0000usize) == 0x8000_0000_0000_0000usize) == (v >= 0x8000_0000_0000_0000usize)) by (bit_vector);
}
pub broadcast proof fn lemma_msgs(v: usize)
    ensures #[trigger] (v & MAX_CAPACITY) == msgs(v as int), (v & !OPEN_MASK) == msgs(v as int), MAX_CAPACITY == 0x7fff_ffff_ffff_ffffusize, MAX_BUFFER == 0x3fff_ffff_ffff_ffffusize, !OPEN_MASK == MAX_CAPACITY
{
    assert(MAX_CAPACITY == 0x7fff_ffff_ffff_ffffusize) by (compute);
    assert(MAX_BUFFER == 0x3fff_ffff_ffff_ffffusize) by (compute);
    assert(!OPEN_MASK == 0x7fff_ffff_ffff_ffffusize) by (compute);
    assert((v & 0x7fff_ffff_ffff_ffffusize) == (if v >= 0x8000_0000_0000_0000usize { (v - 0x8000_0000_0000_0000usize) as usize } else { v })) by (bit_vector);
}
pub broadcast proof fn lemma_open(v: usize)
    requires v < 0x8000_0000_0000_0000
    ensures #[trigger] (v | OPEN_MASK) == v + 0x8000_0000_0000_0000
{
    assert(OPEN_MASK == 0x8000_0000_0000_0000usize) by (compute);
    assert((v | 0x8000_0000_0000_0000usize) == (v + 0x8000_0000_0000_0000usize) as usize) by (bit_vector) requires v < 0x8000_0000_0000_0000;
}
pub proof fn lemma_mask() ensures OPEN_MASK == 0x8000_0000_0000_0000usize, INIT_STATE == 0x8000_0000_0000_0000usize, MAX_CAPACITY == 0x7fff_ffff_ffff_ffffusize, MAX_BUFFER == 0x3fff_ffff_ffff_ffffusize, !OPEN_MASK == 0x7fff_ffff_ffff_ffffusize
{
    assert(OPEN_MASK == 0x8000_0000_0000_0000usize) by (compute);
    assert(INIT_STATE == 0x8000_0000_0000_0000usize) by (compute);
    assert(MAX_CAPACITY == 0x7fff_ffff_ffff_ffffusize) by (compute);
    assert(MAX_BUFFER == 0x3fff_ffff_ffff_ffffusize) by (compute);
    assert(!OPEN_MASK == 0x7fff_ffff_ffff_ffffusize) by (compute);
}
//@ fn decode_state -> r
    ensures r.is_open == is_open(num as int), r.num_messages == msgs(num as int),
//@ entry
    broadcast use {lemma_consts, lemma_msgs};
//@ endfn
//@ fn encode_state -> r
    requires state.num_messages < 0x8000_0000_0000_0000,
    ensures is_open(r as int) == state.is_open, msgs(r as int) == state.num_messages,
//@ entry
    broadcast use lemma_open;
//@ endfn
//@ impl State
//@ fn is_closed -> r
    ensures r == (!self.is_open && self.num_messages == 0),
//@ endfn
//@ fn size_hint -> r
    ensures
        r.0 <= self.num_messages, // [size] messages counted are received, unless the receiver goes away
        r.1 is Some ==> !self.is_open && self.num_messages <= r.1->0, // [size] a bound only once no more messages can be sent
//@ endfn
//@ endimpl

// Protocol.  Messages are counted in the state word before they are queued and uncounted after they are taken, so
//     count = queued + counted by a sender but not queued yet + taken by the receiver but not uncounted yet        (*)
// and nothing is counted once the channel is closed.  A thread that saw (closed, count 0) therefore knows that nothing is left.
pub tracked struct MpTok<T> {
    pub ghost role: int,        // 1 sender, 2 receiver
    pub ghost owed: int,        // sender: messages counted but not queued yet
    pub ghost pushed: Seq<T>,   // sender: messages queued
    pub ghost unsignalled: bool, // sender: queued or closed something without waking the receiver since
    pub ghost closed: bool,     // knows that the channel is closed
    pub ghost finished: bool,   // knows that it is closed and nothing is left
    pub ghost credit: int,      // receiver: messages taken but not uncounted yet
    pub ghost popped: Seq<T>,   // receiver: messages taken
    pub ghost reg: Option<int>, // receiver: waker registered
    pub ghost empty_after: bool, // receiver: queue found empty after that
    pub ghost live_after: bool, // receiver: state seen unfinished after that
    pub ghost last_n: int,      // sender: count including its last message
    pub ghost minted: int,      // sender handles accounted for by this thread
    pub ghost released: int,    // sender handles given up
    pub ghost last: bool,       // the last handle given up was the last one of all
    // parking (bounded channels)
    pub ghost left_parked: bool, // sender: its task is marked as parked
    pub ghost left_task: Option<int>, // sender: waker left there
    pub ghost found_parked: bool, // sender: mark found when last looked
    pub ghost parks: int,       // sender: times its task was put into the parked queue
    pub ghost open_after_park: bool, // sender: channel seen open after that
    pub ghost visits: int,      // receiver: times it looked for a parked sender
    pub ghost drained: bool,    // receiver: found none after closing
    pub ghost notify_due: Option<int>, // receiver: parked task taken from the queue, to be unparked
    pub ghost due_wakes: Set<int>, // receiver: wakers taken from unparked tasks, to be woken
}
impl<T> MpTok<T> {
    pub open spec fn tx(&self) -> bool { self.role == 1 && self.owed == 0 && !self.unsignalled }
    pub open spec fn rx(&self) -> bool { self.role == 2 && self.credit == 0 && self.notify_due is None && (forall|w: int| self.due_wakes.contains(w) ==> #[trigger] wake_requested(w)) }
    pub open spec fn same_tx(&self, o: &MpTok<T>) -> bool { self.pushed == o.pushed && self.owed == o.owed && self.parks == o.parks && self.minted == o.minted && self.released == o.released && self.role == o.role && self.unsignalled == o.unsignalled }
}
pub open spec fn looked<T>(a: MpTok<T>, b: MpTok<T>, v: int) -> bool {
    &&& a.closed ==> !is_open(v)
    &&& a.finished ==> v == 0
    &&& msgs(v) >= a.owed + a.credit
    &&& b == (MpTok {
        closed: a.closed || !is_open(v), finished: a.finished || v == 0,
        live_after: a.live_after || (a.reg is Some && v != 0), open_after_park: a.open_after_park || is_open(v), ..a })
}
pub trait VNew<C>: Sized { spec fn init(&self) -> C; fn vnew(c: C) -> (r: Self) ensures r.init() == c; }
pub struct AtomicUsize { }
impl AtomicUsize { pub fn new<F: VNew<usize>>(c: usize) -> (r: F) ensures r.init() == c { F::vnew(c) } }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct StateWord<T> { x: PhantomData<T> }
impl<T> VNew<usize> for StateWord<T> { uninterp spec fn init(&self) -> usize; #[verifier::external_body] fn vnew(c: usize) -> (r: Self) { unimplemented!() } }
impl<T> StateWord<T> {
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: usize)
        requires o is SeqCst,
        ensures looked(*old(t), *final(t), r as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: usize, n: usize, os: Ordering, of: Ordering, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: Result<usize, usize>)
        requires
            os is SeqCst && of is SeqCst,
            is_open(c as int) && !old(t).closed, // nothing is counted once the channel is closed
            n == c + 1 && old(t).role == 1 && old(t).owed == 0, // messages are counted one by one
        ensures
            r matches Ok(v) ==> v == c && *final(t) == (MpTok { owed: 1, last_n: msgs(n as int), ..*old(t) }),
            r matches Err(v) ==> v != c && looked(*old(t), *final(t), v as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, k: usize, o: Ordering, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: usize)
        requires k == 1 && old(t).role == 2 && old(t).credit >= 1, // uncounts exactly a message that was taken
        ensures msgs(r as int) >= 1, *final(t) == (MpTok { credit: old(t).credit - 1, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, m: usize, o: Ordering, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: usize)
        requires
            m == 0x7fff_ffff_ffff_ffff, // closing clears the open bit and keeps the count
            o is SeqCst,
        ensures old(t).closed ==> !is_open(r as int), *final(t) == (MpTok { closed: true, drained: false, unsignalled: old(t).unsignalled || old(t).role == 1, finished: old(t).finished || msgs(r as int) == 0, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SenderCount<T> { x: PhantomData<T> }
impl<T> VNew<usize> for SenderCount<T> { uninterp spec fn init(&self) -> usize; #[verifier::external_body] fn vnew(c: usize) -> (r: Self) { unimplemented!() } }
impl<T> SenderCount<T> {
    pub uninterp spec fn max(&self) -> int;
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: usize)
        ensures 1 <= r <= self.max(), *final(t) == *old(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: usize, n: usize, os: Ordering, of: Ordering, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: Result<usize, usize>)
        requires
            n == c + 1 && n <= self.max(), // one more handle
        ensures
            r is Ok ==> *final(t) == (MpTok { minted: old(t).minted + 1, ..*old(t) }),
            r matches Err(v) ==> 1 <= v <= self.max() && *final(t) == *old(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, k: usize, o: Ordering, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: usize)
        requires
            k == 1, // one handle less
            o is SeqCst,
        ensures r >= 1, *final(t) == (MpTok { released: old(t).released + 1, last: r == 1, ..*old(t) }),
    { unimplemented!() }
}
// message queue: contract proved in unit mpsc_queue
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MsgQueue<T> { x: PhantomData<T> }
impl<T> MsgQueue<T> {
    #[verifier::external_body]
    pub fn push(&self, m: T, Tracked(t): Tracked<&mut MpTok<T>>)
        requires old(t).role == 1 && old(t).owed == 1, // only a counted message is queued
        ensures *final(t) == (MpTok { owed: 0, pushed: old(t).pushed.push(m), unsignalled: true, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_spin(&self, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: Option<T>)
        requires old(t).role == 2, // single consumer
        ensures
            r matches Some(m) ==> !old(t).finished && *final(t) == (MpTok { credit: old(t).credit + 1, popped: old(t).popped.push(m), ..*old(t) }),
            r is None ==> *final(t) == (MpTok { empty_after: old(t).empty_after || old(t).reg is Some, ..*old(t) }),
    { unimplemented!() }
}
// the receiver's waker: contract proved in unit atomic_waker
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RecvTask<T> { x: PhantomData<T> }
impl<T> RecvTask<T> {
    #[verifier::external_body]
    pub fn register(&self, w: &Waker, Tracked(t): Tracked<&mut MpTok<T>>)
        requires old(t).role == 2,
        ensures *final(t) == (MpTok { reg: Some(w.id()), empty_after: false, live_after: false, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(&self, Tracked(t): Tracked<&mut MpTok<T>>)
        ensures *final(t) == (MpTok { unsignalled: false, ..*old(t) }),
    { unimplemented!() }
}
pub trait VZero: Sized { fn vzero() -> (r: Self); }
impl<T> VZero for MsgQueue<T> { #[verifier::external_body] fn vzero() -> (r: Self) { unimplemented!() } }
impl<T> VZero for RecvTask<T> { #[verifier::external_body] fn vzero() -> (r: Self) { unimplemented!() } }
pub struct Queue { }
impl Queue { pub fn new<F: VZero>() -> (r: F) { F::vzero() } }
pub struct AtomicWaker { }
impl AtomicWaker { pub fn new<F: VZero>() -> (r: F) { F::vzero() } }
// the Sink protocol over a channel handle
pub trait VSink<T>: Sized {
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>, Tracked(tok): Tracked<&mut MpTok<T>>) -> (r: Poll<Result<(), SendError>>)
        requires old(tok).tx(),
        ensures *final(cx) == *old(cx), final(tok).tx() && final(tok).pushed == old(tok).pushed;
    fn start_send(self: Pin<&mut Self>, msg: T, Tracked(tok): Tracked<&mut MpTok<T>>) -> (r: Result<(), SendError>)
        requires old(tok).tx(),
        ensures
            final(tok).tx(),
            r is Ok ==> final(tok).pushed == old(tok).pushed.push(msg), // the message is in the channel
            r is Err ==> final(tok).pushed == old(tok).pushed;
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>, Tracked(tok): Tracked<&mut MpTok<T>>) -> (r: Poll<Result<(), SendError>>)
        requires old(tok).tx(),
        ensures *final(cx) == *old(cx), final(tok).tx() && final(tok).pushed == old(tok).pushed, !(r matches Poll::Ready(Err(_))); // messages sent need no further flushing
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>, Tracked(tok): Tracked<&mut MpTok<T>>) -> (r: Poll<Result<(), SendError>>)
        requires old(tok).tx(), old(tok).credit == 0,
        ensures *final(cx) == *old(cx), final(tok).tx() && final(tok).pushed == old(tok).pushed, r matches Poll::Ready(Ok(_));
}
// ---- machine: the accounting invariant (*) over any number of threads, and the wake-up of the receiver
pub struct Sys { pub open: bool, pub count: int, pub queued: int, pub owed: int, pub credit: int }
pub open spec fn inv(s: Sys) -> bool { s.count == s.queued + s.owed + s.credit && s.queued >= 0 && s.owed >= 0 && s.credit >= 0 }
pub proof fn machine_count(s: Sys) requires inv(s), s.open ensures inv(Sys { count: s.count + 1, owed: s.owed + 1, ..s }) {}
pub proof fn machine_push(s: Sys) requires inv(s), s.owed > 0 ensures inv(Sys { queued: s.queued + 1, owed: s.owed - 1, ..s }) {}
pub proof fn machine_pop(s: Sys) requires inv(s), s.queued > 0 ensures inv(Sys { queued: s.queued - 1, credit: s.credit + 1, ..s }) {}
pub proof fn machine_uncount(s: Sys) requires inv(s), s.credit > 0 ensures inv(Sys { count: s.count - 1, credit: s.credit - 1, ..s }), s.count >= 1 {}
pub proof fn machine_finished(s: Sys) // closed and nothing counted: nothing is queued and nothing will be
    requires inv(s), !s.open, s.count == 0 ensures s.queued == 0 && s.owed == 0 {}
// receiver W registers its waker, then looks (queue, state); sender C queues (or closes), then wakes.  `pend`: something is there
// that W has not seen yet; `c`: senders that queued/closed something and have not called wake yet.
pub struct Wk { pub slot: Option<int>, pub registered: Option<int>, pub waiting: Option<int>, pub pend: bool, pub c: int, pub woken: Set<int> }
pub open spec fn winv(s: Wk) -> bool {
    &&& s.c >= 0
    &&& (s.registered is Some ==> s.waiting is None && (s.slot == s.registered || s.woken.contains(s.registered->0)))
    &&& (s.waiting is Some ==> s.slot == s.waiting || s.woken.contains(s.waiting->0))
    &&& (s.waiting is Some && s.pend ==> s.c > 0 || s.woken.contains(s.waiting->0))
}
pub enum WStep { Poll, Register(int), SeeNothing, SeeAll, Put, Wake }
pub open spec fn wnext(s: Wk, x: WStep, n: Wk) -> bool {
    match x {
        WStep::Poll => n == (Wk { waiting: None, registered: None, ..s }),
        WStep::Register(w) => s.waiting is None && n == (Wk { slot: Some(w), registered: Some(w), ..s }),
        WStep::SeeNothing => s.registered is Some && !s.pend && n == (Wk { waiting: s.registered, registered: None, ..s }), // contract of poll_next: looks after registering
        WStep::SeeAll => s.waiting is None && n == (Wk { pend: false, registered: None, ..s }),
        WStep::Put => n == (Wk { pend: true, c: s.c + 1, ..s }),
        WStep::Wake => s.c > 0 && n == (Wk { c: s.c - 1, slot: None, woken: match s.slot { Some(w) => s.woken.insert(w), None => s.woken }, ..s }), // contract of the senders: wake after putting
    }
}
pub proof fn machine_wake_step(s: Wk, x: WStep, n: Wk) requires winv(s), wnext(s, x, n) ensures winv(n) {}
pub proof fn machine_no_lost_wake(s: Wk) requires winv(s), s.c == 0, s.waiting is Some, s.pend ensures s.woken.contains(s.waiting->0) {}
//@ trackall load store compare_exchange fetch_and fetch_sub pop_spin register => Tracked(&mut *tok)
}
