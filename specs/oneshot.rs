//@ include prelude
//@ include conc
verus! {
pub use std::sync::Arc;
// Oneshot channel.  One sender (role 1) and one receiver (role 2) share a `complete` flag, the value slot and two
// waker slots, each behind a Lock (unit chan_lock: at most one holder).
// Protocol (guarantee):  `complete` only ever becomes true;  a side touches the slot of the *other* side (the receiver: value
// and tx_task; the sender: rx_task) only after it knows that `complete` is set;  only the sender fills the value slot, once.
pub tracked struct OsTok<T> {
    pub ghost role: int,
    pub ghost known: bool,      // this side knows that `complete` is set
    pub ghost stored: bool,     // this side set `complete`
    pub ghost sent: Option<T>,  // value this side put into the value slot
    // value slot
    pub ghost d_held: bool,
    pub ghost d_seen: Option<Option<T>>, // contents found when last locked after `complete` was known
    pub ghost d_fail: bool,     // last attempt after `complete` was known found it locked
    pub ghost d_checked: bool,  // `complete` seen unset since the slot was last released
    pub ghost taken: Option<T>, // value taken out of the slot by this side
    // receiver's waker slot
    pub ghost r_held: bool,
    pub ghost r_visited: bool,  // (sender) visited after setting `complete`
    pub ghost r_found: Option<int>, // (sender) waker found then
    pub ghost r_pub: Option<int>, // (receiver) waker left in the slot
    pub ghost r_checked: bool,  // (receiver) `complete` seen unset after the waker was left there
    // sender's waker slot
    pub ghost t_held: bool,
    pub ghost t_visited: bool,
    pub ghost t_found: Option<int>,
    pub ghost t_pub: Option<int>,
    pub ghost t_checked: bool,
}
impl<T> OsTok<T> {
    pub open spec fn idle(&self) -> bool { !self.d_held && !self.r_held && !self.t_held }
    pub open spec fn fresh(&self, role: int) -> bool {
        self.role == role && self.idle() && !self.d_checked && self.d_seen is None && !self.d_fail && self.taken is None && !self.r_visited && self.r_found is None
        && !self.r_checked && !self.t_visited && self.t_found is None && !self.t_checked && !self.stored
    }
}
pub open spec fn wid(w: Option<Waker>) -> Option<int> { match w { Some(x) => Some(x.id()), None => None } }
pub trait VNew<C>: Sized { spec fn init(&self) -> C; fn vnew(c: C) -> (r: Self) ensures r.init() == c; }
pub struct AtomicBool { }
impl AtomicBool { pub fn new<F: VNew<bool>>(c: bool) -> (r: F) ensures r.init() == c { F::vnew(c) } }
pub struct Lock { }
impl Lock { pub fn new<C, F: VNew<C>>(c: C) -> (r: F) ensures r.init() == c { F::vnew(c) } }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Flag<T> { x: PhantomData<T> }
impl<T> VNew<bool> for Flag<T> { uninterp spec fn init(&self) -> bool; #[verifier::external_body] fn vnew(c: bool) -> (r: Self) { unimplemented!() } }
impl<T> Flag<T> {
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut OsTok<T>>) -> (r: bool)
        requires o is SeqCst, // store-then-load on both sides: needs the single total order
        ensures
            old(t).known ==> r,
            r ==> *final(t) == (OsTok { known: true, ..*old(t) }),
            !r ==> *final(t) == (OsTok { d_checked: old(t).d_checked || !old(t).d_held, r_checked: old(t).r_checked || !old(t).r_held, t_checked: old(t).t_checked || !old(t).t_held, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut OsTok<T>>)
        requires
            v, // once complete, always complete
            o is SeqCst,
        ensures *final(t) == (OsTok { known: true, stored: true, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut OsTok<T>>) -> (r: bool)
        requires v, o is SeqCst,
        ensures old(t).known ==> r, *final(t) == (OsTok { known: true, stored: true, ..*old(t) }),
    { unimplemented!() }
}
// ---- value slot
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct DataLock<T> { x: T }
pub struct DataGuard<T> { pub v: Option<T>, pub live: Ghost<bool>, pub found: Ghost<Option<T>> }
impl<T> VNew<Option<T>> for DataLock<T> { uninterp spec fn init(&self) -> Option<T>; #[verifier::external_body] fn vnew(c: Option<T>) -> (r: Self) { unimplemented!() } }
impl<T> DataLock<T> {
    #[verifier::external_body]
    pub fn try_lock(&self, Tracked(t): Tracked<&mut OsTok<T>>) -> (r: Option<DataGuard<T>>)
        requires
            !old(t).d_held,
            old(t).role == 2 ==> old(t).known, // the receiver looks at the value only once the channel is complete
        ensures
            // fails only while the other side holds it: the receiver does so only when complete
            r is None ==> *final(t) == (OsTok { d_fail: old(t).known, d_seen: None, known: old(t).known || old(t).role == 1, ..*old(t) }),
            r matches Some(g) ==> g.live@ && g.found@ == g.v && *final(t) == (OsTok { d_held: true, d_fail: false, d_seen: if old(t).known { Some(g.v) } else { None }, ..*old(t) }),
            // the sender: empty until it puts a value, then that value, unless the receiver took it
            r matches Some(g) ==> old(t).role == 1 ==> g.v is None || g.v == old(t).sent,
    { unimplemented!() }
}
impl<T> Deref for DataGuard<T> { type Target = Option<T>; fn deref(&self) -> (r: &Option<T>) ensures *r == self.v { &self.v } }
impl<T> DerefMut for DataGuard<T> {
    fn deref_mut(&mut self) -> (r: &mut Option<T>) ensures *r == old(self).v, *final(self) == (DataGuard { v: *final(r), live: old(self).live, found: old(self).found }) { &mut self.v }
}
impl<T> DataGuard<T> {
    #[verifier::external_body]
    pub fn vunlock(&mut self, Tracked(t): Tracked<&mut OsTok<T>>)
        requires
            old(self).live@ ==> old(t).d_held,
            old(self).live@ ==> old(self).v is None || old(self).v == old(self).found@ || (old(t).role == 1 && old(t).sent is None), // only the sender fills the slot, and only once
        ensures
            !final(self).live@,
            !old(self).live@ ==> *final(t) == *old(t),
            old(self).live@ ==> *final(t) == (OsTok {
                d_held: false, d_checked: false,
                sent: if old(self).v is Some && old(t).role == 1 { old(self).v } else { old(t).sent },
                taken: if old(self).found@ is Some && old(self).v is None { old(self).found@ } else { old(t).taken },
                ..*old(t) }),
    { unimplemented!() }
}
// ---- waker slots
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RxLock<T> { x: PhantomData<T> }
pub struct RxGuard<T> { pub v: Option<Waker>, pub live: Ghost<bool>, pub p: PhantomData<T> }
impl<T> VNew<Option<Waker>> for RxLock<T> { uninterp spec fn init(&self) -> Option<Waker>; #[verifier::external_body] fn vnew(c: Option<Waker>) -> (r: Self) { unimplemented!() } }
impl<T> RxLock<T> {
    #[verifier::external_body]
    pub fn try_lock(&self, Tracked(t): Tracked<&mut OsTok<T>>) -> (r: Option<RxGuard<T>>)
        requires
            !old(t).r_held,
            old(t).role == 1 ==> old(t).stored, // the sender visits the receiver's waker only after setting `complete`
        ensures
            // fails only while the other side holds it: the sender does so only when complete
            r is None ==> *final(t) == (OsTok { r_visited: true, r_found: None, known: old(t).known || old(t).role == 2, ..*old(t) }),
            r matches Some(g) ==> g.live@ && *final(t) == (OsTok { r_held: true, r_visited: true, r_found: wid(g.v), r_checked: false, ..*old(t) }),
    { unimplemented!() }
}
impl<T> Deref for RxGuard<T> { type Target = Option<Waker>; fn deref(&self) -> (r: &Option<Waker>) ensures *r == self.v { &self.v } }
impl<T> DerefMut for RxGuard<T> {
    fn deref_mut(&mut self) -> (r: &mut Option<Waker>) ensures *r == old(self).v, *final(self) == (RxGuard { v: *final(r), live: old(self).live, p: old(self).p }) { &mut self.v }
}
impl<T> RxGuard<T> {
    #[verifier::external_body]
    pub fn vunlock(&mut self, Tracked(t): Tracked<&mut OsTok<T>>)
        requires old(self).live@ ==> old(t).r_held,
        ensures
            !final(self).live@,
            !old(self).live@ ==> *final(t) == *old(t),
            old(self).live@ ==> *final(t) == (OsTok { r_held: false, r_pub: wid(old(self).v), r_checked: false, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct TxLock<T> { x: PhantomData<T> }
pub struct TxGuard<T> { pub v: Option<Waker>, pub live: Ghost<bool>, pub p: PhantomData<T> }
impl<T> VNew<Option<Waker>> for TxLock<T> { uninterp spec fn init(&self) -> Option<Waker>; #[verifier::external_body] fn vnew(c: Option<Waker>) -> (r: Self) { unimplemented!() } }
impl<T> TxLock<T> {
    #[verifier::external_body]
    pub fn try_lock(&self, Tracked(t): Tracked<&mut OsTok<T>>) -> (r: Option<TxGuard<T>>)
        requires
            !old(t).t_held,
            old(t).role == 2 ==> old(t).stored, // the receiver visits the sender's waker only after setting `complete`
        ensures
            r is None ==> *final(t) == (OsTok { t_visited: true, t_found: None, known: old(t).known || old(t).role == 1, ..*old(t) }),
            r matches Some(g) ==> g.live@ && *final(t) == (OsTok { t_held: true, t_visited: true, t_found: wid(g.v), t_checked: false, ..*old(t) }),
    { unimplemented!() }
}
impl<T> Deref for TxGuard<T> { type Target = Option<Waker>; fn deref(&self) -> (r: &Option<Waker>) ensures *r == self.v { &self.v } }
impl<T> DerefMut for TxGuard<T> {
    fn deref_mut(&mut self) -> (r: &mut Option<Waker>) ensures *r == old(self).v, *final(self) == (TxGuard { v: *final(r), live: old(self).live, p: old(self).p }) { &mut self.v }
}
impl<T> TxGuard<T> {
    #[verifier::external_body]
    pub fn vunlock(&mut self, Tracked(t): Tracked<&mut OsTok<T>>)
        requires old(self).live@ ==> old(t).t_held,
        ensures
            !final(self).live@,
            !old(self).live@ ==> *final(t) == *old(t),
            old(self).live@ ==> *final(t) == (OsTok { t_held: false, t_pub: wid(old(self).v), t_checked: false, ..*old(t) }),
    { unimplemented!() }
}
// ---- the machine: waiter W (publishes its waker, then checks `complete`) against completer C (sets `complete`, then visits the
// waker slot), in any interleaving.  W is the receiver and C the sender dropping, or W the sender and C the receiver closing.
pub struct Sys {
    pub complete: bool,
    pub hold: int,           // who holds the waker slot: 0 nobody, 1 W, 2 C
    pub slot: Option<int>,
    pub w_pub: Option<int>,  // W released the slot with this waker and has not checked yet
    pub waiting: Option<int>, // W returned Pending with this waker
    pub c: int,              // C: 0 not started, 1 complete set, 2 holds the slot, 3 done
    pub found: Option<int>,  // C took this waker, to wake it
    pub woken: Set<int>,
}
pub open spec fn inv(s: Sys) -> bool {
    &&& (s.complete <==> s.c >= 1) && 0 <= s.c <= 3
    &&& (s.hold == 2 <==> s.c == 2) && 0 <= s.hold <= 2
    &&& (s.c == 3 && s.found is Some ==> s.woken.contains(s.found->0))
    &&& (s.w_pub is Some ==> s.hold != 1 && s.waiting is None && (s.c < 2 ==> s.slot == s.w_pub))
    &&& (s.waiting is Some ==> s.hold != 1 && (s.woken.contains(s.waiting->0) || (s.c < 2 && s.slot == s.waiting) || (s.c == 2 && s.found == s.waiting)))
}
pub enum Step { WLock, WRelease(int), WCheckPending, WCheckDone, WRetry, CStore, CLock, CLockFail, CWake }
pub open spec fn next(s: Sys, x: Step, n: Sys) -> bool {
    match x {
        Step::WRetry => n == (Sys { waiting: None, w_pub: None, ..s }), // W is polled again
        Step::WLock => s.hold == 0 && s.waiting is None && n == (Sys { hold: 1, w_pub: None, ..s }),
        Step::WRelease(w) => s.hold == 1 && n == (Sys { hold: 0, slot: Some(w), w_pub: Some(w), ..s }),
        Step::WCheckPending => s.w_pub is Some && !s.complete && n == (Sys { waiting: s.w_pub, w_pub: None, ..s }), // contract of recv/poll_canceled
        Step::WCheckDone => s.complete && n == (Sys { w_pub: None, ..s }),
        Step::CStore => s.c == 0 && n == (Sys { complete: true, c: 1, ..s }),
        Step::CLock => s.c == 1 && s.hold == 0 && n == (Sys { hold: 2, c: 2, found: s.slot, ..s }),
        Step::CLockFail => s.c == 1 && s.hold == 1 && n == (Sys { c: 3, found: None, ..s }),
        Step::CWake => s.c == 2 && n == (Sys { hold: 0, c: 3, slot: None, woken: match s.found { Some(w) => s.woken.insert(w), None => s.woken }, ..s }), // contract of drop_tx/close_rx/drop_rx
    }
}
pub proof fn machine_init() ensures inv(Sys { complete: false, hold: 0, slot: None, w_pub: None, waiting: None, c: 0, found: None, woken: Set::empty() }) {}
pub proof fn machine_step(s: Sys, x: Step, n: Sys) requires inv(s), next(s, x, n) ensures inv(n) {}
pub proof fn machine_no_lost_wake(s: Sys) // once the completer is done, a waiter that is still waiting has been woken
    requires inv(s), s.c == 3, s.waiting is Some ensures s.woken.contains(s.waiting->0) {}
//@ trackall load store swap => Tracked(&mut *tok)
//@ guardall try_lock => Tracked(&mut *tok)
//@ trackall send poll_canceled is_canceled drop_tx close_rx try_recv recv drop_rx => Tracked(&mut *tok)
//@ file futures-channel/src/oneshot.rs
//@ struct Canceled
//@ struct Inner type:complete=Flag<T> type:data=DataLock<T> type:rx_task=RxLock<T> type:tx_task=TxLock<T>
//@ struct Sender
//@ struct Receiver
//@ impl Inner
//@ fn new -> r
    ensures !r.complete.init() && r.data.init() is None && r.rx_task.init() is None && r.tx_task.init() is None,
//@ endfn
//@ fn send -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(1), old(tok).sent is None,
    ensures
        final(tok).idle(), // no lock is left held
        r matches Err(x) ==> x == t, // the value is given back
        r is Err ==> final(tok).known, // sending fails only if the receiver is gone or closed
        r is Err ==> final(tok).sent is None || final(tok).taken == Some(t), // a value given back cannot be received as well
        r is Ok ==> final(tok).sent == Some(t) && final(tok).taken is None, // a value accepted is in the channel
        r is Ok ==> final(tok).d_checked || final(tok).d_fail || final(tok).d_seen == Some(None::<T>), // it is not left behind in a closed channel
//@ endfn
//@ fn poll_canceled -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(1),
    ensures
        *final(cx) == *old(cx),
        final(tok).idle(),
        r is Ready ==> final(tok).known, // reports cancellation only if it happened
        r is Pending ==> final(tok).t_pub == Some(old(cx).id()) && final(tok).t_checked, // [wake] waker registered, and the channel still open afterwards
//@ endfn
//@ fn is_canceled -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    ensures r ==> final(tok).known, old(tok).known ==> r, final(tok).idle() == old(tok).idle(),
        r ==> *final(tok) == (OsTok { known: true, ..*old(tok) }),
        !r ==> *final(tok) == (OsTok { d_checked: old(tok).d_checked || !old(tok).d_held, r_checked: old(tok).r_checked || !old(tok).r_held, t_checked: old(tok).t_checked || !old(tok).t_held, ..*old(tok) }),
//@ endfn
//@ fn drop_tx
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(1),
    ensures
        final(tok).stored && final(tok).idle(), // the receiver can see that the sender is gone
        final(tok).r_visited && (final(tok).r_found matches Some(w) ==> wake_requested(w)), // [wake] and a waiting receiver is woken
//@ endfn
//@ fn close_rx
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(2),
    ensures
        final(tok).stored && final(tok).idle(), // the sender can see that the receiver is closed
        final(tok).t_visited && (final(tok).t_found matches Some(w) ==> wake_requested(w)), // [wake] and a waiting sender is woken
        final(tok).taken is None,
//@ endfn
//@ fn try_recv -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(2),
    ensures
        final(tok).idle(),
        r matches Ok(Some(x)) ==> final(tok).taken == Some(x), // the value comes out of the channel, once
        r matches Ok(None) ==> final(tok).taken is None && !old(tok).known,
        r is Err ==> final(tok).taken is None && final(tok).known && (final(tok).d_fail || final(tok).d_seen == Some(None::<T>)), // canceled only if complete without a value
//@ endfn
//@ fn recv -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(2),
    ensures
        *final(cx) == *old(cx),
        final(tok).idle(),
        r matches Poll::Ready(Ok(x)) ==> final(tok).taken == Some(x), // the value comes out of the channel, once
        r matches Poll::Ready(Err(_)) ==> final(tok).taken is None && final(tok).known && (final(tok).d_fail || final(tok).d_seen == Some(None::<T>)), // canceled only if complete without a value
        r is Pending ==> final(tok).taken is None,
        r is Pending ==> final(tok).r_pub == Some(old(cx).id()) && final(tok).r_checked, // [wake] waker registered, and not complete afterwards
//@ endfn
//@ fn drop_rx
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(2),
    ensures
        final(tok).stored && final(tok).idle(), // the sender can see that the receiver is gone
        final(tok).t_visited && (final(tok).t_found matches Some(w) ==> wake_requested(w)), // [wake] and a waiting sender is woken
//@ endfn
//@ endimpl
//@ impl FusedFuture for Receiver
//@ header impl<T> Receiver<T>
//@ fn is_terminated -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(2),
    ensures
        final(tok).idle() && final(tok).taken is None, // looking does not take the value
        r ==> final(tok).known && (final(tok).d_fail || final(tok).d_seen == Some(None::<T>)), // [term]
        !r ==> !final(tok).known || final(tok).d_seen matches Some(Some(_)), // [term] a value is still there to be received
//@ endfn
//@ endimpl
//@ impl Sender
//@ fn send -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(1), old(tok).sent is None,
    ensures
        final(tok).idle(),
        r matches Err(x) ==> x == t,
        r is Err ==> final(tok).known,
        r is Err ==> final(tok).sent is None || final(tok).taken == Some(t),
        r is Ok ==> final(tok).sent == Some(t) && final(tok).taken is None,
        r is Ok ==> final(tok).d_checked || final(tok).d_fail || final(tok).d_seen == Some(None::<T>),
//@ endfn
//@ fn poll_canceled -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(1),
    ensures
        *final(cx) == *old(cx),
        final(tok).idle(),
        r is Ready ==> final(tok).known,
        r is Pending ==> final(tok).t_pub == Some(old(cx).id()) && final(tok).t_checked, // [wake]
//@ endfn
//@ fn is_canceled -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    ensures r ==> final(tok).known, old(tok).known ==> r,
//@ endfn
//@ endimpl
//@ struct Cancellation
//@ impl Future for Cancellation
//@ header impl<'a, T> Cancellation<'a, T>
//@ noassoc
//@ fn poll -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(1),
    ensures
        *final(cx) == *old(cx),
        final(tok).idle(),
        r is Ready ==> final(tok).known,
        r is Pending ==> final(tok).t_pub == Some(old(cx).id()) && final(tok).t_checked, // [wake]
//@ endfn
//@ endimpl
//@ impl Receiver
//@ fn close
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(2),
    ensures
        final(tok).stored && final(tok).idle(),
        final(tok).t_visited && (final(tok).t_found matches Some(w) ==> wake_requested(w)), // [wake]
        final(tok).taken is None,
//@ endfn
//@ fn try_recv -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(2),
    ensures
        final(tok).idle(),
        r matches Ok(Some(x)) ==> final(tok).taken == Some(x),
        r matches Ok(None) ==> final(tok).taken is None && !old(tok).known,
        r is Err ==> final(tok).taken is None && final(tok).known && (final(tok).d_fail || final(tok).d_seen == Some(None::<T>)),
//@ endfn
//@ endimpl
//@ impl Future for Receiver
//@ header impl<T> Receiver<T>
//@ noassoc
//@ fn poll -> r
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(2),
    ensures
        *final(cx) == *old(cx),
        final(tok).idle(),
        r matches Poll::Ready(Ok(x)) ==> final(tok).taken == Some(x),
        r matches Poll::Ready(Err(_)) ==> final(tok).taken is None && final(tok).known && (final(tok).d_fail || final(tok).d_seen == Some(None::<T>)),
        r is Pending ==> final(tok).taken is None && final(tok).r_pub == Some(old(cx).id()) && final(tok).r_checked, // [wake]
//@ endfn
//@ endimpl
//@ impl Drop for Sender
//@ header impl<T> Sender<T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(1),
    ensures
        final(tok).stored && final(tok).idle(),
        final(tok).r_visited && (final(tok).r_found matches Some(w) ==> wake_requested(w)), // [wake]
//@ endfn
//@ endimpl
//@ impl Drop for Receiver
//@ header impl<T> Receiver<T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut OsTok<T>>
    requires old(tok).fresh(2),
    ensures
        final(tok).stored && final(tok).idle(),
        final(tok).t_visited && (final(tok).t_found matches Some(w) ==> wake_requested(w)), // [wake]
//@ endfn
//@ endimpl
}
