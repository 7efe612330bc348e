//@ include prelude
//@ include conc
verus! {
pub use std::sync::Arc;
//@ file futures-util/src/lock/mutex.rs
//@ const IS_LOCKED
//@ const HAS_WAITERS
//@ const WAIT_KEY_NONE
//@ struct Waiter
//@ impl Waiter
//@ fn register
    ensures *final(self) matches Waiter::Waiting(w) && w.id() == waker.id(), // [wake] the slot waits with this waker
//@ endfn
//@ fn wake
    ensures
        *final(self) is Woken,
        *old(self) matches Waiter::Waiting(w) ==> wake_requested(w.id()), // [wake]
//@ endfn
//@ endimpl
// Mutex.  State word: bit 0 = locked, bit 1 = there are waiters.  Waiters sit in a slab behind a std mutex; bit 1 is only changed by
// the thread that holds that mutex, which sees the slab's contents in `m`.  Each lock future has at most one slot (`own`), which
// only it inserts, re-registers and removes; other threads can only turn a waiting slot into a woken one, waking its waker.
pub tracked struct MxTok {
    pub ghost holds: bool,            // a guard of this mutex belongs to this token
    pub ghost in_slab: bool,          // holds the std mutex
    pub ghost m: Map<usize, Waiter>,  // slab contents, while in_slab
    pub ghost m0: Map<usize, Waiter>, // slab contents when it was locked
    pub ghost bit: bool,              // HAS_WAITERS, while in_slab
    pub ghost own: Option<usize>,     // slot of the lock future
    pub ghost reg: Option<int>,       // waker left in that slot
    pub ghost held_after: bool,       // the mutex was found locked after that
    pub ghost duty: bool,             // gave up the mutex with waiters, or removed a woken slot without it: somebody else must be woken
}
pub open spec fn slot_ok(a: Waiter, b: Waiter) -> bool { a == b || (b is Woken && (a matches Waiter::Waiting(w) ==> wake_requested(w.id()))) }
impl MxTok {
    pub open spec fn idle(&self) -> bool { !self.in_slab && !self.duty && !self.holds }
    pub open spec fn key(&self) -> usize { match self.own { Some(k) => k, None => usize::MAX } }
    pub open spec fn wf(&self) -> bool { self.own matches Some(k) ==> k != usize::MAX }
    // other futures' slots: untouched, or woken
    pub open spec fn others_ok(&self) -> bool {
        forall|k: usize| #[trigger] self.m.dom().contains(k) && self.own != Some(k) ==> self.m0.dom().contains(k) && slot_ok(self.m0[k], self.m[k])
    }
    // nobody is waiting, or somebody has been woken and has not acted on it yet
    pub open spec fn passed(&self) -> bool { self.m.dom() =~= Set::<usize>::empty() || exists|k: usize| #[trigger] self.m.dom().contains(k) && self.m[k] is Woken }
}
pub open spec fn lk(v: usize) -> bool { v == 1 || v == 3 }
pub open spec fn hw(v: usize) -> bool { v == 2 || v == 3 }
pub broadcast proof fn bits(v: usize)
    requires v < 4
    ensures (#[trigger] (v & 1usize) == 0) == !lk(v), ((v & 2usize) == 0) == !hw(v)
{
    assert((v & 1usize) == (if v == 1 || v == 3 { 1usize } else { 0usize })) by (bit_vector) requires v < 4;
    assert((v & 2usize) == (if v == 2 || v == 3 { 2usize } else { 0usize })) by (bit_vector) requires v < 4;
}
pub broadcast proof fn bits2(v: usize)
    requires v < 4
    ensures ((v & 1usize) == 0) == !lk(v), (#[trigger] (v & 2usize) == 0) == !hw(v)
{ bits(v); }
pub broadcast proof fn bits0() ensures #[trigger] (1usize << 0) == 1usize { assert((1usize << 0) == 1usize) by (bit_vector); }
pub broadcast proof fn bits1() ensures #[trigger] (1usize << 1) == 2usize { assert((1usize << 1) == 2usize) by (bit_vector); }
pub proof fn consts() ensures IS_LOCKED == 1, HAS_WAITERS == 2, WAIT_KEY_NONE == usize::MAX, !1usize != !2usize
{ assert(!1usize != !2usize) by (bit_vector); assert(IS_LOCKED == 1) by (compute); assert(HAS_WAITERS == 2) by (compute); }
#[verifier::external_body]
pub struct AtomicUsize { x: core::sync::atomic::AtomicUsize }
impl AtomicUsize {
    pub uninterp spec fn init(&self) -> int;
    #[verifier::external_body]
    pub const fn new(v: usize) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut MxTok>) -> (r: usize)
        ensures r < 4, old(t).holds ==> lk(r), old(t).in_slab ==> hw(r) == old(t).bit, *final(t) == *old(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, b: usize, o: Ordering, Tracked(t): Tracked<&mut MxTok>) -> (r: usize)
        requires
            b == 1 || b == 2,
            b == 1 ==> o.acquires(), // taking the lock acquires what its previous holder released
            b == 2 ==> old(t).in_slab && !(old(t).m.dom() =~= Set::<usize>::empty()), // the waiter flag follows the slab
        ensures
            r < 4, old(t).holds ==> lk(r), old(t).in_slab ==> hw(r) == old(t).bit,
            b == 1 && !lk(r) ==> *final(t) == (MxTok { holds: true, ..*old(t) }),
            b == 1 && lk(r) ==> *final(t) == (MxTok { held_after: true, ..*old(t) }),
            b == 2 ==> *final(t) == (MxTok { bit: true, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, b: usize, o: Ordering, Tracked(t): Tracked<&mut MxTok>) -> (r: usize)
        requires
            b == !1usize || b == !2usize,
            b == !1usize ==> old(t).holds && o.releases(), // only the holder unlocks, and releases what it wrote
            b == !2usize ==> old(t).in_slab && old(t).m.dom() =~= Set::<usize>::empty(), // the flag is cleared only when nobody waits
        ensures
            r < 4, old(t).holds ==> lk(r), old(t).in_slab ==> hw(r) == old(t).bit,
            b == !1usize ==> *final(t) == (MxTok { holds: false, duty: old(t).duty || hw(r), ..*old(t) }),
            b == !2usize ==> *final(t) == (MxTok { bit: false, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: usize, o: Ordering, Tracked(t): Tracked<&mut MxTok>) -> (r: usize)
        requires false, // would overwrite the other bit
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, n: usize, o: Ordering, Tracked(t): Tracked<&mut MxTok>)
        requires false, // would overwrite the other bit
    { unimplemented!() }
}
pub struct Slab<W> { pub p: PhantomData<W> }
impl<W> Slab<W> { pub const fn new() -> Slab<W> { Slab { p: PhantomData } } }
#[verifier::external_body]
#[verifier::accept_recursive_types(C)]
pub struct StdMutex<C> { x: PhantomData<C> }
#[derive(Debug)]
pub struct Poison { }
pub struct MGuard { pub live: Ghost<bool> }
impl StdMutex<Slab<Waiter>> {
    #[verifier::external_body]
    pub const fn new(c: Slab<Waiter>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self, Tracked(t): Tracked<&mut MxTok>) -> (r: Result<MGuard, Poison>)
        requires !old(t).in_slab, // not re-entrant
        ensures
            r matches Ok(g) && g.live@,
            final(t).in_slab && final(t).m == final(t).m0 && final(t).m.dom().finite(),
            final(t).bit == !(final(t).m.dom() =~= Set::<usize>::empty()),
            final(t).own matches Some(k) ==> final(t).m.dom().contains(k) && (final(t).m[k] matches Waiter::Waiting(w) ==> final(t).reg == Some(w.id())),
            *final(t) == (MxTok { in_slab: true, m: final(t).m, m0: final(t).m0, bit: final(t).bit, ..*old(t) }),
    { unimplemented!() }
}
impl MGuard {
    #[verifier::external_body]
    pub fn vunlock(&mut self, Tracked(t): Tracked<&mut MxTok>)
        requires
            old(self).live@ ==> old(t).in_slab && old(t).others_ok(), // other futures' slots are only ever woken
            old(self).live@ ==> old(t).bit == !(old(t).m.dom() =~= Set::<usize>::empty()), // the flag says whether anybody waits
            old(self).live@ ==> old(t).duty ==> old(t).passed(), // a wake-up that is owed is passed on before anybody can look
        ensures
            !final(self).live@,
            !old(self).live@ ==> *final(t) == *old(t),
            old(self).live@ ==> *final(t) == (MxTok {
                in_slab: false, duty: false,
                reg: match old(t).own { Some(k) => match old(t).m[k] { Waiter::Waiting(w) => Some(w.id()), Waiter::Woken => old(t).reg }, None => None },
                held_after: false, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, w: Waiter, Tracked(t): Tracked<&mut MxTok>) -> (k: usize)
        requires old(self).live@ && old(t).in_slab, old(t).own is None, // one slot per future
        ensures
            *final(self) == *old(self), k != usize::MAX, !old(t).m.dom().contains(k),
            *final(t) == (MxTok { m: old(t).m.insert(k, w), own: Some(k), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: usize, Tracked(t): Tracked<&mut MxTok>) -> (r: Waiter)
        requires old(self).live@ && old(t).in_slab, old(t).own == Some(k), // a future removes only its own slot, once
        ensures
            *final(self) == *old(self), r == old(t).m[k],
            *final(t) == (MxTok { m: old(t).m.remove(k), own: None, duty: old(t).duty || (r is Woken && !old(t).holds), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self, Tracked(t): Tracked<&mut MxTok>) -> (r: usize)
        requires self.live@ && old(t).in_slab
        ensures *final(t) == *old(t), r == old(t).m.dom().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self, Tracked(t): Tracked<&mut MxTok>) -> (r: bool)
        requires self.live@ && old(t).in_slab
        ensures *final(t) == *old(t), r == (old(t).m.dom() =~= Set::<usize>::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vindex_mut<'a>(&'a mut self, k: usize, Tracked(t): Tracked<&'a mut MxTok>) -> (r: &'a mut Waiter)
        requires old(self).live@ && old(t).in_slab, old(t).own == Some(k), // only its own slot
        ensures *final(self) == *old(self), *r == old(t).m[k], *final(t) == (MxTok { m: old(t).m.insert(k, *final(r)), ..*old(t) }),
    { unimplemented!() }
    // iter_mut().next(): the slot with the smallest key
    #[verifier::external_body]
    pub fn vfirst_mut<'a>(&'a mut self, Tracked(t): Tracked<&'a mut MxTok>) -> (r: Option<(usize, &'a mut Waiter)>)
        requires old(self).live@ && old(t).in_slab
        ensures
            *final(self) == *old(self),
            r is None ==> old(t).m.dom() =~= Set::<usize>::empty() && *final(t) == *old(t),
            r matches Some((k, w)) ==> old(t).m.dom().contains(k) && final(t).m.dom().contains(k) && *w == old(t).m[k] && *final(t) == (MxTok { m: old(t).m.insert(k, *final(w)), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ValCell<T> { x: T }
impl<T> ValCell<T> {
    pub uninterp spec fn init(&self) -> T;
    #[verifier::external_body]
    pub const fn new(v: T) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, Tracked(t): Tracked<&MxTok>) -> (r: &'a mut T)
        requires t.holds, // the data is only touched while the lock is held (no data race)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: T) ensures r == self.init() { unimplemented!() }
}
// The machine: any number of lock futures and guards, in any interleaving of the steps above.
pub struct Sys {
    pub locked: bool, pub bit: bool, pub slock: bool,
    pub slots: Set<int>, pub woken: Set<int>,
    pub fresh: Set<int>,  // inserted by the thread that holds the slab
    pub inpoll: Set<int>, // registered, and not looked at the lock since
    pub duty: int,        // threads that owe a wake-up
}
pub open spec fn none(s: Set<int>) -> bool { forall|k: int| !s.contains(k) }
pub open spec fn inv(s: Sys) -> bool {
    &&& s.duty >= 0
    &&& (forall|k: int| #[trigger] s.slots.contains(k) && !s.fresh.contains(k) ==> s.bit)
    &&& (forall|k: int| #[trigger] s.fresh.contains(k) ==> s.slock && s.inpoll.contains(k))
    &&& (forall|k: int| #[trigger] s.inpoll.contains(k) ==> s.slots.contains(k))
    &&& (forall|k: int| #[trigger] s.woken.contains(k) ==> s.slots.contains(k))
    // if the lock is free and somebody waits, somebody has been woken, or is about to look, or owes a wake-up
    &&& (!s.locked && !none(s.slots) ==> s.duty > 0 || !none(s.woken) || !none(s.inpoll))
}
pub enum Step { SLock, SUnlock, Insert(int), Rereg(int), SetBit, ClearBit, TryOk, TryFail, Look(int), LookOk(int), Unlock, WakeOne(int), RemoveHeld(int), RemoveDrop(int) }
pub open spec fn next(s: Sys, x: Step, n: Sys) -> bool {
    match x {
        Step::SLock => !s.slock && n == (Sys { slock: true, ..s }),
        Step::SUnlock => s.slock && s.bit == !none(s.slots) && n == (Sys { slock: false, fresh: Set::empty(), ..s }),
        Step::Insert(k) => s.slock && !s.slots.contains(k) && n == (Sys { slots: s.slots.insert(k), fresh: s.fresh.insert(k), inpoll: s.inpoll.insert(k), ..s }),
        Step::Rereg(k) => s.slock && s.slots.contains(k) && n == (Sys { woken: s.woken.remove(k), inpoll: s.inpoll.insert(k), ..s }),
        Step::SetBit => s.slock && n == (Sys { bit: true, ..s }),
        Step::ClearBit => s.slock && none(s.slots) && n == (Sys { bit: false, ..s }),
        Step::TryOk => !s.locked && n == (Sys { locked: true, ..s }),
        Step::TryFail => s.locked && n == s,
        Step::Look(k) => s.locked && s.inpoll.contains(k) && !s.fresh.contains(k) && n == (Sys { inpoll: s.inpoll.remove(k), ..s }), // found locked after registering: Pending
        Step::LookOk(k) => !s.locked && s.inpoll.contains(k) && !s.fresh.contains(k) && n == (Sys { locked: true, inpoll: s.inpoll.remove(k), ..s }),
        Step::Unlock => s.locked && n == (Sys { locked: false, duty: if s.bit { s.duty + 1 } else { s.duty }, ..s }),
        Step::WakeOne(k) => s.slock && s.duty > 0 && (none(s.slots) || s.slots.contains(k)) && n == (Sys { duty: s.duty - 1, woken: if s.slots.contains(k) { s.woken.insert(k) } else { s.woken }, ..s }),
        Step::RemoveHeld(k) => s.slock && s.locked && s.slots.contains(k) && !s.fresh.contains(k) && n == (Sys { slots: s.slots.remove(k), woken: s.woken.remove(k), inpoll: s.inpoll.remove(k), ..s }),
        Step::RemoveDrop(k) => s.slock && s.slots.contains(k) && !s.fresh.contains(k) && !s.inpoll.contains(k) && n == (Sys { slots: s.slots.remove(k), woken: s.woken.remove(k), duty: if s.woken.contains(k) { s.duty + 1 } else { s.duty }, ..s }),
    }
}
pub proof fn machine_init() ensures inv(Sys { locked: false, bit: false, slock: false, slots: Set::empty(), woken: Set::empty(), fresh: Set::empty(), inpoll: Set::empty(), duty: 0 }) {}
pub proof fn machine_step(s: Sys, x: Step, n: Sys) requires inv(s), next(s, x, n) ensures inv(n)
{
    if !n.locked && !none(n.slots) && n.duty <= 0 {
        match x {
            Step::Insert(k) => { assert(n.inpoll.contains(k)); }
            Step::Rereg(k) => { assert(n.inpoll.contains(k)); }
            Step::WakeOne(k) => { if n.slots.contains(k) { assert(n.woken.contains(k)); } }
            Step::Unlock => { let k = choose|k: int| s.slots.contains(k); assert(s.slots.contains(k)); assert(s.fresh.contains(k)); assert(n.inpoll.contains(k)); }
            Step::RemoveDrop(k) => {
                let j = choose|j: int| n.slots.contains(j); assert(s.slots.contains(j));
                if !none(s.woken) { let i = choose|i: int| s.woken.contains(i); assert(n.woken.contains(i)); } else { let i = choose|i: int| s.inpoll.contains(i); assert(n.inpoll.contains(i)); }
            }
            Step::SLock | Step::SUnlock | Step::SetBit => { let j = choose|j: int| n.slots.contains(j); assert(s.slots.contains(j)); }
            Step::ClearBit => {}
            _ => {}
        }
    }
}
pub proof fn machine_no_lost_wake(s: Sys) // when everybody has finished its step, the lock is free and somebody waits: a waiter has been woken and not acted on it yet
    requires inv(s), !s.locked, !none(s.slots), s.duty == 0, none(s.inpoll) ensures !none(s.woken) {}

//@ trackall fetch_or fetch_and load store swap insert remove len is_empty vfirst_mut try_lock try_lock_owned remove_waker unlock => Tracked(&mut *tok)
//@ guardall lock => Tracked(&mut *tok)
//@ trackall get => Tracked(&*tok)
//@ indexall => Tracked(&mut *tok)
//@ substall .iter_mut().next() =>> .vfirst_mut()
//@ substall UnsafeCell::new =>> ValCell::new
//@ substall T: ?Sized =>> T
//@ struct Mutex sized type:value=ValCell<T>
//@ struct MutexGuard sized
//@ struct OwnedMutexGuard sized
//@ struct MutexLockFuture sized
//@ struct OwnedMutexLockFuture sized
//@ impl Mutex
//@ fn new -> r
    ensures r.state.init() == 0 && r.value.init() == t, // starts unlocked, with the given value
//@ endfn
//@ fn into_inner -> r
    ensures r == self.value.init(),
//@ endfn
//@ endimpl
//@ impl Mutex
//@ header impl<T> Mutex<T>
//@ fn try_lock -> r
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires !old(tok).holds,
    ensures
        r is Some <==> final(tok).holds, // a guard is given out exactly when the lock was free and is now held
        r matches Some(g) ==> g.mutex == self,
        *final(tok) == (MxTok { holds: r is Some, held_after: if r is Some { old(tok).held_after } else { true }, ..*old(tok) }),
//@ entry
    broadcast use {bits, bits2}; proof { consts(); }
//@ endfn
//@ fn try_lock_owned -> r
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires !old(tok).holds,
    ensures
        r is Some <==> final(tok).holds,
        r matches Some(g) ==> g.mutex == *self,
        *final(tok) == (MxTok { holds: r is Some, held_after: if r is Some { old(tok).held_after } else { true }, ..*old(tok) }),
//@ entry
    broadcast use {bits, bits2}; proof { consts(); }
//@ endfn
//@ fn lock -> r
    ensures r.mutex == Some(self) && r.wait_key == usize::MAX, // no slot yet
//@ endfn
//@ fn lock_owned -> r
    ensures r.mutex == Some(self) && r.wait_key == usize::MAX,
//@ endfn
//@ fn remove_waker
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires
        !old(tok).in_slab && !old(tok).duty && old(tok).wf(),
        wait_key == old(tok).key(),
        wake_another || old(tok).holds,
    ensures
        final(tok).own is None, // the slot is given back
        final(tok).holds == old(tok).holds,
        !final(tok).in_slab && !final(tok).duty, // [wake] a wake-up that was received and not used is passed on
//@ entry
    broadcast use {bits, bits2}; proof { consts(); }
//@ endfn
//@ fn unlock
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires old(tok).holds, old(tok).own is None && !old(tok).in_slab && !old(tok).duty,
    ensures
        !final(tok).holds, // the lock is free
        !final(tok).in_slab && !final(tok).duty, // [wake] and a waiter, if there is one, has been woken
        final(tok).own is None,
//@ entry
    broadcast use {bits, bits2}; proof { consts(); }
//@ endfn
//@ endimpl
//@ impl Drop for MutexGuard
//@ header impl<'a, T> MutexGuard<'a, T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires old(tok).holds, old(tok).own is None && !old(tok).in_slab && !old(tok).duty,
    ensures final(tok).idle(), // dropping the guard unlocks
//@ endfn
//@ endimpl
//@ impl Drop for OwnedMutexGuard
//@ header impl<T> OwnedMutexGuard<T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires old(tok).holds, old(tok).own is None && !old(tok).in_slab && !old(tok).duty,
    ensures final(tok).idle(),
//@ endfn
//@ endimpl
//@ impl Future for MutexLockFuture
//@ header impl<'a, T> MutexLockFuture<'a, T>
//@ noassoc
//@ fn poll -> r
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires
        old(tok).idle() && old(tok).wf(), old(self.ptr).mutex is Some, old(self.ptr).wait_key == old(tok).key(),
    ensures
        *final(cx) == *old(cx),
        r is Ready <==> final(tok).holds, // a guard is given out exactly when the lock was free and is now held
        r matches Poll::Ready(g) ==> Some(g.mutex) == old(self.ptr).mutex && final(tok).own is None && final(self.ptr).mutex is None,
        r is Pending ==> final(self.ptr).mutex == old(self.ptr).mutex && final(self.ptr).wait_key == final(tok).key(),
        r is Pending ==> final(tok).reg == Some(old(cx).id()) && final(tok).own is Some && final(tok).held_after, // [wake] the task's waker is registered, and the lock was held afterwards
        !final(tok).in_slab && !final(tok).duty && final(tok).wf(),
//@ entry
    broadcast use {bits, bits2}; proof { consts(); }
//@ endfn
//@ endimpl
//@ impl Future for OwnedMutexLockFuture
//@ header impl<T> OwnedMutexLockFuture<T>
//@ noassoc
//@ fn poll -> r
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires
        old(tok).idle() && old(tok).wf(), old(self.ptr).mutex is Some, old(self.ptr).wait_key == old(tok).key(),
    ensures
        *final(cx) == *old(cx),
        r is Ready <==> final(tok).holds,
        r matches Poll::Ready(g) ==> Some(g.mutex) == old(self.ptr).mutex && final(tok).own is None && final(self.ptr).mutex is None,
        r is Pending ==> final(self.ptr).mutex == old(self.ptr).mutex && final(self.ptr).wait_key == final(tok).key(),
        r is Pending ==> final(tok).reg == Some(old(cx).id()) && final(tok).own is Some && final(tok).held_after, // [wake]
        !final(tok).in_slab && !final(tok).duty && final(tok).wf(),
//@ entry
    broadcast use {bits, bits2}; proof { consts(); }
//@ endfn
//@ endimpl
//@ impl Drop for MutexLockFuture
//@ header impl<'a, T> MutexLockFuture<'a, T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires old(tok).wf() && !old(tok).in_slab && !old(tok).duty, old(self).mutex is Some ==> old(self).wait_key == old(tok).key() && !old(tok).holds, old(self).mutex is None ==> old(tok).own is None,
    ensures final(tok).own is None && !final(tok).in_slab && !final(tok).duty, // [wake] the slot is given back, and an unused wake-up passed on
//@ endfn
//@ endimpl
//@ impl Drop for OwnedMutexLockFuture
//@ header impl<T> OwnedMutexLockFuture<T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut MxTok>
    requires old(tok).wf() && !old(tok).in_slab && !old(tok).duty, old(self).mutex is Some ==> old(self).wait_key == old(tok).key() && !old(tok).holds, old(self).mutex is None ==> old(tok).own is None,
    ensures final(tok).own is None && !final(tok).in_slab && !final(tok).duty, // [wake]
//@ endfn
//@ endimpl
//@ impl Deref for MutexGuard
//@ header impl<'a, T> MutexGuard<'a, T>
//@ noassoc
//@ fn deref -> r
//@ params Tracked(tok): Tracked<&MxTok>
    requires tok.holds,
//@ endfn
//@ endimpl
//@ impl DerefMut for MutexGuard
//@ header impl<'a, T> MutexGuard<'a, T>
//@ noassoc
//@ fn deref_mut -> r
//@ params Tracked(tok): Tracked<&MxTok>
    requires tok.holds,
//@ endfn
//@ endimpl
//@ impl Deref for OwnedMutexGuard
//@ header impl<T> OwnedMutexGuard<T>
//@ noassoc
//@ fn deref -> r
//@ params Tracked(tok): Tracked<&MxTok>
    requires tok.holds,
//@ endfn
//@ endimpl
//@ impl DerefMut for OwnedMutexGuard
//@ header impl<T> OwnedMutexGuard<T>
//@ noassoc
//@ fn deref_mut -> r
//@ params Tracked(tok): Tracked<&MxTok>
    requires tok.holds,
//@ endfn
//@ endimpl
//@ impl FusedFuture for MutexLockFuture
//@ header impl<'a, T> MutexLockFuture<'a, T>
//@ fn is_terminated -> r
    ensures r == (self.mutex is None), // [term] terminated exactly when the guard was given out
//@ endfn
//@ endimpl
//@ impl FusedFuture for OwnedMutexLockFuture
//@ header impl<T> OwnedMutexLockFuture<T>
//@ fn is_terminated -> r
    ensures r == (self.mutex is None), // [term] terminated exactly when the guard was given out
//@ endfn
//@ endimpl
}
