//@ include prelude
//@ include conc
verus! {
pub use std::sync::Arc;
// BiLock: one word shared by two handles; 0 free, 1 held, anything else: held, and the address of the boxed waker that the
// other handle has parked.  `holds`: this handle has a guard.  The word seen by a handle that
//   holds the lock:      1, or the other handle's waker;
//   does not hold it:    0, 1, or (only if it has parked one since it last looked) its own waker.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawPtr<T: ?Sized> { x: PhantomData<T> }
impl<T> RawPtr<T> {
    pub uninterp spec fn addr(&self) -> int;
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (self.addr() == 0) { unimplemented!() }
}
impl<T> Clone for RawPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for RawPtr<T> {}
pub trait VAddr { spec fn vaddr(&self) -> int; fn vad(self) -> (r: usize) where Self: Sized ensures r == self.vaddr(); }
impl<T> VAddr for RawPtr<T> { open spec fn vaddr(&self) -> int { self.addr() } #[verifier::external_body] fn vad(self) -> (r: usize) { unimplemented!() } }
impl VAddr for usize { open spec fn vaddr(&self) -> int { *self as int } fn vad(self) -> (r: usize) { self } }
pub fn vaddr<A: VAddr>(a: A) -> (r: usize) ensures r == a.vaddr() { a.vad() }
#[verifier::external_body]
pub fn vtransmute<T>(a: usize) -> (r: RawPtr<T>) ensures r.addr() == a { unimplemented!() }
pub mod ptr {
    use super::*;
    #[verifier::external_body]
    pub fn null_mut<T>() -> (r: RawPtr<T>) ensures r.addr() == 0 { unimplemented!() }
}
pub tracked struct BiTok {
    pub ghost holds: bool,
    pub ghost parked: Option<int>,      // waker this handle has left in the word, when it last did
    pub ghost boxes: Map<RawPtr<Waker>, int>, // raw boxes this thread is responsible for
    pub ghost found: Option<int>,       // waker found in the word when unlocking
    pub ghost dropped: int,             // handles dropped
}
pub open spec fn possible(t: BiTok, v: RawPtr<Waker>) -> bool {
    if t.holds { v.addr() != 0 } else { v.addr() == 0 || v.addr() == 1 || t.parked is Some }
}
// a live pointer is neither 0 nor 1
pub open spec fn is_ptr(v: RawPtr<Waker>) -> bool { v.addr() != 0 && v.addr() != 1 }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct AtomicPtr<T> { x: PhantomData<T> }
impl AtomicPtr<Waker> {
    pub uninterp spec fn init(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: RawPtr<Waker>) -> (r: Self) ensures r.init() == v.addr() { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut BiTok>) -> (r: RawPtr<Waker>)
        ensures possible(*old(t), r), *final(t) == *old(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: RawPtr<Waker>, o: Ordering, Tracked(t): Tracked<&mut BiTok>) -> (r: RawPtr<Waker>)
        requires
            n.addr() == 0 || n.addr() == 1, // the word is only ever freed or taken by a swap
            n.addr() == 1 ==> !old(t).holds && o.acquires(), // taking the lock acquires what its previous holder released
            n.addr() == 0 ==> old(t).holds && o.acquires() && o.releases(), // only the holder frees it, and releases what it wrote
        ensures
            possible(*old(t), r), is_ptr(r) ==> !old(t).boxes.dom().contains(r),
            // unlocked
            n.addr() == 0 ==> final(t).holds == false && final(t).parked is None && final(t).dropped == old(t).dropped
                && (if is_ptr(r) { final(t).found is Some && final(t).boxes == old(t).boxes.insert(r, final(t).found->0) } else { final(t).found is None && final(t).boxes == old(t).boxes }),
            // tried to lock
            n.addr() == 1 && r.addr() == 0 ==> *final(t) == (BiTok { holds: true, parked: None, ..*old(t) }),
            n.addr() == 1 && r.addr() == 1 ==> *final(t) == (BiTok { parked: None, ..*old(t) }),
            n.addr() == 1 && is_ptr(r) ==> *final(t) == (BiTok { parked: None, boxes: old(t).boxes.insert(r, old(t).parked->0), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: RawPtr<Waker>, n: RawPtr<Waker>, os: Ordering, of: Ordering, Tracked(t): Tracked<&mut BiTok>) -> (r: Result<RawPtr<Waker>, RawPtr<Waker>>)
        requires
            (c.addr() == 1 && old(t).boxes.dom().contains(n) && !old(t).holds) || (c.addr() == 0 && n.addr() == 1 && !old(t).holds), // parks a waker of its own while the lock is held, or takes a free lock
            is_ptr(n) ==> os.releases(), // the waker must be visible to the holder
            n.addr() == 1 ==> os.acquires(),
        ensures
            r matches Ok(v) ==> v.addr() == c.addr() && possible(*old(t), v),
            r is Ok && c.addr() == 1 ==> *final(t) == (BiTok { parked: Some(old(t).boxes[n]), boxes: old(t).boxes.remove(n), ..*old(t) }),
            r is Ok && c.addr() == 0 ==> *final(t) == (BiTok { holds: true, parked: None, ..*old(t) }),
            r matches Err(v) ==> v.addr() != c.addr() && possible(*old(t), v) && *final(t) == *old(t),
    { unimplemented!() }
}
// The machine: two handles, any interleaving of the steps above
pub struct Sys { pub owner: int /* 0 none, 1, 2 */, pub word: int /* 0 free, 1 held, 2 + t: waker of t */, pub park1: bool, pub park2: bool, pub woken1: bool, pub woken2: bool }
pub open spec fn inv(s: Sys) -> bool {
    &&& 0 <= s.owner <= 2
    &&& (s.owner == 0 <==> s.word == 0)
    &&& (s.word == 0 || s.word == 1 || s.word == 3 || s.word == 4)
    &&& (s.word == 3 ==> s.owner == 2 && s.park1)
    &&& (s.word == 4 ==> s.owner == 1 && s.park2)
    &&& (s.park1 && s.word != 3 ==> s.woken1) // a parked task whose waker is gone from the word was woken
    &&& (s.park2 && s.word != 4 ==> s.woken2)
}
pub enum Step { TryLock1, TryLock2, Park1, Park2, Unlock1, Unlock2 }
pub open spec fn next(s: Sys, x: Step, n: Sys) -> bool {
    match x {
        Step::TryLock1 => s.owner != 1 && n == (Sys { word: 1, owner: if s.word == 0 { 1 } else { s.owner }, park1: false, woken1: false, ..s }),
        Step::TryLock2 => s.owner != 2 && n == (Sys { word: 1, owner: if s.word == 0 { 2 } else { s.owner }, park2: false, woken2: false, ..s }),
        Step::Park1 => s.owner != 1 && !s.park1 && n == (if s.word == 1 { Sys { word: 3, park1: true, woken1: false, ..s } } else { s }),
        Step::Park2 => s.owner != 2 && !s.park2 && n == (if s.word == 1 { Sys { word: 4, park2: true, woken2: false, ..s } } else { s }),
        Step::Unlock1 => s.owner == 1 && n == (Sys { word: 0, owner: 0, woken2: s.woken2 || s.word == 4, ..s }), // contract of unlock: the waker found is woken
        Step::Unlock2 => s.owner == 2 && n == (Sys { word: 0, owner: 0, woken1: s.woken1 || s.word == 3, ..s }),
    }
}
pub proof fn machine_init() ensures inv(Sys { owner: 0, word: 0, park1: false, park2: false, woken1: false, woken2: false }) {}
pub proof fn machine_step(s: Sys, x: Step, n: Sys) requires inv(s), next(s, x, n) ensures inv(n) {}
pub proof fn machine_rely1(s: Sys) requires inv(s) ensures s.owner == 1 ==> s.word == 1 || s.word == 4, s.owner != 1 ==> s.word == 0 || s.word == 1 || (s.word == 3 && s.park1) {}
pub proof fn machine_rely2(s: Sys) requires inv(s) ensures s.owner == 2 ==> s.word == 1 || s.word == 3, s.owner != 2 ==> s.word == 0 || s.word == 1 || (s.word == 4 && s.park2) {}
pub proof fn machine_no_lost_wake(s: Sys) // once the lock is free, whoever is parked has been woken
    requires inv(s), s.owner == 0 ensures s.park1 ==> s.woken1, s.park2 ==> s.woken2 {}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ValCell<T> { x: T }
impl<T> ValCell<T> {
    pub uninterp spec fn init(&self) -> T;
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, Tracked(t): Tracked<&BiTok>) -> (r: &'a mut T)
        requires t.holds, // the data is only touched while the lock is held (no data race)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: T) ensures r == self.init() { unimplemented!() }
}
pub open spec fn spare_ok(b: Option<Box<Waker>>, w: int) -> bool { b matches Some(x) ==> x.id() == w }
pub struct VBox { }
impl VBox {
    #[verifier::external_body]
    pub fn into_raw(b: Box<Waker>, Tracked(t): Tracked<&mut BiTok>) -> (r: RawPtr<Waker>)
        ensures is_ptr(r) && !old(t).boxes.dom().contains(r), *final(t) == (BiTok { boxes: old(t).boxes.insert(r, b.id()), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(p: RawPtr<Waker>, Tracked(t): Tracked<&mut BiTok>) -> (r: Box<Waker>)
        requires old(t).boxes.dom().contains(p), // a box is taken back once, by whoever took it out of the word (no use after free)
        ensures r.id() == old(t).boxes[p], *final(t) == (BiTok { boxes: old(t).boxes.remove(p), ..*old(t) }),
    { unimplemented!() }
}
//@ trackall swap load compare_exchange VBox::into_raw VBox::from_raw poll_lock unlock => Tracked(&mut *tok)
//@ trackall get => Tracked(&*tok)
//@ substall Box::into_raw =>> VBox::into_raw
//@ substall Box::from_raw =>> VBox::from_raw
//@ substall UnsafeCell::new =>> ValCell::new
//@ substall core::mem::transmute =>> vtransmute
//@ substall Arc::ptr_eq =>> VArc::ptr_eq
//@ substall Arc::try_unwrap =>> VArc::try_unwrap
//@ trackall VArc::try_unwrap VArc::dropb => Tracked(&mut *tok)
//@ vcast
//@ file futures-util/src/lock/bilock.rs
//@ struct Inner type:value=Option<ValCell<T>>
//@ struct BiLock
//@ struct BiLockGuard
//@ struct BiLockAcquire
//@ struct ReuniteError
pub uninterp spec fn same_arc<T>(a: Arc<T>, b: Arc<T>) -> bool;
pub struct VArc { }
impl VArc {
    #[verifier::external_body]
    pub fn ptr_eq<T>(a: &Arc<T>, b: &Arc<T>) -> (r: bool) ensures r == same_arc(*a, *b) { unimplemented!() }
    // a lock has exactly two handles (BiLock is not Clone, and `new` makes two)
    #[verifier::external_body]
    pub fn try_unwrap<T>(a: Arc<T>, Tracked(t): Tracked<&mut BiTok>) -> (r: Result<T, Arc<T>>)
        ensures r matches Ok(x) ==> x == *a, r matches Err(x) ==> x == a, old(t).dropped == 1 ==> r is Ok, *final(t) == *old(t),
    { unimplemented!() }
}
impl VArc {
    #[verifier::external_body]
    pub fn dropb<T>(a: BiLock<T>, Tracked(t): Tracked<&mut BiTok>) ensures *final(t) == (BiTok { dropped: old(t).dropped + 1, ..*old(t) }) { unimplemented!() }
}
//@ fn invalid_ptr -> r
    ensures r.addr() == addr,
//@ endfn
//@ impl BiLock
//@ fn new -> r
    ensures
        r.0.arc == r.1.arc, // two handles of one lock
        r.0.arc.state.init() == 0 && r.0.arc.value is Some && r.0.arc.value->0.init() == t, // free, with the given value
//@ endfn
//@ fn poll_lock -> r
//@ params Tracked(tok): Tracked<&mut BiTok>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
    requires !old(tok).holds,
    ensures
        *final(cx) == *old(cx),
        r is Ready <==> final(tok).holds, // a guard is given out exactly when the lock was free and is now held
        r matches Poll::Ready(g) ==> g.bilock == self,
        r is Pending ==> final(tok).parked == Some(old(cx).id()), // [wake] the task's waker was parked while the lock was held
        final(tok).boxes =~= old(tok).boxes, // no box is leaked or freed twice
//@ loop 0
    invariant
        !tok.holds, *cx == *old(cx), tok.boxes =~= old(tok).boxes,
        spare_ok(waker, cx.id()),
//@ endfn
//@ fn unlock
//@ params Tracked(tok): Tracked<&mut BiTok>
    requires old(tok).holds,
    ensures
        !final(tok).holds, // the lock is free
        final(tok).found matches Some(w) ==> wake_requested(w), // [wake] and whoever parked is woken
        final(tok).boxes =~= old(tok).boxes,
//@ endfn
//@ fn is_pair_of -> r
    ensures r == same_arc(self.arc, other.arc),
//@ endfn
//@ fn reunite -> r
//@ params Tracked(tok): Tracked<&mut BiTok>
//@ subst drop( =>> VArc::dropb(
    requires old(tok).dropped == 0, self.arc.value is Some,
    ensures
        r is Ok <==> same_arc(self.arc, other.arc), // succeeds exactly for the two halves of one lock
        r matches Ok(v) ==> v == self.arc.value->0.init(), // and gives the value back
        r matches Err(e) ==> e.0 == self && e.1 == other, // otherwise both handles
//@ endfn
//@ endimpl
//@ impl Inner
//@ fn into_value -> r
    requires self.value is Some,
    ensures r == self.value->0.init(),
//@ endfn
//@ endimpl
//@ impl Drop for BiLockGuard
//@ header impl<'a, T> BiLockGuard<'a, T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut BiTok>
    requires old(tok).holds,
    ensures !final(tok).holds, final(tok).found matches Some(w) ==> wake_requested(w), // dropping the guard unlocks
//@ endfn
//@ endimpl
//@ impl Deref for BiLockGuard
//@ header impl<'a, T> BiLockGuard<'a, T>
//@ noassoc
//@ fn deref -> r
//@ params Tracked(tok): Tracked<&BiTok>
    requires tok.holds, self.bilock.arc.value is Some,
//@ endfn
//@ endimpl
//@ impl DerefMut for BiLockGuard
//@ header impl<'a, T> BiLockGuard<'a, T>
//@ fn deref_mut -> r
//@ params Tracked(tok): Tracked<&BiTok>
    requires tok.holds, self.bilock.arc.value is Some,
//@ endfn
//@ endimpl
//@ impl Future for BiLockAcquire
//@ header impl<'a, T> BiLockAcquire<'a, T>
//@ noassoc
//@ fn poll -> r
//@ params Tracked(tok): Tracked<&mut BiTok>
    requires !old(tok).holds,
    ensures
        *final(cx) == *old(cx),
        r is Ready <==> final(tok).holds,
        r is Pending ==> final(tok).parked == Some(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
