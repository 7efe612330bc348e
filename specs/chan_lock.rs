//@ include prelude
//@ include conc
verus! {
// Lock<T> of futures-channel: one flag, true while a guard exists.
pub tracked struct LkTok { pub ghost held: bool, pub ghost saw_locked: bool }
#[verifier::external_body]
pub struct AtomicBool { x: u8 }
impl AtomicBool {
    pub uninterp spec fn init(&self) -> bool;
    #[verifier::external_body]
    pub fn new(v: bool) -> (r: Self) ensures r.init() == v { unimplemented!() }
    // the flag is true exactly while some thread holds the lock
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut LkTok>) -> (r: bool)
        ensures old(t).held ==> r, *final(t) == (LkTok { held: old(t).held, saw_locked: old(t).saw_locked || (!old(t).held && r) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut LkTok>)
        requires
            v ==> old(t).held, // a plain store never takes the lock
            !v ==> old(t).held, // only the holder unlocks
            o is SeqCst, // users rely on unlock-then-load against store-then-lock: needs the single total order
        ensures *final(t) == (LkTok { held: v, saw_locked: old(t).saw_locked })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut LkTok>) -> (r: bool)
        requires
            !v ==> old(t).held, // only the holder unlocks
            o is SeqCst, // users rely on unlock-then-load against store-then-lock: needs the single total order
        ensures
            old(t).held ==> r && *final(t) == (LkTok { held: v, saw_locked: old(t).saw_locked }),
            !old(t).held ==> *final(t) == (LkTok { held: !r, saw_locked: old(t).saw_locked || r }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: bool, v: bool, os: Ordering, of: Ordering, Tracked(t): Tracked<&mut LkTok>) -> (r: Result<bool, bool>)
        requires
            c && !v ==> old(t).held, // only the holder unlocks
            os is SeqCst && of is SeqCst,
        ensures
            r matches Ok(x) ==> x == c && (old(t).held ==> c) && *final(t) == (LkTok { held: if c == v { old(t).held } else { v }, saw_locked: old(t).saw_locked || (!old(t).held && c) }),
            r matches Err(x) ==> x != c && (old(t).held ==> x) && *final(t) == (LkTok { held: old(t).held, saw_locked: old(t).saw_locked || (!old(t).held && x) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct UnsafeCell<T> { x: T }
impl<T> UnsafeCell<T> {
    pub uninterp spec fn init(&self) -> T;
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, Tracked(t): Tracked<&LkTok>) -> (r: &'a mut T)
        requires t.held, // the data is only touched while the lock is held (no data race)
    { unimplemented!() }
}
// any number of threads, any interleaving of the steps above: the lock has at most one holder
pub struct Sys { pub flag: bool, pub held: spec_fn(int) -> bool }
pub open spec fn inv(s: Sys) -> bool {
    &&& forall|t: int| #[trigger] (s.held)(t) ==> s.flag
    &&& forall|t: int, u: int| #[trigger] (s.held)(t) && #[trigger] (s.held)(u) ==> t == u
}
pub proof fn machine_init() ensures inv(Sys { flag: false, held: |t: int| false }) {}
pub proof fn machine_acquire(s: Sys, t: int) requires inv(s), !s.flag
    ensures inv(Sys { flag: true, held: |u: int| if u == t { true } else { (s.held)(u) } }) {}
pub proof fn machine_release(s: Sys, t: int) requires inv(s), (s.held)(t)
    ensures inv(Sys { flag: false, held: |u: int| if u == t { false } else { (s.held)(u) } })
{ assert forall|u: int| u != t implies !#[trigger] (s.held)(u) by { if (s.held)(u) { assert((s.held)(t)); } } }
//@ trackall swap store load compare_exchange => Tracked(&mut *tok)
//@ trackall get => Tracked(&*tok)
//@ file futures-channel/src/lock.rs
//@ struct Lock
//@ struct TryLock
//@ impl Lock
//@ fn new -> r
    ensures !r.locked.init() && r.data.init() == t, // starts unlocked with the given value
//@ endfn
//@ fn try_lock -> r
//@ params Tracked(tok): Tracked<&mut LkTok>
    requires !old(tok).held, !old(tok).saw_locked,
    ensures
        r is Some <==> final(tok).held, // a guard means the lock is held, and the lock is never leaked
        r is Some ==> r->0.__ptr == self,
        r is None ==> final(tok).saw_locked, // fails only if another guard exists
//@ endfn
//@ endimpl
//@ impl Deref for TryLock
//@ header impl<'a, T> TryLock<'a, T>
//@ noassoc
//@ fn deref -> r
//@ params Tracked(tok): Tracked<&LkTok>
    requires tok.held,
//@ endfn
//@ endimpl
//@ impl DerefMut for TryLock
//@ header impl<'a, T> TryLock<'a, T>
//@ fn deref_mut -> r
//@ params Tracked(tok): Tracked<&LkTok>
    requires tok.held,
//@ endfn
//@ endimpl
//@ impl Drop for TryLock
//@ header impl<'a, T> TryLock<'a, T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut LkTok>
    requires old(tok).held,
    ensures !final(tok).held, // dropping the guard unlocks
//@ endfn
//@ endimpl
}
