//@ include prelude
//@ include conc
verus! {
// Protocol of AtomicWaker's state word (0 waiting, 1 registering, 2 waking, 3 registering + waking).
// mode of a thread: 0 does not hold the waker slot, 1 holds it to register, 2 holds it to take the waker.
pub open spec fn possible(mode: int, v: int) -> bool {
    if mode == 0 { 0 <= v < 4 } else if mode == 1 { v == 1 || v == 3 } else { v == 2 }
}
pub open spec fn legal(mode: int, v: int, n: int) -> bool {
    if mode == 0 { n == v || (v == 0 && n == 1) || (v == 0 && n == 2) || (v == 1 && n == 3) }
    else if mode == 1 { n == v || n == 0 }
    else { n == v || n == 0 }
}
pub open spec fn mode_after(mode: int, v: int, n: int) -> int {
    if mode == 0 { if v == 0 && n == 1 { 1 } else if v == 0 && n == 2 { 2 } else { 0 } }
    else if n == 0 { 0 } else { mode }
}
// required memory orderings: taking the slot acquires, giving it back releases, a wake-up request releases
// (what the waker did before must be visible to the task that is woken)
pub open spec fn ordered(mode: int, v: int, n: int, o: Ordering) -> bool {
    &&& mode == 0 && v == 0 && n != 0 ==> o.acquires()
    &&& mode != 0 && n == 0 ==> o.releases()
    &&& mode == 0 && (n == 2 || n == 3) && n != v ==> o.releases()
    &&& mode == 1 && v == 3 && n == 0 ==> o.acquires()
}
pub tracked struct AwTok {
    pub ghost mode: int,
    pub ghost slot: Option<Waker>,   // contents of the slot, while this thread holds it
    pub ghost published: Option<int>, // waker in the slot when this thread last released it as registrar
    pub ghost saw_reg: bool,         // saw another registration in progress
    pub ghost delegated: bool,       // a wake-up arrived while registering: it is this thread's duty to deliver it
    pub ghost acq: Option<Option<int>>, // waker found in the slot when taken for waking
    pub ghost left: Option<Option<int>>, // waker left in the slot when released after waking
    pub ghost flagged: bool,         // wake-up request recorded in the state word of a busy slot
    pub ghost saw_waking: bool,
}
impl AwTok {
    pub open spec fn fresh(&self) -> bool { self.mode == 0 && self.published is None && !self.saw_reg && !self.delegated && self.acq is None && self.left is None && !self.flagged && !self.saw_waking }
}
pub open spec fn wid(w: Option<Waker>) -> Option<int> { match w { Some(x) => Some(x.id()), None => None } }
pub open spec fn stepped(a: AwTok, b: AwTok, v: int, n: int) -> bool {
    &&& b.mode == mode_after(a.mode, v, n)
    &&& (a.mode != 0 ==> b.slot == a.slot)
    &&& b.published == (if a.mode == 1 && n == 0 && v == 1 { wid(a.slot) } else { a.published })
    &&& b.delegated == (a.delegated || (a.mode == 1 && v == 3))
    &&& b.saw_reg == (a.saw_reg || (a.mode == 0 && (v == 1 || v == 3)))
    &&& b.saw_waking == (a.saw_waking || (a.mode == 0 && v == 2))
    &&& b.acq == (if b.mode == 2 && a.mode == 0 { Some(wid(b.slot)) } else { a.acq })
    &&& b.left == (if a.mode == 2 && n == 0 { Some(wid(a.slot)) } else { a.left })
    &&& b.flagged == (a.flagged || (a.mode == 0 && v != 0 && (n == 2 || n == 3)))
}
#[verifier::external_body]
pub struct AtomicUsize { x: core::sync::atomic::AtomicUsize }
impl AtomicUsize {
    pub uninterp spec fn init(&self) -> int;
    #[verifier::external_body]
    pub const fn new(v: usize) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut AwTok>) -> (r: usize)
        ensures possible(old(t).mode, r as int), stepped(*old(t), *final(t), r as int, r as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, n: usize, o: Ordering, Tracked(t): Tracked<&mut AwTok>)
        requires
            forall|v: int| #[trigger] possible(old(t).mode, v) ==> legal(old(t).mode, v, n as int) && ordered(old(t).mode, v, n as int, o), // only transitions of the protocol
            old(t).mode != 1, // a plain store while registering could overwrite a wake-up request
        ensures exists|v: int| possible(old(t).mode, v) && #[trigger] stepped(*old(t), *final(t), v, n as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: usize, o: Ordering, Tracked(t): Tracked<&mut AwTok>) -> (r: usize)
        requires forall|v: int| #[trigger] possible(old(t).mode, v) ==> legal(old(t).mode, v, n as int) && ordered(old(t).mode, v, n as int, o), // only transitions of the protocol, with the orderings they need
        ensures possible(old(t).mode, r as int), stepped(*old(t), *final(t), r as int, n as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, b: usize, o: Ordering, Tracked(t): Tracked<&mut AwTok>) -> (r: usize)
        requires forall|v: usize| #[trigger] possible(old(t).mode, v as int) ==> legal(old(t).mode, v as int, (v | b) as int) && ordered(old(t).mode, v as int, (v | b) as int, o), // only transitions of the protocol, with the orderings they need
        ensures possible(old(t).mode, r as int), stepped(*old(t), *final(t), r as int, (r | b) as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, b: usize, o: Ordering, Tracked(t): Tracked<&mut AwTok>) -> (r: usize)
        requires forall|v: usize| #[trigger] possible(old(t).mode, v as int) ==> legal(old(t).mode, v as int, (v & b) as int) && ordered(old(t).mode, v as int, (v & b) as int, o), // only transitions of the protocol, with the orderings they need
        ensures possible(old(t).mode, r as int), stepped(*old(t), *final(t), r as int, (r & b) as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: usize, n: usize, os: Ordering, of: Ordering, Tracked(t): Tracked<&mut AwTok>) -> (r: Result<usize, usize>)
        requires
            possible(old(t).mode, c as int) ==> legal(old(t).mode, c as int, n as int) && ordered(old(t).mode, c as int, n as int, os), // only transitions of the protocol, with the orderings they need
            old(t).mode == 0 ==> of.acquires(), // seeing a wake-up in progress makes the waker's writes visible
        ensures
            r matches Ok(v) ==> v == c && possible(old(t).mode, v as int) && stepped(*old(t), *final(t), v as int, n as int),
            r matches Err(v) ==> v != c && possible(old(t).mode, v as int) && stepped(*old(t), *final(t), v as int, v as int),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct UnsafeCell<T> { x: T }
impl UnsafeCell<Option<Waker>> {
    pub uninterp spec fn init(&self) -> Option<Waker>;
    #[verifier::external_body]
    pub const fn new(v: Option<Waker>) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, Tracked(t): Tracked<&'a mut AwTok>) -> (r: &'a mut Option<Waker>)
        requires old(t).mode != 0, // the slot is only touched by the thread that holds it (no data race)
        ensures *r == old(t).slot, *final(t) == (AwTok { slot: *final(r), ..*old(t) }),
    { unimplemented!() }
}
pub broadcast proof fn bits(v: usize)
    requires v < 4
    ensures #[trigger] (v | 2usize) == (if v < 2 { (v + 2) as usize } else { v }), (v & 2usize) == (if v < 2 { 0usize } else { 2usize }), (v & 1usize) == (v % 2)
{
    assert((v | 2usize) == (if v < 2 { (v + 2) as usize } else { v })) by (bit_vector) requires v < 4;
    assert((v & 2usize) == (if v < 2 { 0usize } else { 2usize })) by (bit_vector) requires v < 4;
    assert((v & 1usize) == (v % 2)) by (bit_vector) requires v < 4;
}
// The machine: any number of threads, each taking legal steps in any interleaving.
pub struct Sys { pub state: int, pub mode: spec_fn(int) -> int, pub duty: bool }
pub open spec fn inv(s: Sys) -> bool {
    &&& 0 <= s.state < 4
    &&& forall|t: int| 0 <= #[trigger] (s.mode)(t) <= 2
    &&& forall|t: int| #[trigger] (s.mode)(t) == 1 ==> s.state == 1 || s.state == 3
    &&& forall|t: int| #[trigger] (s.mode)(t) == 2 ==> s.state == 2
    &&& forall|t: int, u: int| #[trigger] (s.mode)(t) != 0 && #[trigger] (s.mode)(u) != 0 ==> t == u
    &&& (s.duty ==> s.state == 3)
}
pub open spec fn next(s: Sys, t: int, n: int) -> Sys {
    Sys {
        state: n,
        mode: |u: int| if u == t { mode_after((s.mode)(t), s.state, n) } else { (s.mode)(u) },
        // a wake-up request that found a registration in progress is pending until the registrar delivers it
        duty: if (s.mode)(t) == 0 && s.state == 1 && n == 3 { true } else if (s.mode)(t) == 1 && s.state == 3 && n == 0 { false } else { s.duty },
    }
}
pub proof fn machine_init() ensures inv(Sys { state: 0, mode: |u: int| 0, duty: false }) {}
pub proof fn machine_step(s: Sys, t: int, n: int) // every legal step of any thread keeps the invariant
    requires inv(s), legal((s.mode)(t), s.state, n), possible((s.mode)(t), s.state)
    ensures inv(next(s, t, n))
{
    assert forall|u: int| 0 <= #[trigger] (next(s, t, n).mode)(u) <= 2 by { assert(0 <= (s.mode)(u) <= 2); assert(0 <= (s.mode)(t) <= 2); }
    assert forall|u: int| #[trigger] (next(s, t, n).mode)(u) == 1 implies n == 1 || n == 3 by { assert(0 <= (s.mode)(u) <= 2); assert(0 <= (s.mode)(t) <= 2); }
    assert forall|u: int| #[trigger] (next(s, t, n).mode)(u) == 2 implies n == 2 by { assert(0 <= (s.mode)(u) <= 2); assert(0 <= (s.mode)(t) <= 2); }
    assert forall|u: int, w: int| #[trigger] (next(s, t, n).mode)(u) != 0 && #[trigger] (next(s, t, n).mode)(w) != 0 implies u == w by { assert(0 <= (s.mode)(u) <= 2); assert(0 <= (s.mode)(w) <= 2); assert(0 <= (s.mode)(t) <= 2); }
}
pub proof fn machine_rely(s: Sys, t: int) // what a thread can see
    requires inv(s) ensures possible((s.mode)(t), s.state) { assert(0 <= (s.mode)(t) <= 2); }
pub proof fn machine_exclusive(s: Sys, t: int, u: int) // at most one thread holds the slot
    requires inv(s), (s.mode)(t) != 0, (s.mode)(u) != 0 ensures t == u {}
pub proof fn machine_no_lost_wake(s: Sys) // no wake-up request is pending once the slot is free
    requires inv(s), s.state == 0 ensures !s.duty {}
//@ file futures-core/src/task/__internal/atomic_waker.rs
//@ const WAITING
//@ const REGISTERING
//@ const WAKING
//@ struct AtomicWaker
//@ impl AtomicWaker
//@ fn new -> r
    ensures r.state.init() == 0 && r.waker.init() is None, // starts with the slot free and empty
//@ endfn
//@ fn register
//@ params Tracked(tok): Tracked<&mut AwTok>
//@ tracked compare_exchange => Tracked(&mut *tok)
//@ tracked swap => Tracked(&mut *tok)
//@ tracked load => Tracked(&mut *tok)
//@ tracked store => Tracked(&mut *tok)
//@ tracked fetch_or => Tracked(&mut *tok)
//@ tracked fetch_and => Tracked(&mut *tok)
//@ tracked get => Tracked(&mut *tok)
//@ kinds result
    requires old(tok).fresh(),
    ensures
        final(tok).mode == 0, // gives the slot back
        wake_requested(waker.id()) || final(tok).published == Some(waker.id()) || final(tok).saw_reg, // the waker is registered, or woken
        final(tok).delegated ==> wake_requested(waker.id()), // a wake-up that arrives during registration is delivered
        final(tok).saw_waking ==> wake_requested(waker.id()) || final(tok).published == Some(waker.id()), // a wake-up that is in progress is not missed
//@ entry
    broadcast use bits;
//@ endfn
//@ fn take -> r
//@ params Tracked(tok): Tracked<&mut AwTok>
//@ tracked compare_exchange => Tracked(&mut *tok)
//@ tracked swap => Tracked(&mut *tok)
//@ tracked load => Tracked(&mut *tok)
//@ tracked store => Tracked(&mut *tok)
//@ tracked fetch_or => Tracked(&mut *tok)
//@ tracked fetch_and => Tracked(&mut *tok)
//@ tracked get => Tracked(&mut *tok)
    requires old(tok).fresh(),
    ensures
        final(tok).mode == 0, // gives the slot back
        final(tok).acq is Some || final(tok).flagged, // takes the waker, or leaves the request to the thread that holds the slot
        final(tok).acq matches Some(w) ==> wid(r) == w, // returns the registered waker
        final(tok).acq is Some ==> final(tok).left == Some(None::<int>), // and removes it
        final(tok).acq is None ==> r is None,
//@ entry
    broadcast use bits;
//@ endfn
//@ fn wake
//@ params Tracked(tok): Tracked<&mut AwTok>
//@ tracked take => Tracked(&mut *tok)
    requires old(tok).fresh(),
    ensures
        final(tok).mode == 0,
        final(tok).acq is Some || final(tok).flagged,
        final(tok).acq matches Some(Some(w)) ==> wake_requested(w), // wakes the registered waker
//@ endfn
//@ endimpl
//@ impl Default for AtomicWaker
//@ header impl AtomicWaker
//@ fn default -> r
    ensures r.state.init() == 0 && r.waker.init() is None,
//@ endfn
//@ endimpl
}
