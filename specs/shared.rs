//@ include prelude
//@ include conc
verus! {
pub use std::sync::Arc;
//@ file futures-util/src/future/future/shared.rs
//@ const IDLE
//@ const POLLING
//@ const COMPLETE
//@ const POISONED
//@ const NULL_WAKER_KEY
// Shared.  One state word; whoever moves it IDLE -> POLLING owns the cell with the inner future until it moves it on.  Each clone has
// at most one slot in the slab of wakers (`own`), which only it inserts, fills and removes; everybody else can only empty it, waking
// what is in it.  The slab is closed (None) by the completing clone, after waking everybody.
pub enum FutureOrOutput<Fut: Future> { Future(Fut), Output(Fut::Output) }
pub tracked struct ShTok<Fut: Future> {
    pub ghost nid: int,                   // the notifier's waker
    pub ghost out: Fut::Output,           // (prophesied) output of the inner future
    pub ghost own: Option<usize>,         // slot of this clone
    pub ghost reg: Option<int>,           // waker it last left there
    pub ghost fresh: bool,                // registered, state not looked at since
    pub ghost looked: bool,               // after registering, found another clone polling, or polled and got Pending
    pub ghost polling: bool,              // owns the cell
    pub ghost mine: bool,                 // and has to close the slab if the inner future completes
    pub ghost cell: FutureOrOutput<Fut>,  // contents of the cell, while polling
    pub ghost complete: bool,             // the output is visible to this thread
    pub ghost poisoned: bool,             // the inner future was seen to have panicked
    pub ghost in_slab: bool,
    pub ghost closed: bool,               // the slab was seen closed
    pub ghost duty: bool,                 // every registered clone must be woken
}
pub type Ws = Option<Slab<Option<Waker>>>;
pub open spec fn woken(o: Option<Waker>) -> bool { o matches Some(w) ==> wake_requested(w.id()) }
pub open spec fn empty(m: Ws) -> bool { m matches Some(s) ==> forall|k: usize| #[trigger] s@.dom().contains(k) ==> s@[k] is None }
pub open spec fn live_fut<Fut: Future>(t: ShTok<Fut>) -> bool { t.cell matches FutureOrOutput::Future(f) && f.wf() && !f.done() && f.output() == t.out }
impl<Fut: Future> ShTok<Fut> {
    pub open spec fn key(&self) -> usize { match self.own { Some(k) => k, None => usize::MAX } }
    pub open spec fn wf(&self) -> bool { self.own matches Some(k) ==> k != usize::MAX }
    pub open spec fn idle(&self) -> bool { self.wf() && !self.in_slab && !self.duty && !self.polling && !self.mine && !self.fresh }
    // what may be done to the slab in one critical section
    pub open spec fn may(&self, a: Ws, b: Ws) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(x), None) => self.mine && self.complete && forall|k: usize| #[trigger] x@.dom().contains(k) ==> woken(x@[k]), // closed by the completing clone, everybody woken
            (None, Some(_)) => false,
            (Some(x), Some(y)) => {
                &&& forall|k: usize| #[trigger] x@.dom().contains(k) && self.own != Some(k) ==> y@.dom().contains(k) // other clones keep their slots
                &&& forall|k: usize| #[trigger] x@.dom().contains(k) && self.own != Some(k) ==> y@[k] == x@[k] || (y@[k] is None && woken(x@[k])) // and are only ever woken
                &&& forall|k: usize| #[trigger] x@.dom().contains(k) && self.own == Some(k) && y@.dom().contains(k) ==> y@[k] is Some || woken(x@[k])
                &&& forall|k: usize| #[trigger] y@.dom().contains(k) && !x@.dom().contains(k) ==> self.own is None && y@[k] is Some // one slot per clone
                &&& forall|j: usize, k: usize| #[trigger] y@.dom().contains(k) && !x@.dom().contains(k) && #[trigger] y@.dom().contains(j) && !x@.dom().contains(j) ==> j == k
                // a clone that was woken and gives up its slot passes the wake-up on
                &&& (self.own matches Some(k) && x@[k] is None && !y@.dom().contains(k) ==> empty(b))
            }
        }
    }
}
#[verifier::external_body]
pub struct AtomicUsize { x: core::sync::atomic::AtomicUsize }
impl AtomicUsize {
    pub uninterp spec fn init(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: usize) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn load<Fut: Future>(&self, o: Ordering, Tracked(t): Tracked<&mut ShTok<Fut>>, p: PhantomData<Fut>) -> (r: usize)
        ensures
            r < 4, old(t).polling ==> r == 1, old(t).complete ==> r == 2, old(t).closed ==> r == 2, old(t).poisoned ==> r == 3,
            *final(t) == (ShTok { complete: old(t).complete || (r == 2 && o.acquires()), poisoned: r == 3, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange<Fut: Future>(&self, c: usize, n: usize, os: Ordering, of: Ordering, Tracked(t): Tracked<&mut ShTok<Fut>>, p: PhantomData<Fut>) -> (r: Result<usize, usize>)
        requires
            (c == 0 && n == 1) || (c == 1 && n == 0), // the transitions of the state word
            c == 0 ==> os.acquires() && of.acquires() && (old(t).fresh || old(t).closed), // looks at the state only after registering
            // gives the cell back: the inner future is in it, pending, with the notifier as its waker
            c == 1 ==> old(t).polling && os.releases() && live_fut(*old(t)) && old(t).cell->Future_0.armed(old(t).nid),
        ensures
            r matches Ok(v) ==> v == c,
            r matches Err(v) ==> v != c && v < 4,
            c == 1 ==> r is Ok && *final(t) == (ShTok { polling: false, mine: false, looked: true, ..*old(t) }),
            c == 0 && r is Ok ==> *final(t) == (ShTok { polling: true, mine: true, fresh: false, cell: final(t).cell, ..*old(t) }) && live_fut(*final(t)) && !old(t).closed && !old(t).complete,
            c == 0 ==> (old(t).closed || old(t).complete ==> r == Err::<usize, usize>(2)),
            c == 0 && r is Err ==> *final(t) == (ShTok { fresh: false, looked: r->Err_0 == 1, complete: old(t).complete || r->Err_0 == 2, poisoned: r->Err_0 == 3, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store<Fut: Future>(&self, v: usize, o: Ordering, Tracked(t): Tracked<&mut ShTok<Fut>>, p: PhantomData<Fut>)
        requires
            old(t).polling && o.releases(), v == 2 || v == 3,
            v == 2 ==> old(t).cell == FutureOrOutput::<Fut>::Output(old(t).out), // published after the output is in place
        ensures
            *final(t) == (ShTok { polling: false, complete: v == 2, poisoned: v == 3, duty: true, ..*old(t) }), // everybody who waits is owed a wake-up
    { unimplemented!() }
}
pub trait VMerge { fn vmerge(self) -> (r: usize) ; }
impl VMerge for Result<usize, usize> {
    fn vmerge(self) -> (r: usize) ensures self matches Ok(v) ==> r == v, self matches Err(v) ==> r == v { match self { Ok(v) => v, Err(v) => v } }
}
#[verifier::external_body]
pub fn vpoisoned<Fut: Future>(Tracked(t): Tracked<&mut ShTok<Fut>>, p: PhantomData<Fut>)
    requires old(t).poisoned, // the panic is passed on only if the inner future panicked
    ensures false,
{ panic!() }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Slab<T> { p: PhantomData<T> }
impl<T> Slab<T> {
    pub uninterp spec fn view(&self) -> Map<usize, T>;
    #[verifier::external_body]
    pub fn new() -> (r: Slab<T>) ensures r@ == Map::<usize, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: T) -> (k: usize) ensures k != usize::MAX, !old(self)@.dom().contains(k), final(self)@ == old(self)@.insert(k, v), final(self)@.dom().contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: usize) -> (r: T) requires old(self)@.dom().contains(k) ensures r == old(self)@[k], final(self)@ == old(self)@.remove(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vindex_mut(&mut self, k: usize) -> (r: &mut T) requires old(self)@.dom().contains(k) ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)), final(self)@.dom().contains(k) { unimplemented!() }
    // the loop over (key, &mut value), in key order; `it` is the next key to look at
    #[verifier::external_body]
    pub fn vnext_mut<'a>(&'a mut self, it: &mut usize) -> (r: Option<(usize, &'a mut T)>)
        ensures
            r is None ==> *final(self) == *old(self) && (forall|k: usize| #[trigger] old(self)@.dom().contains(k) ==> k < *old(it)),
            r matches Some((k, w)) ==> k >= *old(it) && *final(it) == k + 1 && old(self)@.dom().contains(k) && *w == old(self)@[k]
                && final(self)@ == old(self)@.insert(k, *final(w)) && (forall|j: usize| #[trigger] old(self)@.dom().contains(j) && j < k ==> j < *old(it)),
    { unimplemented!() }
}
impl Slab<Option<Waker>> {
    // drain().flatten()
    #[verifier::external_body]
    pub fn vdrain_flat(&mut self) -> (r: Option<Waker>)
        ensures
            forall|k: usize| #[trigger] old(self)@.dom().contains(k) ==> (final(self)@.dom().contains(k) && final(self)@[k] == old(self)@[k]) || old(self)@[k] is None || (r is Some && old(self)@[k] == r),
            r is None ==> final(self)@.dom() =~= Set::<usize>::empty(),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(C)]
pub struct Mutex<C> { x: PhantomData<C> }
#[derive(Debug)]
pub struct Poison { }
pub struct MGuard { pub live: Ghost<bool>, pub data: Ws, pub old: Ghost<Ws> }
impl Deref for MGuard { type Target = Ws; fn deref(&self) -> (r: &Ws) ensures *r == self.data { &self.data } }
impl DerefMut for MGuard { fn deref_mut(&mut self) -> (r: &mut Ws) ensures *r == old(self).data, *final(self) == (MGuard { data: *final(r), ..*old(self) }) { &mut self.data } }
impl Mutex<Ws> {
    pub uninterp spec fn init(&self) -> Ws;
    #[verifier::external_body]
    pub fn new(c: Ws) -> (r: Self) ensures r.init() == c { unimplemented!() }
    #[verifier::external_body]
    pub fn lock<Fut: Future>(&self, Tracked(t): Tracked<&mut ShTok<Fut>>, p: PhantomData<Fut>) -> (r: Result<MGuard, Poison>)
        requires !old(t).in_slab, // not re-entrant
        ensures
            r matches Ok(g) && g.live@ && g.data == g.old@ && (g.data is None ==> !old(t).mine)
                && (g.data matches Some(s) ==> !old(t).closed && (old(t).own matches Some(k) ==> s@.dom().contains(k) && (s@[k] matches Some(w) ==> old(t).reg == Some(w.id()))))
                && *final(t) == (ShTok { in_slab: true, closed: g.data is None, ..*old(t) }),
    { unimplemented!() }
}
impl MGuard {
    #[verifier::external_body]
    pub fn vunlock<Fut: Future>(&mut self, Tracked(t): Tracked<&mut ShTok<Fut>>, p: PhantomData<Fut>)
        requires
            old(self).live@ ==> old(t).in_slab && old(t).may(old(self).old@, old(self).data),
        ensures
            !final(self).live@,
            !old(self).live@ ==> *final(t) == *old(t),
            old(self).live@ ==> {
                let (x, y) = (old(self).old@, old(self).data);
                &&& *final(t) == (ShTok { in_slab: false, closed: y is None, own: final(t).own, reg: final(t).reg, fresh: final(t).fresh, looked: old(t).looked && !final(t).fresh, mine: old(t).mine && !(y is None), duty: old(t).duty && !empty(y), ..*old(t) })
                &&& (y is None ==> final(t).own == old(t).own && final(t).reg == old(t).reg && !final(t).fresh)
                &&& (y matches Some(s) ==> {
                    &&& (forall|k: usize| #[trigger] s@.dom().contains(k) && !x->0@.dom().contains(k) ==> final(t).own == Some(k))
                    &&& (old(t).own matches Some(k) ==> final(t).own == (if s@.dom().contains(k) { Some(k) } else { None }))
                    &&& (old(t).own is None ==> final(t).own is None || (s@.dom().contains(final(t).own->0) && !x->0@.dom().contains(final(t).own->0)))
                    &&& final(t).fresh == (final(t).own matches Some(k) && s@[k] is Some)
                    &&& final(t).reg == (if final(t).fresh { Some(s@[final(t).own->0]->0.id()) } else { old(t).reg })
                })
            },
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct ValCell<Fut: Future> { x: PhantomData<Fut> }
impl<Fut: Future> ValCell<Fut> {
    pub uninterp spec fn init(&self) -> FutureOrOutput<Fut>;
    #[verifier::external_body]
    pub fn new(v: FutureOrOutput<Fut>) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, Tracked(t): Tracked<&'a mut ShTok<Fut>>) -> (r: &'a mut FutureOrOutput<Fut>)
        requires old(t).polling, // the inner future is touched by one clone at a time
        ensures *r == old(t).cell, *final(t) == (ShTok { cell: *final(r), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vget_ref<'a>(&'a self, Tracked(t): Tracked<&ShTok<Fut>>) -> (r: &'a FutureOrOutput<Fut>)
        requires t.complete && !t.polling, // the output is read after it was published
        ensures *r == FutureOrOutput::<Fut>::Output(t.out),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self, Tracked(t): Tracked<&ShTok<Fut>>) -> (r: FutureOrOutput<Fut>)
        requires t.complete && !t.polling,
        ensures r == FutureOrOutput::<Fut>::Output(t.out),
    { unimplemented!() }
}
pub trait VClone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
pub struct VArc { }
#[verifier::external_body]
pub fn vclone_opt_arc<T>(a: &Option<Arc<T>>) -> (r: Option<Arc<T>>) ensures r == *a { a.clone() }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct Weak<T> { x: PhantomData<T> }
impl<T> Weak<T> {
    pub uninterp spec fn to(&self) -> T;
    #[verifier::external_body]
    pub fn upgrade(&self) -> (r: Option<Arc<T>>) ensures r matches Some(a) ==> *a == self.to() { unimplemented!() }
}
impl VArc {
    #[verifier::external_body]
    pub fn downgrade<T>(a: &Arc<T>) -> (r: Weak<T>) ensures r.to() == **a { unimplemented!() }
}
impl VArc {
    #[verifier::external_body]
    pub fn try_unwrap<T>(a: Arc<T>) -> (r: Result<T, Arc<T>>) ensures r matches Ok(x) ==> x == *a, r matches Err(x) ==> x == a { unimplemented!() }
}
pub uninterp spec fn wid(n: Notifier) -> int;
#[verifier::external_body]
pub fn waker_ref(n: &Arc<Notifier>) -> (r: Waker) ensures r.id() == wid(**n) { unimplemented!() }
impl<'a> Context<'a> { pub fn from_waker(w: &'a Waker) -> (r: Context<'a>) ensures r.id() == w.id() { Context { w } } }
// ---- the machine: any number of clones, in any interleaving of the steps above
pub struct Sys {
    pub state: int, pub poller: int,
    pub slots: Set<int>,  // clones with a slot
    pub woken: Set<int>,  // of these: woken, not acted on it yet
    pub inpoll: Set<int>, // of these: registered, not looked at the state since
    pub due: bool,        // the inner future has called its waker since it was last polled
    pub duty: int,        // threads that owe everybody a wake-up
}
pub open spec fn none(s: Set<int>) -> bool { forall|k: int| !s.contains(k) }
pub open spec fn inv(s: Sys) -> bool {
    &&& s.duty >= 0 && 0 <= s.state <= 3
    &&& (forall|k: int| #[trigger] s.inpoll.contains(k) ==> s.slots.contains(k))
    &&& (forall|k: int| #[trigger] s.woken.contains(k) ==> s.slots.contains(k))
    &&& (s.state == 1 ==> s.slots.contains(s.poller) && !s.inpoll.contains(s.poller))
    &&& (s.state == 1 && s.due ==> s.duty > 0 || s.woken.contains(s.poller))
    &&& (s.state <= 1 && s.due && !none(s.slots) ==> s.duty > 0 || !none(s.woken) || !none(s.inpoll))
    &&& (s.state >= 2 ==> s.duty > 0 || forall|k: int| #[trigger] s.slots.contains(k) ==> s.woken.contains(k) || s.inpoll.contains(k))
}
pub enum Step { Register(int), Start(int), Look(int), LookDone(int), Pend, Complete, Poison, Fire, WakeAll, Drop(int) }
pub open spec fn next(s: Sys, x: Step, n: Sys) -> bool {
    match x {
        // a clone that is not polling fills its slot
        Step::Register(k) => !(s.state == 1 && s.poller == k) && n == (Sys { slots: s.slots.insert(k), woken: s.woken.remove(k), inpoll: s.inpoll.insert(k), ..s }),
        Step::Start(k) => s.state == 0 && s.inpoll.contains(k) && n == (Sys { state: 1, poller: k, inpoll: s.inpoll.remove(k), due: false, ..s }),
        Step::Look(k) => s.state == 1 && s.inpoll.contains(k) && n == (Sys { inpoll: s.inpoll.remove(k), ..s }),
        Step::LookDone(k) => s.state >= 2 && s.inpoll.contains(k) && n == (Sys { inpoll: s.inpoll.remove(k), slots: s.slots.remove(k), woken: s.woken.remove(k), ..s }),
        Step::Pend => s.state == 1 && n == (Sys { state: 0, ..s }),
        Step::Complete => s.state == 1 && n == (Sys { state: 2, duty: s.duty + 1, ..s }),
        Step::Poison => s.state == 1 && n == (Sys { state: 3, duty: s.duty + 1, ..s }),
        Step::Fire => n == (Sys { due: true, duty: s.duty + 1, ..s }),
        Step::WakeAll => s.duty > 0 && n == (Sys { woken: s.slots, duty: s.duty - 1, ..s }),
        Step::Drop(k) => s.slots.contains(k) && !s.inpoll.contains(k) && !(s.state == 1 && s.poller == k)
            && n == (Sys { slots: s.slots.remove(k), woken: if s.woken.contains(k) { s.slots.remove(k) } else { s.woken }, ..s }), // a woken clone passes the wake-up on
    }
}
pub proof fn machine_init() ensures inv(Sys { state: 0, poller: 0, slots: Set::empty(), woken: Set::empty(), inpoll: Set::empty(), due: false, duty: 0 }) {}
pub proof fn machine_step(s: Sys, x: Step, n: Sys) requires inv(s), next(s, x, n) ensures inv(n)
{
    if n.state <= 1 && n.due && !none(n.slots) && n.duty <= 0 {
        let j = choose|j: int| n.slots.contains(j);
        assert(n.slots.contains(j));
        match x {
            Step::Register(k) => { assert(n.inpoll.contains(k)); }
            Step::Look(k) => { assert(n.woken.contains(s.poller)); }
            Step::Pend => { assert(n.woken.contains(s.poller)); }
            Step::WakeAll => { assert(n.woken.contains(j)); }
            Step::Drop(k) => {
                assert(s.slots.contains(j));
                if s.woken.contains(k) { assert(n.woken.contains(j)); }
                else if !none(s.woken) { let i = choose|i: int| s.woken.contains(i); assert(n.woken.contains(i)); }
                else { let i = choose|i: int| s.inpoll.contains(i); assert(n.inpoll.contains(i)); }
            }
            _ => { assert(s.slots.contains(j)); }
        }
    }
}
pub proof fn machine_no_lost_wake(s: Sys) // everybody has finished its step and the inner future has asked to be polled: a waiting clone has been woken and not acted on it yet
    requires inv(s), s.state == 0, s.due, !none(s.slots), s.duty == 0, none(s.inpoll) ensures !none(s.woken) {}
pub proof fn machine_all_woken(s: Sys, k: int) // once the inner future has completed or panicked, every waiting clone has been woken
    requires inv(s), s.state >= 2, s.duty == 0, none(s.inpoll), s.slots.contains(k) ensures s.woken.contains(k) {}

//@ trackall load store compare_exchange => Tracked(&mut *tok), PhantomData::<Fut>
//@ trackall record_waker => Tracked(&mut *tok)
//@ trackall get => Tracked(&mut *tok)
//@ trackall into_inner vget_ref take_or_clone_output output => Tracked(&*tok)
//@ guardall lock => Tracked(&mut *tok), PhantomData::<Fut>
//@ indexall => 
//@ substall .unwrap_or_else(|x| x) =>> .vmerge()
//@ substall UnsafeCell::new =>> ValCell::new
//@ substall Arc::downgrade =>> VArc::downgrade
//@ substall Arc::try_unwrap =>> VArc::try_unwrap
//@ substall panic!("inner future panicked during poll") =>> vpoisoned(Tracked(&mut *tok), PhantomData::<Fut>)
//@ struct Notifier
//@ struct Inner type:future_or_output=ValCell<Fut>
//@ struct Shared
//@ struct WeakShared
//@ struct Reset
//@ fn remove_waker
    requires *old(wakers) matches Some(s) ==> s@.dom().contains(waker_key),
    ensures
        *old(wakers) is None ==> *final(wakers) is None,
        *old(wakers) matches Some(x) ==> {
            &&& *final(wakers) is Some
            &&& (*final(wakers))->0@.dom() =~= x@.dom().remove(waker_key) // only this clone's slot is given back
            &&& (x@[waker_key] is None ==> empty(*final(wakers))) // [wake] a wake-up it received and did not use is passed on
            &&& forall|k: usize| #[trigger] (*final(wakers))->0@.dom().contains(k) ==> (*final(wakers))->0@[k] == x@[k] || ((*final(wakers))->0@[k] is None && woken(x@[k]))
        },
//@ endfn
//@ fn wake_all
    ensures
        *old(wakers) is None ==> *final(wakers) is None,
        *old(wakers) matches Some(x) ==> {
            &&& *final(wakers) is Some
            &&& (*final(wakers))->0@.dom() =~= x@.dom()
            &&& forall|k: usize| #[trigger] x@.dom().contains(k) ==> (*final(wakers))->0@[k] is None && woken(x@[k]) // [wake] everybody registered is woken
        },
//@ subst for (_key, opt_waker) in wakers =>> while let Some((_key, opt_waker)) = wakers.vnext_mut(&mut vit)
//@ entry
    let mut vit: usize = 0;
    let ghost w0 = *wakers;
//@ loop 0
    invariant
        w0 is Some, *wakers =~= *wakers,
        wakers@.dom() =~= w0->0@.dom(),
        forall|k: usize| #[trigger] w0->0@.dom().contains(k) && k < vit ==> wakers@[k] is None && woken(w0->0@[k]),
        forall|k: usize| #[trigger] w0->0@.dom().contains(k) && k >= vit ==> wakers@[k] == w0->0@[k],
//@ endfn
//@ impl ArcWake for Notifier
//@ header impl Notifier
//@ fn wake_by_ref
//@ subst fn wake_by_ref( =>> fn wake_by_ref<Fut: Future>(
//@ params Tracked(tok): Tracked<&mut ShTok<Fut>>, p: PhantomData<Fut>
    requires !old(tok).in_slab && old(tok).own is None, // called by the inner future, on any thread
    ensures
        !final(tok).in_slab && !final(tok).duty, // [wake] everybody registered has been woken
//@ entry
    proof { tok.duty = true; }
//@ endfn
//@ endimpl
//@ impl Drop for Reset
//@ header impl<'a> Reset<'a>
//@ fn drop
//@ subst fn drop( =>> fn vdrop<Fut: Future>(
//@ params Tracked(tok): Tracked<&mut ShTok<Fut>>, p: PhantomData<Fut>
    requires
        !old(self).did_not_panic ==> old(tok).polling && !old(tok).in_slab && old(tok).wf(), // released only by the clone that is polling
    ensures
        old(self).did_not_panic ==> *final(tok) == *old(tok),
        !old(self).did_not_panic ==> final(tok).poisoned && !final(tok).polling, // the other clones will see the panic
        !old(self).did_not_panic ==> !final(tok).duty && !final(tok).in_slab, // [wake] and are woken to see it
//@ endfn
//@ endimpl
//@ impl WeakShared
//@ fn upgrade -> r
//@ tries option
    ensures r matches Some(s) ==> s.inner is Some && *s.inner->0 == self.0.to() && s.waker_key == usize::MAX, // the same future, with no waker slot yet
//@ endfn
//@ endimpl
//@ impl Clone for Shared
//@ header impl<Fut: Future> Shared<Fut>
//@ fn clone -> r
//@ subst self.inner.clone() =>> vclone_opt_arc(&self.inner)
    ensures r.inner == self.inner, r.waker_key == usize::MAX, // the same future, with no waker slot yet
//@ endfn
//@ endimpl
//@ impl Shared
//@ fn new -> r
    ensures r.inner is Some && r.waker_key == usize::MAX, r.inner->0.future_or_output.init() == FutureOrOutput::<Fut>::Future(future),
        r.inner->0.notifier.state.init() == 0 && r.inner->0.notifier.wakers.init() is Some && r.inner->0.notifier.wakers.init()->0@ == Map::<usize, Option<Waker>>::empty(),
//@ endfn
//@ fn peek -> r
//@ params Tracked(tok): Tracked<&mut ShTok<Fut>>
    requires !old(tok).polling,
    ensures
        r matches Some(v) ==> *v == old(tok).out, // what the inner future produced
        self.inner is Some && old(tok).complete ==> r is Some,
        self.inner is None ==> r is None,
//@ endfn
//@ fn downgrade -> r
    ensures
        self.inner is Some <==> r is Some, // until this handle has returned the output
        r matches Some(w) ==> w.0.to() == *self.inner->0, // and it refers to the same future
//@ endfn
//@ endimpl
//@ impl Inner
//@ fn output -> r
//@ subst .get() =>> .vget_ref()
//@ params Tracked(tok): Tracked<&ShTok<Fut>>
    requires tok.complete && !tok.polling,
    ensures *r == tok.out,
//@ endfn
//@ endimpl
//@ impl Inner
//@ header impl<Fut: Future> Inner<Fut> where Fut::Output: VClone
//@ fn record_waker
//@ params Tracked(tok): Tracked<&mut ShTok<Fut>>
    requires !old(tok).in_slab && !old(tok).duty && !old(tok).polling && !old(tok).mine && old(tok).wf(), *old(waker_key) == old(tok).key(),
    ensures
        *final(cx) == *old(cx), *final(waker_key) == final(tok).key(),
        final(tok).closed || (final(tok).fresh && final(tok).own is Some && final(tok).reg == Some(old(cx).id())), // [wake] registered with the task's waker, unless everything is over
        *final(tok) == (ShTok { own: final(tok).own, reg: final(tok).reg, fresh: final(tok).fresh, looked: final(tok).looked, closed: final(tok).closed, ..*old(tok) }),
        final(tok).wf(),
//@ endfn
//@ fn take_or_clone_output -> r
//@ params Tracked(tok): Tracked<&ShTok<Fut>>
    requires tok.complete && !tok.polling,
    ensures r == tok.out, // every clone gets what the inner future produced
//@ endfn
//@ endimpl
//@ impl FusedFuture for Shared
//@ header impl<Fut: Future> Shared<Fut> where Fut::Output: VClone
//@ fn is_terminated -> r
    ensures r == (self.inner is None), // [term] terminated exactly when the output was given out
//@ endfn
//@ endimpl
//@ impl Future for Shared
//@ header impl<Fut: Future> Shared<Fut> where Fut::Output: VClone
//@ noassoc
//@ fn poll -> r
//@ noauto
//@ attr #[verifier::loop_isolation(false)]
//@ params Tracked(tok): Tracked<&mut ShTok<Fut>>
//@ subst for waker in wakers.drain().flatten() =>> while let Some(waker) = wakers.vdrain_flat()
//@ subst drop(reset) =>> reset.vdrop(Tracked(&mut *tok), PhantomData::<Fut>)
    requires
        old(tok).idle(), old(self.ptr).inner is Some, old(self.ptr).waker_key == old(tok).key(), wid(*old(self.ptr).inner->0.notifier) == old(tok).nid,
    ensures
        *final(cx) == *old(cx),
        r matches Poll::Ready(v) ==> v == old(tok).out && final(self.ptr).inner is None, // completes with what the inner future produced
        r is Pending ==> final(self.ptr).inner == old(self.ptr).inner && final(self.ptr).waker_key == final(tok).key(),
        r is Pending ==> final(tok).reg == Some(old(cx).id()) && final(tok).own is Some && final(tok).looked, // [wake] registered, and somebody polled the inner future with the notifier's waker after that
        final(tok).idle(),
//@ beforeloop 0
    let ghost d0 = wakers@;
//@ loop 0
    invariant forall|k: usize| #[trigger] d0.dom().contains(k) ==> (wakers@.dom().contains(k) && wakers@[k] == d0[k]) || woken(d0[k]),
//@ endfn
//@ endimpl
//@ impl Drop for Shared
//@ header impl<Fut: Future> Shared<Fut>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut ShTok<Fut>>
    requires old(tok).idle(), old(self).inner is Some ==> old(self).waker_key == old(tok).key(),
    ensures
        final(tok).idle(), old(self).inner is Some ==> final(tok).own is None || final(tok).closed, // [wake] the slot is given back, and an unused wake-up passed on
//@ endfn
//@ endimpl
}
