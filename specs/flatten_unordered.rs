//@ include seqs
//@ include conc
verus! {
pub use std::sync::Arc;
pub use vstd::multiset::Multiset;
#[derive(Clone, Copy)]
pub struct NonZeroUsize { pub v: usize }
impl NonZeroUsize {
    pub fn get(self) -> (r: usize) ensures r == self.v { self.v }
    pub fn new(v: usize) -> (r: Option<NonZeroUsize>) ensures r is Some == (v != 0), r is Some ==> r->0.v == v { if v == 0 { None } else { Some(NonZeroUsize { v }) } }
}
// ---- the state word.  bits: 1 inner streams need a poll, 2 the source needs one, 4 being polled, 8 being woken, 16 woken
pub open spec fn hi(v: u8) -> bool { v & 1 != 0 }
pub open spec fn hs(v: u8) -> bool { v & 2 != 0 }
pub open spec fn hp(v: u8) -> bool { v & 4 != 0 }
pub open spec fn hw(v: u8) -> bool { v & 8 != 0 }
pub open spec fn hk(v: u8) -> bool { v & 16 != 0 }
pub open spec fn fst<B>(p: (u8, B)) -> u8 { p.0 }
pub open spec fn wk_is(o: Option<Waker>, id: int) -> bool { o is Some ==> o->0.id() == id }
pub open spec fn small(v: u8) -> bool { v & 0xE0 == 0 }
pub open spec fn bits(v: u8) -> (bool, bool, bool, bool, bool) { (hi(v), hs(v), hp(v), hw(v), hk(v)) }
pub open spec fn one(m: u8) -> bool { m == 1 || m == 2 || m == 4 || m == 8 || m == 16 }
pub broadcast proof fn b_or(a: u8, b: u8, m: u8) ensures (#[trigger] ((a | b) & m) != 0) == (a & m != 0 || b & m != 0) { assert((((a | b) & m) != 0) == (a & m != 0 || b & m != 0)) by (bit_vector); }
pub broadcast proof fn b_and(a: u8, b: u8, m: u8) requires one(m) ensures (#[trigger] ((a & b) & m) != 0) == (a & m != 0 && b & m != 0) {
    assert((m == 1 || m == 2 || m == 4 || m == 8 || m == 16) ==> (((a & b) & m) != 0) == (a & m != 0 && b & m != 0)) by (bit_vector);
}
pub broadcast proof fn b_not(a: u8, m: u8) requires one(m) ensures (#[trigger] (!a & m) != 0) == (a & m == 0) {
    assert((m == 1 || m == 2 || m == 4 || m == 8 || m == 16) ==> ((!a & m) != 0) == (a & m == 0)) by (bit_vector);
}
pub broadcast proof fn b_const(a: u8) ensures
        #![trigger hi(a)] #![trigger hs(a)] #![trigger hp(a)] #![trigger hw(a)] #![trigger hk(a)]
        (a & 3 != 0) == (hi(a) || hs(a)), (a & (16u8 | 4) != 0) == (hk(a) || hp(a)), (a & (16u8 | 4 | 8) != 0) == (hk(a) || hp(a) || hw(a)), (a & (16u8 | 4 | 8) == 8) == (hw(a) && !hk(a) && !hp(a)), (a & 1 != 0) == hi(a), (a & 2 != 0) == hs(a), (a & 8 != 0) == hw(a)
{
    assert((a & (16u8 | 4 | 8) == 8) == (a & 8 != 0 && a & 16 == 0 && a & 4 == 0)) by (bit_vector);
    assert((a & 3 != 0) == (a & 1 != 0 || a & 2 != 0)) by (bit_vector);
    assert((a & (16u8 | 4) != 0) == (a & 16 != 0 || a & 4 != 0)) by (bit_vector);
    assert((a & (16u8 | 4 | 8) != 0) == (a & 16 != 0 || a & 4 != 0 || a & 8 != 0)) by (bit_vector);
}
pub broadcast proof fn b_small_or(a: u8, b: u8) ensures #[trigger] small(a | b) == (small(a) && small(b)) { assert(((a | b) & 0xE0 == 0) == (a & 0xE0 == 0 && b & 0xE0 == 0)) by (bit_vector); }
pub broadcast proof fn b_small_and(a: u8, b: u8) ensures small(a) || small(b) ==> #[trigger] small(a & b) { assert((a & 0xE0 == 0 || b & 0xE0 == 0) ==> (a & b) & 0xE0 == 0) by (bit_vector); }
pub broadcast proof fn b_twice(a: u8, m: u8) ensures #[trigger] ((a & m) & m) == a & m { assert((a & m) & m == a & m) by (bit_vector); }
pub proof fn b_lits() ensures
    bits(0) == (false, false, false, false, false), bits(1) == (true, false, false, false, false), bits(2) == (false, true, false, false, false), bits(3) == (true, true, false, false, false),
    bits(4) == (false, false, true, false, false), bits(8) == (false, false, false, true, false), bits(16) == (false, false, false, false, true),
    small(0), small(1), small(2), small(3), small(4), small(8), small(16), 1u8 | 2 == 3, 16u8 | 4 == 20, 16u8 | 4 | 8 == 28,
{
    assert(0u8 & 1 == 0 && 0u8 & 2 == 0 && 0u8 & 4 == 0 && 0u8 & 8 == 0 && 0u8 & 16 == 0) by (bit_vector);
    assert(1u8 & 1 == 1 && 1u8 & 2 == 0 && 1u8 & 4 == 0 && 1u8 & 8 == 0 && 1u8 & 16 == 0) by (bit_vector);
    assert(2u8 & 1 == 0 && 2u8 & 2 == 2 && 2u8 & 4 == 0 && 2u8 & 8 == 0 && 2u8 & 16 == 0) by (bit_vector);
    assert(3u8 & 1 == 1 && 3u8 & 2 == 2 && 3u8 & 4 == 0 && 3u8 & 8 == 0 && 3u8 & 16 == 0) by (bit_vector);
    assert(4u8 & 1 == 0 && 4u8 & 2 == 0 && 4u8 & 4 == 4 && 4u8 & 8 == 0 && 4u8 & 16 == 0) by (bit_vector);
    assert(8u8 & 1 == 0 && 8u8 & 2 == 0 && 8u8 & 4 == 0 && 8u8 & 8 == 8 && 8u8 & 16 == 0) by (bit_vector);
    assert(16u8 & 1 == 0 && 16u8 & 2 == 0 && 16u8 & 4 == 0 && 16u8 & 8 == 0 && 16u8 & 16 == 16) by (bit_vector);
    assert(0u8 & 0xE0 == 0 && 1u8 & 0xE0 == 0 && 2u8 & 0xE0 == 0 && 3u8 & 0xE0 == 0 && 4u8 & 0xE0 == 0 && 8u8 & 0xE0 == 0 && 16u8 & 0xE0 == 0 && 1u8 | 2 == 3 && 16u8 | 4 == 20 && 16u8 | 4 | 8 == 28) by (bit_vector);
}
// a word is determined by its bits
pub proof fn b_ext(a: u8, b: u8) requires small(a), small(b), bits(a) == bits(b) ensures a == b {
    assert(a & 0xE0 == 0 && b & 0xE0 == 0 && ((a & 1 != 0) == (b & 1 != 0)) && ((a & 2 != 0) == (b & 2 != 0)) && ((a & 4 != 0) == (b & 4 != 0)) && ((a & 8 != 0) == (b & 8 != 0)) && ((a & 16 != 0) == (b & 16 != 0)) ==> a == b) by (bit_vector);
}
pub broadcast group group_bits { b_or, b_and, b_not, b_const, b_small_or, b_small_and, b_twice }
// The word is used by the task that polls (role 0) and by any number of threads that wake (role 1, `need` is what they ask for).
pub tracked struct FlTok {
    pub ghost role: int,
    pub ghost need: u8,
    pub ghost polling: bool,         // this task has set bit 4
    pub ghost left: u8,              // needs that are certainly in the word: only the polling task takes them out
    pub ghost slots: (Option<int>, Option<int>), // wakers left by this poll for the source and for the inner streams
    pub ghost owner: bool,           // this thread has set bit 8: the waker slot is its own
    pub ghost noted: bool,           // the request is in the word, and somebody will see it
    pub ghost read: Option<int>,     // the waker it found
    pub ghost owed: bool,            // this thread has set bit 16: it wakes the task
}
impl FlTok { pub open spec fn idle(&self) -> bool { self.role == 0 && !self.polling && !self.owner } }
pub open spec fn guar(t: FlTok, v: u8, n: u8) -> bool {
    if t.role == 0 && !t.polling { !hw(v) && n == 4 } // waits for a waking thread; takes all requests
    else if t.role == 0 { small(n) && !hp(n) && !hw(n) && (hi(v) ==> hi(n)) && (hs(v) ==> hs(n)) && (hi(v) || hs(v) ==> hk(n)) } // keeps requests that arrived meanwhile, and answers them
    else if !t.owner {
        hp(n) == hp(v) && hk(n) == hk(v) && hi(n) == (hi(v) || hi(t.need)) && hs(n) == (hs(v) || hs(t.need)) && hw(n) == (hw(v) || (!hk(v) && !hp(v)))
    } else { hp(n) == hp(v) && hi(n) == hi(v) && hs(n) == hs(v) && !hw(n) && hk(n) }
}
pub open spec fn noguar(t: FlTok, v: u8) -> bool { // when nothing is written
    if t.role == 0 { !t.polling }
    else { !t.owner && (hi(t.need) ==> hi(v)) && (hs(t.need) ==> hs(v)) && (hk(v) || hp(v) || hw(v)) }
}
pub open spec fn upd(t: FlTok, v: u8, n: u8) -> FlTok {
    if t.role == 0 && !t.polling { FlTok { polling: true, left: 0, slots: (None, None), ..t } }
    else if t.role == 0 { FlTok { polling: false, left: (n & 3), owed: hk(n), ..t } }
    else if !t.owner { FlTok { owner: !hw(v) && hw(n), noted: true, ..t } }
    else { FlTok { owner: false, owed: true, ..t } }
}
#[verifier::external_body]
pub struct StateWord { x: core::sync::atomic::AtomicU8 }
impl StateWord {
    pub uninterp spec fn init(&self) -> u8;
    #[verifier::external_body]
    pub fn new(v: u8) -> (r: Self) ensures r.init() == v { unimplemented!() }
    // the value that is about to be replaced (by the closure of fetch_update: it is called again until nobody interferes)
    #[verifier::external_body]
    pub fn vfu_read(&self, a: Ordering, b: Ordering, Tracked(t): Tracked<&mut FlTok>) -> (v: u8)
        requires a is SeqCst, b is SeqCst,
        ensures
            *final(t) == *old(t), small(v),
            hp(v) ==> !hw(v) && !hk(v), hw(v) ==> !hk(v),
            old(t).role == 0 ==> hp(v) == old(t).polling && (hi(old(t).left) ==> hi(v)) && (hs(old(t).left) ==> hs(v)),
            old(t).role == 1 && old(t).owner ==> hw(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vfu_commit(&self, v: u8, n: Option<u8>, Tracked(t): Tracked<&mut FlTok>) -> (r: Result<u8, u8>)
        requires n matches Some(m) ==> guar(*old(t), v, m), n is None ==> noguar(*old(t), v), // [wake] no request is lost, and each is seen by somebody
        ensures
            n matches Some(m) ==> r == Ok::<u8, u8>(v) && *final(t) == upd(*old(t), v, m),
            n is None ==> r == Err::<u8, u8>(v) && *final(t) == (FlTok { noted: old(t).noted || old(t).role == 1, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: u8, o: Ordering, Tracked(t): Tracked<&mut FlTok>) -> (v: u8)
        requires o is SeqCst, old(t).role == 0 && old(t).polling && n == 3, // [wake] after a panic everything is to be polled
        ensures *final(t) == (FlTok { polling: false, left: 3, ..*old(t) }),
    { unimplemented!() }
}
pub trait VOptClone: Sized { fn clone(&self) -> (r: Self); }
impl VOptClone for Option<Waker> {
    fn clone(&self) -> (r: Self) ensures r is Some == self is Some, r is Some ==> r->0.id() == self->0.id() { match self { Some(w) => Some(w.clone()), None => None } }
}
impl<'a> Context<'a> { pub fn from_waker(w: &'a Waker) -> (r: Context<'a>) ensures r.id() == w.id() { Context { w } } }
pub trait VBoth<T> { spec fn both(self) -> T; fn vboth(self) -> (r: T) where Self: Sized ensures r == self.both(); }
impl<T> VBoth<T> for Result<T, T> {
    open spec fn both(self) -> T { match self { Ok(x) => x, Err(x) => x } }
    fn vboth(self) -> (r: T) { match self { Ok(x) => x, Err(x) => x } }
}
// the waker slot: written by the polling task, read by the thread that set bit 8
#[verifier::external_body]
pub struct SlotCell { x: Option<Waker> }
impl SlotCell {
    pub uninterp spec fn init_none(&self) -> bool;
    #[verifier::external_body]
    pub fn new(v: Option<Waker>) -> (r: Self) ensures r.init_none() == (v is None) { unimplemented!() }
    #[verifier::external_body]
    pub fn vwrite(&self, w: Waker, need: u8, Tracked(t): Tracked<&mut FlTok>)
        requires old(t).role == 0 && old(t).polling, // nobody else reads it now
        ensures *final(t) == (FlTok { slots: if need == 2 { (Some(w.id()), old(t).slots.1) } else { (old(t).slots.0, Some(w.id())) }, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vread(&self, Tracked(t): Tracked<&mut FlTok>) -> (r: Option<Waker>)
        requires old(t).role == 1 && old(t).owner, // nobody writes it now
        ensures r is Some, *final(t) == (FlTok { read: Some(r->0.id()), ..*old(t) }), // wakers are handed out by a poll that has written it
    { unimplemented!() }
}
// The machine: bits as above; phase 0 the task returned Pending, 1 it is polling, 2 it returned Ready
pub struct Sys { pub i: bool, pub s: bool, pub p: bool, pub w: bool, pub k: bool, pub phase: int, pub flight: int /* wake-ups of the task under way */, pub woken: bool, pub asked: bool /* a request since the last poll began */ }
pub enum Step { Start, Wake(bool, bool), StopWake, Deliver, StopPending(bool, bool, bool), StopReady(bool, bool, bool), Reset }
pub open spec fn inv(x: Sys) -> bool {
    &&& x.p == (x.phase == 1) && 0 <= x.phase <= 2 && x.flight >= 0
    &&& (x.p ==> !x.w && !x.k) && (x.w ==> !x.k)
    &&& (x.k && x.phase == 0 ==> x.flight > 0 || x.woken)
    &&& (x.asked && x.phase == 0 ==> x.w || x.k)
    &&& (x.asked && x.phase == 1 ==> x.i || x.s)
}
pub open spec fn next(x: Sys, t: Step, n: Sys) -> bool {
    match t {
        Step::Start => x.phase != 1 && !x.w && n == (Sys { i: false, s: false, p: true, w: false, k: false, phase: 1, woken: false, asked: false, ..x }),
        Step::Wake(a, b) => (a || b) && n == (Sys { i: x.i || a, s: x.s || b, w: x.w || (!x.k && !x.p), asked: true, ..x }),
        Step::StopWake => x.w && n == (Sys { w: false, k: true, flight: x.flight + 1, ..x }),
        Step::Deliver => x.flight > 0 && n == (Sys { flight: x.flight - 1, woken: true, ..x }),
        Step::StopPending(a, b, f) => x.p && n == (Sys { i: x.i || a, s: x.s || b, p: false, k: x.i || x.s || f, flight: if x.i || x.s || f { x.flight + 1 } else { x.flight }, phase: 0, ..x }),
        Step::StopReady(a, b, f) => x.p && n == (Sys { i: x.i || a, s: x.s || b, p: false, k: x.i || x.s || f, phase: 2, ..x }),
        Step::Reset => x.p && n == (Sys { i: true, s: true, p: false, w: false, k: false, phase: 2, ..x }),
    }
}
pub proof fn machine_init() ensures inv(Sys { i: false, s: true, p: false, w: false, k: false, phase: 2, flight: 0, woken: false, asked: false }) {}
pub proof fn machine_step(x: Sys, t: Step, n: Sys) requires inv(x), next(x, t, n) ensures inv(n) {}
// a request after the poll began is answered: once no thread is half way through waking, a pending task has been woken or a wake-up is under way
pub proof fn machine_no_lost_wake(x: Sys) requires inv(x), x.phase == 0, x.asked, !x.w ensures x.flight > 0 || x.woken {}

pub uninterp spec fn arc_wid(w: WrappedWaker) -> int; // identity of the waker made from this object
#[verifier::external_body]
pub fn waker(w: Arc<WrappedWaker>) -> (r: Waker) ensures r.id() == arc_wid(*w) { unimplemented!() }
pub trait VIntoOpt<T> { spec fn opt(self) -> Option<T>; fn vinto_opt(self) -> (r: Option<T>) where Self: Sized ensures r == self.opt(); }
impl<T> VIntoOpt<T> for T { open spec fn opt(self) -> Option<T> { Some(self) } fn vinto_opt(self) -> (r: Option<T>) { Some(self) } }
impl<T> VIntoOpt<T> for Option<T> { open spec fn opt(self) -> Option<T> { self } fn vinto_opt(self) -> (r: Option<T>) { self } }

// FuturesUnordered (C21) of the futures that take the next item of an inner stream: bag() is what each of them still has to yield
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct FuturesUnordered<Fut> { x: Vec<Fut> }
impl<S: Stream> FuturesUnordered<PollStreamFut<S>> {
    pub uninterp spec fn bag(&self) -> Multiset<Seq<S::Item>>;
    pub uninterp spec fn uarmed(&self, w: int) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.bag() == Multiset::<Seq<S::Item>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bag().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bag().len() == 0) { unimplemented!() }
}
impl<'a, S: Stream> Pin<&'a mut FuturesUnordered<PollStreamFut<S>>> {
    #[verifier::external_body]
    pub fn push(self, f: PollStreamFut<S>)
        requires f.fwf(), // [term] only streams that have not ended
        ensures final(self.ptr).bag() == old(self.ptr).bag().insert(f.frest()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_next(self, cx: &mut Context<'_>) -> (r: Poll<Option<Option<(S::Item, PollStreamFut<S>)>>>)
        ensures
            *final(cx) == *old(cx),
            r matches Poll::Ready(Some(Some((x, f)))) ==> f.fwf() && old(self.ptr).bag().count(seq![x] + f.frest()) > 0 && final(self.ptr).bag() == old(self.ptr).bag().remove(seq![x] + f.frest()),
            r matches Poll::Ready(Some(None)) ==> old(self.ptr).bag().count(Seq::<S::Item>::empty()) > 0 && final(self.ptr).bag() == old(self.ptr).bag().remove(Seq::<S::Item>::empty()),
            r matches Poll::Ready(None) ==> old(self.ptr).bag().len() == 0 && final(self.ptr).bag() == old(self.ptr).bag(),
            r is Pending ==> old(self.ptr).bag().len() > 0 && final(self.ptr).bag() == old(self.ptr).bag(),
            r is Pending ==> final(self.ptr).uarmed(old(cx).id()), // [wake]
    { unimplemented!() }
}
//@ trackall vfu_read vfu_commit start_polling start_waking stop_polling stop_waking reset swap deactivate WrappedWaker::replace_waker => Tracked(&mut *tok)
//@ substall .unwrap_or_else(identity) =>> .vboth()
//@ file futures-util/src/stream/stream/flatten_unordered.rs
//@ const NONE
//@ const NEED_TO_POLL_INNER_STREAMS
//@ const NEED_TO_POLL_STREAM
//@ const NEED_TO_POLL_ALL
//@ const POLLING
//@ const WAKING
//@ const WOKEN
//@ struct SharedPollState type:state=Arc<StateWord>
impl SharedPollState {
    pub fn clone(&self) -> (r: Self) ensures r == *self { SharedPollState { state: self.state.clone() } }
}
// what the guard does when it is dropped: the two functions it is made with (`Self::reset`, `Self::stop_waking`)
pub trait BombFn: Sized {
    spec fn pre(t: FlTok) -> bool;
    spec fn post(t: FlTok) -> FlTok;
    fn vcall(self, s: &SharedPollState, Tracked(tok): Tracked<&mut FlTok>) -> (r: u8) requires Self::pre(*old(tok)) ensures *final(tok) == Self::post(*old(tok));
}
pub struct BReset { }
pub struct BStop { }
impl BombFn for BReset {
    open spec fn pre(t: FlTok) -> bool { t.role == 0 && t.polling }
    open spec fn post(t: FlTok) -> FlTok { FlTok { polling: false, left: 3, ..t } }
    fn vcall(self, s: &SharedPollState, Tracked(tok): Tracked<&mut FlTok>) -> (r: u8) { s.reset(Tracked(&mut *tok)) }
}
impl BombFn for BStop {
    open spec fn pre(t: FlTok) -> bool { t.role == 1 && t.owner }
    open spec fn post(t: FlTok) -> FlTok { FlTok { owner: false, owed: true, ..t } }
    fn vcall(self, s: &SharedPollState, Tracked(tok): Tracked<&mut FlTok>) -> (r: u8) { s.stop_waking(Tracked(&mut *tok)) }
}
//@ struct PollStateBomb nobounds
//@ impl PollStateBomb
//@ header impl<'a, F: BombFn> PollStateBomb<'a, F>
//@ fn new -> r
    ensures r.state == state, r.drop is Some, r.drop->0 == drop,
//@ endfn
//@ fn deactivate -> r
//@ params Tracked(tok): Tracked<&mut FlTok>
    requires old(tok).role == 0 && old(tok).polling,
    ensures *final(tok) == *old(tok), // [wake] does nothing any more
//@ endfn
//@ endimpl
//@ impl Drop for PollStateBomb
//@ header impl<F: BombFn> PollStateBomb<'_, F>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut FlTok>
//@ subst (drop)(self.state) =>> drop.vcall(self.state, Tracked(&mut *tok))
    requires old(self).drop is Some ==> F::pre(*old(tok)),
    ensures final(self).drop is None, *final(tok) == (if old(self).drop is Some { F::post(*old(tok)) } else { *old(tok) }), // [wake] runs its function, once
//@ endfn
//@ endimpl
//@ impl SharedPollState
//@ fn new -> r
    ensures r.state.init() == value,
//@ subst AtomicU8::new =>> StateWord::new
//@ endfn
//@ fn start_polling -> r
//@ params Tracked(tok): Tracked<&mut FlTok>
//@ subst Option<(u8, PollStateBomb<'_, impl FnOnce(&Self) -> u8>)> =>> Option<(u8, PollStateBomb<'_, BReset>)>
//@ subst Self::reset =>> BReset { }
    requires old(tok).role == 0 && !old(tok).polling,
    ensures
        r is None ==> *final(tok) == *old(tok),
        r matches Some((v, b)) ==> b.drop is Some && *final(tok) == (FlTok { polling: true, left: 0, slots: (None, None), ..*old(tok) }) && (hi(old(tok).left) ==> hi(v)) && (hs(old(tok).left) ==> hs(v)), // [wake] every request is taken over
//@ entry
    broadcast use group_bits; proof { b_lits(); }
//@ endfn
//@ fn start_waking -> r
//@ params Tracked(tok): Tracked<&mut FlTok>
//@ subst Option<(u8, PollStateBomb<'_, impl FnOnce(&Self) -> u8>)> =>> Option<(u8, PollStateBomb<'_, BStop>)>
//@ subst Self::stop_waking =>> BStop { }
    requires old(tok).role == 1 && !old(tok).owner && to_poll == old(tok).need, to_poll == 1 || to_poll == 2,
    ensures
        *final(tok) == (FlTok { noted: true, owner: r is Some, ..*old(tok) }), // [wake] the request is in the word; the guard is given out exactly to the thread that owns the slot
        r matches Some((v, b)) ==> b.drop is Some,
//@ entry
    broadcast use group_bits; proof { b_lits(); }
//@ endfn
//@ fn stop_polling -> r
//@ params Tracked(tok): Tracked<&mut FlTok>
    requires old(tok).role == 0 && old(tok).polling, small(to_poll), !hp(to_poll) && !hw(to_poll) && !hk(to_poll),
    ensures
        final(tok).left == final(tok).left & 3,
        *final(tok) == (FlTok { polling: false, left: final(tok).left, owed: final(tok).owed, ..*old(tok) }),
        hi(final(tok).left) == (hi(to_poll) || hi(r)), hs(final(tok).left) == (hs(to_poll) || hs(r)), // [wake] nothing that was requested is forgotten
        final(tok).owed == (hi(r) || hs(r) || will_be_woken), // marked as woken exactly if the task will be
//@ entry
    broadcast use group_bits; proof { b_lits(); }
//@ endfn
//@ fn stop_waking
//@ params Tracked(tok): Tracked<&mut FlTok>
    requires old(tok).role == 1 && old(tok).owner,
    ensures *final(tok) == (FlTok { owner: false, owed: true, ..*old(tok) }),
//@ entry
    broadcast use group_bits; proof { b_lits(); }
//@ endfn
//@ fn reset
//@ params Tracked(tok): Tracked<&mut FlTok>
    requires old(tok).role == 0 && old(tok).polling,
    ensures *final(tok) == (FlTok { polling: false, left: 3, ..*old(tok) }),
//@ entry
    broadcast use group_bits; proof { b_lits(); }
//@ endfn
//@ endimpl
//@ struct WrappedWaker type:inner_waker=SlotCell
//@ impl WrappedWaker
//@ fn replace_waker
//@ params Tracked(tok): Tracked<&mut FlTok>
//@ subst *self_arc.inner_waker.get() = cx.waker().clone().into() =>> self_arc.inner_waker.vwrite(cx.waker().clone(), self_arc.need_to_poll, Tracked(&mut *tok))
    requires old(tok).role == 0 && old(tok).polling,
    ensures
        *final(self_arc) == *old(self_arc),
        *final(tok) == (FlTok { slots: if old(self_arc).need_to_poll == 2 { (Some(cx.id()), old(tok).slots.1) } else { (old(tok).slots.0, Some(cx.id())) }, ..*old(tok) }),
//@ endfn
//@ fn start_waking -> r
//@ params Tracked(tok): Tracked<&mut FlTok>
//@ subst Option<(u8, PollStateBomb<'_, impl FnOnce(&SharedPollState) -> u8>)> =>> Option<(u8, PollStateBomb<'_, BStop>)>
    requires old(tok).role == 1 && !old(tok).owner && self.need_to_poll == old(tok).need, self.need_to_poll == 1 || self.need_to_poll == 2,
    ensures
        *final(tok) == (FlTok { noted: true, owner: r is Some, ..*old(tok) }),
        r matches Some((v, b)) ==> b.drop is Some,
//@ endfn
//@ endimpl
//@ impl ArcWake for WrappedWaker
//@ header impl WrappedWaker
//@ fn wake_by_ref
//@ params Tracked(tok): Tracked<&mut FlTok>
//@ subst self_arc.inner_waker.get().as_ref().unwrap() =>> self_arc.inner_waker.vread(Tracked(&mut *tok))
//@ subst drop(state_bomb) =>> { let mut __b = state_bomb; __b.drop(Tracked(&mut *tok)) }
    requires old(tok).role == 1 && !old(tok).owner && !old(tok).owed && old(tok).read is None && self_arc.need_to_poll == old(tok).need, self_arc.need_to_poll == 1 || self_arc.need_to_poll == 2,
    ensures
        final(tok).noted && !final(tok).owner, // [wake] the request is in the word
        final(tok).owed ==> final(tok).read is Some && wake_requested(final(tok).read->0), // [wake] whoever marks the task as woken wakes it
//@ endfn
//@ endimpl
//@ struct PollStreamFut
impl<St: Stream> PollStreamFut<St> {
    pub open spec fn frest(&self) -> Seq<St::Item> { match self.stream { Some(s) => s.rest(), None => Seq::empty() } }
    pub open spec fn fwf(&self) -> bool { self.stream is Some ==> self.stream->0.wf() && !self.stream->0.ended() }
}
//@ impl PollStreamFut
//@ header impl<St> PollStreamFut<St>
//@ fn new -> r
//@ subst stream: impl Into<Option<St>> =>> stream: impl VIntoOpt<St>
//@ subst .into() =>> .vinto_opt()
    ensures r.stream == stream.opt(),
//@ endfn
//@ endimpl
//@ impl Future for PollStreamFut
//@ header impl<St: Stream> PollStreamFut<St>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Option<(St::Item, Self)>
    requires old(self.ptr).fwf(),
    ensures
        *final(cx) == *old(cx),
        r matches Poll::Ready(Some((x, f))) ==> f.fwf() && old(self.ptr).frest() == seq![x] + f.frest(), // the next item, and a future for the rest
        r matches Poll::Ready(None) ==> old(self.ptr).frest() == Seq::<St::Item>::empty(),
        r is Pending ==> final(self.ptr).fwf() && final(self.ptr).frest() == old(self.ptr).frest() && final(self.ptr).stream is Some && final(self.ptr).stream->0.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ struct FlowStep
pub trait FlowController<I, O> {
    spec fn okitem(item: I) -> bool;
    spec fn nstep(item: I) -> FlowStep<I, O>;
    fn next_step(item: I) -> (r: FlowStep<I, O>) requires Self::okitem(item) ensures r == Self::nstep(item);
}
//@ impl FlowController for ()
    open spec fn okitem(item: I) -> bool { true }
    open spec fn nstep(item: I) -> FlowStep<I, O> { FlowStep::Continue(item) }
//@ fn next_step
//@ endfn
//@ endimpl
//@ struct FlattenUnorderedWithFlowController
pub open spec fn cont<S: Stream, Fc: FlowController<S, S::Item>>(o: Seq<S>) -> bool { forall|k: int| 0 <= k < o.len() ==> #[trigger] Fc::nstep(o[k]) is Continue }
pub open spec fn okstreams<S: Stream, Fc: FlowController<S, S::Item>>(o: Seq<S>) -> bool { forall|k: int| 0 <= k < o.len() ==> Fc::okitem(o[k]) && (#[trigger] Fc::nstep(o[k]) matches FlowStep::Continue(s) ==> s.wf() && !s.ended()) }
pub broadcast proof fn lemma_ok_head<S: Stream, Fc: FlowController<S, S::Item>>(x: S, o: Seq<S>) requires #[trigger] okstreams::<S, Fc>(seq![x] + o) ensures Fc::okitem(x), Fc::nstep(x) matches FlowStep::Continue(s) ==> s.wf() && !s.ended(), okstreams::<S, Fc>(o) {
    let a = seq![x] + o;
    assert(a[0] == x); assert(Fc::okitem(a[0]) || Fc::nstep(a[0]) == Fc::nstep(x));
    assert forall|k: int| 0 <= k < o.len() implies Fc::okitem(o[k]) && (#[trigger] Fc::nstep(o[k]) matches FlowStep::Continue(s) ==> s.wf() && !s.ended()) by { assert(a[k + 1] == o[k]); assert(Fc::nstep(a[k + 1]) == Fc::nstep(o[k])); }
}
pub open spec fn rests<S: Stream, Fc: FlowController<S, S::Item>>(o: Seq<S>) -> Seq<Seq<S::Item>> { o.map(|k: int, s: S| Fc::nstep(s)->Continue_0.rest()) }
pub open spec fn bag_of<S: Stream, Fc: FlowController<S, S::Item>>(b: Multiset<Seq<S::Item>>, o: Seq<S>) -> Multiset<Seq<S::Item>> { b.add(rests::<S, Fc>(o).to_multiset()) }
pub open spec fn outof<A>(b: Multiset<Seq<A>>, x: A, b1: Multiset<Seq<A>>) -> bool { exists|s: Seq<A>| #[trigger] outof1(b, x, s, b1) }
pub open spec fn outof1<A>(b: Multiset<Seq<A>>, x: A, s: Seq<A>, b1: Multiset<Seq<A>>) -> bool { b.count(seq![x] + s) > 0 && b1 == b.remove(seq![x] + s).insert(s) }
pub broadcast proof fn lemma_out<A>(b: Multiset<Seq<A>>, x: A, s: Seq<A>) requires b.count(seq![x] + s) > 0 ensures #![trigger b.remove(seq![x] + s).insert(s)] outof(b, x, b.remove(seq![x] + s).insert(s)) { assert(outof1(b, x, s, b.remove(seq![x] + s).insert(s))); }
// one poll: some inner streams are taken in, then at most one item comes out of one of them (or of the source itself), or one that ended is removed
pub open spec fn fl_step<S: Stream, Fc: FlowController<S, S::Item>>(b0: Multiset<Seq<S::Item>>, o0: Seq<S>, b1: Multiset<Seq<S::Item>>, o1: Seq<S>, r: Poll<Option<S::Item>>) -> bool {
    exists|k: int| 0 <= k <= o0.len() && #[trigger] cont::<S, Fc>(o0.take(k)) && fl_end::<S, Fc>(bag_of::<S, Fc>(b0, o0.take(k)), o0.skip(k), b1, o1, r)
}
pub open spec fn fl_end<S: Stream, Fc: FlowController<S, S::Item>>(b: Multiset<Seq<S::Item>>, o: Seq<S>, b1: Multiset<Seq<S::Item>>, o1: Seq<S>, r: Poll<Option<S::Item>>) -> bool {
    ||| o.len() > 0 && Fc::nstep(o[0]) is Return && r == Poll::Ready(Some(Fc::nstep(o[0])->Return_0)) && b1 == b && o1 == o.skip(1)
    ||| o1 == o && (match r {
            Poll::Ready(Some(x)) => outof(b, x, b1),
            Poll::Ready(None) => o1.len() == 0 && b1.len() == 0 && (b1 == b || b1 == b.remove(Seq::<S::Item>::empty())),
            Poll::Pending => b1 == b || (b.count(Seq::<S::Item>::empty()) > 0 && b1 == b.remove(Seq::<S::Item>::empty())),
        })
}
pub open spec fn taken<S: Stream, Fc: FlowController<S, S::Item>>(b0: Multiset<Seq<S::Item>>, o0: Seq<S>, b: Multiset<Seq<S::Item>>, o: Seq<S>) -> bool {
    let k = o0.len() - o.len();
    0 <= k && o == o0.skip(k) && cont::<S, Fc>(o0.take(k)) && b == bag_of::<S, Fc>(b0, o0.take(k))
}
pub proof fn lemma_taken_init<S: Stream, Fc: FlowController<S, S::Item>>(b0: Multiset<Seq<S::Item>>, o0: Seq<S>) ensures taken::<S, Fc>(b0, o0, b0, o0) {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(o0.skip(0) =~= o0); assert(rests::<S, Fc>(o0.take(0)) =~= Seq::empty()); assert(rests::<S, Fc>(o0.take(0)).to_multiset() =~= Multiset::empty()); assert(bag_of::<S, Fc>(b0, o0.take(0)) =~= b0);
}
pub broadcast proof fn lemma_taken_step<S: Stream, Fc: FlowController<S, S::Item>>(b0: Multiset<Seq<S::Item>>, o0: Seq<S>, b: Multiset<Seq<S::Item>>, x: S, o: Seq<S>, f: S)
    requires taken::<S, Fc>(b0, o0, b, seq![x] + o), Fc::nstep(x) == FlowStep::<S, S::Item>::Continue(f)
    ensures #![trigger taken::<S, Fc>(b0, o0, b, seq![x] + o), b.insert(f.rest())] taken::<S, Fc>(b0, o0, b.insert(f.rest()), o)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let k = o0.len() - o.len() - 1;
    assert(o0.skip(k)[0] == x); assert(o0.skip(k + 1) =~= o0.skip(k).skip(1)); assert((seq![x] + o).skip(1) =~= o);
    assert(o0.take(k + 1) =~= o0.take(k).push(x));
    assert forall|j: int| 0 <= j < o0.take(k + 1).len() implies #[trigger] Fc::nstep(o0.take(k + 1)[j]) is Continue by { if j < k { assert(o0.take(k)[j] == o0.take(k + 1)[j]); } }
    assert(rests::<S, Fc>(o0.take(k + 1)) =~= rests::<S, Fc>(o0.take(k)).push(f.rest()));
    assert(b.insert(f.rest()) =~= bag_of::<S, Fc>(b0, o0.take(k + 1)));
}
pub broadcast proof fn lemma_taken_end<S: Stream, Fc: FlowController<S, S::Item>>(b0: Multiset<Seq<S::Item>>, o0: Seq<S>, b: Multiset<Seq<S::Item>>, o: Seq<S>, b1: Multiset<Seq<S::Item>>, o1: Seq<S>, r: Poll<Option<S::Item>>)
    requires #[trigger] taken::<S, Fc>(b0, o0, b, o), fl_end::<S, Fc>(b, o, b1, o1, r)
    ensures #[trigger] fl_step::<S, Fc>(b0, o0, b1, o1, r)
{ let k = o0.len() - o.len(); assert(cont::<S, Fc>(o0.take(k))); }
//@ impl FlattenUnorderedWithFlowController
//@ header impl<St: Stream, Fc: FlowController<St::Item, <St::Item as Stream>::Item>> FlattenUnorderedWithFlowController<St, Fc> where St::Item: Stream
//@ fn new -> r
//@ subst limit.and_then(NonZeroUsize::new) =>> (match limit { Some(__n) => NonZeroUsize::new(__n), None => None })
//@ subst UnsafeCell::new(None) =>> SlotCell::new(None)
    requires stream.wf(), !stream.ended(), okstreams::<St::Item, Fc>(stream.rest()),
    ensures r.stream == stream && r.inner_streams.bag() == Multiset::<Seq<<St::Item as Stream>::Item>>::empty(), r.limit is Some ==> limit is Some && r.limit->0.v == limit->0, limit is Some && limit->0 != 0 ==> r.limit is Some, // limit as given
        r.poll_state.state.init() == 2, forall|t: FlTok| #[trigger] t.idle() && t.left == 2 ==> r.ready(t), // the source is polled first
//@ tail
    proof { b_lits(); }
//@ endfn
//@ endimpl
impl<St: Stream, Fc: FlowController<St::Item, <St::Item as Stream>::Item>> FlattenUnorderedWithFlowController<St, Fc> where St::Item: Stream {
    pub open spec fn ready(&self, t: FlTok) -> bool {
        &&& self.stream.wf() && okstreams::<St::Item, Fc>(self.stream.rest()) && (self.is_stream_done || !self.stream.ended()) && (self.is_stream_done ==> self.stream.rest().len() == 0)
        &&& self.limit is Some ==> self.limit->0.v > 0 && self.inner_streams.bag().len() <= self.limit->0.v // never more inner streams than the limit
        &&& self.stream_waker.need_to_poll == 2 && self.inner_streams_waker.need_to_poll == 1 && self.stream_waker.poll_state == self.poll_state && self.inner_streams_waker.poll_state == self.poll_state
        &&& self.is_stream_done || hs(t.left) || self.stream.armed(arc_wid(*self.stream_waker)) // [wake] the source will wake, or its turn is noted
        &&& self.inner_streams.bag().len() == 0 || hi(t.left) || self.inner_streams.uarmed(arc_wid(*self.inner_streams_waker)) // [wake] the inner streams will wake, or their turn is noted
    }
    pub open spec fn full(&self) -> bool { self.limit is Some && self.inner_streams.bag().len() >= self.limit->0.v }
}
//@ impl FlattenUnorderedWithFlowControllerProj
//@ header impl<'__pin, St: Stream, Fc> FlattenUnorderedWithFlowControllerProj<'__pin, St, Fc> where St::Item: Stream
//@ fn is_exceeded_limit -> r
//@ subst self.limit.is_some_and =>> (*self.limit).is_some_and
    ensures r == (*old(self.limit) is Some && old(self.inner_streams.ptr).bag().len() >= old(self.limit)->0.v),
//@ endfn
//@ endimpl
//@ impl FusedStream for FlattenUnorderedWithFlowController
//@ header impl<St: FusedStream, Fc: FlowController<St::Item, <St::Item as Stream>::Item>> FlattenUnorderedWithFlowController<St, Fc> where St::Item: Stream
//@ noassoc
//@ fn is_terminated -> r
    requires self.stream.wf(),
    ensures r ==> self.stream.rest().len() == 0 && self.inner_streams.bag().len() == 0, !r ==> !self.stream.ended() || self.inner_streams.bag().len() > 0, // [term]
//@ endfn
//@ endimpl
//@ impl Stream for FlattenUnorderedWithFlowController
//@ header impl<St: Stream, Fc: FlowController<St::Item, <St::Item as Stream>::Item>> FlattenUnorderedWithFlowController<St, Fc> where St::Item: Stream
//@ noassoc
//@ fn poll_next -> ret
//@ params Tracked(tok): Tracked<&mut FlTok>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
//@ subst Self::Item =>> <St::Item as Stream>::Item
    requires old(tok).idle(), old(self.ptr).ready(*old(tok)),
    ensures
        *final(cx) == *old(cx),
        final(tok).idle(), final(self.ptr).ready(*final(tok)),
        fl_step::<St::Item, Fc>(old(self.ptr).inner_streams.bag(), old(self.ptr).stream.rest(), final(self.ptr).inner_streams.bag(), final(self.ptr).stream.rest(), ret), // no item is lost, duplicated or taken out of turn
        final(tok).slots == (Some(old(cx).id()), Some(old(cx).id())), // [wake] both wakers lead to the task of this poll
        ret is Pending ==> final(tok).owed ==> wake_requested(old(cx).id()), // [wake] marked as woken: woken
        ret is Pending ==> wake_requested(old(cx).id()) || (!hi(final(tok).left) && (hs(final(tok).left) ==> final(self.ptr).full())), // [wake] otherwise nothing is left to do: only a full set delays the source
        ret is Pending ==> !(final(self.ptr).is_stream_done && final(self.ptr).inner_streams.bag().len() == 0), // [term] ends as soon as nothing is left
//@ entry
    broadcast use {group_bits, lemma_taken_step, lemma_taken_end, lemma_out, lemma_ok_head};
    proof { b_lits(); lemma_taken_init::<St::Item, Fc>(self.ptr.inner_streams.bag(), self.ptr.stream.rest()); }
    let ghost b0 = self.ptr.inner_streams.bag(); let ghost o0 = self.ptr.stream.rest(); let ghost left0 = tok.left; let ghost me = *self.ptr;
//@ loop 0
    invariant_except_break *tok == *old(tok),
    invariant
        tok.role == 0 && !tok.owner, next_item is None, need_to_poll_next == 0, cx.id() == old(cx).id(), *tok == *old(tok) || tok.polling,
        me == *old(self.ptr), *this.inner_streams.ptr == me.inner_streams, *this.stream.ptr == me.stream, *this.poll_state == me.poll_state, *this.limit == me.limit, *this.is_stream_done == me.is_stream_done, *this.inner_streams_waker == me.inner_streams_waker, *this.stream_waker == me.stream_waker,
    ensures tok.role == 0 && tok.polling && !tok.owner, (hi(old(tok).left) ==> hi(fst(__brk1))) && (hs(old(tok).left) ==> hs(fst(__brk1))),
//@ loop 1
    invariant_except_break next_item is None, need_to_poll_next == 0, taken::<St::Item, Fc>(b0, o0, this.inner_streams.ptr.bag(), this.stream.ptr.rest()),
    invariant
        tok.role == 0 && tok.polling && !tok.owner, tok.slots == (Some(old(cx).id()), Some(old(cx).id())), cx.id() == old(cx).id(),
        *this.poll_state == me.poll_state, *this.limit == me.limit, *this.inner_streams_waker == me.inner_streams_waker, *this.stream_waker == me.stream_waker,
        this.stream.ptr.wf() && okstreams::<St::Item, Fc>(this.stream.ptr.rest()) && (*this.is_stream_done || !this.stream.ptr.ended()) && (*this.is_stream_done ==> this.stream.ptr.rest().len() == 0),
        me.limit is Some ==> me.limit->0.v > 0 && this.inner_streams.ptr.bag().len() <= me.limit->0.v,
        wk_is(stream_waker, arc_wid(*me.stream_waker)),
        this.inner_streams.ptr.bag().len() == 0 || hi(poll_state_value) || hi(need_to_poll_next) || this.inner_streams.ptr.uarmed(arc_wid(*me.inner_streams_waker)),
    ensures
        small(need_to_poll_next) && !hp(need_to_poll_next) && !hw(need_to_poll_next) && !hk(need_to_poll_next),
        next_item is None ==> taken::<St::Item, Fc>(b0, o0, this.inner_streams.ptr.bag(), this.stream.ptr.rest()),
        next_item is Some ==> !hi(poll_state_value) && fl_step::<St::Item, Fc>(b0, o0, this.inner_streams.ptr.bag(), this.stream.ptr.rest(), Poll::Ready(next_item)),
        *this.is_stream_done || hs(need_to_poll_next) || this.stream.ptr.armed(arc_wid(*me.stream_waker)),
        next_item is None && hs(need_to_poll_next) ==> me.limit is Some && this.inner_streams.ptr.bag().len() >= me.limit->0.v,
//@ endfn
//@ endimpl
}
