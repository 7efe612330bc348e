//@ include prelude
verus! {
// A waker made from an Arc owns one strong reference.  The token counts for one allocation:
//   refs  strong references
//   held  owned handles (Arc or Waker) of the running function: each is released when it goes out of scope,
//         so refs - held is the count that is left when the function has returned
//   calls, vals requests passed on to the ArcWake implementation, by reference and by value
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum VFn { CloneArc, WakeArc, WakeByRefArc, DropArc, NoopClone, Noop }
#[verifier::reject_recursive_types(T)]
pub struct RawPtr<T> { pub a: Ghost<int>, pub t: PhantomData<T> }
impl<T> Copy for RawPtr<T> {}
impl<T> Clone for RawPtr<T> { fn clone(&self) -> (r: Self) { *self } }
impl<T> RawPtr<T> {
    pub fn cast<U>(self) -> (r: RawPtr<U>) ensures r.a@ == self.a@ { RawPtr { a: self.a, t: PhantomData } }
}
pub tracked struct RefTok { pub ghost a: int, pub ghost refs: int, pub ghost held: int, pub ghost calls: int, pub ghost vals: int }
impl RefTok {
    pub open spec fn left(&self) -> int { self.refs - self.held }
}
pub struct RawWakerVTable { pub c: VFn, pub w: VFn, pub r: VFn, pub d: VFn }
impl RawWakerVTable {
    pub fn new(c: VFn, w: VFn, r: VFn, d: VFn) -> (x: &'static RawWakerVTable) ensures x == (RawWakerVTable { c, w, r, d }) { vleak(RawWakerVTable { c, w, r, d }) }
}
#[verifier::external_body]
pub fn vleak<T>(x: T) -> (r: &'static T) ensures *r == x { unimplemented!() }
pub open spec fn arc_vtable() -> RawWakerVTable { RawWakerVTable { c: VFn::CloneArc, w: VFn::WakeArc, r: VFn::WakeByRefArc, d: VFn::DropArc } }
pub struct RawWaker { pub data: RawPtr<()>, pub vtable: &'static RawWakerVTable }
impl RawWaker { pub fn new(data: RawPtr<()>, vtable: &'static RawWakerVTable) -> (r: Self) ensures r.data == data, r.vtable == vtable { RawWaker { data, vtable } } }
pub open spec fn good(w: RawWaker, a: int) -> bool { w.data.a@ == a && *w.vtable == arc_vtable() }
impl Waker {
    pub uninterp spec fn raw(&self) -> RawWaker;
    #[verifier::external_body]
    pub fn from_raw(x: RawWaker, Tracked(t): Tracked<&mut RefTok>) -> (r: Waker)
        ensures r.raw() == x, *final(t) == (RefTok { held: old(t).held + 1, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arc<T> { x: PhantomData<T> }
impl<T> Arc<T> {
    pub uninterp spec fn p(&self) -> int;
    #[verifier::external_body]
    pub fn into_raw(x: Arc<T>, Tracked(t): Tracked<&mut RefTok>) -> (r: RawPtr<T>)
        requires x.p() == old(t).a
        ensures r.a@ == x.p(), *final(t) == (RefTok { held: old(t).held - 1, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(x: RawPtr<T>, Tracked(t): Tracked<&mut RefTok>) -> (r: Arc<T>)
        requires x.a@ == old(t).a
        ensures r.p() == x.a@, *final(t) == (RefTok { held: old(t).held + 1, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(x: &Arc<T>, Tracked(t): Tracked<&mut RefTok>) -> (r: RawPtr<T>)
        ensures r.a@ == x.p(), *final(t) == *old(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self, Tracked(t): Tracked<&mut RefTok>) -> (r: Self)
        requires self.p() == old(t).a,
        ensures r.p() == self.p(), *final(t) == (RefTok { refs: old(t).refs + 1, held: old(t).held + 1, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ManuallyDrop<T> { x: PhantomData<T> }

impl<T> ManuallyDrop<T> {
    pub uninterp spec fn v(&self) -> T;
    #[verifier::external_body]
    pub fn new(x: T, Tracked(t): Tracked<&mut RefTok>) -> (r: Self) ensures r.v() == x, *final(t) == (RefTok { held: old(t).held - 1, ..*old(t) }) { unimplemented!() } // is not released any more
}
impl<T> core::ops::Deref for ManuallyDrop<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.v() { unimplemented!() } }
impl<T> ManuallyDrop<Arc<T>> {
    #[verifier::external_body]
    pub fn clone(&self, Tracked(t): Tracked<&mut RefTok>) -> (r: Self)
        requires self.v().p() == old(t).a,
        ensures r.v().p() == self.v().p(), *final(t) == (RefTok { refs: old(t).refs + 1, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vdrop<T>(x: Arc<T>, Tracked(t): Tracked<&mut RefTok>) requires x.p() == old(t).a ensures *final(t) == (RefTok { refs: old(t).refs - 1, held: old(t).held - 1, ..*old(t) }) { unimplemented!() }
#[verifier::external_body]
pub fn vforget<T>(x: Arc<T>, Tracked(t): Tracked<&mut RefTok>) requires x.p() == old(t).a ensures *final(t) == (RefTok { held: old(t).held - 1, ..*old(t) }) { unimplemented!() }
// a second handle for the same waker
#[verifier::external_body]
pub fn vptr_read(x: &Waker, Tracked(t): Tracked<&mut RefTok>) -> (r: Waker) ensures r.raw() == x.raw(), *final(t) == (RefTok { held: old(t).held + 1, ..*old(t) }) { unimplemented!() }
pub trait ArcWake: Sized {
    fn wake(x: Arc<Self>, Tracked(tok): Tracked<&mut RefTok>) requires x.p() == old(tok).a ensures *final(tok) == (RefTok { refs: old(tok).refs - 1, held: old(tok).held - 1, vals: old(tok).vals + 1, ..*old(tok) }); // consumes the handle
    fn wake_by_ref(x: &Arc<Self>, Tracked(tok): Tracked<&mut RefTok>) requires x.p() == old(tok).a ensures *final(tok) == (RefTok { calls: old(tok).calls + 1, ..*old(tok) });
}
//@ trackall ManuallyDrop::new Arc::from_raw Arc::into_raw Arc::as_ptr Waker::from_raw clone ::vdrop ::vforget ::vptr_read ArcWake::wake ArcWake::wake_by_ref ::increase_refcount => Tracked(&mut *tok)
//@ substall drop( =>> vdrop(
//@ substall mem::forget( =>> vforget(
//@ substall mem::ManuallyDrop =>> ManuallyDrop
//@ file futures-task/src/waker.rs
//@ fn waker_vtable -> r
//@ subst &RawWakerVTable::new =>> RawWakerVTable::new
//@ subst clone_arc_raw::<W> =>> VFn::CloneArc
//@ subst wake_arc_raw::<W> =>> VFn::WakeArc
//@ subst wake_by_ref_arc_raw::<W> =>> VFn::WakeByRefArc
//@ subst drop_arc_raw::<W> =>> VFn::DropArc
    ensures *r == arc_vtable(), // each operation of the waker is the function for it
//@ endfn
//@ fn waker -> r
//@ params Tracked(tok): Tracked<&mut RefTok>
    requires wake.p() == old(tok).a, old(tok).held == 1,
    ensures good(r.raw(), old(tok).a), *final(tok) == *old(tok), // the reference goes over to the waker: none is added or dropped
//@ endfn
//@ fn increase_refcount
//@ params Tracked(tok): Tracked<&mut RefTok>
    requires data.a@ == old(tok).a,
    ensures *final(tok) == (RefTok { refs: final(tok).refs, held: final(tok).held, ..*old(tok) }), final(tok).left() == old(tok).left() + 1, // one more
//@ endfn
//@ fn clone_arc_raw -> r
//@ params Tracked(tok): Tracked<&mut RefTok>
    requires data.a@ == old(tok).a,
    ensures good(r, old(tok).a), final(tok).left() == old(tok).left() + 1, final(tok).calls == old(tok).calls, final(tok).vals == old(tok).vals, // a clone owns a reference of its own
//@ endfn
//@ fn wake_arc_raw
//@ params Tracked(tok): Tracked<&mut RefTok>
    requires data.a@ == old(tok).a,
    ensures final(tok).left() == old(tok).left() - 1, final(tok).vals == old(tok).vals + 1, final(tok).calls == old(tok).calls, // wakes once and gives the waker's reference up
//@ endfn
//@ fn wake_by_ref_arc_raw
//@ params Tracked(tok): Tracked<&mut RefTok>
    requires data.a@ == old(tok).a,
    ensures final(tok).left() == old(tok).left(), final(tok).calls == old(tok).calls + 1, final(tok).vals == old(tok).vals, // wakes once and keeps the reference
//@ endfn
//@ fn drop_arc_raw
//@ params Tracked(tok): Tracked<&mut RefTok>
    requires data.a@ == old(tok).a,
    ensures final(tok).left() == old(tok).left() - 1, final(tok).calls == old(tok).calls, final(tok).vals == old(tok).vals, // gives the reference up, without waking
//@ endfn
//@ file futures-task/src/waker_ref.rs
//@ struct WakerRef
//@ impl WakerRef
//@ fn new -> r
//@ params Tracked(tok): Tracked<&mut RefTok>
//@ subst core::ptr::read =>> vptr_read
    ensures r.waker.v().raw() == waker.raw(), final(tok).left() == old(tok).left(), // borrows: the reference is neither taken nor dropped
//@ endfn
//@ fn new_unowned -> r
    ensures r.waker == waker,
//@ endfn
//@ endimpl
//@ fn waker_ref -> r
//@ subst WakerRef<'_> =>> WakerRef<'static>
//@ params Tracked(tok): Tracked<&mut RefTok>
    requires wake.p() == old(tok).a,
    ensures good(r.waker.v().raw(), old(tok).a), final(tok).left() == old(tok).left(), final(tok).calls == old(tok).calls, final(tok).vals == old(tok).vals, // borrows the Arc's reference
//@ endfn
}
