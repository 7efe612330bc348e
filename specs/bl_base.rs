verus! {
// BiLock by contract (unit bilock): whoever gets the guard has exclusive access.  Between two turns of one half the other
// half may run: it uses the other interface of the shared object, which leaves this half's view of it alone (axioms below).
// `turn` is the ghost handle of a half: the object as this half left it.
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
pub struct BiLock<S> { s: PhantomData<S> }
pub struct BiLockGuard<'a, S> { pub ptr: &'a mut S }
#[verifier::reject_recursive_types(S)]
pub tracked struct Turn<S> { pub ghost s: S }
// b is what the other half can make of a
pub uninterp spec fn other_half<S>(a: S, b: S) -> bool;
pub struct BiReuniteError<S>(pub BiLock<S>, pub BiLock<S>);
impl<S> BiLock<S> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn parked(&self, w: int) -> bool;
    #[verifier::external_body]
    pub fn poll_lock<'a>(&'a self, cx: &mut Context<'_>, Tracked(turn): Tracked<&mut Turn<S>>) -> (r: Poll<BiLockGuard<'a, S>>)
        ensures
            *final(cx) == *old(cx),
            r is Ready ==> other_half(old(turn).s, *(r->0).ptr) && final(turn).s == *final((r->0).ptr),
            r is Pending ==> final(turn).s == old(turn).s && self.parked(old(cx).id()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_pair_of(&self, other: &Self) -> (r: bool) ensures r == (self.id() == other.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn reunite(self, other: Self) -> (r: Result<S, BiReuniteError<S>>)
        ensures r is Ok <==> self.id() == other.id(), r is Err ==> r->Err_0.0 == self && r->Err_0.1 == other,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: S) -> (r: (BiLock<S>, BiLock<S>)) ensures r.0.id() == r.1.id() { unimplemented!() }
}
impl<'a, S> BiLockGuard<'a, S> {
    pub fn as_pin_mut(&mut self) -> (r: Pin<&mut S>)
        ensures *r.ptr == *old(self).ptr, *final(r.ptr) == *final(self).ptr, *final(final(self).ptr) == *final(old(self).ptr),
    { Pin { ptr: &mut *self.ptr } }
}
}
