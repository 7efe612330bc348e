//@ include prelude
//@ include conc
verus! {
pub use std::sync::Arc;
// Abortable: an `aborted` flag and an AtomicWaker (unit atomic_waker), shared by the task and any number of handles.
// The flag only ever becomes true, and is set before the waker is used; the task looks at it after registering.
pub tracked struct AbTok {
    pub ghost known: bool,        // the flag was seen (or made) true
    pub ghost reg: Option<int>,   // waker the task left
    pub ghost checked: bool,      // the flag was seen false after that
    pub ghost notified: bool,     // the waker slot was woken after the flag was set
}
#[verifier::external_body]
pub struct AtomicBool { x: core::sync::atomic::AtomicBool }
impl AtomicBool {
    pub uninterp spec fn init(&self) -> bool;
    #[verifier::external_body]
    pub fn new(v: bool) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut AbTok>) -> (r: bool)
        ensures old(t).known ==> r, *final(t) == (AbTok { known: r, checked: old(t).checked || (!r && old(t).reg is Some), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut AbTok>)
        requires v, // an abort is never taken back
        ensures *final(t) == (AbTok { known: true, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut AbTok>) -> (r: bool)
        requires v,
        ensures old(t).known ==> r, *final(t) == (AbTok { known: true, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicWaker { }
impl AtomicWaker {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn register(&self, w: &Waker, Tracked(t): Tracked<&mut AbTok>)
        ensures *final(t) == (AbTok { reg: Some(w.id()), checked: false, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(&self, Tracked(t): Tracked<&mut AbTok>)
        ensures *final(t) == (AbTok { notified: old(t).known, ..*old(t) }),
    { unimplemented!() }
}
}
