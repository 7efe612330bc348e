verus! {
// ---------------------------------------------------------------------------------------------
// Shared memory.  Every operation on an atomic takes the calling thread's ghost token; its contract
// is the protocol of the object: which values a thread in a given mode can see (the rely), and which
// transitions it may perform (the guarantee).  The rely follows from the guarantee: see the machine
// lemmas of each unit.
// ---------------------------------------------------------------------------------------------
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub use Ordering::{Relaxed, Release, Acquire, AcqRel, SeqCst};
impl Clone for Ordering { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Ordering {}
impl Ordering {
    pub open spec fn acquires(self) -> bool { self is Acquire || self is AcqRel || self is SeqCst }
    pub open spec fn releases(self) -> bool { self is Release || self is AcqRel || self is SeqCst }
}
}
