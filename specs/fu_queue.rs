//@ include prelude
//@ include conc
verus! {
// The ready-to-run queue of FuturesUnordered: an intrusive linked list of tasks.  Any thread that set a task's `queued` flag
// appends that task by swapping the head and then linking the previous node; the owner of the set follows the links from the
// tail.  A stub node keeps the list non-empty; only the owner ever appends it.
//
// `incoming` in the owner's token: the tasks behind its position, in the order of the swaps, those to come included (which swaps
// come is decided by the schedule); `stub_in`: the stub is somewhere among them.  Rights to a node:
//   - to append it: with the thread that set its `queued` flag (for the stub: with the owner, while the stub is out of the list);
//   - its link, once: with the thread whose swap returned it, until that thread has linked it;
//   - following its link: with the owner, from the last node it has reached.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawPtr<T: ?Sized> { x: PhantomData<T> }
impl<T> RawPtr<T> {
    pub uninterp spec fn null(&self) -> bool;
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == self.null() { unimplemented!() }
}
impl<T> Clone for RawPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for RawPtr<T> {}
pub mod ptr {
    use super::*;
    #[verifier::external_body]
    pub fn null_mut<T>() -> (r: RawPtr<T>) ensures r.null() { unimplemented!() }
    #[verifier::external_body]
    pub fn null<T>() -> (r: RawPtr<T>) ensures r.null() { unimplemented!() }
}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for RawPtr<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &RawPtr<T>) -> bool { *self == *o }
}
impl<T> PartialEq for RawPtr<T> { #[verifier::external_body] fn eq(&self, o: &RawPtr<T>) -> (r: bool) { unimplemented!() } }

pub tracked struct FqTok<Fut> {
    pub ghost role: int,                                // 1 a waker, 2 owner of the set, 3 last owner of the queue (nobody else left)
    pub ghost stub: RawPtr<Task<Fut>>,
    pub ghost mayq: Set<RawPtr<Task<Fut>>>,             // tasks whose `queued` flag this thread set: it has to append them
    pub ghost cleared: Option<RawPtr<Task<Fut>>>,       // task whose link was reset
    pub ghost link: Option<(RawPtr<Task<Fut>>, RawPtr<Task<Fut>>)>, // duty to link (previous node, own node)
    pub ghost pushed: Seq<RawPtr<Task<Fut>>>,           // tasks appended by this thread
    pub ghost announced: bool,                          // and the owner woken since
    pub ghost already: bool,                            // a flag was found set (somebody else appends the task)
    pub ghost woken: bool,                              // the task was marked as woken
    pub ghost gone: bool,                               // the queue was found gone
    pub ghost tail: RawPtr<Task<Fut>>,                  // owner: contents of the tail cell
    pub ghost pos: RawPtr<Task<Fut>>,                   // owner: last node reached
    pub ghost stub_in: bool,
    pub ghost incoming: Seq<RawPtr<Task<Fut>>>,
    pub ghost found_empty: bool,                        // the stub was last and had no successor when looked at
    pub ghost racing: bool,                             // somebody had swapped, but not linked yet
    pub ghost owed: Seq<RawPtr<Task<Fut>>>,             // last owner: tasks whose reference count the queue holds
    pub ghost freed: Seq<RawPtr<Task<Fut>>>,
}
impl<Fut> FqTok<Fut> {
    pub open spec fn idle0(&self) -> bool { self.link is None && self.cleared is None }
    pub open spec fn idle(&self) -> bool { self.link is None && self.cleared is None && !self.mayq.contains(self.stub) && !self.stub.null() }
    pub open spec fn owner(&self) -> bool {
        &&& self.idle() && (self.role == 2 || self.role == 3)
        &&& self.tail == self.pos && !self.tail.null()
        &&& self.tail == self.stub ==> !self.stub_in
        &&& forall|i: int| 0 <= i < self.incoming.len() ==> #[trigger] self.incoming[i] != self.stub && !self.incoming[i].null()
    }
    // what the owner will take out of the queue, in order
    pub open spec fn q(&self) -> Seq<RawPtr<Task<Fut>>> { if self.tail == self.stub { self.incoming } else { seq![self.tail] + self.incoming } }
    pub open spec fn may_append(&self, n: RawPtr<Task<Fut>>) -> bool {
        if n == self.stub { (self.role == 2 || self.role == 3) && !self.stub_in && self.pos != self.stub } else { self.mayq.contains(n) && self.role != 3 }
    }
    pub open spec fn alive(&self, n: RawPtr<Task<Fut>>) -> bool {
        (self.link is Some && (self.link->0).0 == n) || self.may_append(n) || (self.role >= 2 && n == self.pos)
    }
    pub open spec fn appended(&self, n: RawPtr<Task<Fut>>) -> FqTok<Fut> {
        if n == self.stub { FqTok { stub_in: true, ..*self } } else { FqTok { mayq: self.mayq.remove(n), pushed: self.pushed.push(n), announced: false, ..*self } }
    }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct NextPtr<Fut> { x: PhantomData<Fut> }
impl<Fut> NextPtr<Fut> {
    pub uninterp spec fn node(&self) -> RawPtr<Task<Fut>>;
    #[verifier::external_body]
    pub fn store(&self, n: RawPtr<Task<Fut>>, o: Ordering, Tracked(t): Tracked<&mut FqTok<Fut>>)
        requires
            n.null() ==> old(t).may_append(self.node()) && old(t).link is None, // resets the link of a node before appending it
            !n.null() ==> old(t).link == Some((self.node(), n)) && o.releases(), // links exactly the node that was swapped in behind the previous one
        ensures
            n.null() ==> *final(t) == (FqTok { cleared: Some(self.node()), ..*old(t) }),
            !n.null() ==> *final(t) == (FqTok { link: None, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: RawPtr<Task<Fut>>)
        requires
            old(t).role == 2 || old(t).role == 3, // only the owner follows links
            o.acquires() && self.node() == old(t).pos && old(t).link is None,
        ensures
            r.null() ==> *final(t) == (FqTok { found_empty: old(t).pos == old(t).stub, racing: old(t).stub_in, ..*old(t) }),
            r.null() && old(t).role == 3 ==> old(t).incoming.len() == 0 && !old(t).stub_in,
            !r.null() && r == old(t).stub ==> old(t).stub_in && *final(t) == (FqTok { pos: r, stub_in: false, ..*old(t) }),
            !r.null() && r != old(t).stub ==> old(t).incoming.len() >= 1 && r == old(t).incoming[0] && *final(t) == (FqTok { pos: r, incoming: old(t).incoming.subrange(1, old(t).incoming.len() as int), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct HeadPtr<Fut> { x: PhantomData<Fut> }
impl<Fut> HeadPtr<Fut> {
    #[verifier::external_body]
    pub fn swap(&self, n: RawPtr<Task<Fut>>, o: Ordering, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: RawPtr<Task<Fut>>)
        requires
            old(t).link is None, // at most one node to link
            old(t).may_append(n) && old(t).cleared == Some(n), // a node of its own, not in the list, without successor
            o.acquires() && o.releases(),
        ensures !r.null(), *final(t) == (FqTok { link: Some((r, n)), cleared: None, ..old(t).appended(n) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: RawPtr<Task<Fut>>)
        requires old(t).role >= 2,
        ensures
            *final(t) == (FqTok { racing: r != old(t).pos, ..*old(t) }),
            r == old(t).pos ==> !old(t).stub_in,
            old(t).role == 3 ==> ((r == old(t).pos) == (old(t).incoming.len() == 0 && !old(t).stub_in)),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct TailCell<Fut> { x: PhantomData<Fut> }
impl<Fut> TailCell<Fut> {
    #[verifier::external_body]
    pub fn get<'a>(&self, Tracked(t): Tracked<&'a mut FqTok<Fut>>) -> (r: &'a mut RawPtr<Task<Fut>>)
        requires old(t).role == 2 || old(t).role == 3, // only the owner touches the tail (no data race)
        ensures *r == old(t).tail, *final(t) == (FqTok { tail: *final(r), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct QueuedFlag<Fut> { x: PhantomData<Fut> }
impl<Fut> QueuedFlag<Fut> {
    pub uninterp spec fn node(&self) -> RawPtr<Task<Fut>>;
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: bool)
        ensures *final(t) == *old(t), old(t).may_append(self.node()) ==> r, // the right to append a task is the flag being set
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: bool)
        requires v, o.acquires() && o.releases(), // a waker only ever sets the flag
        ensures *final(t) == (if r { FqTok { already: true, ..*old(t) } } else { FqTok { mayq: old(t).mayq.insert(self.node()), ..*old(t) } }), !r ==> self.node() != old(t).stub && !self.node().null(),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct WokenFlag<Fut> { x: PhantomData<Fut> }
impl<Fut> WokenFlag<Fut> {
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut FqTok<Fut>>)
        requires v,
        ensures *final(t) == (FqTok { woken: true, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: bool)
        ensures *final(t) == *old(t),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct ParentWaker<Fut> { x: PhantomData<Fut> }
impl<Fut> ParentWaker<Fut> {
    // AtomicWaker::wake: unit atomic_waker
    #[verifier::external_body]
    pub fn wake(&self, Tracked(t): Tracked<&mut FqTok<Fut>>)
        ensures *final(t) == (FqTok { announced: old(t).link is None, ..*old(t) }), // the owner looks at the queue again after this
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { x: PhantomData<T> }
impl<T> Arc<T> { pub uninterp spec fn v(&self) -> T; pub uninterp spec fn p(&self) -> RawPtr<T>; }
impl<T> core::ops::Deref for Arc<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.v() { unimplemented!() } }
impl<Fut> Arc<Task<Fut>> {
    #[verifier::external_body]
    pub fn as_ptr(a: &Arc<Task<Fut>>) -> (r: RawPtr<Task<Fut>>) ensures r == a.p() && !r.null() && a.v().queued.node() == r { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(p: RawPtr<Task<Fut>>, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: Arc<Task<Fut>>)
        requires old(t).role == 3, old(t).owed =~= old(t).freed + (seq![p] + old(t).q()), // takes over the count of the task it took out, once
        ensures r.p() == p, *final(t) == (FqTok { freed: old(t).freed.push(p), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Weak<T> { x: PhantomData<T> }
impl<Fut> Weak<ReadyToRunQueue<Fut>> {
    #[verifier::external_body]
    pub fn upgrade(&self, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: Option<Arc<ReadyToRunQueue<Fut>>>)
        ensures *final(t) == (FqTok { gone: r is None, ..*old(t) }),
    { unimplemented!() }
}
impl<Fut> RawPtr<Task<Fut>> {
    #[verifier::external_body]
    pub fn vf_next_ready_to_run<'a>(self, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: &'a NextPtr<Fut>)
        requires old(t).alive(self), // the node is alive, and its link is this thread's business
        ensures r.node() == self, *final(t) == *old(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_queued<'a>(self, Tracked(t): Tracked<&mut FqTok<Fut>>) -> (r: &'a QueuedFlag<Fut>)
        requires old(t).alive(self),
        ensures r.node() == self, *final(t) == *old(t),
    { unimplemented!() }
}
pub proof fn lemma_split<A>(s: Seq<A>) ensures s.len() >= 1 ==> s == seq![s[0]] + s.subrange(1, s.len() as int) { if s.len() >= 1 { assert(s =~= seq![s[0]] + s.subrange(1, s.len() as int)); } }
#[verifier::external_body]
pub fn abort(s: &str) requires false ensures false { unimplemented!() }
//@ trackall load store swap get wake upgrade enqueue dequeue Arc::from_raw => Tracked(&mut *tok)
//@ heap next_ready_to_run queued => Tracked(&mut *tok)
//@ file futures-util/src/stream/futures_unordered/task.rs
//@ struct Task type:future=Option<Fut> type:next_all=RawPtr<Task<Fut>> type:prev_all=RawPtr<Task<Fut>> type:len_all=usize type:next_ready_to_run=NextPtr<Fut> type:queued=QueuedFlag<Fut> type:woken=WokenFlag<Fut>
//@ file futures-util/src/stream/futures_unordered/ready_to_run_queue.rs
//@ struct Dequeue
//@ struct ReadyToRunQueue type:waker=ParentWaker<Fut> type:head=HeadPtr<Fut> type:tail=TailCell<Fut>
//@ impl ReadyToRunQueue
//@ fn enqueue
//@ params Tracked(tok): Tracked<&mut FqTok<Fut>>
    requires old(tok).idle0(), old(tok).may_append(task), !task.null(),
    ensures *final(tok) == old(tok).appended(task), // appended, once, and linked
//@ endfn
//@ fn dequeue -> r
//@ params Tracked(tok): Tracked<&mut FqTok<Fut>>
    requires old(tok).owner(), old(tok).stub == self.stub.p(),
    ensures
        final(tok).owner(), *final(tok) == (FqTok { tail: final(tok).tail, pos: final(tok).pos, stub_in: final(tok).stub_in, incoming: final(tok).incoming, found_empty: final(tok).found_empty, racing: final(tok).racing, ..*old(tok) }),
        r matches Dequeue::Data(p) ==> old(tok).q() =~= seq![p] + final(tok).q() && p != old(tok).stub && !p.null(), // the next task in order; none lost, none repeated
        !(r is Data) ==> final(tok).q() =~= old(tok).q(), // none is lost
        r is Empty ==> final(tok).found_empty && final(tok).tail == final(tok).stub, // empty only if nothing was there
        r is Inconsistent ==> final(tok).racing, // only if somebody is just about to link a task (whose wake-up follows)
        old(tok).role == 3 ==> !(r is Inconsistent) && (r is Empty ==> old(tok).q().len() == 0),
//@ attr #[verifier::rlimit(60)]
//@ entry
    proof { lemma_split(tok.incoming); if tok.incoming.len() >= 1 { lemma_split(tok.incoming.subrange(1, tok.incoming.len() as int)); } }
//@ endfn
//@ fn stub -> r
    ensures r == self.stub.p(), !r.null(),
//@ endfn
//@ endimpl
//@ impl Drop for ReadyToRunQueue
//@ header impl<Fut> ReadyToRunQueue<Fut>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut FqTok<Fut>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires old(tok).owner(), old(tok).role == 3, old(tok).stub == old(self).stub.p(), old(tok).freed.len() == 0, old(tok).owed == old(tok).q(),
    ensures final(tok).freed =~= old(tok).owed, // every task left in the queue is released, once
//@ loop 0
    invariant tok.owner(), tok.role == 3, tok.stub == self.stub.p(), tok.owed == old(tok).owed, tok.owed =~= tok.freed + tok.q(),
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/futures_unordered/task.rs
//@ impl ArcWake for Task
//@ header impl<Fut> Task<Fut>
//@ fn wake_by_ref
//@ params Tracked(tok): Tracked<&mut FqTok<Fut>>
    requires old(tok).idle0(), old(tok).role == 1, !old(tok).gone, !old(tok).already, !old(tok).woken, old(tok).mayq =~= Set::empty(),
    ensures
        final(tok).idle0(), final(tok).mayq =~= Set::empty(), // a task whose flag was set by this thread is appended
        final(tok).gone || final(tok).woken,
        final(tok).pushed =~= old(tok).pushed || final(tok).pushed =~= old(tok).pushed.push(arc_self.p()), // at most once
        // unless the set is gone or the task is queued already, it is appended, and the owner is woken after that
        final(tok).gone || final(tok).already || (final(tok).pushed =~= old(tok).pushed.push(arc_self.p()) && final(tok).announced),
//@ endfn
//@ endimpl
}
