//@ include prelude
//@ include conc
verus! {
// The channel's message queue: a linked list of heap nodes.  Producers append by swapping the head and then linking the
// previous node; the consumer follows the links from the tail and frees the nodes it leaves behind.
//
// Nodes in the order of the swaps: n_0 (stub), n_1, ...; `incoming` in the consumer's token are the values of the nodes
// after its tail, in that order (it is ghost: which swaps come is decided by the schedule).  Rights to a node's memory:
//   - from its allocation to its swap, with the thread that allocated it;
//   - its `next` field, once: with the producer whose swap returned it, until that producer has linked it;
//   - its `value`: with the consumer, from the moment the consumer has read a link to it until it frees it.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawPtr<T: ?Sized> { x: PhantomData<T> }
impl<T> RawPtr<T> {
    pub uninterp spec fn null(&self) -> bool;
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == self.null() { unimplemented!() }
}
impl<T> Clone for RawPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for RawPtr<T> {}
pub mod ptr {
    use super::*;
    #[verifier::external_body]
    pub fn null_mut<T>() -> (r: RawPtr<T>) ensures r.null() { unimplemented!() }
    #[verifier::external_body]
    pub fn null<T>() -> (r: RawPtr<T>) ensures r.null() { unimplemented!() }
}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for RawPtr<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &RawPtr<T>) -> bool { *self == *o }
}
impl<T> PartialEq for RawPtr<T> { #[verifier::external_body] fn eq(&self, o: &RawPtr<T>) -> (r: bool) { unimplemented!() } }
pub mod thread { pub fn yield_now() {} }

pub tracked struct QTok<T> {
    pub ghost role: int,                              // 1 producer, 2 consumer, 3 exclusive owner
    pub ghost fresh: Map<RawPtr<Node<T>>, Option<T>>, // allocated by this thread, not published
    pub ghost pushed: Seq<T>,                         // values published by this thread, in order
    pub ghost link: Option<(RawPtr<Node<T>>, RawPtr<Node<T>>)>, // duty to link (previous node, own node)
    pub ghost tail: RawPtr<Node<T>>,                  // consumer: contents of the tail cell
    pub ghost vals: Map<RawPtr<Node<T>>, Option<T>>,  // consumer: nodes whose value it may touch
    pub ghost seen: Option<RawPtr<Node<T>>>,          // consumer: link read from the tail
    pub ghost incoming: Seq<T>,                       // consumer: values behind the tail
    pub ghost found_empty: bool,                      // consumer: head was the tail when looked at
    pub ghost own: Seq<RawPtr<Node<T>>>,              // exclusive owner: nodes still allocated, in order
}
impl<T> QTok<T> {
    pub open spec fn producer(&self) -> bool { self.role == 1 && self.link is None }
    // between two pops: the consumer holds the tail node, whose value is gone
    pub open spec fn consumer(&self) -> bool {
        self.role == 2 && self.vals =~= Map::<RawPtr<Node<T>>, Option<T>>::empty().insert(self.tail, None) && self.seen is None && !self.tail.null()
    }
    pub open spec fn owner(&self) -> bool {
        &&& self.role == 3
        &&& self.tail == self.own[0] && self.own.len() >= 1
        &&& self.own_ok()
    }
    pub open spec fn own_ok(&self) -> bool {
        forall|i: int| 0 <= i < self.own.len() ==> !(#[trigger] self.own[i]).null()
    }
}
pub trait VNew<C>: Sized { spec fn init(&self) -> C; fn vnew(c: C) -> (r: Self) ensures r.init() == c; }
pub struct AtomicPtr { }
impl AtomicPtr { pub fn new<T, F: VNew<RawPtr<Node<T>>>>(c: RawPtr<Node<T>>) -> (r: F) ensures r.init() == c { F::vnew(c) } }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct NextPtr<T> { x: PhantomData<T> }
impl<T> VNew<RawPtr<Node<T>>> for NextPtr<T> { uninterp spec fn init(&self) -> RawPtr<Node<T>>; #[verifier::external_body] fn vnew(c: RawPtr<Node<T>>) -> (r: Self) { unimplemented!() } }
impl<T> NextPtr<T> {
    pub uninterp spec fn node(&self) -> RawPtr<Node<T>>;
    #[verifier::external_body]
    pub fn store(&self, n: RawPtr<Node<T>>, o: Ordering, Tracked(t): Tracked<&mut QTok<T>>)
        requires
            old(t).link == Some((self.node(), n)), // links exactly the node that was swapped in behind the previous one
            o.releases(), // the value must be visible to the consumer that follows the link
        ensures *final(t) == (QTok { link: None, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut QTok<T>>) -> (r: RawPtr<Node<T>>)
        requires
            old(t).role == 2 || old(t).role == 3, // only the consumer follows links
            old(t).role == 2 ==> o.acquires() && self.node() == old(t).tail && old(t).seen is None, // and synchronises with the producer that set them
            old(t).role == 3 ==> old(t).own.len() >= 1 && self.node() == old(t).own[0],
        ensures
            old(t).role == 2 && r.null() ==> *final(t) == *old(t),
            old(t).role == 2 && !r.null() ==> old(t).incoming.len() >= 1 && !old(t).vals.dom().contains(r) && *final(t) == (QTok { seen: Some(r), vals: old(t).vals.insert(r, Some(old(t).incoming[0])), incoming: old(t).incoming.subrange(1, old(t).incoming.len() as int), ..*old(t) }),
            old(t).role == 3 ==> *final(t) == *old(t) && (if old(t).own.len() == 1 { r.null() } else { r == old(t).own[1] }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HeadPtr<T> { x: PhantomData<T> }
impl<T> VNew<RawPtr<Node<T>>> for HeadPtr<T> { uninterp spec fn init(&self) -> RawPtr<Node<T>>; #[verifier::external_body] fn vnew(c: RawPtr<Node<T>>) -> (r: Self) { unimplemented!() } }
impl<T> HeadPtr<T> {
    #[verifier::external_body]
    pub fn swap(&self, n: RawPtr<Node<T>>, o: Ordering, Tracked(t): Tracked<&mut QTok<T>>) -> (r: RawPtr<Node<T>>)
        requires
            old(t).link is None, // at most one node to link
            old(t).fresh.dom().contains(n) && old(t).fresh[n] is Some, // publishes a complete node of its own
            o.acquires() && o.releases(), // its contents visible to the next producer, and the previous node's to this one
        ensures *final(t) == (QTok { fresh: old(t).fresh.remove(n), link: Some((r, n)), pushed: old(t).pushed.push(old(t).fresh[n]->0), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut QTok<T>>) -> (r: RawPtr<Node<T>>)
        ensures old(t).role == 2 ==> *final(t) == (QTok { found_empty: r == old(t).tail, ..*old(t) }), old(t).role != 2 ==> *final(t) == *old(t),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct TailCell<T> { x: PhantomData<T> }
impl<T> VNew<RawPtr<Node<T>>> for TailCell<T> { uninterp spec fn init(&self) -> RawPtr<Node<T>>; #[verifier::external_body] fn vnew(c: RawPtr<Node<T>>) -> (r: Self) { unimplemented!() } }
pub struct UnsafeCell { }
impl UnsafeCell { pub fn new<T, F: VNew<RawPtr<Node<T>>>>(c: RawPtr<Node<T>>) -> (r: F) ensures r.init() == c { F::vnew(c) } }
impl<T> TailCell<T> {
    #[verifier::external_body]
    pub fn get<'a>(&self, Tracked(t): Tracked<&'a mut QTok<T>>) -> (r: &'a mut RawPtr<Node<T>>)
        requires old(t).role == 2 || old(t).role == 3, // only the consumer touches the tail (no data race)
        ensures *r == old(t).tail, *final(t) == (QTok { tail: *final(r), ..*old(t) }),
    { unimplemented!() }
}
pub struct Box<T> { pub v: T }
impl<T> Box<T> { pub fn new(v: T) -> (r: Box<T>) ensures r.v == v { Box { v } } }
impl<T> Box<Node<T>> {
    #[verifier::external_body]
    pub fn into_raw(b: Box<Node<T>>, Tracked(t): Tracked<&mut QTok<T>>) -> (r: RawPtr<Node<T>>)
        requires b.v.next.init().null(), // a node starts unlinked
        ensures !r.null() && !old(t).fresh.dom().contains(r), *final(t) == (QTok { fresh: old(t).fresh.insert(r, b.v.value), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(p: RawPtr<Node<T>>, Tracked(t): Tracked<&mut QTok<T>>) -> (r: Box<Node<T>>)
        requires
            old(t).role == 2 || old(t).role == 3,
            old(t).role == 2 ==> old(t).vals.dom().contains(p) && old(t).tail != p && old(t).seen is Some, // frees a node it has left behind, once (no use after free)
            old(t).role == 2 ==> old(t).vals[p] is None, // whose message was taken (none is lost)
            old(t).role == 3 ==> old(t).own.len() >= 1 && old(t).own[0] == p, // frees every node once
        ensures
            old(t).role == 2 ==> r.v.value == old(t).vals[p] && *final(t) == (QTok { vals: old(t).vals.remove(p), seen: None, ..*old(t) }),
            old(t).role == 3 ==> *final(t) == (QTok { own: old(t).own.subrange(1, old(t).own.len() as int), ..*old(t) }),
    { unimplemented!() }
}
impl<T> RawPtr<Node<T>> {
    #[verifier::external_body]
    pub fn vf_next<'a>(self, Tracked(t): Tracked<&mut QTok<T>>) -> (r: &'a NextPtr<T>)
        requires // the node is alive, and its link is this thread's business
            (old(t).link is Some && (old(t).link->0).0 == self) || (old(t).role == 2 && old(t).vals.dom().contains(self)) || (old(t).role == 3 && old(t).own.len() >= 1 && old(t).own[0] == self) || old(t).fresh.dom().contains(self),
        ensures r.node() == self, *final(t) == *old(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_value<'a>(self, Tracked(t): Tracked<&'a mut QTok<T>>) -> (r: &'a mut Option<T>)
        requires old(t).role == 2 && old(t).vals.dom().contains(self), // the value is touched by the consumer alone, after reading a link to it (no data race)
        ensures *r == old(t).vals[self], *final(t) == (QTok { vals: old(t).vals.insert(self, *final(r)), ..*old(t) }),
    { unimplemented!() }
}
//@ trackall load store swap get Box::into_raw Box::from_raw Node::new => Tracked(&mut *tok)
//@ heap next value => Tracked(&mut *tok)
//@ file futures-channel/src/mpsc/queue.rs
//@ struct PopResult
pub use PopResult::*;
//@ struct Node type:next=NextPtr<T>
//@ struct Queue type:head=HeadPtr<T> type:tail=TailCell<T>
//@ impl Node
//@ fn new -> r
//@ params Tracked(tok): Tracked<&mut QTok<T>>
    ensures
        !r.null() && !old(tok).fresh.dom().contains(r),
        *final(tok) == (QTok { fresh: old(tok).fresh.insert(r, v), ..*old(tok) }),
//@ endfn
//@ endimpl
//@ impl Queue
//@ fn new -> r
//@ params Tracked(tok): Tracked<&mut QTok<T>>
    ensures
        r.head.init() == r.tail.init() && !r.head.init().null(), // starts with one node, both head and tail
        final(tok).fresh.dom().contains(r.head.init()) && final(tok).fresh[r.head.init()] is None, // that carries no message
//@ endfn
//@ fn push
//@ params Tracked(tok): Tracked<&mut QTok<T>>
    requires old(tok).producer(),
    ensures
        final(tok).producer(), // linked
        final(tok).pushed == old(tok).pushed.push(t), // the value is in the queue, behind everything pushed before
        final(tok).fresh =~= old(tok).fresh,
//@ endfn
//@ fn pop -> r
//@ params Tracked(tok): Tracked<&mut QTok<T>>
    requires old(tok).consumer(),
    ensures
        final(tok).consumer(), // every node left behind is freed
        r matches PopResult::Data(v) ==> old(tok).incoming == seq![v] + final(tok).incoming, // the next value in order
        !(r is Data) ==> final(tok).incoming == old(tok).incoming, // none is lost
        r is Empty ==> final(tok).found_empty, // empty only if nothing was there
//@ entry
    let ghost t0 = *tok;
    assert(t0.incoming.len() >= 1 ==> t0.incoming =~= seq![t0.incoming[0]] + t0.incoming.subrange(1, t0.incoming.len() as int));
//@ endfn
//@ fn pop_spin -> r
//@ params Tracked(tok): Tracked<&mut QTok<T>>
//@ tracked pop => Tracked(&mut *tok)
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires old(tok).consumer(),
    ensures
        final(tok).consumer(),
        r matches Some(v) ==> old(tok).incoming == seq![v] + final(tok).incoming, // the next value in order
        r is None ==> final(tok).incoming == old(tok).incoming && final(tok).found_empty, // none only if nothing was there
//@ loop 0
    invariant tok.consumer(), tok.incoming == old(tok).incoming,
//@ endfn
//@ endimpl
//@ impl Drop for Queue
//@ header impl<T> Queue<T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut QTok<T>>
    requires old(tok).owner(),
    ensures final(tok).own.len() == 0, // every node is freed, with the messages left
//@ loop 0
    invariant
        tok.role == 3, tok.own_ok(),
        cur.null() == (tok.own.len() == 0), !cur.null() ==> cur == tok.own[0],
    decreases tok.own.len(),
//@ endfn
//@ endimpl
}
