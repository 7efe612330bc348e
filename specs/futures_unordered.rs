//@ include prelude
//@ include conc
verus! {
// FuturesUnordered.  Every future lives in a heap node (a Task).  The nodes of the futures in the set form a doubly linked list
// (`all`, from `head`): nodes are added at its head by any thread (role 1: a push or a look through a shared reference, concurrent with other
// pushes), everything else is done by the owner (role 2: through an exclusive reference).  The length is stored in the head node.
//
// The ready-to-run queue by its contract (unit fu_queue): it hands out tasks whose `queued` flag is set, each once; these are tasks of the
// list (their future wants to be polled) or tasks that left the list while they were queued (`orphan`: the queue holds their reference count,
// their future is gone).
//
// Rights: the reference count of a task is with the list (`raw`), with the queue (`orphan`), or with the function that holds its Arc.
pub uninterp spec fn nullp<T>() -> RawPtr<T>;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawPtr<T: ?Sized> { x: PhantomData<T> }
impl<T> RawPtr<T> {
    pub open spec fn null(&self) -> bool { *self == nullp::<T>() }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == self.null() { unimplemented!() }
}
impl<T> Clone for RawPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for RawPtr<T> {}
pub mod ptr {
    use super::*;
    #[verifier::external_body]
    pub fn null_mut<T>() -> (r: RawPtr<T>) ensures r.null() { unimplemented!() }
    #[verifier::external_body]
    pub fn null<T>() -> (r: RawPtr<T>) ensures r.null() { unimplemented!() }
}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for RawPtr<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &RawPtr<T>) -> bool { *self == *o }
}
impl<T> PartialEq for RawPtr<T> { #[verifier::external_body] fn eq(&self, o: &RawPtr<T>) -> (r: bool) { unimplemented!() } }
pub type P<Fut> = RawPtr<Task<Fut>>;
pub open spec fn nth<T>(s: Seq<RawPtr<T>>, i: int) -> RawPtr<T> { if 0 <= i < s.len() { s[i] } else { nullp() } }
pub open spec fn without<T>(s: Seq<RawPtr<T>>, p: RawPtr<T>) -> Seq<RawPtr<T>> { if s.contains(p) { s.remove(s.index_of(p)) } else { s } }
pub proof fn lemma_without<T>(s: Seq<RawPtr<T>>, p: RawPtr<T>)
    requires s.contains(p), forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j],
    ensures
        0 <= s.index_of(p) < s.len() && s[s.index_of(p)] == p,
        without(s, p).len() == s.len() - 1,
        forall|k: int| #![trigger without(s, p)[k]] 0 <= k < s.len() - 1 ==> without(s, p)[k] == (if k < s.index_of(p) { s[k] } else { s[k + 1] }) && without(s, p)[k] != p,
        !without(s, p).contains(p),
        forall|q: RawPtr<T>| q != p ==> (#[trigger] without(s, p).contains(q) == s.contains(q)),
{
    let i = s.index_of(p);
    let w = without(s, p);
    assert forall|q: RawPtr<T>| q != p implies (#[trigger] w.contains(q) == s.contains(q)) by {
        if s.contains(q) { let k = s.index_of(q); if k < i { assert(w[k] == q); } else { assert(w[k - 1] == q); } }
        if w.contains(q) { let k = w.index_of(q); if k < i { assert(s[k] == q); } else { assert(s[k + 1] == q); } }
    }
}
pub open spec fn same<T>(a: Seq<RawPtr<T>>, b: Seq<RawPtr<T>>) -> bool { a.len() == b.len() && forall|q: RawPtr<T>| #![trigger a.contains(q)] #![trigger b.contains(q)] a.contains(q) == b.contains(q) }
pub open spec fn same_but<T>(a: Seq<RawPtr<T>>, b: Seq<RawPtr<T>>, p: RawPtr<T>) -> bool { a.len() == b.len() + 1 && forall|q: RawPtr<T>| #![trigger a.contains(q)] #![trigger b.contains(q)] b.contains(q) == (a.contains(q) && q != p) }
pub proof fn lemma_cons<T>(s: Seq<RawPtr<T>>, p: RawPtr<T>)
    requires !s.contains(p),
    ensures same_but(seq![p] + s, s, p),
{
    let w = seq![p] + s;
    assert(w[0] == p);
    assert forall|q: RawPtr<T>| #![trigger w.contains(q)] #![trigger s.contains(q)] s.contains(q) == (w.contains(q) && q != p) by {
        if s.contains(q) { let k = s.index_of(q); assert(w[k + 1] == q); }
        if w.contains(q) && q != p { let k = w.index_of(q); assert(s[k - 1] == q); }
    }
}
pub uninterp spec fn tid<Fut>(p: RawPtr<Task<Fut>>) -> int; // the waker of a task

pub tracked struct FuTok<Fut> {
    pub ghost role: int,
    pub ghost stub: P<Fut>,
    pub ghost queue: RawPtr<ReadyToRunQueue<Fut>>,
    pub ghost head: P<Fut>,
    pub ghost all: Seq<P<Fut>>,               // the list, from its head (role 1: as of the last look at the head)
    pub ghost nx: Map<P<Fut>, P<Fut>>,
    pub ghost pv: Map<P<Fut>, P<Fut>>,
    pub ghost ln: Map<P<Fut>, usize>,
    pub ghost linking: Option<P<Fut>>,        // swapped in as head, link to the rest not stored yet
    pub ghost settled: Set<P<Fut>>,           // role 1: nodes whose length may be read
    pub ghost raw: Set<P<Fut>>,               // counts held by the list
    pub ghost orphan: Set<P<Fut>>,            // counts held by the queue
    pub ghost mayq: Set<P<Fut>>,              // new tasks, flag set, to be queued
    pub ghost enq: Seq<P<Fut>>,               // queued by this thread
    pub ghost got: Option<P<Fut>>,            // taken out of the queue, flag still set
    pub ghost clr: Set<P<Fut>>,               // tasks whose flag the owner has reset since they were last taken out of the queue
    pub ghost found: Set<P<Fut>>,             // flag found set on release: the task is (about to be) in the queue
    pub ghost closed: Set<P<Fut>>,            // flag set by the owner when it was not set: the task never gets into the queue again
    pub ghost term: bool,
    pub ghost reg: Option<int>,               // waker registered with the queue
    pub ghost looked: Option<int>,            // the last look at the queue found it empty, with this waker registered
    pub ghost polls: int,
}
pub tracked struct FutTok<Fut> { pub ghost fut: Map<P<Fut>, Option<Fut>> }
#[verifier::opaque]
pub open spec fn distinct<T>(all: Seq<RawPtr<T>>) -> bool { forall|i: int, j: int| 0 <= i < j < all.len() ==> all[i] != all[j] }
#[verifier::opaque]
pub open spec fn links_ok<T>(all: Seq<RawPtr<T>>, nx: Map<RawPtr<T>, RawPtr<T>>, pv: Map<RawPtr<T>, RawPtr<T>>, ln: Map<RawPtr<T>, usize>) -> bool {
    forall|i: int| 0 <= i < all.len() ==> nx[#[trigger] all[i]] == nth(all, i + 1) && pv[all[i]] == nth(all, i - 1) && ln[all[i]] >= all.len() - i
}
impl<Fut> FuTok<Fut> {
    pub open spec fn nodes_ok(&self) -> bool {
        forall|i: int| 0 <= i < self.all.len() ==> !(#[trigger] self.all[i]).null() && self.all[i] != self.stub && self.raw.contains(self.all[i]) && !self.orphan.contains(self.all[i])
            && self.nx.dom().contains(self.all[i]) && self.pv.dom().contains(self.all[i]) && self.ln.dom().contains(self.all[i])
    }
    // a task that is in no list
    pub open spec fn loose(&self, p: P<Fut>) -> bool {
        !p.null() && p != self.stub && !self.raw.contains(p) && !self.all.contains(p) && self.nx.dom().contains(p) && self.pv.dom().contains(p) && self.ln.dom().contains(p) && self.nx[p] == self.stub && self.pv[p].null()
    }
    pub open spec fn list0(&self) -> bool {
        &&& self.role == 2 && self.linking is None && self.head == nth(self.all, 0) && self.all.len() < usize::MAX && !self.stub.null()
        &&& distinct(self.all) && self.nodes_ok() && links_ok(self.all, self.nx, self.pv, self.ln)
        &&& forall|p: P<Fut>| #[trigger] self.orphan.contains(p) ==> self.loose(p)
    }
    pub open spec fn list(&self) -> bool { self.list0() && (self.all.len() > 0 ==> self.ln[self.all[0]] == self.all.len()) }
    pub open spec fn shared(&self) -> bool { self.role == 1 && self.linking is None && !self.stub.null() }
    // this thread's part of the list after an insertion at the head
    pub open spec fn placed(&self, p: P<Fut>) -> bool {
        &&& self.all.len() > 0 && self.all[0] == p && self.nx[p] == nth(self.all, 1) && self.pv[p].null() && self.ln[p] == self.all.len()
        &&& self.all.len() > 1 ==> self.pv[self.all[1]] == p && self.ln[self.all[1]] == self.all.len() - 1
    }
}
pub proof fn lemma_head<Fut>(t: FuTok<Fut>, p: P<Fut>)
    requires t.list0(), t.all.contains(p),
    ensures
        !t.head.null() && t.ln.dom().contains(t.head) && t.ln[t.head] >= t.all.len() && t.all.len() > 0, t.list() ==> t.ln[t.head] == t.all.len(),
        t.raw.contains(p) && t.nx.dom().contains(p) && t.pv.dom().contains(p) && !p.null() && p != t.stub,
        !t.nx[p].null() ==> t.pv.dom().contains(t.nx[p]) && t.nx[p] != p && t.all.contains(t.nx[p]),
        !t.pv[p].null() ==> t.nx.dom().contains(t.pv[p]) && t.pv[p] != p && t.all.contains(t.pv[p]),
        t.pv[p].null() ==> t.head == p,
        !t.nx[p].null() && !t.pv[p].null() ==> t.nx[p] != t.pv[p],
        !t.nx[p].null() ==> t.ln.dom().contains(t.nx[p]),
{
    reveal(links_ok); reveal(distinct);
    let i = t.all.index_of(p);
    assert(t.all[i] == p);
    if i > 0 { assert(t.all[i - 1] == t.pv[p]); assert(!t.all[i - 1].null()); }
    if i + 1 < t.all.len() { assert(t.all[i + 1] == t.nx[p]); assert(!t.all[i + 1].null()); }
    assert(t.all[0] == t.head);
}
pub proof fn link_at<T>(all: Seq<RawPtr<T>>, nx: Map<RawPtr<T>, RawPtr<T>>, pv: Map<RawPtr<T>, RawPtr<T>>, ln: Map<RawPtr<T>, usize>, i: int)
    requires links_ok(all, nx, pv, ln), 0 <= i < all.len()
    ensures nx[all[i]] == nth(all, i + 1) && pv[all[i]] == nth(all, i - 1) && ln[all[i]] >= all.len() - i
{ reveal(links_ok); }
pub proof fn mk_links<T>(all: Seq<RawPtr<T>>, nx: Map<RawPtr<T>, RawPtr<T>>, pv: Map<RawPtr<T>, RawPtr<T>>, ln: Map<RawPtr<T>, usize>)
    requires forall|i: int| 0 <= i < all.len() ==> nx[#[trigger] all[i]] == nth(all, i + 1) && pv[all[i]] == nth(all, i - 1) && ln[all[i]] >= all.len() - i
    ensures links_ok(all, nx, pv, ln)
{ reveal(links_ok); }
pub proof fn differ<T>(all: Seq<RawPtr<T>>, i: int, j: int)
    requires distinct(all), 0 <= i < all.len(), 0 <= j < all.len(), i != j
    ensures all[i] != all[j]
{ reveal(distinct); if i > j { assert(all[j] != all[i]); } }
pub proof fn lemma_without_at<T>(s: Seq<RawPtr<T>>, p: RawPtr<T>, k: int)
    requires distinct(s), s.contains(p), 0 <= k < s.len() - 1
    ensures without(s, p).len() == s.len() - 1, without(s, p)[k] == (if k < s.index_of(p) { s[k] } else { s[k + 1] }), 0 <= s.index_of(p) < s.len(), s[s.index_of(p)] == p
{ reveal(distinct); lemma_without(s, p); }
pub proof fn lemma_link_at<T>(all: Seq<RawPtr<T>>, nx0: Map<RawPtr<T>, RawPtr<T>>, pv0: Map<RawPtr<T>, RawPtr<T>>, ln0: Map<RawPtr<T>, usize>, nx: Map<RawPtr<T>, RawPtr<T>>, pv: Map<RawPtr<T>, RawPtr<T>>, ln: Map<RawPtr<T>, usize>, p: RawPtr<T>, stub: RawPtr<T>, k: int)
    requires
        distinct(all), links_ok(all, nx0, pv0, ln0), all.contains(p), forall|i: int| 0 <= i < all.len() ==> !(#[trigger] all[i]).null(),
        forall|q: RawPtr<T>| all.contains(q) ==> #[trigger] nx[q] == (if q == p { stub } else if q == pv0[p] && !pv0[p].null() { nx0[p] } else { nx0[q] }),
        forall|q: RawPtr<T>| all.contains(q) ==> #[trigger] pv[q] == (if q == p { nullp() } else if q == nx0[p] && !nx0[p].null() { pv0[p] } else { pv0[q] }),
        forall|q: RawPtr<T>| q != nth(without(all, p), 0) ==> #[trigger] ln[q] == ln0[q],
        without(all, p).len() > 0 ==> ln[without(all, p)[0]] == ln0[all[0]] - 1,
        0 <= k < without(all, p).len(),
    ensures ({ let w = without(all, p); nx[w[k]] == nth(w, k + 1) && pv[w[k]] == nth(w, k - 1) && ln[w[k]] >= w.len() - k }),
{
    let i = all.index_of(p);
    let w = without(all, p);
    assert(w.len() == all.len() - 1);
    lemma_without_at(all, p, k);
    let o = if k < i { k } else { k + 1 };
    assert(w[k] == all[o] && all.contains(all[o]));
    link_at(all, nx0, pv0, ln0, o);
    link_at(all, nx0, pv0, ln0, i);
    differ(all, o, i);
    assert(!all[o].null());
    if k + 1 < w.len() { lemma_without_at(all, p, k + 1); }
    if k > 0 { lemma_without_at(all, p, k - 1); }
    // neighbours
    assert(nx[w[k]] == nth(w, k + 1)) by {
        if i >= 1 && o != i - 1 { differ(all, o, i - 1); }
    }
    assert(pv[w[k]] == nth(w, k - 1)) by {
        if i + 1 < all.len() && o != i + 1 { differ(all, o, i + 1); }
    }
    lemma_without_at(all, p, 0);
    if k > 0 {
        differ(all, o, if 0 < i { 0int } else { 1int });
    } else {
        link_at(all, nx0, pv0, ln0, 0);
    }
}
pub proof fn lemma_links<T>(all: Seq<RawPtr<T>>, nx0: Map<RawPtr<T>, RawPtr<T>>, pv0: Map<RawPtr<T>, RawPtr<T>>, ln0: Map<RawPtr<T>, usize>, nx: Map<RawPtr<T>, RawPtr<T>>, pv: Map<RawPtr<T>, RawPtr<T>>, ln: Map<RawPtr<T>, usize>, p: RawPtr<T>, stub: RawPtr<T>)
    requires
        distinct(all), links_ok(all, nx0, pv0, ln0), all.contains(p), forall|i: int| 0 <= i < all.len() ==> !(#[trigger] all[i]).null(),
        forall|q: RawPtr<T>| all.contains(q) ==> #[trigger] nx[q] == (if q == p { stub } else if q == pv0[p] && !pv0[p].null() { nx0[p] } else { nx0[q] }),
        forall|q: RawPtr<T>| all.contains(q) ==> #[trigger] pv[q] == (if q == p { nullp() } else if q == nx0[p] && !nx0[p].null() { pv0[p] } else { pv0[q] }),
        forall|q: RawPtr<T>| q != nth(without(all, p), 0) ==> #[trigger] ln[q] == ln0[q],
        without(all, p).len() > 0 ==> ln[without(all, p)[0]] == ln0[all[0]] - 1,
    ensures links_ok(without(all, p), nx, pv, ln), distinct(without(all, p)),
{
    let w = without(all, p);
    assert forall|k: int| 0 <= k < w.len() implies nx[#[trigger] w[k]] == nth(w, k + 1) && pv[w[k]] == nth(w, k - 1) && ln[w[k]] >= w.len() - k by {
        lemma_link_at(all, nx0, pv0, ln0, nx, pv, ln, p, stub, k);
    }
    mk_links(w, nx, pv, ln);
    assert(distinct(w)) by { reveal(distinct); lemma_without(all, p); }
}
pub proof fn lemma_unlink<Fut>(t0: FuTok<Fut>, t1: FuTok<Fut>, p: P<Fut>)
    requires
        t0.list0(), t0.all.contains(p),
        t1 == (FuTok { head: t1.head, all: without(t0.all, p), nx: t1.nx, pv: t1.pv, ln: t1.ln, raw: t0.raw.remove(p), ..t0 }),
        t1.nx.dom() =~= t0.nx.dom(), t1.pv.dom() =~= t0.pv.dom(), t1.ln.dom() =~= t0.ln.dom(),
        forall|q: P<Fut>| t0.all.contains(q) || t0.orphan.contains(q) ==> #[trigger] t1.nx[q] == (if q == p { t0.stub } else if q == t0.pv[p] && !t0.pv[p].null() { t0.nx[p] } else { t0.nx[q] }),
        forall|q: P<Fut>| t0.all.contains(q) || t0.orphan.contains(q) ==> #[trigger] t1.pv[q] == (if q == p { nullp() } else if q == t0.nx[p] && !t0.nx[p].null() { t0.pv[p] } else { t0.pv[q] }),
        t1.head == (if t0.pv[p].null() { t0.nx[p] } else { t0.head }),
        forall|q: P<Fut>| q != t1.head ==> #[trigger] t1.ln[q] == t0.ln[q],
        !t1.head.null() ==> t1.ln[t1.head] == t0.ln[t0.head] - 1,
    ensures t1.list0(), t0.list() ==> t1.list(), t1.loose(p), !t1.orphan.contains(p), same_but(t0.all, t1.all, p),
{
    reveal(links_ok); reveal(distinct);
    lemma_without(t0.all, p);
    lemma_head(t0, p);
    let i = t0.all.index_of(p);
    let w = t1.all;
    assert forall|k: int| 0 <= k < w.len() implies t0.all.contains(#[trigger] w[k]) && w[k] != p by { assert(w[k] == (if k < i { t0.all[k] } else { t0.all[k + 1] })); }
    assert(t1.nodes_ok());
    assert(i == 0 ==> t0.pv[p].null());
    assert(i > 0 ==> t0.pv[p] == t0.all[i - 1]);
    assert(t0.nx[p] == nth(t0.all, i + 1));
    assert(t1.head == nth(w, 0)) by { if i > 0 { assert(w[0] == t0.all[0]); } else if w.len() > 0 { assert(w[0] == t0.all[1]); } }
    lemma_links(t0.all, t0.nx, t0.pv, t0.ln, t1.nx, t1.pv, t1.ln, p, t0.stub);
    assert forall|q: P<Fut>| #[trigger] t1.orphan.contains(q) implies t1.loose(q) by {
        assert(t0.loose(q));
        assert(q != t0.pv[p]) by { if q == t0.pv[p] && !t0.pv[p].null() { assert(t0.all.contains(q)); } }
        assert(q != t0.nx[p]) by { if q == t0.nx[p] && !t0.nx[p].null() { assert(t0.all.contains(q)); } }
        assert(q != p);
        assert(t1.nx[q] == t0.nx[q]);
        assert(t1.pv[q] == t0.pv[q]);
    }
    if t0.list() && w.len() > 0 { assert(t1.ln[w[0]] == w.len()); }
}
// the futures of the set
pub open spec fn futs<Fut: Future>(t: FuTok<Fut>, f: FutTok<Fut>) -> bool {
    &&& forall|p: P<Fut>| #[trigger] t.all.contains(p) ==> f.fut.dom().contains(p) && f.fut[p] is Some && f.fut[p]->0.wf() && !f.fut[p]->0.done() && (t.clr.contains(p) ==> f.fut[p]->0.armed(tid(p)))
    &&& forall|p: P<Fut>| #[trigger] t.orphan.contains(p) ==> f.fut.dom().contains(p) && f.fut[p] is None
}
pub open spec fn live<Fut>(t: FuTok<Fut>, f: FutTok<Fut>) -> bool {
    forall|p: P<Fut>| #[trigger] t.all.contains(p) ==> f.fut.dom().contains(p) && f.fut[p] is Some
}
pub trait VNew<C>: Sized { spec fn init(&self) -> C; fn vnew(c: C) -> (r: Self) ensures r.init() == c; }
pub struct AtomicPtr { }
impl AtomicPtr { pub fn new<C, F: VNew<C>>(c: C) -> (r: F) ensures r.init() == c { F::vnew(c) } }
pub struct UnsafeCell { }
impl UnsafeCell { pub fn new<C, F: VNew<C>>(c: C) -> (r: F) ensures r.init() == c { F::vnew(c) } }
pub struct AtomicBool { }
impl AtomicBool { pub fn new<C, F: VNew<C>>(c: C) -> (r: F) ensures r.init() == c { F::vnew(c) } }
pub struct AtomicWaker { }
impl AtomicWaker { pub fn new<F: VNew<()>>() -> (r: F) { F::vnew(()) } }

#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct FutCell<Fut> { x: PhantomData<Fut> }
impl<Fut> VNew<Option<Fut>> for FutCell<Fut> { uninterp spec fn init(&self) -> Option<Fut>; #[verifier::external_body] fn vnew(c: Option<Fut>) -> (r: Self) { unimplemented!() } }
impl<Fut> FutCell<Fut> {
    pub uninterp spec fn node(&self) -> P<Fut>;
    #[verifier::external_body]
    pub fn get<'a>(&self, Tracked(f): Tracked<&'a mut FutTok<Fut>>) -> (r: &'a mut Option<Fut>)
        requires old(f).fut.dom().contains(self.node()),
        ensures *r == old(f).fut[self.node()], *final(f) == (FutTok { fut: old(f).fut.insert(self.node(), *final(r)), ..*old(f) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct NextAll<Fut> { x: PhantomData<Fut> }
impl<Fut> VNew<P<Fut>> for NextAll<Fut> { uninterp spec fn init(&self) -> P<Fut>; #[verifier::external_body] fn vnew(c: P<Fut>) -> (r: Self) { unimplemented!() } }
impl<Fut> NextAll<Fut> {
    pub uninterp spec fn node(&self) -> P<Fut>;
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: P<Fut>)
        requires
            old(t).nx.dom().contains(self.node()) || (old(t).role == 1 && old(t).all.contains(self.node())), // the node is alive
        ensures
            old(t).role == 2 || !old(t).all.contains(self.node()) ==> r == old(t).nx[self.node()] && *final(t) == *old(t),
            // a node another thread is adding: its link is there at some time, and with it its length
            old(t).role == 1 && old(t).all.contains(self.node()) ==> (r != old(t).stub ==> forall|i: int| 0 <= i < old(t).all.len() && #[trigger] old(t).all[i] == self.node() ==> r == nth(old(t).all, i + 1))
                && *final(t) == (FuTok { settled: if r != old(t).stub && o.acquires() { old(t).settled.insert(self.node()) } else { old(t).settled }, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: P<Fut>, o: Ordering, Tracked(t): Tracked<&mut FuTok<Fut>>)
        requires
            old(t).nx.dom().contains(self.node()),
            // links exactly the rest of the list, when the length is in place (other threads read it from then on)
            old(t).role == 1 ==> old(t).linking == Some(self.node()) && v == nth(old(t).all, 1) && old(t).ln[self.node()] == old(t).all.len() && o.releases(),
        ensures *final(t) == (FuTok { nx: old(t).nx.insert(self.node(), v), linking: if old(t).linking == Some(self.node()) { None } else { old(t).linking }, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct PrevCell<Fut> { x: PhantomData<Fut> }
impl<Fut> VNew<P<Fut>> for PrevCell<Fut> { uninterp spec fn init(&self) -> P<Fut>; #[verifier::external_body] fn vnew(c: P<Fut>) -> (r: Self) { unimplemented!() } }
impl<Fut> PrevCell<Fut> {
    pub uninterp spec fn node(&self) -> P<Fut>;
    #[verifier::external_body]
    pub fn get<'a>(&self, Tracked(t): Tracked<&'a mut FuTok<Fut>>) -> (r: &'a mut P<Fut>)
        requires old(t).pv.dom().contains(self.node()), // only the owner, or the thread that put a node in front of it (no data race)
        ensures *r == old(t).pv[self.node()], *final(t) == (FuTok { pv: old(t).pv.insert(self.node(), *final(r)), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct LenCell<Fut> { x: PhantomData<Fut> }
impl<Fut> VNew<usize> for LenCell<Fut> { uninterp spec fn init(&self) -> usize; #[verifier::external_body] fn vnew(c: usize) -> (r: Self) { unimplemented!() } }
impl<Fut> LenCell<Fut> {
    pub uninterp spec fn node(&self) -> P<Fut>;
    #[verifier::external_body]
    pub fn get<'a>(&self, Tracked(t): Tracked<&'a mut FuTok<Fut>>) -> (r: &'a mut usize)
        requires
            old(t).ln.dom().contains(self.node()),
            old(t).role == 1 ==> old(t).linking == Some(self.node()) || old(t).settled.contains(self.node()), // read only after the link was seen (no data race)
        ensures *r == old(t).ln[self.node()], *final(t) == (FuTok { ln: old(t).ln.insert(self.node(), *final(r)), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct HeadAll<Fut> { x: PhantomData<Fut> }
impl<Fut> VNew<P<Fut>> for HeadAll<Fut> { uninterp spec fn init(&self) -> P<Fut>; #[verifier::external_body] fn vnew(c: P<Fut>) -> (r: Self) { unimplemented!() } }
impl<Fut> HeadAll<Fut> {
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: P<Fut>)
        ensures
            old(t).role == 2 ==> r == old(t).head && *final(t) == *old(t),
            old(t).role == 1 ==> *final(t) == (FuTok { all: final(t).all, ln: final(t).ln, settled: Set::empty(), ..*old(t) }) && r == nth(final(t).all, 0) && (r.null() == (final(t).all.len() == 0))
                && (o.acquires() && !r.null() ==> final(t).ln.dom().contains(r) && final(t).ln[r] == final(t).all.len())
                && (forall|i: int| 0 <= i < final(t).all.len() ==> !(#[trigger] final(t).all[i]).null() && final(t).all[i] != old(t).stub)
                && (forall|i: int, j: int| 0 <= i < j < final(t).all.len() ==> final(t).all[i] != final(t).all[j]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, n: P<Fut>, o: Ordering, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: P<Fut>)
        requires
            old(t).linking is None && old(t).raw.contains(n) && !n.null(), // the list takes over a reference count
            old(t).nx.dom().contains(n) && old(t).nx[n] == old(t).stub, // marked as not linked yet
            o.acquires() && o.releases(),
        ensures
            old(t).role == 2 ==> r == old(t).head && *final(t) == (FuTok { head: n, all: seq![n] + old(t).all, linking: Some(n), ..*old(t) }),
            old(t).role == 1 ==> *final(t) == (FuTok { all: final(t).all, pv: final(t).pv, ln: final(t).ln, settled: Set::empty(), linking: Some(n), ..*old(t) })
                && 0 < final(t).all.len() < usize::MAX && final(t).all[0] == n && r == nth(final(t).all, 1) && (r.null() == (final(t).all.len() == 1)) && r != n
                && (if r.null() { final(t).pv == old(t).pv && final(t).ln == old(t).ln } else { final(t).pv == old(t).pv.insert(r, final(t).pv[r]) && final(t).ln == old(t).ln.insert(r, (final(t).all.len() - 1) as usize) })
                && (forall|i: int| 0 < i < final(t).all.len() ==> !(#[trigger] final(t).all[i]).null() && final(t).all[i] != n),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&mut self, Tracked(t): Tracked<&'a mut FuTok<Fut>>) -> (r: &'a mut P<Fut>)
        requires old(t).role == 2,
        ensures *r == old(t).head, *final(t) == (FuTok { head: *final(r), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct QueuedFlag<Fut> { x: PhantomData<Fut> }
impl<Fut> VNew<bool> for QueuedFlag<Fut> { uninterp spec fn init(&self) -> bool; #[verifier::external_body] fn vnew(c: bool) -> (r: Self) { unimplemented!() } }
impl<Fut> QueuedFlag<Fut> {
    pub uninterp spec fn node(&self) -> P<Fut>;
    #[verifier::external_body]
    pub fn swap(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: bool)
        requires
            o.acquires() && o.releases(), old(t).role == 2,
            !v ==> old(t).got == Some(self.node()), // reset only once it is out of the queue
            v ==> !old(t).raw.contains(self.node()) && old(t).got is None, // closed for good only once it is out of the list
        ensures
            !v ==> r && *final(t) == (FuTok { got: None, clr: old(t).clr.insert(self.node()), ..*old(t) }),
            v && r ==> *final(t) == (FuTok { found: old(t).found.insert(self.node()), ..*old(t) }),
            v && !r ==> old(t).clr.contains(self.node()) && *final(t) == (FuTok { closed: old(t).closed.insert(self.node()), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct WokenFlag<Fut> { x: PhantomData<Fut> }
impl<Fut> VNew<bool> for WokenFlag<Fut> { uninterp spec fn init(&self) -> bool; #[verifier::external_body] fn vnew(c: bool) -> (r: Self) { unimplemented!() } }
impl<Fut> WokenFlag<Fut> {
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut FuTok<Fut>>) ensures *final(t) == *old(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: bool) ensures *final(t) == *old(t) { unimplemented!() }
}
#[verifier::external_body]
pub struct TermFlag { x: u8 }
impl VNew<bool> for TermFlag { uninterp spec fn init(&self) -> bool; #[verifier::external_body] fn vnew(c: bool) -> (r: Self) { unimplemented!() } }
impl TermFlag {
    #[verifier::external_body]
    pub fn store<Fut>(&self, v: bool, o: Ordering, Tracked(t): Tracked<&mut FuTok<Fut>>, p: PhantomData<Fut>) ensures *final(t) == (FuTok { term: v, ..*old(t) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn load<Fut>(&self, o: Ordering, Tracked(t): Tracked<&mut FuTok<Fut>>, p: PhantomData<Fut>) -> (r: bool) ensures *final(t) == *old(t), r == old(t).term { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, Fut>(&mut self, Tracked(t): Tracked<&'a mut FuTok<Fut>>, p: PhantomData<Fut>) -> (r: &'a mut bool)
        ensures *r == old(t).term, *final(t) == (FuTok { term: *final(r), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct ParentWaker<Fut> { x: PhantomData<Fut> }
impl<Fut> VNew<()> for ParentWaker<Fut> { uninterp spec fn init(&self); #[verifier::external_body] fn vnew(c: ()) -> (r: Self) { unimplemented!() } }
impl<Fut> ParentWaker<Fut> {
    // AtomicWaker::register: unit atomic_waker
    #[verifier::external_body]
    pub fn register(&self, w: &Waker, Tracked(t): Tracked<&mut FuTok<Fut>>) ensures *final(t) == (FuTok { reg: Some(w.id()), ..*old(t) }) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct QPtr<Fut> { x: PhantomData<Fut> }
impl<Fut> VNew<P<Fut>> for QPtr<Fut> { uninterp spec fn init(&self) -> P<Fut>; #[verifier::external_body] fn vnew(c: P<Fut>) -> (r: Self) { unimplemented!() } }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { x: PhantomData<T> }
pub trait VAlloc<Fut>: Sized {
    spec fn alloc_ok(&self, t: FuTok<Fut>) -> bool;
    spec fn born(&self, p: RawPtr<Self>, t0: FuTok<Fut>, t1: FuTok<Fut>, f0: FutTok<Fut>, f1: FutTok<Fut>) -> bool;
}
impl<Fut> VAlloc<Fut> for ReadyToRunQueue<Fut> {
    open spec fn alloc_ok(&self, t: FuTok<Fut>) -> bool { true }
    open spec fn born(&self, p: RawPtr<Self>, t0: FuTok<Fut>, t1: FuTok<Fut>, f0: FutTok<Fut>, f1: FutTok<Fut>) -> bool { t1 == t0 && f1 == f0 }
}
impl<Fut> VAlloc<Fut> for Task<Fut> {
    // a task with a future wakes the set it is created for
    open spec fn alloc_ok(&self, t: FuTok<Fut>) -> bool { self.future.init() is Some ==> self.ready_to_run_queue.of() == Some(t.queue) }
    open spec fn born(&self, p: RawPtr<Self>, t0: FuTok<Fut>, t1: FuTok<Fut>, f0: FutTok<Fut>, f1: FutTok<Fut>) -> bool {
        &&& !p.null() && p != t0.stub && !t0.all.contains(p) && !t0.raw.contains(p) && !t0.orphan.contains(p) && !t0.mayq.contains(p) && !f0.fut.dom().contains(p) && !t0.clr.contains(p)
        &&& t1 == (FuTok { nx: t0.nx.insert(p, self.next_all.init()), pv: t0.pv.insert(p, self.prev_all.init()), ln: t0.ln.insert(p, self.len_all.init()), mayq: if self.queued.init() { t0.mayq.insert(p) } else { t0.mayq }, ..t0 })
        &&& f1.fut == f0.fut.insert(p, self.future.init())
    }
}
impl<T> Arc<T> {
    pub uninterp spec fn v(&self) -> T;
    pub uninterp spec fn p(&self) -> RawPtr<T>;
    #[verifier::external_body]
    pub fn new<Fut>(v: T, Tracked(t): Tracked<&mut FuTok<Fut>>, Tracked(f): Tracked<&mut FutTok<Fut>>, ph: PhantomData<Fut>) -> (r: Arc<T>) where T: VAlloc<Fut>
        requires v.alloc_ok(*old(t)),
        ensures r.v() == v, v.born(r.p(), *old(t), *final(t), *old(f), *final(f)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn downgrade(a: &Arc<T>) -> (r: Weak<T>) ensures r.of() == Some(a.p()) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(a: &Arc<T>) -> (r: RawPtr<T>) ensures r == a.p() && !r.null() { unimplemented!() }
}
impl<T> Clone for Arc<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> core::ops::Deref for Arc<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.v() { unimplemented!() } }
#[verifier::external_body]
pub broadcast proof fn ax_arc<Fut>(a: Arc<Task<Fut>>)
    ensures (#[trigger] a.v()).future.node() == a.p() && a.v().next_all.node() == a.p() && a.v().prev_all.node() == a.p() && a.v().len_all.node() == a.p() && a.v().queued.node() == a.p()
{}
pub broadcast proof fn lemma_reinsert<K, V>(m: Map<K, V>, k: K, v: V)
    requires m.dom().contains(k), m[k] == v,
    ensures #[trigger] m.insert(k, v) == m
{ assert(m.insert(k, v) =~= m); }
pub broadcast group group_fu { ax_arc, lemma_reinsert }
impl<Fut> Arc<Task<Fut>> {
    #[verifier::external_body]
    pub fn into_raw(a: Arc<Task<Fut>>, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: P<Fut>)
        ensures r == a.p(), *final(t) == (FuTok { raw: old(t).raw.insert(r), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(p: P<Fut>, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: Arc<Task<Fut>>)
        requires old(t).raw.contains(p) || (old(t).orphan.contains(p) && old(t).got == Some(p)), // takes over a count that is there, once
        ensures r.p() == p, *final(t) == (if old(t).raw.contains(p) { FuTok { raw: old(t).raw.remove(p), all: without(old(t).all, p), ..*old(t) } } else { FuTok { orphan: old(t).orphan.remove(p), got: None, ..*old(t) } }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ManuallyDrop<T> { x: PhantomData<T> }
impl<T> ManuallyDrop<T> { pub uninterp spec fn v(&self) -> T; }
impl<T> core::ops::Deref for ManuallyDrop<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.v() { unimplemented!() } }
impl<Fut> ManuallyDrop<Arc<Task<Fut>>> {
    #[verifier::external_body]
    pub fn new(a: Arc<Task<Fut>>, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: Self)
        requires old(t).found.contains(a.p()), // the queue has the task and releases the count; otherwise it would leak
        ensures r.v() == a, *final(t) == (FuTok { found: old(t).found.remove(a.p()), orphan: old(t).orphan.insert(a.p()), ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Weak<T> { x: PhantomData<T> }
impl<T> Weak<T> {
    pub uninterp spec fn of(&self) -> Option<RawPtr<T>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.of() is None { unimplemented!() }
}
impl<Fut> core::ops::Deref for RawPtr<Task<Fut>> { type Target = Task<Fut>; #[verifier::external_body] fn deref(&self) -> (r: &Task<Fut>) ensures r.next_all.node() == *self { unimplemented!() } }
impl<Fut> RawPtr<Task<Fut>> {
    #[verifier::external_body]
    pub fn vf_future<'a>(self, Tracked(f): Tracked<&mut FutTok<Fut>>) -> (r: &'a FutCell<Fut>) requires old(f).fut.dom().contains(self) ensures r.node() == self, *final(f) == *old(f) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_next_all<'a>(self, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: &'a NextAll<Fut>) requires old(t).nx.dom().contains(self) || (old(t).role == 1 && old(t).all.contains(self)) ensures r.node() == self, *final(t) == *old(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_prev_all<'a>(self, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: &'a PrevCell<Fut>) requires old(t).pv.dom().contains(self) ensures r.node() == self, *final(t) == *old(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_len_all<'a>(self, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: &'a LenCell<Fut>) requires old(t).ln.dom().contains(self) ensures r.node() == self, *final(t) == *old(t) { unimplemented!() }
}
// ---- the ready-to-run queue, by the contracts of unit fu_queue
impl<Fut> ReadyToRunQueue<Fut> {
    #[verifier::external_body]
    pub fn enqueue(&self, task: P<Fut>, Tracked(t): Tracked<&mut FuTok<Fut>>)
        requires old(t).mayq.contains(task), // its flag is set and it is not in the queue
        ensures *final(t) == (FuTok { mayq: old(t).mayq.remove(task), enq: old(t).enq.push(task), ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dequeue(&self, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: Dequeue<Fut>)
        requires old(t).role == 2, old(t).got is None, // the task taken out before was dealt with
        ensures
            r matches Dequeue::Data(p) ==> *final(t) == (FuTok { got: Some(p), clr: old(t).clr.remove(p), looked: None, ..*old(t) }) && (old(t).all.contains(p) || old(t).orphan.contains(p)),
            r is Empty ==> *final(t) == (FuTok { looked: old(t).reg, ..*old(t) }),
            r is Inconsistent ==> *final(t) == (FuTok { looked: None, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stub(&self) -> (r: P<Fut>) ensures r == self.stub.p() { unimplemented!() }
}
pub struct WakerRef { pub w: Waker }
impl core::ops::Deref for WakerRef { type Target = Waker; fn deref(&self) -> (r: &Waker) ensures *r == self.w { &self.w } }
impl<'a> Context<'a> { pub fn from_waker(w: &'a Waker) -> (r: Context<'a>) ensures r.id() == w.id() { Context { w } } }
//@ trackall load store swap get enqueue dequeue register link unlink len is_empty atomic_load_head_and_len_all spin_next_all Arc::into_raw Arc::from_raw ManuallyDrop::new Task::waker_ref get_mut => Tracked(&mut *tok)
//@ trackall future.get => Tracked(&mut *ftok)
//@ trackall is_terminated.get_mut is_terminated.load is_terminated.store => Tracked(&mut *tok), PhantomData::<Fut>
//@ trackall Arc::new => Tracked(&mut *tok), Tracked(&mut *ftok), PhantomData::<Fut>
//@ trackall release_task => Tracked(&mut *tok), Tracked(&mut *ftok)
//@ heap next_all prev_all len_all => Tracked(&mut *tok)
//@ heap future => Tracked(&mut *ftok)
//@ file futures-util/src/stream/futures_unordered/ready_to_run_queue.rs
//@ struct Dequeue
//@ struct ReadyToRunQueue type:waker=ParentWaker<Fut> type:head=QPtr<Fut> type:tail=QPtr<Fut>
//@ file futures-util/src/stream/futures_unordered/task.rs
//@ struct Task type:future=FutCell<Fut> type:next_all=NextAll<Fut> type:prev_all=PrevCell<Fut> type:len_all=LenCell<Fut> type:next_ready_to_run=QPtr<Fut> type:queued=QueuedFlag<Fut> type:woken=WokenFlag<Fut>
impl<Fut> Task<Fut> {
    // the waker of a task: its functions are wake_by_ref (unit fu_queue) and the vtable
    #[verifier::external_body]
    pub fn waker_ref(this: &Arc<Task<Fut>>, Tracked(t): Tracked<&mut FuTok<Fut>>) -> (r: WakerRef)
        requires old(t).clr.contains(this.p()), // the flag was reset before polling: a wake-up during the poll queues the task again
        ensures r.w.id() == tid(this.p()), *final(t) == (FuTok { polls: old(t).polls + 1, ..*old(t) }),
    { unimplemented!() }
}
//@ impl Task
//@ fn spin_next_all -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
    requires
        pending_next_all == old(tok).stub,
        old(tok).nx.dom().contains(self.next_all.node()) || (old(tok).role == 1 && old(tok).all.contains(self.next_all.node())),
        old(tok).role == 2 || (old(tok).role == 1 && old(tok).all.contains(self.next_all.node())),
    ensures
        r != pending_next_all,
        old(tok).role == 2 ==> r == old(tok).nx[self.next_all.node()] && *final(tok) == *old(tok),
        old(tok).role == 1 ==> (forall|i: int| 0 <= i < old(tok).all.len() && #[trigger] old(tok).all[i] == self.next_all.node() ==> r == nth(old(tok).all, i + 1))
            && *final(tok) == (FuTok { settled: final(tok).settled, ..*old(tok) }) && (ordering.acquires() ==> final(tok).settled.contains(self.next_all.node())),
//@ loop 0
    invariant
        *tok == (FuTok { settled: tok.settled, ..*old(tok) }), pending_next_all == old(tok).stub, old(tok).role == 2 ==> *tok == *old(tok),
        old(tok).nx.dom().contains(self.next_all.node()) || (old(tok).role == 1 && old(tok).all.contains(self.next_all.node())),
        old(tok).role == 2 || (old(tok).role == 1 && old(tok).all.contains(self.next_all.node())),
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/futures_unordered/mod.rs
//@ struct FuturesUnordered type:head_all=HeadAll<Fut> type:is_terminated=TermFlag
impl<Fut> FuturesUnordered<Fut> {
    pub open spec fn of(&self, t: FuTok<Fut>) -> bool { t.stub == self.ready_to_run_queue.v().stub.p() && t.queue == self.ready_to_run_queue.p() }
    pub open spec fn fresh(&self) -> bool {
        &&& self.head_all.init().null() && !self.is_terminated.init()
        &&& self.ready_to_run_queue.v().head.init() == self.ready_to_run_queue.v().stub.p() && self.ready_to_run_queue.v().tail.init() == self.ready_to_run_queue.v().stub.p()
        &&& self.ready_to_run_queue.v().stub.v().future.init() is None && self.ready_to_run_queue.v().stub.v().queued.init() && self.ready_to_run_queue.v().stub.v().next_ready_to_run.init().null()
    }
}
//@ impl FuturesUnordered
//@ fn new -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>, Tracked(ftok): Tracked<&mut FutTok<Fut>>
    ensures r.fresh(), // no futures, an empty queue, not terminated
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
//@ endfn
//@ fn len -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    requires self.of(*old(tok)), old(tok).list() || old(tok).shared(),
    ensures
        r == final(tok).all.len(), // the number of futures in the set
        old(tok).role == 2 ==> *final(tok) == *old(tok),
//@ entry
    broadcast use group_fu;
//@ endfn
//@ fn is_empty -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    requires self.of(*old(tok)), old(tok).list() || old(tok).shared(),
    ensures r == (final(tok).all.len() == 0), old(tok).role == 2 ==> *final(tok) == *old(tok),
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
//@ endfn
//@ fn push
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>, Tracked(ftok): Tracked<&mut FutTok<Fut>>
    requires
        self.of(*old(tok)), old(tok).list() || old(tok).shared(), old(tok).all.len() + 1 < usize::MAX,
        forall|p: P<Fut>| old(tok).all.contains(p) ==> #[trigger] old(ftok).fut.dom().contains(p),
    ensures
        !final(tok).term, // no longer terminated
        final(tok).all.len() > 0 && final(ftok).fut == old(ftok).fut.insert(final(tok).all[0], Some(future)) && !old(ftok).fut.dom().contains(final(tok).all[0]), // one task more, with the future
        final(tok).placed(final(tok).all[0]), // at the head of the list, the rest behind it
        old(tok).role == 2 ==> final(tok).list() && final(tok).all == seq![final(tok).all[0]] + old(tok).all,
        final(tok).enq == old(tok).enq.push(final(tok).all[0]) && final(tok).mayq =~= old(tok).mayq, // and queued to be polled for the first time
        !final(tok).clr.contains(final(tok).all[0]),
        final(tok).got == old(tok).got && final(tok).clr == old(tok).clr && final(tok).orphan == old(tok).orphan,
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
//@ endfn
//@ fn atomic_load_head_and_len_all -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    requires self.of(*old(tok)), old(tok).list() || old(tok).shared(),
    ensures
        r.0 == nth(final(tok).all, 0) && r.1 == final(tok).all.len(), // one consistent look
        old(tok).role == 2 ==> *final(tok) == *old(tok),
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
//@ endfn
//@ fn iter_pin_mut -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    requires (*old(self.ptr)).of(*old(tok)), old(tok).list(),
    ensures *final(tok) == *old(tok), r.len == old(tok).all.len(), r.task == nth(old(tok).all, 0), // starts with the whole list
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
//@ endfn
//@ fn iter_pin_ref -> r
//@ subst self: Pin<&Self> =>> &self
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    requires self.of(*old(tok)), old(tok).list() || old(tok).shared(),
    ensures
        r.len == final(tok).all.len(), r.task == nth(final(tok).all, 0), r.pending_next_all == old(tok).stub, // one consistent look: starts with the whole list
        old(tok).role == 2 ==> *final(tok) == *old(tok),
//@ entry
    broadcast use group_fu;
//@ endfn
//@ fn release_task
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>, Tracked(ftok): Tracked<&mut FutTok<Fut>>
    requires
        old(self).of(*old(tok)), old(tok).list0(), old(tok).got is None, old(tok).loose(task.p()), !old(tok).orphan.contains(task.p()), !old(tok).found.contains(task.p()), old(ftok).fut.dom().contains(task.p()),
    ensures
        final(self).of(*final(tok)),
        final(ftok).fut == old(ftok).fut.insert(task.p(), None), // the future is dropped, here
        *final(tok) == (FuTok { orphan: final(tok).orphan, found: final(tok).found, closed: final(tok).closed, ..*old(tok) }) && final(tok).found =~= old(tok).found, // found queued: the count went to the queue
        final(tok).orphan == old(tok).orphan || final(tok).orphan == old(tok).orphan.insert(task.p()),
        final(tok).orphan.contains(task.p()) || final(tok).closed.contains(task.p()), // or the task never gets into the queue again
        final(tok).closed == old(tok).closed || final(tok).closed == old(tok).closed.insert(task.p()),
        final(tok).list0(), old(tok).list() ==> final(tok).list(),
//@ entry
    broadcast use group_fu;
//@ endfn
//@ fn link -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    requires
        self.of(*old(tok)), old(tok).list() || old(tok).shared(), old(tok).loose(task.p()), !old(tok).orphan.contains(task.p()), old(tok).all.len() + 1 < usize::MAX,
    ensures
        r == task.p(),
        final(tok).placed(r), final(tok).linking is None, final(tok).raw == old(tok).raw.insert(r),
        *final(tok) == (FuTok { head: final(tok).head, all: final(tok).all, nx: final(tok).nx, pv: final(tok).pv, ln: final(tok).ln, settled: final(tok).settled, raw: final(tok).raw, ..*old(tok) }),
        old(tok).role == 2 ==> final(tok).list() && final(tok).all == seq![r] + old(tok).all && same_but(final(tok).all, old(tok).all, r),
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
    proof { lemma_cons(tok.all, task.p()); }
//@ endfn
//@ fn unlink -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    requires
        old(self).of(*old(tok)), old(tok).list0(), old(tok).all.contains(task),
    ensures
        final(self).of(*final(tok)),
        r.p() == task, final(tok).loose(task), !final(tok).orphan.contains(task),
        final(tok).all == without(old(tok).all, task), // exactly this task leaves the list
        same_but(old(tok).all, final(tok).all, task), final(tok).raw == old(tok).raw.remove(task),
        *final(tok) == (FuTok { head: final(tok).head, all: final(tok).all, nx: final(tok).nx, pv: final(tok).pv, ln: final(tok).ln, raw: final(tok).raw, ..*old(tok) }),
        final(tok).list0(), old(tok).list() ==> final(tok).list(),
//@ entry
    broadcast use group_fu;
    let ghost t0 = *tok;
    let ghost tp = task;
    proof { lemma_head(t0, task); }
//@ tail
    proof { lemma_unlink(t0, *tok, tp); }
//@ endfn
//@ fn pending_next_all -> r
    ensures r == self.ready_to_run_queue.v().stub.p(), !r.null(),
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
//@ endfn
//@ endimpl
//@ struct Bomb
//@ impl Drop for Bomb
//@ header impl<'a, Fut> Bomb<'a, Fut>
//@ fn drop
//@ emit_as vdrop
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>, Tracked(ftok): Tracked<&mut FutTok<Fut>>
    requires
        old(self).queue.of(*old(tok)), old(tok).list0(), old(self).task matches Some(task) ==>
            old(tok).got is None && old(tok).loose(task.p()) && !old(tok).orphan.contains(task.p()) && !old(tok).found.contains(task.p()) && old(ftok).fut.dom().contains(task.p()),
    ensures
        final(self).queue.of(*final(tok)), *final(final(self).queue) == *final(old(self).queue),
        old(self).task is None ==> *final(tok) == *old(tok) && *final(ftok) == *old(ftok),
        old(self).task matches Some(task) ==> { // a task that was not put back is released, its future dropped
            &&& final(ftok).fut == old(ftok).fut.insert(task.p(), None)
            &&& *final(tok) == (FuTok { orphan: final(tok).orphan, found: final(tok).found, closed: final(tok).closed, ..*old(tok) }) && final(tok).found =~= old(tok).found
            &&& final(tok).orphan =~= old(tok).orphan || final(tok).orphan =~= old(tok).orphan.insert(task.p())
            &&& final(tok).list0() && (old(tok).list() ==> final(tok).list())
        },
//@ endfn
//@ endimpl
pub struct SpawnError { pub x: bool }
#[verifier::external_body]
pub struct FutureObj { x: PhantomData<u8> }
//@ impl Spawn for FuturesUnordered
//@ header impl FuturesUnordered<FutureObj>
//@ fn spawn_obj -> r
//@ params Tracked(tok): Tracked<&mut FuTok<FutureObj>>, Tracked(ftok): Tracked<&mut FutTok<FutureObj>>
//@ subst FutureObj<'static, ()> =>> FutureObj
//@ tracked push => Tracked(&mut *tok), Tracked(&mut *ftok)
    requires
        self.of(*old(tok)), old(tok).list() || old(tok).shared(), old(tok).all.len() + 1 < usize::MAX,
        forall|p: P<FutureObj>| old(tok).all.contains(p) ==> #[trigger] old(ftok).fut.dom().contains(p),
    ensures
        r is Ok, !final(tok).term, // always accepted: one task more, with the future, queued for its first poll
        final(tok).all.len() > 0 && final(ftok).fut == old(ftok).fut.insert(final(tok).all[0], Some(future_obj)) && !old(ftok).fut.dom().contains(final(tok).all[0]),
        final(tok).enq == old(tok).enq.push(final(tok).all[0]) && final(tok).mayq =~= old(tok).mayq,
//@ endfn
//@ endimpl
#[verifier::external_body]
pub struct LocalFutureObj { x: PhantomData<u8> }
//@ impl LocalSpawn for FuturesUnordered
//@ header impl FuturesUnordered<LocalFutureObj>
//@ fn spawn_local_obj -> r
//@ params Tracked(tok): Tracked<&mut FuTok<LocalFutureObj>>, Tracked(ftok): Tracked<&mut FutTok<LocalFutureObj>>
//@ subst LocalFutureObj<'static, ()> =>> LocalFutureObj
//@ tracked push => Tracked(&mut *tok), Tracked(&mut *ftok)
    requires
        self.of(*old(tok)), old(tok).list() || old(tok).shared(), old(tok).all.len() + 1 < usize::MAX,
        forall|p: P<LocalFutureObj>| old(tok).all.contains(p) ==> #[trigger] old(ftok).fut.dom().contains(p),
    ensures
        r is Ok, !final(tok).term, // always accepted: one task more, with the future, queued for its first poll
        final(tok).all.len() > 0 && final(ftok).fut == old(ftok).fut.insert(final(tok).all[0], Some(future_obj)) && !old(ftok).fut.dom().contains(final(tok).all[0]),
        final(tok).enq == old(tok).enq.push(final(tok).all[0]) && final(tok).mayq =~= old(tok).mayq,
//@ endfn
//@ endimpl
//@ impl Stream for FuturesUnordered
//@ header impl<Fut: Future> FuturesUnordered<Fut>
//@ noassoc
//@ fn poll_next -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>, Tracked(ftok): Tracked<&mut FutTok<Fut>>
//@ subst Self::Item =>> Fut::Output
//@ dropguard bomb => Tracked(&mut *tok), Tracked(&mut *ftok)
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::rlimit(40)]
    requires
        (*old(self.ptr)).of(*old(tok)), old(tok).list(), old(tok).got is None, old(tok).found =~= Set::empty(), futs(*old(tok), *old(ftok)),
    ensures
        *final(cx) == *old(cx),
        final(tok).list(), final(tok).got is None, final(tok).found =~= Set::empty(), futs(*final(tok), *final(ftok)),
        final(tok).polls <= old(tok).polls + old(tok).all.len(), // yields to other tasks after polling each future once
        r matches Poll::Ready(Some(x)) ==> exists|p: P<Fut>| #[trigger] old(tok).all.contains(p) && x == old(ftok).fut[p]->0.output() && same_but(old(tok).all, final(tok).all, p) && final(ftok).fut[p] is None, // the output of one future of the set, which is gone from it
        r matches Poll::Ready(None) ==> old(tok).all.len() == 0 && final(tok).all.len() == 0 && final(tok).term, // only without futures
        !(r matches Poll::Ready(None)) ==> final(tok).term == old(tok).term,
        r is Pending ==> same(old(tok).all, final(tok).all), // nothing lost
        forall|p: P<Fut>| #[trigger] final(tok).all.contains(p) ==> final(ftok).fut[p]->0.output() == old(ftok).fut[p]->0.output(),
        // [wake] woken again, or: looked at the queue with the current task's waker registered, and every future that is not queued has its task's waker
        r is Pending ==> wake_requested(old(cx).id()) || final(tok).looked == Some(old(cx).id()),
        r is Pending ==> final(tok).all.len() > 0, // pending only while a future is in the set
//@ entry
    broadcast use group_fu;
//@ loop 0
    invariant
        *cx == *old(cx),
        (*self.ptr).of(*tok), tok.list(), tok.got is None, tok.found =~= Set::empty(), futs(*tok, *ftok),
        same(old(tok).all, tok.all), len == tok.all.len(), tok.reg == Some(old(cx).id()), tok.term == old(tok).term,
        polled == tok.polls - old(tok).polls, len > 0 ==> polled < len, polled <= len, 0 <= yielded <= 1,
        forall|p: P<Fut>| #[trigger] tok.all.contains(p) ==> ftok.fut[p]->0.output() == old(ftok).fut[p]->0.output(),
//@ loopentry 0
    broadcast use group_fu;
    let ghost t1 = *tok;
    let ghost f1 = *ftok;
//@ endfn
//@ fn size_hint -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    requires self.of(*old(tok)), old(tok).list() || old(tok).shared(),
    ensures r.0 == final(tok).all.len() && r.1 == Some(r.0), old(tok).role == 2 ==> *final(tok) == *old(tok),
//@ endfn
//@ endimpl
//@ impl FusedStream for FuturesUnordered
//@ header impl<Fut: Future> FuturesUnordered<Fut>
//@ fn is_terminated -> r
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    ensures r == old(tok).term,
//@ endfn
//@ endimpl
//@ struct LeakQueueOnDrop
//@ impl Drop for FuturesUnordered
//@ header impl<Fut> FuturesUnordered<Fut>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>, Tracked(ftok): Tracked<&mut FutTok<Fut>>
    requires
        old(self).of(*old(tok)), old(tok).list0(), old(tok).got is None, old(tok).found =~= Set::empty(),
        forall|p: P<Fut>| #[trigger] old(tok).all.contains(p) ==> old(ftok).fut.dom().contains(p),
    ensures
        final(tok).all.len() == 0,
        forall|p: P<Fut>| #[trigger] old(tok).all.contains(p) ==> final(ftok).fut[p] is None, // every future of the set is dropped
        forall|p: P<Fut>| #[trigger] old(tok).all.contains(p) ==> !final(tok).raw.contains(p), // and its task released: freed, or left to the queue
        forall|p: P<Fut>| #[trigger] old(tok).all.contains(p) ==> final(tok).orphan.contains(p) || final(tok).closed.contains(p),
//@ loop 0
    invariant
        guard.0.of(*tok), tok.list0(), tok.got is None, tok.found =~= Set::empty(), tok.role == 2,
        forall|p: P<Fut>| #[trigger] tok.all.contains(p) ==> ftok.fut.dom().contains(p),
        forall|p: P<Fut>| #[trigger] old(tok).all.contains(p) ==> tok.all.contains(p) || ftok.fut[p] is None,
        forall|p: P<Fut>| #[trigger] old(tok).all.contains(p) ==> tok.all.contains(p) || !tok.raw.contains(p),
        forall|p: P<Fut>| #[trigger] old(tok).all.contains(p) ==> tok.all.contains(p) || tok.orphan.contains(p) || tok.closed.contains(p),
        forall|p: P<Fut>| #[trigger] tok.all.contains(p) ==> old(tok).all.contains(p),
    decreases tok.all.len(),
//@ endfn
//@ endimpl
//@ impl IntoIterator for FuturesUnordered
//@ header impl<Fut: Unpin> FuturesUnordered<Fut>
//@ noassoc
//@ fn into_iter -> r
//@ subst Self::IntoIter =>> IntoIter<Fut>
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>
    requires self.of(*old(tok)), old(tok).list(),
    ensures r.inner.of(*final(tok)), r.len == old(tok).all.len(), *final(tok) == *old(tok),
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/futures_unordered/iter.rs
//@ struct IntoIter
//@ struct IterPinMut
//@ struct IterPinRef
//@ impl Iterator for IntoIter
//@ header impl<Fut: Unpin> IntoIter<Fut>
//@ noassoc
//@ fn next -> r
//@ subst Self::Item =>> Fut
//@ subst let task = self.inner.head_all.get_mut(); =>> 
//@ subst *task =>> *self.inner.head_all.get_mut()
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>, Tracked(ftok): Tracked<&mut FutTok<Fut>>
//@ attr #[verifier::rlimit(60)]
    requires
        old(self).inner.of(*old(tok)), old(tok).list0(), old(tok).got is None, old(tok).found =~= Set::empty(), live(*old(tok), *old(ftok)), old(self).len == old(tok).all.len(),
    ensures
        final(self).inner.of(*final(tok)), final(tok).list0(), final(tok).got is None, final(tok).found =~= Set::empty(), live(*final(tok), *final(ftok)), final(self).len == final(tok).all.len(),
        r is None ==> old(tok).all.len() == 0 && *final(tok) == *old(tok),
        r matches Some(f) ==> old(tok).all.len() > 0 && f == old(ftok).fut[old(tok).all[0]]->0 && final(tok).all == without(old(tok).all, old(tok).all[0]), // each future once
        r is Some ==> !final(tok).raw.contains(old(tok).all[0]) && final(ftok).fut == old(ftok).fut.insert(old(tok).all[0], None),
        r is Some ==> final(tok).orphan.contains(old(tok).all[0]) || final(tok).closed.contains(old(tok).all[0]), // its task is released
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
    proof { if tok.all.len() > 0 { assert(tok.all.contains(tok.all[0])); lemma_without(tok.all, tok.all[0]); } }
//@ endfn
//@ fn size_hint -> r
    ensures r.0 == self.len && r.1 == Some(self.len),
//@ endfn
//@ endimpl
//@ impl Iterator for IterPinMut
//@ noassoc
//@ header impl<'a, Fut> IterPinMut<'a, Fut>
//@ fn next -> r
//@ subst Option<Self::Item> =>> Option<Pin<&'b mut Fut>>
//@ subst fn next( =>> fn next<'b>(
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>, Tracked(ftok): Tracked<&'b mut FutTok<Fut>>
    requires old(tok).list(), live(*old(tok), *old(ftok)), old(self).len <= old(tok).all.len(), old(self).task == nth(old(tok).all, old(tok).all.len() - old(self).len),
    ensures
        *final(tok) == *old(tok),
        r is None <==> old(self).len == 0,
        r is Some ==> old(self).len > 0 && final(self).len == old(self).len - 1 && final(self).task == nth(old(tok).all, old(tok).all.len() - final(self).len), // each future once, in the order of the list
        r matches Some(f) ==> *f.ptr == old(ftok).fut[old(self).task]->0 && final(ftok).fut == old(ftok).fut.insert(old(self).task, Some(*final(f.ptr))),
//@ entry
    broadcast use group_fu;
    reveal(links_ok); reveal(distinct);
    proof { if self.len > 0 { assert(tok.all.contains(tok.all[tok.all.len() - self.len])); } }
//@ endfn
//@ fn size_hint -> r
    ensures r.0 == self.len && r.1 == Some(self.len),
//@ endfn
//@ endimpl
//@ impl Iterator for IterPinRef
//@ noassoc
//@ header impl<'a, Fut> IterPinRef<'a, Fut>
//@ fn next -> r
//@ subst Option<Self::Item> =>> Option<Pin<&'b Fut>>
//@ subst Pin::new_unchecked(future) =>> Pin { ptr: future }
//@ subst fn next( =>> fn next<'b>(
//@ params Tracked(tok): Tracked<&mut FuTok<Fut>>, Tracked(ftok): Tracked<&'b mut FutTok<Fut>>
    requires
        old(tok).role == 1 && !old(tok).stub.null() && distinct(old(tok).all), live(*old(tok), *old(ftok)), forall|i: int| 0 <= i < old(tok).all.len() ==> !(#[trigger] old(tok).all[i]).null(),
        old(self).pending_next_all == old(tok).stub, old(self).len <= old(tok).all.len(), old(self).task == nth(old(tok).all, old(tok).all.len() - old(self).len),
    ensures
        final(tok).all == old(tok).all, final(self).pending_next_all == old(self).pending_next_all,
        r is None <==> old(self).len == 0,
        r is Some ==> old(self).len > 0 && final(self).len == old(self).len - 1 && final(self).task == nth(old(tok).all, old(tok).all.len() - final(self).len), // each future of the list as it was at the start, once; pushes by other threads do not disturb
        r matches Some(f) ==> *f.ptr == old(ftok).fut[old(self).task]->0,
//@ entry
    broadcast use group_fu;
    reveal(distinct);
    proof { if self.len > 0 { assert(tok.all.contains(tok.all[tok.all.len() - self.len])); } }
//@ endfn
//@ fn size_hint -> r
    ensures r.0 == self.len && r.1 == Some(self.len),
//@ endfn
//@ endimpl
// The machine: one task of a set (the others are alike and do not touch its flag), any number of threads that wake it, and the owner of the set
// (push, poll_next and release_task, whose steps are the transitions the token contracts above allow).
// The queue (unit fu_queue): a task is in the chain once the head was swapped; Empty is reported only if the chain is empty or its first
// link is still missing, and whoever puts it there has not woken the parent yet.
pub struct Sys { pub flag: bool, pub inset: bool, pub chain: int, pub debt: int, pub towake: int, pub others: int, pub got: bool, pub orphan: bool, pub closed: bool, pub gone: bool, pub idle: bool, pub woken: bool }
pub enum Step { Wake, Append, WakeParent, OtherAppend, OtherWakeParent, OtherTaken, Taken, Reset, Relink, Unlink, Release, Clean, LookEmpty, Repoll }
pub open spec fn inv(s: Sys) -> bool {
    &&& s.chain >= 0 && s.debt >= 0 && s.towake >= 0 && s.others >= 0
    &&& s.chain + s.debt + (if s.got { 1int } else { 0 }) == (if s.flag && !s.closed && !s.gone { 1int } else { 0 }) // at most once in the queue
    &&& s.closed || s.gone ==> s.flag && !s.inset && !s.orphan
    &&& s.orphan ==> !s.inset && s.flag
    &&& s.got && s.idle ==> false
    &&& s.idle && (s.chain > 0 || s.others > 0) ==> s.woken || s.towake > 0
    &&& s.idle && s.debt > 0 ==> !s.inset || s.flag
}
pub open spec fn next(s: Sys, x: Step, n: Sys) -> bool {
    match x {
        Step::Wake => n == (if s.flag { s } else { Sys { flag: true, debt: s.debt + 1, ..s } }), // queued.swap(true): the first one appends
        Step::Append => s.debt > 0 && n == (Sys { debt: s.debt - 1, chain: s.chain + 1, towake: s.towake + 1, ..s }),
        Step::WakeParent => s.towake > 0 && n == (Sys { towake: s.towake - 1, woken: true, ..s }), // AtomicWaker: wakes what is registered
        Step::OtherAppend => n == (Sys { others: s.others + 1, towake: s.towake + 1, ..s }),
        Step::OtherWakeParent => s.towake > 0 && n == (Sys { towake: s.towake - 1, woken: true, ..s }),
        Step::OtherTaken => s.others > 0 && !s.idle && n == (Sys { others: s.others - 1, ..s }),
        Step::Taken => s.chain > 0 && !s.idle && !s.got && n == (Sys { chain: s.chain - 1, got: true, ..s }), // dequeue
        Step::Reset => s.got && !s.orphan && !s.idle && n == (Sys { got: false, flag: false, ..s }), // before the poll
        Step::Unlink => s.inset && !s.idle && n == (Sys { inset: false, ..s }),
        Step::Relink => !s.inset && !s.orphan && !s.closed && !s.gone && !s.idle && n == (Sys { inset: true, ..s }),
        Step::Release => !s.inset && !s.orphan && !s.got && !s.closed && !s.gone && !s.idle && n == (if s.flag { Sys { orphan: true, ..s } } else { Sys { flag: true, closed: true, ..s } }),
        Step::Clean => s.got && s.orphan && !s.idle && n == (Sys { got: false, orphan: false, gone: true, ..s }), // takes the count over
        Step::LookEmpty => !s.idle && !s.got && ((s.chain == 0 && s.others == 0) || s.towake > 0) && n == (Sys { idle: true, woken: false, ..s }),
        Step::Repoll => s.idle && n == (Sys { idle: false, ..s }),
    }
}
pub proof fn machine_init() // a task just pushed: flag set, to be appended by the pushing thread
    ensures inv(Sys { flag: true, inset: true, chain: 0, debt: 1, towake: 0, others: 0, got: false, orphan: false, closed: false, gone: false, idle: false, woken: false }) {}
pub proof fn machine_step(s: Sys, x: Step, n: Sys) requires inv(s), next(s, x, n) ensures inv(n) {}
// what dequeue hands out is in the set or was released while queued, and its flag is set
pub proof fn machine_rely(s: Sys) requires inv(s), s.got || s.chain > 0 ensures s.flag && !s.closed && !s.gone && s.chain <= 1 {}
// resetting the flag finds it set; releasing a task that is out of the queue closes it for good
pub proof fn machine_release(s: Sys, n: Sys) requires inv(s), next(s, Step::Release, n) ensures n.closed ==> n.chain == 0 && n.debt == 0, n.orphan ==> n.chain + n.debt == 1 {}
// a task woken while the owner waits: once every thread that woke it has returned, the owner's task has been woken
pub proof fn machine_no_lost_wake(s: Sys) requires inv(s), s.idle, s.inset, s.flag, s.debt == 0, s.towake == 0 ensures s.woken {}
}
