//@ include fu_base
verus! {
pub use core::cmp::Ordering;
pub open spec fn int_ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub trait VOrd: Sized { spec fn ord_spec(&self, o: &Self) -> Ordering; fn cmp(&self, other: &Self) -> (r: Ordering) ensures r == self.ord_spec(other); }
// std::collections::BinaryHeap: the greatest element by the element's own `cmp` is on top
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BinaryHeap<T: VOrd> { x: Vec<T> }
impl<T: VOrd> BinaryHeap<T> {
    pub uninterp spec fn m(&self) -> Multiset<T>;
    pub uninterp spec fn top(&self) -> T;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Multiset::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.m().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).m() == Multiset::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, t: T) ensures final(self).m() == old(self).m().insert(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_mut(&mut self) -> (r: Option<PeekMut<'_, T>>)
        ensures
            r is None ==> old(self).m().len() == 0 && *final(self) == *old(self),
            r is Some ==> *r->0.h == *old(self) && *final(self) == *final(r->0.h) && old(self).m().count(old(self).top()) > 0
                && forall|x: T| #[trigger] old(self).m().count(x) > 0 ==> !(x.ord_spec(&old(self).top()) is Greater),
    { unimplemented!() }
}
pub struct PeekMut<'a, T: VOrd> { pub h: &'a mut BinaryHeap<T> }
impl<'a, T: VOrd> Deref for PeekMut<'a, T> {
    type Target = T;
    #[verifier::external_body]
    fn deref(&self) -> (r: &T) ensures *r == old(self.h).top() { unimplemented!() }
}
impl<'a, T: VOrd> PeekMut<'a, T> {
    #[verifier::external_body]
    pub fn pop(p: PeekMut<'a, T>) -> (r: T) ensures r == old(p.h).top(), final(p.h).m() == old(p.h).m().remove(r) { unimplemented!() }
}
//@ file futures-util/src/stream/futures_ordered.rs
//@ struct OrderWrapper
//@ impl Ord for OrderWrapper
//@ header impl<T> VOrd for OrderWrapper<T>
    open spec fn ord_spec(&self, o: &Self) -> Ordering { int_ord(o.index as int, self.index as int) } // the lowest index is the greatest element
//@ fn cmp
//@ endfn
//@ endimpl
//@ impl Future for OrderWrapper
    open spec fn wf(&self) -> bool { self.data.wf() }
    open spec fn done(&self) -> bool { self.data.done() }
    open spec fn fin(&self) -> bool { self.data.fin() }
    open spec fn output(&self) -> OrderWrapper<T::Output> { OrderWrapper { data: self.data.output(), index: self.index } } // the output keeps its future's position
    open spec fn armed(&self, w: int) -> bool { self.data.armed(w) }
//@ fn poll
//@ endfn
//@ endimpl
//@ struct FuturesOrdered
pub open spec fn has<T>(m: Multiset<OrderWrapper<T>>, i: int) -> bool { exists|x: OrderWrapper<T>| #[trigger] m.count(x) > 0 && x.index == i }
// the positions in m are exactly lo..hi, once each
pub open spec fn idx_ok<T>(m: Multiset<OrderWrapper<T>>, lo: int, hi: int) -> bool {
    &&& lo <= hi
    &&& forall|x: OrderWrapper<T>| #[trigger] m.count(x) > 0 ==> lo <= x.index < hi && m.count(x) == 1
    &&& forall|x: OrderWrapper<T>, y: OrderWrapper<T>| #[trigger] m.count(x) > 0 && #[trigger] m.count(y) > 0 && x.index == y.index ==> x == y
    &&& forall|i: int| lo <= i < hi ==> #[trigger] has(m, i)
}
pub open spec fn at<T>(m: Multiset<OrderWrapper<T>>, i: int) -> OrderWrapper<T> { choose|x: OrderWrapper<T>| #[trigger] m.count(x) > 0 && x.index == i }
pub open spec fn in_order<T>(m: Multiset<OrderWrapper<T>>, lo: int, hi: int) -> Seq<T> { Seq::new((hi - lo) as nat, |i: int| at(m, lo + i).data) }
pub proof fn lemma_pop<T>(m: Multiset<OrderWrapper<T>>, lo: int, hi: int, x: OrderWrapper<T>)
    requires idx_ok(m, lo, hi), m.count(x) > 0, x.index == lo,
    ensures idx_ok(m.remove(x), lo + 1, hi), in_order(m, lo, hi) == seq![x.data] + in_order(m.remove(x), lo + 1, hi), lo < hi,
{
    let n = m.remove(x);
    assert forall|i: int| lo + 1 <= i < hi implies #[trigger] has(n, i) by {
            assert(has(m, i) || i == hi || i == lo - 1);
        let y = choose|y: OrderWrapper<T>| #[trigger] m.count(y) > 0 && y.index == i;
        assert(n.count(y) > 0 && y.index == i);
    }
    assert(in_order(m, lo, hi) =~= seq![x.data] + in_order(n, lo + 1, hi)) by {
        assert(has(m, lo));
        assert(m.count(at(m, lo)) > 0);
        assert(at(m, lo) == x);
        assert forall|i: int| 1 <= i < hi - lo implies #[trigger] at(m, lo + i) == at(n, lo + i) by {
            assert(has(n, lo + i));
            assert(n.count(at(n, lo + i)) > 0);
            assert(m.count(at(n, lo + i)) > 0);
            assert(has(m, lo + i));
            assert(m.count(at(m, lo + i)) > 0);
        }
    }
}
pub proof fn lemma_push<T>(m: Multiset<OrderWrapper<T>>, lo: int, hi: int, x: OrderWrapper<T>)
    requires idx_ok(m, lo, hi),
    ensures
        x.index == hi ==> idx_ok(m.insert(x), lo, hi + 1) && in_order(m.insert(x), lo, hi + 1) == in_order(m, lo, hi).push(x.data),
        x.index == lo - 1 ==> idx_ok(m.insert(x), lo - 1, hi) && in_order(m.insert(x), lo - 1, hi) == seq![x.data] + in_order(m, lo, hi),
{
    let n = m.insert(x);
    if x.index == hi || x.index == lo - 1 {
        assert(m.count(x) == 0);
        assert(n.count(x) == 1);
        assert forall|i: int| lo <= i < hi implies #[trigger] at(n, i) == at(m, i) by {
            assert(has(m, i));
            assert(m.count(at(m, i)) > 0);
            assert(n.count(at(m, i)) > 0);
            assert(n.count(at(n, i)) > 0);
            assert(at(n, i) != x);
            assert(m.count(at(n, i)) > 0);
        }
        let (a, b) = if x.index == hi { (lo, hi + 1) } else { (lo - 1, hi) };
        assert forall|i: int| a <= i < b implies #[trigger] has(n, i) by {
            assert(has(m, i) || i == hi || i == lo - 1);
            if i == x.index { assert(n.count(x) > 0); } else {
                let y = choose|y: OrderWrapper<T>| #[trigger] m.count(y) > 0 && y.index == i;
                assert(n.count(y) > 0);
            }
        }
        assert forall|p: OrderWrapper<T>, q: OrderWrapper<T>| #[trigger] n.count(p) > 0 && #[trigger] n.count(q) > 0 && p.index == q.index implies p == q by {
            if p == x { if q != x { assert(m.count(q) > 0); } } else { assert(m.count(p) > 0); if q != x { assert(m.count(q) > 0); } }
        }
        assert(idx_ok(n, a, b));
        assert(at(n, x.index as int) == x) by { assert(n.count(x) > 0 && x.index == x.index as int); assert(n.count(at(n, x.index as int)) > 0); }
        if x.index == hi { assert(in_order(n, lo, hi + 1) =~= in_order(m, lo, hi).push(x.data)); }
        else { assert(in_order(n, lo - 1, hi) =~= seq![x.data] + in_order(m, lo, hi)); }
    }
}
pub proof fn lemma_len<T>(m: Multiset<OrderWrapper<T>>, lo: int, hi: int)
    requires idx_ok(m, lo, hi),
    ensures m.len() == hi - lo,
    decreases hi - lo,
{
    if lo < hi {
        assert(has(m, lo));
        let x = choose|x: OrderWrapper<T>| #[trigger] m.count(x) > 0 && x.index == lo;
        lemma_pop(m, lo, hi, x);
        lemma_len(m.remove(x), lo + 1, hi);
    } else {
        if m.len() > 0 { let x = m.choose(); assert(m.count(x) > 0); }
    }
}
impl<T: Future> FuturesOrdered<T> {
    pub open spec fn all(&self) -> Multiset<OrderWrapper<T::Output>> { self.in_progress_queue.outs().add(self.queued_outputs.m()) }
}
//@ impl FuturesOrdered
//@ fn new -> r
    ensures r.wf(), r.rest() == Seq::<Fut::Output>::empty(), !r.in_progress_queue.term(),
//@ endfn
//@ fn len -> r
    requires self.wf(),
    ensures r == self.rest().len(),
//@ entry
    proof { lemma_len(self.all(), self.next_outgoing_index as int, self.next_incoming_index as int); }
//@ endfn
//@ fn is_empty -> r
    requires self.wf(),
    ensures r == (self.rest().len() == 0),
//@ entry
    proof { lemma_len(self.all(), self.next_outgoing_index as int, self.next_incoming_index as int); }
//@ endfn
//@ fn push_back
    requires old(self).wf(), future.wf(), !future.done(),
    ensures final(self).wf(), final(self).rest() == old(self).rest().push(future.output()), !final(self).in_progress_queue.term(), // queued behind everything else
        final(self).next_incoming_index == old(self).next_incoming_index + 1,
//@ entry
    proof { assume(self.all().len() < usize::MAX && self.next_incoming_index < i64::MAX && self.next_outgoing_index > i64::MIN); } // fewer futures than memory holds, fewer than 2^63 pushes
    let ghost w = OrderWrapper { data: future.output(), index: self.next_incoming_index };
    proof { lemma_push(self.all(), self.next_outgoing_index as int, self.next_incoming_index as int, w); }
    let ghost m0 = self.all(); let ghost o0 = self.in_progress_queue.outs(); let ghost q0 = self.queued_outputs.m();
//@ tail
    proof { assert(o0.insert(w).add(q0) =~= m0.insert(w)); }
//@ endfn
//@ fn push
    requires old(self).wf(), future.wf(), !future.done(),
    ensures final(self).wf(), final(self).rest() == old(self).rest().push(future.output()), !final(self).in_progress_queue.term(),
        final(self).next_incoming_index == old(self).next_incoming_index + 1,
//@ endfn
//@ fn push_front
    requires old(self).wf(), future.wf(), !future.done(),
    ensures final(self).wf(), final(self).rest() == seq![future.output()] + old(self).rest(), !final(self).in_progress_queue.term(), // queued before everything else
//@ entry
    proof { assume(self.all().len() < usize::MAX && self.next_incoming_index < i64::MAX && self.next_outgoing_index > i64::MIN); } // fewer futures than memory holds, fewer than 2^63 pushes
    let ghost w = OrderWrapper { data: future.output(), index: (self.next_outgoing_index - 1) as i64 };
    proof { lemma_push(self.all(), self.next_outgoing_index as int, self.next_incoming_index as int, w); }
    let ghost m0 = self.all(); let ghost o0 = self.in_progress_queue.outs(); let ghost q0 = self.queued_outputs.m();
//@ tail
    proof { assert(o0.insert(w).add(q0) =~= m0.insert(w)); }
//@ endfn
//@ fn clear
    ensures final(self).wf(), final(self).rest() == Seq::<Fut::Output>::empty(),
//@ endfn
//@ endimpl
//@ impl Stream for FuturesOrdered
    open spec fn wf(&self) -> bool { self.all().len() <= usize::MAX && idx_ok(self.all(), self.next_outgoing_index as int, self.next_incoming_index as int) }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<Fut::Output> { in_order(self.all(), self.next_outgoing_index as int, self.next_incoming_index as int) }
    open spec fn armed(&self, w: int) -> bool { self.in_progress_queue.uarmed(w) && self.rest().len() > 0 } // pending only while some future is outstanding
//@ fn poll_next -> ret
//@ entry
    let ghost s0 = *self.ptr; let ghost lo = self.ptr.next_outgoing_index as int; let ghost hi = self.ptr.next_incoming_index as int;
    proof { lemma_len(s0.all(), lo, hi); if s0.queued_outputs.m().count(s0.queued_outputs.top()) > 0 { assert(s0.all().count(s0.queued_outputs.top()) > 0); if s0.queued_outputs.top().index == lo { lemma_pop(s0.all(), lo, hi, s0.queued_outputs.top()); assert(s0.all().remove(s0.queued_outputs.top()) =~= s0.in_progress_queue.outs().add(s0.queued_outputs.m().remove(s0.queued_outputs.top()))); } } }
//@ beforeloop 0
    proof { assert forall|x: OrderWrapper<Fut::Output>| #[trigger] this.queued_outputs.m().count(x) > 0 implies x.index != lo by { assert(this.all().count(x) > 0); } }
//@ loop 0
    invariant
        this.next_outgoing_index == lo, this.next_incoming_index == hi, idx_ok(this.all(), lo, hi), this.all() == s0.all(), lo == s0.next_outgoing_index, hi == s0.next_incoming_index,
        s0.all().len() <= usize::MAX,
        forall|x: OrderWrapper<Fut::Output>| #[trigger] this.queued_outputs.m().count(x) > 0 ==> x.index != lo, // the next output is still in progress
//@ loopentry 0
    let ghost o1 = this.in_progress_queue.outs(); let ghost q1 = this.queued_outputs.m();
    proof {
        lemma_len(this.all(), lo, hi);
        assert forall|x: OrderWrapper<Fut::Output>| #[trigger] o1.count(x) > 0 implies o1.remove(x).add(q1) =~= s0.all().remove(x) && o1.remove(x).add(q1.insert(x)) =~= s0.all() && s0.all().count(x) > 0 && (x.index == lo ==> idx_ok(s0.all().remove(x), lo + 1, hi) && in_order(s0.all(), lo, hi) == seq![x.data] + in_order(s0.all().remove(x), lo + 1, hi) && lo < hi) by {
            assert(s0.all().count(x) > 0);
            if x.index == lo { lemma_pop(s0.all(), lo, hi, x); }
        }
        if o1.len() == 0 && lo < hi {
            assert(has(this.all(), lo));
            let x = at(this.all(), lo);
            assert(this.all().count(x) > 0);
            assert(o1.count(x) == 0 || o1.count(x) > 0);
            if o1.count(x) > 0 { assert(o1.contains(x)); assert(o1.remove(x).len() == o1.len() - 1); }
        }
        if o1.len() == 0 { assert(in_order(s0.all(), lo, hi) =~= Seq::<Fut::Output>::empty()); }
    }
//@ endfn
//@ fn size_hint
//@ entry
    proof { lemma_len(self.all(), self.next_outgoing_index as int, self.next_incoming_index as int); }
//@ endfn
//@ endimpl
//@ impl FusedStream for FuturesOrdered
//@ fn is_terminated
//@ entry
    proof { lemma_len(self.all(), self.next_outgoing_index as int, self.next_incoming_index as int); }
//@ endfn
//@ endimpl
}
