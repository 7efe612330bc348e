//@ include buffered
verus! {
pub broadcast proof fn lemma_ms_front<T>(x: T, s: Seq<T>)
    ensures #[trigger] (seq![x] + s).to_multiset() == s.to_multiset().insert(x)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert((seq![x] + s).to_multiset() =~= seq![x].to_multiset().add(s.to_multiset())) by { vstd::seq_lib::lemma_multiset_commutative(seq![x], s); }
    assert(seq![x] =~= Seq::<T>::empty().push(x));
    assert(seq![x].to_multiset() =~= Multiset::<T>::empty().insert(x));
    assert((seq![x] + s).to_multiset() =~= s.to_multiset().insert(x));
}
pub broadcast proof fn lemma_ms_empty<T>(s: Seq<T>)
    ensures #[trigger] s.to_multiset().len() == s.len(), s.len() == 0 ==> s.to_multiset() == Multiset::<T>::empty()
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; if s.len() == 0 { assert(s.to_multiset() =~= Multiset::<T>::empty()); } }
pub broadcast proof fn lemma_ms_move<T>(a: Multiset<T>, x: T, b: Multiset<T>)
    ensures #[trigger] a.insert(x).add(b) == a.add(b.insert(x))
{ assert(a.insert(x).add(b) =~= a.add(b.insert(x))); }
pub broadcast proof fn lemma_ms_remove<T>(a: Multiset<T>, x: T, b: Multiset<T>)
    requires a.count(x) > 0
    ensures #[trigger] a.remove(x).add(b) == a.add(b).remove(x), a.add(b).count(x) > 0
{ assert(a.remove(x).add(b) =~= a.add(b).remove(x)); }
pub broadcast group group_ms { lemma_ms_front, lemma_ms_empty, lemma_ms_move, lemma_ms_remove }
//@ file futures-util/src/stream/stream/buffer_unordered.rs
//@ struct BufferUnordered
// what this stream still has to yield: the outputs of the futures in flight and of those the source still yields
pub open spec fn bu_total<F: Future>(q: FuturesUnordered<F>, rest: Seq<F>) -> Multiset<F::Output> { q.outs().add(outs_of(rest).to_multiset()) }
//@ impl BufferUnordered
//@ fn new -> r
//@ subst n.and_then(NonZeroUsize::new) =>> (match n { Some(__n) => NonZeroUsize::new(__n), None => None })
    requires stream.wf(), !stream.ended(), fresh(stream.rest()),
    ensures r.bwf(), bu_total(r.in_progress_queue, r.stream.rest()) == outs_of(stream.rest()).to_multiset(), r.max is Some ==> n is Some && r.max->0.v == n->0, n is Some && n->0 != 0 ==> r.max is Some, // [core] limit as given
//@ tail
    assert(Multiset::<<St::Item as Future>::Output>::empty().add(outs_of(stream.rest()).to_multiset()) =~= outs_of(stream.rest()).to_multiset());
//@ endfn
//@ endimpl
//@ impl Stream for BufferUnordered
//@ header impl<St: Stream> BufferUnordered<St> where St::Item: Future
//@ noassoc
    pub open spec fn bwf(&self) -> bool { self.stream.wf() && fresh(self.stream.rest()) && (self.max is Some ==> self.max->0.v > 0 && self.in_progress_queue.outs().len() <= self.max->0.v) } // never more than max futures in flight
    pub open spec fn barmed(&self, w: int) -> bool {
        &&& self.in_progress_queue.outs().len() == 0 || self.in_progress_queue.uarmed(w)
        &&& self.stream.done || self.stream.armed(w) || (self.max is Some && self.in_progress_queue.outs().len() >= self.max->0.v)
        &&& self.in_progress_queue.outs().len() > 0 || !self.stream.done
    }
//@ fn poll_next -> ret
//@ kinds option,option
//@ attr #[verifier::allow_complex_invariants]
//@ subst Self::Item =>> <St::Item as Future>::Output
    requires old(self.ptr).bwf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).bwf(), // the limit is respected
        ret matches Poll::Ready(Some(x)) ==> bu_total(old(self.ptr).in_progress_queue, old(self.ptr).stream.rest()).count(x) > 0 && bu_total(final(self.ptr).in_progress_queue, final(self.ptr).stream.rest()) == bu_total(old(self.ptr).in_progress_queue, old(self.ptr).stream.rest()).remove(x), // one output, the others remain
        ret matches Poll::Ready(None) ==> bu_total(old(self.ptr).in_progress_queue, old(self.ptr).stream.rest()).len() == 0 && final(self.ptr).stream.done, // ends only when nothing is left
        ret is Pending ==> bu_total(final(self.ptr).in_progress_queue, final(self.ptr).stream.rest()) == bu_total(old(self.ptr).in_progress_queue, old(self.ptr).stream.rest()), // pending loses nothing
        ret is Pending ==> final(self.ptr).barmed(old(cx).id()), // [wake] every source that can make progress wakes the task
//@ entry
    broadcast use {group_buffered, group_ms};
    let ghost all = bu_total(self.ptr.in_progress_queue, self.ptr.stream.rest());
//@ loop 0
    invariant
        (*this.stream.ptr).wf(), fresh((*this.stream.ptr).rest()), *this.max is Some ==> this.max->0.v > 0 && this.in_progress_queue.outs().len() <= this.max->0.v,
        bu_total(*this.in_progress_queue, (*this.stream.ptr).rest()) == all,
    ensures
        (*this.stream.ptr).done || (*this.stream.ptr).armed(cx.id()) || (*this.max is Some && this.in_progress_queue.outs().len() >= this.max->0.v), // [wake] the source is asked as long as there is room
//@ endfn
//@ fn size_hint -> r
    requires self.bwf(),
    ensures
        r.0 <= bu_total(self.in_progress_queue, self.stream.rest()).len(), // [size] lower bound is sound
        r.1 is Some ==> bu_total(self.in_progress_queue, self.stream.rest()).len() <= r.1->0, // [size] upper bound is sound
//@ entry
    broadcast use {group_ms, vstd::multiset::group_multiset_axioms};
//@ endfn
//@ endimpl
//@ impl FusedStream for BufferUnordered
//@ header impl<St: Stream> BufferUnordered<St> where St::Item: Future
//@ noassoc
//@ fn is_terminated -> r
    requires self.bwf(),
    ensures r ==> self.stream.rest().len() == 0 && self.in_progress_queue.outs().len() == 0, // [term]
//@ endfn
//@ endimpl
}
