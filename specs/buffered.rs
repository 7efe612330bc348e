//@ include futures_ordered
verus! {
// outputs of a sequence of futures
pub open spec fn outs_of<F: Future>(s: Seq<F>) -> Seq<F::Output> { Seq::new(s.len(), |i: int| s[i].output()) }
pub open spec fn fresh<F: Future>(s: Seq<F>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() && !s[i].done() }
pub broadcast proof fn lemma_outs_of<F: Future>(x: F, s: Seq<F>)
    ensures #[trigger] outs_of(seq![x] + s) == seq![x.output()] + outs_of(s), fresh(seq![x] + s) ==> x.wf() && !x.done() && fresh(s)
{
    assert(outs_of(seq![x] + s) =~= seq![x.output()] + outs_of(s));
    if fresh(seq![x] + s) {
        assert((seq![x] + s)[0] == x);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).wf() && !s[i].done() by { assert((seq![x] + s)[i + 1] == s[i]); }
    }
}
pub broadcast proof fn lemma_push_mid<T>(a: Seq<T>, x: T, b: Seq<T>)
    ensures #[trigger] (a.push(x) + b) == a + (seq![x] + b)
{ assert(a.push(x) + b =~= a + (seq![x] + b)); }
pub broadcast proof fn lemma_front_assoc<T>(x: T, a: Seq<T>, b: Seq<T>)
    ensures #[trigger] ((seq![x] + a) + b) == seq![x] + (a + b)
{ assert((seq![x] + a) + b =~= seq![x] + (a + b)); }
pub broadcast group group_buffered { lemma_outs_of, lemma_push_mid, lemma_front_assoc }
//@ file futures-util/src/stream/stream/buffered.rs
//@ struct Buffered
//@ impl Buffered
//@ fn new -> r
//@ subst n.and_then(NonZeroUsize::new) =>> (match n { Some(__n) => NonZeroUsize::new(__n), None => None })
    requires stream.wf(), !stream.ended(), fresh(stream.rest()),
    ensures r.wf(), r.rest() == outs_of(stream.rest()), r.max is Some ==> n is Some && r.max->0.v == n->0, n is Some && n->0 != 0 ==> r.max is Some, // [core] limit as given
//@ tail
    assert(outs_of(stream.rest()) =~= Seq::<<St::Item as Future>::Output>::empty() + outs_of(stream.rest()));
//@ endfn
//@ endimpl
//@ impl Stream for Buffered
    open spec fn wf(&self) -> bool { self.stream.wf() && self.in_progress_queue.wf() && fresh(self.stream.rest()) && (self.max is Some ==> self.max->0.v > 0 && self.in_progress_queue.rest().len() <= self.max->0.v) } // never more than max futures in flight
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<<St::Item as Future>::Output> { self.in_progress_queue.rest() + outs_of(self.stream.rest()) } // outputs in the order of the source
    open spec fn armed(&self, w: int) -> bool {
        &&& self.in_progress_queue.rest().len() == 0 || self.in_progress_queue.armed(w)
        &&& self.stream.done || self.stream.armed(w) || (self.max is Some && self.in_progress_queue.rest().len() >= self.max->0.v)
        &&& self.in_progress_queue.rest().len() > 0 || !self.stream.done
    }
//@ fn poll_next -> ret
//@ kinds option,option
//@ attr #[verifier::allow_complex_invariants]
//@ entry
    broadcast use group_buffered;
    let ghost all = self.ptr.rest();
//@ loop 0
    invariant
        (*this.stream.ptr).wf(), this.in_progress_queue.wf(), fresh((*this.stream.ptr).rest()), *this.max is Some ==> this.max->0.v > 0 && this.in_progress_queue.rest().len() <= this.max->0.v,
        this.in_progress_queue.rest() + outs_of((*this.stream.ptr).rest()) == all,
    ensures
        (*this.stream.ptr).done || (*this.stream.ptr).armed(cx.id()) || (*this.max is Some && this.in_progress_queue.rest().len() >= this.max->0.v), // [wake] the source is asked as long as there is room
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Buffered
//@ fn is_terminated -> r
    ensures r ==> self.stream.done, // [term]
//@ endfn
//@ endimpl
}
