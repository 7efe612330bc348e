//@ include into_stream
//@ include buffer_unordered
verus! {
//@ file futures-util/src/future/try_future/into_future.rs
//@ struct IntoFuture
//@ impl Future for IntoFuture
    open spec fn wf(&self) -> bool { self.future.wf() }
    open spec fn done(&self) -> bool { self.future.done() }
    open spec fn fin(&self) -> bool { self.future.fin() }
    open spec fn output(&self) -> Result<Fut::Ok, Fut::Error> { self.future.output() }
    open spec fn armed(&self, w: int) -> bool { self.future.armed(w) }
//@ fn poll
//@ endfn
//@ endimpl
pub trait TryIntoFuture: TryFuture { fn into_future(self) -> (r: IntoFuture<Self>) ensures r.future == self; }
impl<F: TryFuture> TryIntoFuture for F { fn into_future(self) -> (r: IntoFuture<Self>) { IntoFuture { future: self } } }
pub trait StreamFuseExt: Stream { fn fuse(self) -> (r: Fuse<Self>) ensures r.stream == self, !r.done; }
impl<S: Stream> StreamFuseExt for S { fn fuse(self) -> (r: Fuse<Self>) { Fuse { stream: self, done: false } } }
// the outputs of the futures a source yields, and the errors it yields, each in order
pub open spec fn src_outs<F: Future, E>(s: Seq<Result<F, E>>) -> Seq<F::Output>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match s[0] { Ok(f) => seq![f.output()] + src_outs(s.skip(1)), Err(e) => src_outs(s.skip(1)) } } }
pub open spec fn src_errs<F, E>(s: Seq<Result<F, E>>) -> Seq<E>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match s[0] { Ok(f) => src_errs(s.skip(1)), Err(e) => seq![e] + src_errs(s.skip(1)) } } }
pub open spec fn src_fresh<F: Future, E>(s: Seq<Result<F, E>>) -> bool
    decreases s.len()
{ s.len() == 0 || ((s[0] is Ok ==> s[0]->Ok_0.wf() && !s[0]->Ok_0.done()) && src_fresh(s.skip(1))) }
pub broadcast proof fn lemma_q_assoc<T>(a: Seq<T>, x: T, b: Seq<T>)
    ensures #[trigger] (a + (seq![x] + b)) == a.push(x) + b
{ assert(a.push(x) + b =~= a + (seq![x] + b)); }
// one step of a buffered try stream: one output in turn, or one error of the source; nothing lost
pub open spec fn tb_step<T, E>(a0: Seq<Result<T, E>>, e0: Seq<E>, a1: Seq<Result<T, E>>, e1: Seq<E>, r: Poll<Option<Result<T, E>>>) -> bool {
    match r {
        Poll::Ready(Some(x)) => (a0 == seq![x] + a1 && e1 == e0) || (x is Err && e0 == seq![x->Err_0] + e1 && a1 == a0),
        Poll::Ready(None) => a0.len() == 0 && e0.len() == 0,
        Poll::Pending => a1 == a0 && e1 == e0,
    }
}
pub open spec fn tbu_step<T, E>(a0: Multiset<Result<T, E>>, e0: Seq<E>, a1: Multiset<Result<T, E>>, e1: Seq<E>, r: Poll<Option<Result<T, E>>>) -> bool {
    match r {
        Poll::Ready(Some(x)) => (a0.count(x) > 0 && a1 == a0.remove(x) && e1 == e0) || (x is Err && e0 == seq![x->Err_0] + e1 && a1 == a0),
        Poll::Ready(None) => a0.len() == 0 && e0.len() == 0,
        Poll::Pending => a1 == a0 && e1 == e0,
    }
}
//@ file futures-util/src/stream/try_stream/try_buffered.rs
//@ struct TryBuffered
//@ impl TryBuffered
//@ header impl<St> TryBuffered<St> where St: TryStream, St::Ok: TryFuture<Error = St::Error>
//@ fn new -> r
//@ subst n.and_then(NonZeroUsize::new) =>> (match n { Some(__n) => NonZeroUsize::new(__n), None => None })
    requires stream.wf(), !stream.ended(), src_fresh(stream.rest()),
    ensures r.twf(), r.outs() == src_outs(stream.rest()), r.errs() == src_errs(stream.rest()), r.max is Some ==> n is Some && r.max->0.v == n->0, n is Some && n->0 != 0 ==> r.max is Some, // limit as given
//@ tail
    assert(src_outs(stream.rest()) =~= Seq::<<St::Ok as Future>::Output>::empty() + src_outs(stream.rest()));
//@ endfn
//@ endimpl
//@ impl Stream for TryBuffered
//@ header impl<St> TryBuffered<St> where St: TryStream, St::Ok: TryFuture<Error = St::Error>
//@ noassoc
    pub open spec fn twf(&self) -> bool { self.stream.wf() && self.in_progress_queue.wf() && src_fresh(self.stream.rest()) && (self.max is Some ==> self.max->0.v > 0 && self.in_progress_queue.rest().len() <= self.max->0.v) } // never more than max futures in flight
    pub open spec fn outs(&self) -> Seq<Result<<St::Ok as TryFuture>::Ok, St::Error>> { self.in_progress_queue.rest() + src_outs(self.stream.rest()) }
    pub open spec fn errs(&self) -> Seq<St::Error> { src_errs(self.stream.rest()) }
    pub open spec fn tarmed(&self, w: int) -> bool {
        &&& self.in_progress_queue.rest().len() == 0 || self.in_progress_queue.armed(w)
        &&& self.stream.done || self.stream.armed(w) || (self.max is Some && self.in_progress_queue.rest().len() >= self.max->0.v)
        &&& self.in_progress_queue.rest().len() > 0 || !self.stream.done
    }
//@ fn poll_next -> ret
//@ tries pollopt
//@ kinds option,option
//@ attr #[verifier::allow_complex_invariants]
//@ subst Self::Item =>> Result<<St::Ok as TryFuture>::Ok, St::Error>
    requires old(self.ptr).twf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).twf(), // the limit is respected
        tb_step(old(self.ptr).outs(), old(self.ptr).errs(), final(self.ptr).outs(), final(self.ptr).errs(), ret), // outputs in the order of the source
        ret is Pending ==> final(self.ptr).tarmed(old(cx).id()), // [wake]
//@ entry
    broadcast use lemma_q_assoc;
    let ghost o0 = self.ptr.outs();
    let ghost e0 = self.ptr.errs();
//@ loop 0
    invariant
        (*this.stream.ptr).wf(), this.in_progress_queue.wf(), src_fresh((*this.stream.ptr).rest()), *this.max is Some ==> this.max->0.v > 0 && this.in_progress_queue.rest().len() <= this.max->0.v,
        this.in_progress_queue.rest() + src_outs((*this.stream.ptr).rest()) == o0, src_errs((*this.stream.ptr).rest()) == e0,
    ensures
        (*this.stream.ptr).done || (*this.stream.ptr).armed(cx.id()) || (*this.max is Some && this.in_progress_queue.rest().len() >= this.max->0.v), // [wake] the source is asked as long as there is room
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/try_stream/try_buffer_unordered.rs
//@ struct TryBufferUnordered
//@ impl TryBufferUnordered
//@ header impl<St> TryBufferUnordered<St> where St: TryStream, St::Ok: TryFuture<Error = St::Error>
//@ fn new -> r
//@ subst n.and_then(NonZeroUsize::new) =>> (match n { Some(__n) => NonZeroUsize::new(__n), None => None })
    requires stream.wf(), !stream.ended(), src_fresh(stream.rest()),
    ensures r.twf(), r.outs() == src_outs(stream.rest()).to_multiset(), r.errs() == src_errs(stream.rest()), r.max is Some ==> n is Some && r.max->0.v == n->0, n is Some && n->0 != 0 ==> r.max is Some, // limit as given
//@ tail
    assert(src_outs(stream.rest()).to_multiset() =~= Multiset::<<St::Ok as Future>::Output>::empty().add(src_outs(stream.rest()).to_multiset()));
//@ endfn
//@ endimpl
//@ impl Stream for TryBufferUnordered
//@ header impl<St> TryBufferUnordered<St> where St: TryStream, St::Ok: TryFuture<Error = St::Error>
//@ noassoc
    pub open spec fn twf(&self) -> bool { self.stream.wf() && src_fresh(self.stream.rest()) && (self.max is Some ==> self.max->0.v > 0 && self.in_progress_queue.outs().len() <= self.max->0.v) } // never more than max futures in flight
    pub open spec fn outs(&self) -> Multiset<Result<<St::Ok as TryFuture>::Ok, St::Error>> { self.in_progress_queue.outs().add(src_outs(self.stream.rest()).to_multiset()) }
    pub open spec fn errs(&self) -> Seq<St::Error> { src_errs(self.stream.rest()) }
    pub open spec fn tarmed(&self, w: int) -> bool {
        &&& self.in_progress_queue.outs().len() == 0 || self.in_progress_queue.uarmed(w)
        &&& self.stream.done || self.stream.armed(w) || (self.max is Some && self.in_progress_queue.outs().len() >= self.max->0.v)
        &&& self.in_progress_queue.outs().len() > 0 || !self.stream.done
    }
//@ fn poll_next -> ret
//@ tries pollopt
//@ kinds option,option
//@ attr #[verifier::allow_complex_invariants]
//@ subst Self::Item =>> Result<<St::Ok as TryFuture>::Ok, St::Error>
    requires old(self.ptr).twf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).twf(), // the limit is respected
        tbu_step(old(self.ptr).outs(), old(self.ptr).errs(), final(self.ptr).outs(), final(self.ptr).errs(), ret), // one output or one error of the source, nothing lost
        ret is Pending ==> final(self.ptr).tarmed(old(cx).id()), // [wake]
//@ entry
    broadcast use group_ms;
    let ghost o0 = self.ptr.outs();
    let ghost e0 = self.ptr.errs();
//@ loop 0
    invariant
        (*this.stream.ptr).wf(), src_fresh((*this.stream.ptr).rest()), *this.max is Some ==> this.max->0.v > 0 && this.in_progress_queue.outs().len() <= this.max->0.v,
        this.in_progress_queue.outs().add(src_outs((*this.stream.ptr).rest()).to_multiset()) == o0, src_errs((*this.stream.ptr).rest()) == e0,
    ensures
        (*this.stream.ptr).done || (*this.stream.ptr).armed(cx.id()) || (*this.max is Some && this.in_progress_queue.outs().len() >= this.max->0.v), // [wake] the source is asked as long as there is room
//@ endfn
//@ endimpl
}
