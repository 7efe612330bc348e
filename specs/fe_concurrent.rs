//@ include buffer_unordered
verus! {
//@ file futures-util/src/stream/stream/for_each_concurrent.rs
//@ struct ForEachConcurrent
// closure state after being called once for every remaining item, in order
pub open spec fn called_all<A, Fut: Future, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>) -> F
    decreases s.len()
{ if s.len() == 0 { f } else { called_all(f.step(s[0]).0, s.skip(1)) } }
pub open spec fn fec_all<A, Fut: Future, F: FnMut1<A, Output = Fut>, St: Stream<Item = A>>(f: F, s: Option<St>) -> F { match s { Some(st) => called_all(f, st.rest()), None => f } }
pub open spec fn fec_wf<A, Fut: Future, F: FnMut1<A, Output = Fut>, St: Stream<Item = A>>(s: Option<St>, f: F, q: FuturesUnordered<Fut>, limit: Option<NonZeroUsize>) -> bool {
    &&& s is Some ==> s->0.wf() && !s->0.ended() && futs_ok(f, s->0.rest())
    &&& limit is Some ==> limit->0.v > 0 && q.outs().len() <= limit->0.v
}
pub open spec fn fec_armed<Fut: Future, St: Stream>(s: Option<St>, q: FuturesUnordered<Fut>, limit: Option<NonZeroUsize>, w: int) -> bool {
    &&& q.outs().len() == 0 || q.uarmed(w)
    &&& s is None || s->0.armed(w) || (limit is Some && q.outs().len() >= limit->0.v)
    &&& q.outs().len() > 0 || s is Some
}
//@ impl ForEachConcurrent
//@ fn new -> r
//@ subst limit.and_then(NonZeroUsize::new) =>> (match limit { Some(__n) => NonZeroUsize::new(__n), None => None })
    ensures r.stream == Some(stream), r.f == f, r.futures.outs().len() == 0, r.limit is Some ==> limit is Some && r.limit->0.v == limit->0, limit is Some && limit->0 != 0 ==> r.limit is Some, // limit as given
//@ endfn
//@ endimpl
//@ impl Future for ForEachConcurrent
    open spec fn wf(&self) -> bool { fec_wf(self.stream, self.f, self.futures, self.limit) } // never more than limit futures in flight
    open spec fn done(&self) -> bool { self.stream is None && self.futures.outs().len() == 0 }
    open spec fn output(&self) -> () { () }
    open spec fn armed(&self, w: int) -> bool { fec_armed(self.stream, self.futures, self.limit, w) }
//@ fn poll -> r
    ensures
        r is Ready ==> final(self.ptr).stream is None && final(self.ptr).futures.outs().len() == 0, // completes only after every item was taken and every future completed
        fec_all(final(self.ptr).f, final(self.ptr).stream) == fec_all(old(self.ptr).f, old(self.ptr).stream), // each item is handed to the closure once, in order
//@ entry
    let ghost all0 = fec_all(self.ptr.f, self.ptr.stream);
//@ loop 0
    invariant
        fec_wf(*this.stream.ptr, *this.f, *this.futures, *this.limit),
        fec_all(*this.f, *this.stream.ptr) == all0,
//@ endfn
//@ endimpl
//@ impl FusedFuture for ForEachConcurrent
//@ fn is_terminated
//@ endfn
//@ endimpl
}
