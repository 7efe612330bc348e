//@ include trys
//@ include fe_concurrent
verus! {
//@ file futures-util/src/stream/stream/try_for_each_concurrent.rs
//@ struct TryForEachConcurrent
// results of all futures the closure still creates
pub open spec fn made_all<A, Fut: Future, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>) -> Multiset<Fut::Output>
    decreases s.len()
{ if s.len() == 0 { Multiset::empty() } else { made_all(f.step(s[0]).0, s.skip(1)).insert(f.step(s[0]).1.output()) } }
pub open spec fn tfec_total<A, Fut: Future, F: FnMut1<A, Output = Fut>, St: Stream<Item = A>>(q: FuturesUnordered<Fut>, f: F, s: Option<St>) -> Multiset<Fut::Output> {
    match s { Some(st) => q.outs().add(made_all(f, st.rest())), None => q.outs() }
}
// b is a with only successes taken out
pub open spec fn only_ok<T, E>(a: Multiset<Result<T, E>>, b: Multiset<Result<T, E>>) -> bool { forall|v: Result<T, E>| #![trigger b.count(v)] #![trigger a.count(v)] b.count(v) <= a.count(v) && (b.count(v) < a.count(v) ==> v is Ok) }
pub broadcast proof fn lemma_ms_unit<T>(a: Multiset<T>) ensures #[trigger] a.add(Multiset::<T>::empty()) == a { assert(a.add(Multiset::<T>::empty()) =~= a); }
//@ impl TryForEachConcurrent
//@ header impl<St: Stream, Fut: TryFuture<Ok = ()>, F: FnMut1<St::Item, Output = Fut>> TryForEachConcurrent<St, Fut, F>
//@ fn new -> r
//@ subst limit.and_then(NonZeroUsize::new) =>> (match limit { Some(__n) => NonZeroUsize::new(__n), None => None })
    ensures r.stream == Some(stream), r.f == f, r.futures.outs().len() == 0, r.limit is Some ==> limit is Some && r.limit->0.v == limit->0, limit is Some && limit->0 != 0 ==> r.limit is Some, // limit as given
//@ endfn
//@ endimpl
//@ impl Future for TryForEachConcurrent
//@ header impl<St: Stream, Fut: TryFuture<Ok = ()>, F: FnMut1<St::Item, Output = Fut>> TryForEachConcurrent<St, Fut, F>
//@ noassoc
//@ fn poll -> r
//@ subst Self::Output =>> Result<(), Fut::Error>
    requires fec_wf(old(self.ptr).stream, old(self.ptr).f, old(self.ptr).futures, old(self.ptr).limit),
    ensures
        *final(cx) == *old(cx),
        fec_wf(final(self.ptr).stream, final(self.ptr).f, final(self.ptr).futures, final(self.ptr).limit), // never more than limit futures in flight
        r is Ready ==> final(self.ptr).stream is None && final(self.ptr).futures.outs().len() == 0, // when it completes nothing is left in flight
        r is Pending ==> fec_all(final(self.ptr).f, final(self.ptr).stream) == fec_all(old(self.ptr).f, old(self.ptr).stream), // each item is handed to the closure once, in order
        r is Pending ==> only_ok(tfec_total(old(self.ptr).futures, old(self.ptr).f, old(self.ptr).stream), tfec_total(final(self.ptr).futures, final(self.ptr).f, final(self.ptr).stream)), // an error is never swallowed
        r is Ready && r->0 is Ok ==> (forall|v: Result<(), Fut::Error>| #[trigger] tfec_total(old(self.ptr).futures, old(self.ptr).f, old(self.ptr).stream).count(v) > 0 ==> v is Ok), // succeeds only if every future succeeded
        r is Ready && r->0 is Ok ==> final(self.ptr).f == fec_all(old(self.ptr).f, old(self.ptr).stream), // every item was handed to the closure
        r is Ready && r->0 is Err ==> tfec_total(old(self.ptr).futures, old(self.ptr).f, old(self.ptr).stream).count(r->0) > 0, // the error of one of the futures
        r is Pending ==> fec_armed(final(self.ptr).stream, final(self.ptr).futures, final(self.ptr).limit, old(cx).id()), // [wake]
//@ entry
    broadcast use {group_ms, lemma_ms_unit};
    let ghost all0 = fec_all(self.ptr.f, self.ptr.stream);
    let ghost t0 = tfec_total(self.ptr.futures, self.ptr.f, self.ptr.stream);
//@ loop 0
    invariant
        fec_wf(*this.stream.ptr, *this.f, *this.futures, *this.limit),
        fec_all(*this.f, *this.stream.ptr) == all0,
        only_ok(t0, tfec_total(*this.futures, *this.f, *this.stream.ptr)),
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryForEachConcurrent
//@ header impl<St: Stream, Fut: TryFuture<Ok = ()>, F: FnMut1<St::Item, Output = Fut>> TryForEachConcurrent<St, Fut, F>
//@ noassoc
//@ fn is_terminated -> r
    ensures r == (self.stream is None && self.futures.outs().len() == 0), // [term]
//@ endfn
//@ endimpl
}
