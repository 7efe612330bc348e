//@ include into_stream
verus! {
pub trait StreamFuse: Stream {
    fn fuse(self) -> (r: Fuse<Self>) ensures r.stream == self, !r.done { Fuse::new(self) }
}
impl<S: Stream> StreamFuse for S {}
pub open spec fn oks<A, E>(s: Seq<A>) -> Seq<Result<A, E>> { s.map_values(|x: A| Ok::<A, E>(x)) }
// one step of chunking: how many source items the next output takes when `k` are already gathered
pub open spec fn chunk_len<A, E>(k: int, s: Seq<Result<A, E>>, cap: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else if s[0] is Err || k + 1 >= cap { 1 } else { 1 + chunk_len(k + 1, s.skip(1), cap) } }
// number of outputs still to come
pub open spec fn chunk_count<A, E>(k: int, s: Seq<Result<A, E>>, cap: int) -> int
    decreases s.len()
{ if s.len() == 0 { if k > 0 { 1 } else { 0 } } else if s[0] is Err || k + 1 >= cap { 1 + chunk_count(0, s.skip(1), cap) } else { chunk_count(k + 1, s.skip(1), cap) } }
pub proof fn lemma_count_bounds<A, E>(k: int, s: Seq<Result<A, E>>, cap: int, lo: int)
    requires 0 <= k < cap, 0 <= lo <= s.len()
    ensures chunk_count(k, s, cap) <= s.len() + (if k > 0 { 1int } else { 0 }), (lo / cap) + (if k > 0 { 1int } else { 0 }) <= chunk_count(k, s, cap)
    decreases s.len()
{
    lemma_count_lower(k, s, cap);
    assert(lo / cap <= s.len() as int / cap) by(nonlinear_arith) requires 0 <= lo <= s.len(), cap > 0;
    lemma_count_upper(k, s, cap);
}
pub proof fn lemma_count_upper<A, E>(k: int, s: Seq<Result<A, E>>, cap: int)
    requires 0 <= k < cap
    ensures chunk_count(k, s, cap) <= s.len() + (if k > 0 { 1int } else { 0 })
    decreases s.len()
{
    if s.len() != 0 { if s[0] is Err || k + 1 >= cap { lemma_count_upper(0, s.skip(1), cap); } else { lemma_count_upper(k + 1, s.skip(1), cap); } }
}
pub proof fn lemma_count_lower<A, E>(k: int, s: Seq<Result<A, E>>, cap: int)
    requires 0 <= k < cap
    ensures
        (s.len() as int / cap) + (if k > 0 { 1int } else { 0 }) <= chunk_count(k, s, cap),
        (s.len() as int + k + cap - 1) / cap <= chunk_count(k, s, cap),
    decreases s.len()
{
    let n = s.len() as int;
    if n == 0 {
        assert(n / cap == 0) by(nonlinear_arith) requires n == 0, cap > 0;
        if k > 0 { assert((k + cap - 1) / cap <= 1) by(nonlinear_arith) requires 0 <= k < cap; }
        else { assert((cap - 1) / cap == 0) by(nonlinear_arith) requires cap > 0; }
    } else if s[0] is Err || k + 1 >= cap {
        lemma_count_lower(0, s.skip(1), cap);
        let m = n - 1;
        assert((m + cap - 1) / cap + 1 == (m + 2 * cap - 1) / cap) by(nonlinear_arith) requires cap > 0;
        assert((n + k + cap - 1) / cap <= (m + 2 * cap - 1) / cap) by(nonlinear_arith) requires cap > 0, n + k + cap - 1 <= m + 2 * cap - 1;
    } else {
        lemma_count_lower(k + 1, s.skip(1), cap);
    }
    // floor(n/cap) + [k>0] <= ceil((n+k)/cap)
    if k > 0 {
        assert(n / cap + 1 == (n + cap) / cap) by(nonlinear_arith) requires cap > 0;
        assert((n + cap) / cap <= (n + k + cap - 1) / cap) by(nonlinear_arith) requires cap > 0, k >= 1;
    } else {
        assert(n / cap <= (n + cap - 1) / cap) by(nonlinear_arith) requires cap > 0;
    }
}
//@ file futures-util/src/stream/try_stream/try_chunks.rs
//@ struct TryChunksError
//@ struct TryChunks
//@ impl TryChunks
    pub open spec fn wf(&self) -> bool { self.stream.wf() && self.items@.len() < self.cap }
//@ fn new -> r
//@ panics
    requires stream.wf(), !stream.ended(),
    ensures capacity > 0, r.wf(), r.cap == capacity, r.items@.len() == 0, r.stream.rest() == stream.rest(),
//@ endfn
//@ fn take -> r
    ensures
        r@ == old(self.ptr).items@,
        final(self.ptr).items@ == Seq::<St::Ok>::empty(), final(self.ptr).cap == old(self.ptr).cap, final(self.ptr).stream == old(self.ptr).stream,
//@ endfn
//@ endimpl
pub type TryChunksStreamError<St> = TryChunksError<<St as TryStream>::Ok, <St as TryStream>::Error>;
//@ impl Stream for TryChunks
//@ header impl<St: TryStream> TryChunks<St>
//@ noassoc
    pub open spec fn all(&self) -> Seq<Result<St::Ok, St::Error>> { oks::<St::Ok, St::Error>(self.items@) + self.stream.rest() }
//@ fn poll_next -> r
//@ subst Self::Item =>> Result<Vec<St::Ok>, TryChunksError<St::Ok, St::Error>>
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).wf(), final(self.ptr).cap == old(self.ptr).cap,
        r matches Poll::Ready(Some(Ok(v))) ==> old(self.ptr).all() == oks::<St::Ok, St::Error>(v@) + final(self.ptr).all(), // every Ok item is in exactly one chunk, in order
        r matches Poll::Ready(Some(Ok(v))) ==> 0 < v@.len() <= old(self.ptr).cap && (v@.len() < old(self.ptr).cap ==> final(self.ptr).all() == Seq::<Result<St::Ok, St::Error>>::empty()), // never empty; short only at the end
        r matches Poll::Ready(Some(Err(e))) ==> old(self.ptr).all() == oks::<St::Ok, St::Error>(e.0@) + (seq![Err::<St::Ok, St::Error>(e.1)] + final(self.ptr).all()) && e.0@.len() < old(self.ptr).cap, // an error carries the items gathered before it
        r matches Poll::Ready(None) ==> old(self.ptr).all() == Seq::<Result<St::Ok, St::Error>>::empty() && final(self.ptr).all() == Seq::<Result<St::Ok, St::Error>>::empty(),
        r is Ready && r->0 is Some ==> final(self.ptr).items@.len() == 0,
        r is Pending ==> final(self.ptr).all() == old(self.ptr).all(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ entry
    let ghost all0 = self.ptr.all();
    let ghost cap0 = self.ptr.cap;
//@ loop 0
    invariant
        this.stream.ptr.wf(), *this.cap == cap0, this.items@.len() < cap0,
        oks::<St::Ok, St::Error>(this.items@) + this.stream.ptr.rest() == all0,
//@ loopentry 0
    let ghost items1 = this.items@;
    let ghost rest1 = this.stream.ptr.rest();
    proof {
        assert(forall|x: St::Ok, r: Seq<Result<St::Ok, St::Error>>| oks::<St::Ok, St::Error>(items1) + (seq![Ok::<St::Ok, St::Error>(x)] + r) =~= #[trigger] (oks::<St::Ok, St::Error>(items1.push(x)) + r));
        assert(oks::<St::Ok, St::Error>(Seq::empty()) =~= Seq::<Result<St::Ok, St::Error>>::empty());
    }
//@ endfn
//@ fn size_hint -> r
    requires self.wf(),
    ensures
        r.0 <= chunk_count(self.items@.len() as int, self.stream.rest(), self.cap as int), // [size]
        r.1 is Some ==> chunk_count(self.items@.len() as int, self.stream.rest(), self.cap as int) <= r.1->0, // [size]
//@ after self.stream.size_hint();
    proof { lemma_count_bounds(self.items@.len() as int, self.stream.rest(), self.cap as int, lower as int); }
//@ endfn
//@ endimpl
//@ impl FusedStream for TryChunks
//@ header impl<St: TryStream + FusedStream> TryChunks<St>
//@ fn is_terminated -> r
    requires self.wf(),
    ensures r ==> self.stream.rest() == Seq::<Result<St::Ok, St::Error>>::empty() && self.items@.len() == 0, // [term]
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/try_stream/try_ready_chunks.rs
//@ struct TryReadyChunksError
//@ struct TryReadyChunks
//@ impl TryReadyChunks
    pub open spec fn wf(&self) -> bool { self.stream.wf() && self.cap > 0 }
//@ fn new -> r
//@ panics
    requires stream.wf(), !stream.ended(),
    ensures capacity > 0, r.wf(), r.cap == capacity, r.stream.rest() == stream.rest(),
//@ endfn
//@ endimpl
//@ impl Stream for TryReadyChunks
//@ header impl<St: TryStream> TryReadyChunks<St>
//@ noassoc
    pub open spec fn all(&self) -> Seq<Result<St::Ok, St::Error>> { self.stream.rest() }
//@ fn poll_next -> r
//@ subst Self::Item =>> Result<Vec<St::Ok>, TryReadyChunksError<St::Ok, St::Error>>
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).wf(), final(self.ptr).cap == old(self.ptr).cap,
        r matches Poll::Ready(Some(Ok(v))) ==> old(self.ptr).all() == oks::<St::Ok, St::Error>(v@) + final(self.ptr).all(), // every Ok item is in exactly one chunk, in order
        r matches Poll::Ready(Some(Ok(v))) ==> 0 < v@.len() <= old(self.ptr).cap,
        r matches Poll::Ready(Some(Ok(v))) ==> (v@.len() < old(self.ptr).cap ==> final(self.ptr).stream.armed(old(cx).id()) || final(self.ptr).stream.done), // short only when nothing more was ready
        r matches Poll::Ready(Some(Err(e))) ==> old(self.ptr).all() == oks::<St::Ok, St::Error>(e.0@) + (seq![Err::<St::Ok, St::Error>(e.1)] + final(self.ptr).all()), // an error carries the items gathered before it
        r matches Poll::Ready(None) ==> old(self.ptr).all() == Seq::<Result<St::Ok, St::Error>>::empty() && final(self.ptr).all() == Seq::<Result<St::Ok, St::Error>>::empty(),
        r is Pending ==> final(self.ptr).all() == old(self.ptr).all(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ entry
    let ghost all0 = self.ptr.all();
    let ghost cap0 = self.ptr.cap;
    proof { assert(oks::<St::Ok, St::Error>(Seq::empty()) + all0 =~= all0); }
//@ loop 0
    invariant
        this.stream.ptr.wf(), *this.cap == cap0, items@.len() < cap0,
        oks::<St::Ok, St::Error>(items@) + this.stream.ptr.rest() == all0,
//@ loopentry 0
    let ghost items1 = items@;
    proof {
        assert(forall|x: St::Ok, r: Seq<Result<St::Ok, St::Error>>| oks::<St::Ok, St::Error>(items1) + (seq![Ok::<St::Ok, St::Error>(x)] + r) =~= #[trigger] (oks::<St::Ok, St::Error>(items1.push(x)) + r));
        assert(oks::<St::Ok, St::Error>(Seq::empty()) =~= Seq::<Result<St::Ok, St::Error>>::empty());
    }
//@ endfn
//@ fn size_hint -> r
    requires self.wf(),
    ensures
        r.0 <= chunk_count(0, self.stream.rest(), self.cap as int), // [size] at least one output per full chunk
        r.1 is Some ==> self.stream.rest().len() <= r.1->0, // [size] at most one output per item
//@ after self.stream.size_hint();
    proof { lemma_count_bounds(0, self.stream.rest(), self.cap as int, lower as int); }
//@ endfn
//@ endimpl
//@ impl FusedStream for TryReadyChunks
//@ header impl<St: TryStream + FusedStream> TryReadyChunks<St>
//@ fn is_terminated -> r
    requires self.wf(),
    ensures r ==> self.stream.rest() == Seq::<Result<St::Ok, St::Error>>::empty(), // [term]
//@ endfn
//@ endimpl
}
