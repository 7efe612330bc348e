//@ include fuse
verus! {
//@ file futures-util/src/stream/stream/chunks.rs
//@ struct Chunks
pub open spec fn ceil_div(n: int, d: int) -> int { (n + d - 1) / d }
pub proof fn lemma_chunk_bounds(lo: int, k: int, n: int, cap: int)
    requires 0 <= k < cap, 0 <= lo <= n, cap > 0
    ensures lo / cap + (if k > 0 { 1int } else { 0 }) <= ceil_div(k + n, cap)
{
    assert(lo / cap <= n / cap) by(nonlinear_arith) requires lo <= n, cap > 0, lo >= 0;
    let q = n / cap; let r = n % cap;
    assert(n == q * cap + r && 0 <= r < cap) by(nonlinear_arith) requires q == n / cap, r == n % cap, cap > 0, n >= 0;
    if k > 0 {
        assert((k + n + cap - 1) >= (q + 1) * cap) by(nonlinear_arith) requires n == q * cap + r, 0 <= r < cap, k >= 1;
        assert((k + n + cap - 1) / cap >= q + 1) by(nonlinear_arith) requires (k + n + cap - 1) >= (q + 1) * cap, cap > 0;
    } else {
        assert((k + n + cap - 1) >= q * cap) by(nonlinear_arith) requires n == q * cap + r, 0 <= r < cap, k == 0, cap > 0;
        assert((k + n + cap - 1) / cap >= q) by(nonlinear_arith) requires (k + n + cap - 1) >= q * cap, cap > 0;
    }
}
pub proof fn lemma_chunk_upper(k: int, n: int, cap: int)
    requires 0 <= k < cap, 0 <= n, cap > 0
    ensures ceil_div(k + n, cap) <= n + (if k > 0 { 1int } else { 0 })
{
    let m = n + (if k > 0 { 1int } else { 0 });
    assert(k + n + cap - 1 < (m + 1) * cap) by(nonlinear_arith) requires 0 <= k < cap, 0 <= n, cap > 0, m == n + (if k > 0 { 1int } else { 0 });
    assert((k + n + cap - 1) / cap < m + 1) by(nonlinear_arith) requires k + n + cap - 1 < (m + 1) * cap, cap > 0;
}
//@ impl Chunks
    pub open spec fn wf(&self) -> bool { self.stream.wf() && self.items@.len() < self.cap }
    pub open spec fn all(&self) -> Seq<St::Item> { self.items@ + self.stream.rest() }
//@ fn new -> r
//@ panics
//@ subst super::Fuse::new =>> Fuse::new
    requires stream.wf(), !stream.ended(),
    ensures capacity > 0, r.wf(), r.cap == capacity, r.all() == stream.rest(),
//@ endfn
//@ fn take -> r
    ensures
        r@ == old(self.ptr).items@,
        final(self.ptr).items@ == Seq::<St::Item>::empty(), final(self.ptr).cap == old(self.ptr).cap, final(self.ptr).stream == old(self.ptr).stream,
//@ endfn
//@ endimpl
//@ impl Stream for Chunks
//@ header impl<St: Stream> Chunks<St>
//@ noassoc
//@ fn poll_next -> r
//@ subst Self::Item =>> Vec<St::Item>
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).wf(), final(self.ptr).cap == old(self.ptr).cap,
        r is Ready && r->0 is Some ==> old(self.ptr).all() == r->0->0@ + final(self.ptr).all(), // every item is in exactly one chunk, in order
        r is Ready && r->0 is Some ==> 0 < r->0->0@.len() <= old(self.ptr).cap, // a chunk is never empty and never exceeds the capacity
        r is Ready && r->0 is Some && r->0->0@.len() < old(self.ptr).cap ==> final(self.ptr).all() == Seq::<St::Item>::empty(), // only the last chunk is short
        r is Ready && r->0 is None ==> old(self.ptr).all() == Seq::<St::Item>::empty() && final(self.ptr).all() == Seq::<St::Item>::empty(),
        r is Pending ==> final(self.ptr).all() == old(self.ptr).all(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ entry
    let ghost all0 = self.ptr.all();
    let ghost cap0 = self.ptr.cap;
//@ loop 0
    invariant
        this.stream.ptr.wf(), *this.cap == cap0, this.items@.len() < cap0,
        this.items@ + this.stream.ptr.rest() == all0,
//@ endfn
//@ fn size_hint -> r
    requires self.wf(),
    ensures
        r.0 <= ceil_div(self.all().len() as int, self.cap as int),
        r.1 is Some ==> ceil_div(self.all().len() as int, self.cap as int) <= r.1->0,
//@ after self.stream.size_hint();
    proof {
        lemma_chunk_bounds(lower as int, self.items@.len() as int, self.stream.rest().len() as int, self.cap as int);
        lemma_chunk_upper(self.items@.len() as int, self.stream.rest().len() as int, self.cap as int);
    }
//@ endfn
//@ endimpl
//@ impl FusedStream for Chunks
//@ header impl<St: FusedStream> Chunks<St>
//@ fn is_terminated -> r
    requires self.wf(),
    ensures r ==> self.all() == Seq::<St::Item>::empty(),
//@ endfn
//@ endimpl
}
