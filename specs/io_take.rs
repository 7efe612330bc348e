//@ include io_base
verus! {
//@ file futures-util/src/io/take.rs
//@ struct Take
//@ impl Take
//@ fn new -> r
    ensures r.inner == inner, r.limit == limit,
//@ endfn
//@ fn limit -> r
    ensures r == self.limit,
//@ endfn
//@ fn set_limit
    ensures final(self).limit == limit, final(self).inner == old(self).inner,
//@ endfn
//@ endimpl
//@ impl AsyncRead for Take
    open spec fn rwf(&self) -> bool { self.inner.rwf() }
    open spec fn bytes(&self) -> Seq<u8> { take_upto(self.inner.bytes(), self.limit as int) } // the first `limit` bytes
    open spec fn rarmed(&self, w: int) -> bool { self.inner.rarmed(w) }
//@ fn poll_read
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for Take
    open spec fn avail(&self) -> nat { min_int(self.inner.avail() as int, self.limit as int) as nat }
    proof fn avail_bound(&self) { self.inner.avail_bound(); }
//@ fn poll_fill_buf
//@ entry
    let ghost b0 = self.ptr.inner.bytes();
    proof { assert(forall|n: int| 0 <= n <= min_int(self.ptr.limit as int, b0.len() as int) ==> #[trigger] b0.subrange(0, n) =~= take_upto(b0, self.ptr.limit as int).subrange(0, n)); }
//@ subst &[] =>> vempty()
//@ tries poll
//@ endfn
//@ fn consume
//@ entry
    proof { self.ptr.inner.avail_bound(); }
//@ endfn
//@ endimpl
}
