//@ include io_base
verus! {
//@ file futures-util/src/io/chain.rs
//@ struct Chain
//@ impl Chain
//@ fn new -> r
    ensures r.first == first, r.second == second, !r.done_first,
//@ endfn
//@ endimpl
//@ impl AsyncRead for Chain
    open spec fn rwf(&self) -> bool { self.first.rwf() && self.second.rwf() }
    open spec fn bytes(&self) -> Seq<u8> { if self.done_first { self.second.bytes() } else { self.first.bytes() + self.second.bytes() } } // all of the first, then all of the second
    open spec fn rarmed(&self, w: int) -> bool { if self.done_first { self.second.rarmed(w) } else { self.first.rarmed(w) } }
//@ fn poll_read
//@ tries poll
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for Chain
    open spec fn avail(&self) -> nat { if self.done_first { self.second.avail() } else { self.first.avail() } }
    proof fn avail_bound(&self) { self.first.avail_bound(); self.second.avail_bound(); }
//@ fn poll_fill_buf
//@ tries poll
//@ endfn
//@ fn consume
//@ entry
    proof { self.ptr.first.avail_bound(); }
//@ endfn
//@ endimpl
}
