//@ include sink_base
verus! {
use std::collections::VecDeque;
pub assume_specification<T, A: core::alloc::Allocator> [VecDeque::<T, A>::is_empty] (d: &VecDeque<T, A>) -> (r: bool) ensures r == (d@.len() == 0);
//@ file futures-util/src/sink/buffer.rs
//@ struct Buffer
pub broadcast proof fn lemma_push_cat<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures #[trigger] (a + b.push(x)) == (a + b).push(x)
{ assert(a + b.push(x) =~= (a + b).push(x)); }
pub broadcast proof fn lemma_pop_cat<T>(a: Seq<T>, b: Seq<T>)
    requires b.len() > 0
    ensures #[trigger] (a.push(b[0]) + b.subrange(1, b.len() as int)) == a + b
{ assert(a.push(b[0]) + b.subrange(1, b.len() as int) =~= a + b); }
//@ impl Buffer
    pub open spec fn bwf(&self) -> bool { self.sink.kwf() && (self.capacity == 0 ==> self.buf@.len() == 0) && self.buf@.len() <= self.capacity }
    pub open spec fn total(&self) -> Seq<Item> { self.sink.sent() + self.buf@ }
//@ fn try_empty_buffer -> ret
    requires (*old(self.ptr)).bwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).capacity == (*old(self.ptr)).capacity,
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).bwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(), // buffered items move to the sink once, in order
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).buf@.len() == 0,
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()), // [wake]
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).buf@.len() <= (*old(self.ptr)).buf@.len() && ((*old(self.ptr)).buf@.len() == 0 && (*old(self.ptr)).sink.ready() ==> (*final(self.ptr)).sink.ready()),
//@ entry
    broadcast use {lemma_push_cat, lemma_pop_cat};
    let ghost t0 = (*self.ptr).total(); let ghost n0 = (*self.ptr).buf@.len();
//@ loop 0
    invariant
        (*this.sink.ptr).kwf(), (*this.sink.ptr).sent() + this.buf@ == t0, this.buf@.len() <= n0, n0 == 0 && (*old(self.ptr)).sink.ready() ==> (*this.sink.ptr).ready(), this.buf@.len() > 0 ==> (*this.sink.ptr).ready(),
    decreases this.buf@.len(),
//@ endfn
//@ endimpl
//@ impl Sink for Buffer
    open spec fn kwf(&self) -> bool { self.bwf() }
    open spec fn sent(&self) -> Seq<Item> { self.total() }
    open spec fn ready(&self) -> bool { if self.capacity == 0 { self.sink.ready() } else { self.buf@.len() < self.capacity } }
    open spec fn sflushed(&self) -> bool { self.buf@.len() == 0 && self.sink.sflushed() }
    open spec fn sclosed(&self) -> bool { self.buf@.len() == 0 && self.sink.sclosed() }
    open spec fn sarmed(&self, w: int) -> bool { self.sink.sarmed(w) }
//@ fn poll_ready
//@ tries poll
//@ endfn
//@ fn start_send
//@ entry
    broadcast use {lemma_push_cat, lemma_pop_cat};
//@ endfn
//@ fn poll_flush
//@ endfn
//@ fn poll_close
//@ endfn
//@ endimpl
}
