//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/flatten.rs
//@ struct Flatten
pub open spec fn flat_seq<U: Stream>(s: Seq<U>) -> Seq<U::Item>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { s[0].rest() + flat_seq(s.skip(1)) }
}
pub open spec fn subs_ok<U: Stream>(s: Seq<U>) -> bool
    decreases s.len()
{
    s.len() == 0 || (s[0].wf() && !s[0].ended() && subs_ok(s.skip(1)))
}
//@ impl Flatten
//@ fn new -> r
    ensures r.stream == stream, r.next is None,
//@ endfn
//@ endimpl
//@ impl Stream for Flatten
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf() && subs_ok(self.stream.rest())
        &&& self.next is Some ==> self.next->0.wf() && !self.next->0.ended() && !self.stream.ended()
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<<St::Item as Stream>::Item> {
        (if self.next is Some { self.next->0.rest() } else { Seq::empty() }) + flat_seq(self.stream.rest())
    }
    open spec fn armed(&self, w: int) -> bool { if self.next is Some { self.next->0.armed(w) } else { self.stream.armed(w) } }
    // provided method of the trait: (0, None)
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { (0, None) }
//@ fn poll_next
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(), subs_ok(this.stream.ptr.rest()),
        (*this.next.ptr) is Some ==> (*this.next.ptr)->0.wf() && !(*this.next.ptr)->0.ended(),
        rest0 == (if (*this.next.ptr) is Some { (*this.next.ptr)->0.rest() } else { Seq::empty() }) + flat_seq(this.stream.ptr.rest()),
//@ endfn
//@ endimpl
//@ impl FusedStream for Flatten
//@ fn is_terminated
//@ endfn
//@ endimpl
}
