//@ include io_base
//@ include bl_base
verus! {
#[verifier::external_body]
pub broadcast proof fn axiom_read_view<S: AsyncRead>(a: S, b: S)
    requires #[trigger] other_half(a, b),
    ensures (#[trigger] b.bytes()) == a.bytes(),
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_read_wf<S: AsyncRead>(a: S, b: S)
    requires #[trigger] other_half(a, b), a.rwf(),
    ensures #[trigger] b.rwf(),
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_write_view<S: AsyncWrite>(a: S, b: S)
    requires #[trigger] other_half(a, b),
    ensures (#[trigger] b.accepted()) == a.accepted(),
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_write_wf<S: AsyncWrite>(a: S, b: S)
    requires #[trigger] other_half(a, b), a.wwf(),
    ensures #[trigger] b.wwf(),
{ }
pub broadcast group group_iohalves { group_io, axiom_read_view, axiom_read_wf, axiom_write_view, axiom_write_wf }
//@ bcast group_iohalves
//@ trackall poll_lock => Tracked(&mut *turn)
//@ file futures-util/src/io/split.rs
//@ struct ReadHalf
//@ struct WriteHalf
//@ struct ReuniteError
//@ fn split -> r
    ensures r.0.handle.id() == r.1.handle.id(), // the two halves belong together
//@ endfn
//@ impl ReadHalf
//@ dropbound : Unpin =>>
//@ fn is_pair_of -> r
    ensures r == (self.handle.id() == other.handle.id()),
//@ endfn
//@ fn reunite -> r
    ensures r is Ok <==> self.handle.id() == other.handle.id(), r is Err ==> r->Err_0.0 == self && r->Err_0.1 == other, // only halves of one split, and nothing is lost otherwise
//@ endfn
//@ endimpl
//@ impl WriteHalf
//@ dropbound : Unpin =>>
//@ fn is_pair_of -> r
    ensures r == (self.handle.id() == other.handle.id()),
//@ endfn
//@ fn reunite -> r
    ensures r is Ok <==> self.handle.id() == other.handle.id(), r is Err ==> r->Err_0.0 == other && r->Err_0.1 == self,
//@ endfn
//@ endimpl
//@ impl AsyncRead for ReadHalf
//@ header impl<R: AsyncRead> ReadHalf<R>
//@ fn poll_read -> r
//@ params Tracked(turn): Tracked<&mut Turn<R>>
    requires old(turn).s.rwf(),
    ensures
        *final(cx) == *old(cx), *final(self.ptr) == *old(self.ptr), final(turn).s.rwf(), final(buf)@.len() == old(buf)@.len(),
        r matches Poll::Ready(Ok(n)) ==> n <= old(buf)@.len() && old(turn).s.bytes() == final(buf)@.subrange(0, n as int) + final(turn).s.bytes(), // delivers exactly the next bytes
        r matches Poll::Ready(Ok(n)) ==> (n == 0 && old(buf)@.len() > 0 ==> old(turn).s.bytes() == Seq::<u8>::empty()), // 0 means end of data
        !(r matches Poll::Ready(Ok(_))) ==> final(turn).s.bytes() == old(turn).s.bytes(), // an error or Pending loses nothing
        r is Pending ==> final(turn).s.rarmed(old(cx).id()) || old(self.ptr).handle.parked(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl AsyncWrite for WriteHalf
//@ header impl<W: AsyncWrite> WriteHalf<W>
//@ fn poll_write -> r
//@ params Tracked(turn): Tracked<&mut Turn<W>>
    requires old(turn).s.wwf(),
    ensures
        *final(cx) == *old(cx), *final(self.ptr) == *old(self.ptr), final(turn).s.wwf(),
        r matches Poll::Ready(Ok(n)) ==> n <= buf@.len() && final(turn).s.accepted() == old(turn).s.accepted() + buf@.subrange(0, n as int), // accepts exactly the first n bytes
        !(r matches Poll::Ready(Ok(_))) ==> final(turn).s.accepted() == old(turn).s.accepted(), // an error or Pending accepts nothing
        r is Pending ==> final(turn).s.warmed(old(cx).id()) || old(self.ptr).handle.parked(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_flush -> r
//@ params Tracked(turn): Tracked<&mut Turn<W>>
    requires old(turn).s.wwf(),
    ensures
        *final(cx) == *old(cx), *final(self.ptr) == *old(self.ptr), final(turn).s.wwf(), final(turn).s.accepted() == old(turn).s.accepted(),
        r matches Poll::Ready(Ok(_)) ==> final(turn).s.flushed(), // completes only when everything reached the destination
        r is Pending ==> final(turn).s.warmed(old(cx).id()) || old(self.ptr).handle.parked(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_close -> r
//@ params Tracked(turn): Tracked<&mut Turn<W>>
    requires old(turn).s.wwf(),
    ensures
        *final(cx) == *old(cx), *final(self.ptr) == *old(self.ptr), final(turn).s.wwf(), final(turn).s.accepted() == old(turn).s.accepted(),
        r matches Poll::Ready(Ok(_)) ==> final(turn).s.flushed() && final(turn).s.closed(), // closes only after everything reached the destination
        r is Pending ==> final(turn).s.warmed(old(cx).id()) || old(self.ptr).handle.parked(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
