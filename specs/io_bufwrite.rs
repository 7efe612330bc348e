//@ include io_base
verus! {
pub assume_specification<'a, T: Copy>[ Option::<&T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures o is None ==> r is None, o matches Some(x) ==> r == Some(*x);
pub broadcast proof fn lemma_cat_skip<A>(a: Seq<A>, b: Seq<A>, n: int)
    requires 0 <= n <= a.len()
    ensures #[trigger] (a + b).skip(n) == a.skip(n) + b
{ assert((a + b).skip(n) =~= a.skip(n) + b); }
pub open spec fn is_suffix<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && a == b.skip(b.len() - a.len()) }
// a buffer of a LineWriter that holds a newline ends with one (and is then passed on before anything is added to it)
pub open spec fn lines_ok(s: Seq<u8>) -> bool { s.contains(10u8) ==> s.last() == 10u8 }
pub broadcast proof fn lemma_lines_suffix(a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] is_suffix(a, b), lines_ok(b) ensures lines_ok(a)
{ if a.contains(10u8) { let i = choose|i: int| 0 <= i < a.len() && a[i] == 10u8; assert(b[b.len() - a.len() + i] == 10u8); assert(b.contains(10u8)); assert(a.last() == b.last()); } }
pub broadcast proof fn lemma_lines_add(a: Seq<u8>, b: Seq<u8>)
    requires lines_ok(a), a.len() == 0 || a.last() != 10u8, forall|i: int| 0 <= i < b.len() ==> b[i] != 10u8
    ensures lines_ok(#[trigger] (a + b))
{ if (a + b).contains(10u8) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == 10u8; if i < a.len() { assert(a[i] == 10u8); assert(a.contains(10u8)); } else { assert(b[i - a.len()] == 10u8); } } }
//@ file futures-util/src/io/buf_writer.rs
//@ struct BufWriter
//@ impl BufWriter
//@ fn with_capacity -> r
    ensures r.inner == inner, r.buf@.len() == 0, r.written == 0,
//@ endfn
//@ fn flush_buf -> ret
//@ attr #[verifier::allow_complex_invariants]
//@ subst this.buf.drain(..*this.written) =>> vdrain_front(this.buf, *this.written)
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).wwf(), (*final(self.ptr)).accepted() == (*old(self.ptr)).accepted(), // buffered bytes move to the inner writer once, in order
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).buf@.len() == 0 && final(self.ptr).written == 0, // completes only when the buffer is empty
        ret is Ready ==> final(self.ptr).written == 0,
        is_suffix(final(self.ptr).buf@, old(self.ptr).buf@),
        ret is Pending ==> (*final(self.ptr)).warmed(old(cx).id()), // [wake]
//@ entry
    let ghost acc0 = (*self.ptr).accepted(); let ghost bf = self.ptr.buf@;
//@ loop 0
    invariant_except_break
        ret is Ok,
    invariant
        len == bf.len(), this.buf@ == bf, *this.written <= len, (*this.inner.ptr).wwf(),
        (*this.inner.ptr).accepted() + bf.skip(*this.written as int) == acc0,
    ensures
        ret is Ok ==> *this.written >= len,
//@ loopentry 0
    let ghost a0 = (*this.inner.ptr).accepted(); let ghost w0 = *this.written as int;
    proof { assert(forall|n: int| 0 <= n <= bf.len() - w0 ==> a0 + #[trigger] bf.subrange(w0, bf.len() as int).subrange(0, n) + bf.skip(w0 + n) =~= a0 + bf.skip(w0)); }
//@ endfn
//@ fn inner_poll_write -> ret
    requires (*old(self.ptr)).wwf(), old(self.ptr).buf@.len() == 0,
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).wwf(), final(self.ptr).buf == old(self.ptr).buf, final(self.ptr).written == old(self.ptr).written,
        ret matches Poll::Ready(Ok(n)) ==> n <= buf@.len() && (*final(self.ptr)).accepted() == (*old(self.ptr)).accepted() + buf@.subrange(0, n as int),
        !(ret matches Poll::Ready(Ok(_))) ==> (*final(self.ptr)).accepted() == (*old(self.ptr)).accepted(),
        ret is Pending ==> (*final(self.ptr)).warmed(old(cx).id()), // [wake]
//@ endfn
//@ fn buffer -> r
    ensures r@ == self.buf@,
//@ endfn
//@ fn write_to_buf -> r
    ensures
        r == (if buf@.len() <= cap_of(old(self.ptr).buf) - old(self.ptr).buf@.len() { buf@.len() as int } else { cap_of(old(self.ptr).buf) - old(self.ptr).buf@.len() }), final(self.ptr).buf@ == old(self.ptr).buf@ + buf@.subrange(0, r as int), // appends exactly the first r bytes
        final(self.ptr).inner == old(self.ptr).inner, final(self.ptr).written == old(self.ptr).written,
//@ subst self.write_to_buffer_unchecked( =>> self.vwrite_to_buffer_unchecked(
//@ subst available.min(buf.len()) =>> cmp::min(available, buf.len())
//@ endfn
//@ fn capacity -> r
//@ subst .buf.capacity() =>> .buf.vcapacity()
    ensures r == cap_of(self.buf), r >= self.buf@.len(),
//@ endfn
//@ fn spare_capacity -> r
//@ subst .buf.capacity() =>> .buf.vcapacity()
    ensures r == cap_of(self.buf) - self.buf@.len(),
//@ endfn
//@ endimpl
// raw-pointer copy into the spare capacity: contract assumed (its callers' bounds are obligations)
impl<W> BufWriter<W> {
    #[verifier::external_body]
    fn vwrite_to_buffer_unchecked(self: Pin<&mut Self>, buf: &[u8])
        requires buf@.len() <= cap_of(old(self.ptr).buf) - old(self.ptr).buf@.len(),
        ensures final(self.ptr).buf@ == old(self.ptr).buf@ + buf@, final(self.ptr).inner == old(self.ptr).inner, final(self.ptr).written == old(self.ptr).written,
    { unimplemented!() }
}
//@ impl AsyncWrite for BufWriter
    open spec fn wwf(&self) -> bool { self.inner.wwf() && self.written <= self.buf@.len() }
    open spec fn accepted(&self) -> Seq<u8> { self.inner.accepted() + self.buf@.skip(self.written as int) } // what the inner writer took, then what is still buffered
    open spec fn flushed(&self) -> bool { self.buf@.len() == 0 && self.inner.flushed() }
    open spec fn closed(&self) -> bool { self.inner.closed() }
    open spec fn warmed(&self, w: int) -> bool { self.inner.warmed(w) }
//@ fn poll_write -> ret
    ensures is_suffix(final(self.ptr).buf@, old(self.ptr).buf@) || is_suffix(final(self.ptr).buf@, old(self.ptr).buf@ + buf@),
//@ subst .buf.capacity() =>> .buf.vcapacity()
//@ subst .buf.write(buf) =>> .buf.vwrite(buf)
//@ entry
    broadcast use lemma_cat_skip;
    proof { axiom_slice_len(buf); axiom_vec_len(&self.ptr.buf); }
//@ endfn
//@ fn poll_flush -> ret
    ensures is_suffix(final(self.ptr).buf@, old(self.ptr).buf@),
//@ endfn
//@ fn poll_close -> ret
    ensures is_suffix(final(self.ptr).buf@, old(self.ptr).buf@),
//@ endfn
//@ endimpl
// a writer that can be seeked: writing and seeking share one state
pub trait SeekWriter: AsyncWrite + AsyncSeek {
    proof fn same_wf(&self) ensures self.wwf() == self.swf();
    proof fn same_acc(&self) ensures self.accepted() == self.settled();
    proof fn same_armed(&self, w: int) ensures self.warmed(w) == self.sarmed(w);
}
//@ impl AsyncSeek for BufWriter
//@ header impl<W: SeekWriter> BufWriter<W>
//@ fn poll_seek -> ret
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).wwf(), (*final(self.ptr)).accepted() == (*old(self.ptr)).accepted(),
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).buf@.len() == 0, // everything accepted so far is written before the position changes
        ret is Pending ==> (*final(self.ptr)).warmed(old(cx).id()), // [wake]
//@ entry
    proof { assert forall|x: W| #[trigger] x.wwf() == x.swf() by { x.same_wf(); } assert forall|x: W| #[trigger] x.swf() == x.wwf() by { x.same_wf(); }
        assert forall|x: W| #[trigger] x.settled() == x.accepted() by { x.same_acc(); } assert forall|x: W, w: int| #[trigger] x.sarmed(w) == x.warmed(w) by { x.same_armed(w); } assert forall|x: W| #[trigger] x.accepted() == x.settled() by { x.same_acc(); } }
//@ endfn
//@ endimpl
//@ file futures-util/src/io/line_writer.rs
//@ struct LineWriter
//@ impl LineWriter
//@ fn flush_if_completed_line -> ret
    requires (*old(self.ptr)).wwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).wwf(), (*final(self.ptr)).accepted() == (*old(self.ptr)).accepted(),
        ret is Pending ==> (*final(self.ptr)).warmed(old(cx).id()), // [wake]
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).buf_writer.buf@.len() == 0 || final(self.ptr).buf_writer.buf@.last() != 10u8, // a completed line does not stay in the buffer
//@ endfn
//@ endimpl
//@ impl AsyncWrite for LineWriter
    open spec fn wwf(&self) -> bool { self.buf_writer.wwf() && lines_ok(self.buf_writer.buf@) }
    open spec fn accepted(&self) -> Seq<u8> { self.buf_writer.accepted() }
    open spec fn flushed(&self) -> bool { self.buf_writer.flushed() }
    open spec fn closed(&self) -> bool { self.buf_writer.closed() }
    open spec fn warmed(&self, w: int) -> bool { self.buf_writer.warmed(w) }
//@ fn poll_write
//@ tries poll,poll,result
//@ entry
    broadcast use lemma_cat_skip, lemma_lines_suffix, lemma_lines_add;
    proof { axiom_slice_len(buf); }
    let ghost acc0 = (*self.ptr).accepted();
//@ before Poll::Ready(Ok(flushed + buffered))
    proof { assert(acc0 + buf@.subrange(0, flushed as int) + buf@.subrange(flushed as int, flushed + buffered) =~= acc0 + buf@.subrange(0, flushed + buffered)); }
//@ endfn
//@ fn poll_flush
//@ endfn
//@ fn poll_close
//@ endfn
//@ endimpl
}
