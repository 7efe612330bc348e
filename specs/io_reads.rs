//@ include io_base
verus! {
//@ file futures-util/src/io/read.rs
//@ struct Read
//@ impl Future for Read
//@ header impl<R: AsyncRead> Read<'_, R>
//@ noassoc
//@ fn poll -> r
    requires old(self.ptr).reader.rwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).reader.rwf(), final(self.ptr).buf@.len() == old(self.ptr).buf@.len(),
        r matches Poll::Ready(Ok(n)) ==> n <= old(self.ptr).buf@.len() && old(self.ptr).reader.bytes() == final(self.ptr).buf@.subrange(0, n as int) + final(self.ptr).reader.bytes(), // delivers exactly the next bytes
        !(r matches Poll::Ready(Ok(_))) ==> final(self.ptr).reader.bytes() == old(self.ptr).reader.bytes(), // an error or Pending loses nothing
        r is Pending ==> final(self.ptr).reader.rarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ file futures-util/src/io/read_exact.rs
//@ struct ReadExact
//@ impl Future for ReadExact
//@ header impl<R: AsyncRead> ReadExact<'_, R>
//@ noassoc
//@ fn poll -> r
    requires old(self.ptr).reader.rwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).reader.rwf(),
        // the bytes taken from the reader are exactly those put into the caller's buffer, in order; buf is what is still to be filled
        ({ let k = old(self.ptr).buf@.len() - final(self.ptr).buf@.len();
           0 <= k <= old(self.ptr).reader.bytes().len()
           && final(self.ptr).reader.bytes() == old(self.ptr).reader.bytes().skip(k)
           && final(old(self.ptr).buf)@ == old(self.ptr).reader.bytes().subrange(0, k) + final(final(self.ptr).buf)@ }),
        r matches Poll::Ready(Ok(_)) ==> final(self.ptr).buf@.len() == 0, // completes only when the buffer is full
        r is Pending ==> final(self.ptr).reader.rarmed(old(cx).id()), // [wake]
//@ entry
    let ghost b0 = self.ptr.reader.bytes(); let ghost buf0 = self.ptr.buf;
//@ loop 0
    invariant
        this.reader.rwf(), 0 <= buf0@.len() - this.buf@.len() <= b0.len(), this.reader.bytes() == b0.skip(buf0@.len() - this.buf@.len()),
        final(buf0)@ == b0.subrange(0, buf0@.len() - this.buf@.len()) + final(this.buf)@,
//@ loopentry 0
    let ghost k0 = buf0@.len() - this.buf@.len();
//@ after let n =
    let ghost f = this.buf@.subrange(0, n as int);
    proof { lemma_adv(b0, k0, f, this.reader.bytes()); }
//@ endfn
//@ endimpl
//@ file futures-util/src/io/read_until.rs
//@ struct ReadUntil
// the bytes up to and including the delimiter, or all that is left
pub open spec fn no_byte(s: Seq<u8>, k: int, b: u8) -> bool { forall|j: int| 0 <= j < k ==> s[j] != b }
pub open spec fn until_end(s: Seq<u8>, k: int, b: u8) -> bool { (1 <= k <= s.len() && s[k - 1] == b && no_byte(s, k - 1, b)) || (k == s.len() && no_byte(s, k, b)) }
// contract of one step of reading up to a delimiter: k bytes were moved from the reader to the buffer
pub open spec fn until_step<R: AsyncBufRead>(r0: R, r1: R, buf0: Seq<u8>, buf1: Seq<u8>, read0: int, read1: int, b: u8, ret: Poll<io::Result<usize>>) -> bool {
    let k = buf1.len() - buf0.len();
    &&& 0 <= k <= r0.bytes().len()
    &&& buf1 == buf0 + r0.bytes().subrange(0, k)
    &&& r1.bytes() == r0.bytes().skip(k)
    &&& read1 == read0 + k
    &&& (ret matches Poll::Ready(Ok(n)) ==> n == read1 && until_end(r0.bytes(), k, b))
    &&& (!(ret matches Poll::Ready(Ok(_))) ==> no_byte(r0.bytes(), k, b))
}
//@ fn read_until_internal -> ret
//@ subst R: AsyncBufRead + ?Sized =>> R: AsyncBufRead
    requires (*old(reader.ptr)).rwf(), *old(read) + (*old(reader.ptr)).bytes().len() <= usize::MAX,
    ensures
        *final(cx) == *old(cx), (*final(reader.ptr)).rwf(),
        until_step(*old(reader.ptr), *final(reader.ptr), old(buf)@, final(buf)@, *old(read) as int, *final(read) as int, byte, ret), // bytes moved once, in order; stops exactly at the delimiter or the end
        ret is Pending ==> (*final(reader.ptr)).rarmed(old(cx).id()), // [wake]
//@ entry
    let ghost b0 = (*reader.ptr).bytes(); let ghost buf0 = buf@; let ghost read0 = *read as int;
//@ loop 0
    invariant
        buf@.len() >= buf0.len(), (*reader.ptr).rwf(), *read == read0 + (buf@.len() - buf0.len()), buf@.len() - buf0.len() <= b0.len(),
        buf@ == buf0 + b0.subrange(0, buf@.len() - buf0.len()), (*reader.ptr).bytes() == b0.skip(buf@.len() - buf0.len()),
        no_byte(b0, buf@.len() - buf0.len(), byte), b0.len() + read0 <= usize::MAX,
//@ loopentry 0
    let ghost k0 = buf@.len() - buf0.len(); let ghost rb = (*reader.ptr).bytes();
//@ after let available =
    proof { assert(forall|j: int| 0 <= j < available@.len() ==> available@[j] == rb[j]); }
//@ after let (done, used)
    proof {
        assert(done ==> used >= 1 && rb[used - 1] == byte && no_byte(rb, used - 1, byte));
        assert(!done ==> no_byte(rb, used as int, byte));
        assert(done ==> b0[k0 + used - 1] == byte);
        assert(rb =~= rb.subrange(0, used as int) + rb.skip(used as int));
        lemma_adv(b0, k0, rb.subrange(0, used as int), rb.skip(used as int));
        assert(forall|j: int| 0 <= j < used ==> rb[j] == b0[k0 + j]);
        assert(forall|j: int| k0 <= j < k0 + used ==> b0[j] == rb[j - k0]);
    }
//@ before return Poll::Ready(Ok(*read))
    proof {
        let k = buf@.len() - buf0.len();
        assert(k == k0 + used);
        assert(done ==> no_byte(b0, k - 1, byte));
        assert(!done ==> k0 == b0.len()) by { if !done { assert(rb.len() == 0); } }
        assert(until_end(b0, k, byte));
        assert(buf@ == buf0 + b0.subrange(0, k));
    }
//@ endfn
//@ impl Future for ReadUntil
//@ header impl<R: AsyncBufRead> ReadUntil<'_, R>
//@ noassoc
//@ fn poll -> ret
    requires old(self.ptr).reader.rwf(), old(self.ptr).read + old(self.ptr).reader.bytes().len() <= usize::MAX,
    ensures
        *final(cx) == *old(cx), final(self.ptr).reader.rwf(), final(self.ptr).byte == old(self.ptr).byte,
        until_step(*old(self.ptr).reader, *final(self.ptr).reader, old(self.ptr).buf@, final(self.ptr).buf@, old(self.ptr).read as int, final(self.ptr).read as int, old(self.ptr).byte, ret),
        ret is Pending ==> final(self.ptr).reader.rarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ file futures-util/src/io/read_to_end.rs
//@ struct ReadToEnd
//@ struct Guard
//@ impl Drop for Guard
//@ header impl<'a> Guard<'a>
//@ fn drop
//@ emit_as vdrop
//@ subst self.buf.set_len( =>> self.buf.vset_len(
    requires old(self).len <= old(self).buf@.len(),
    ensures final(self).buf@ == old(self).buf@.subrange(0, old(self).len as int), *final(final(self).buf) == *final(old(self).buf),
//@ endfn
//@ endimpl
// contract of one step of reading to the end: k bytes were moved from the reader to the buffer
pub open spec fn to_end_step<R: AsyncRead>(r0: R, r1: R, buf0: Seq<u8>, buf1: Seq<u8>, start: int, ret: Poll<io::Result<usize>>) -> bool {
    let k = buf1.len() - buf0.len();
    &&& 0 <= k <= r0.bytes().len()
    &&& buf1 == buf0 + r0.bytes().subrange(0, k)
    &&& r1.bytes() == r0.bytes().skip(k)
    &&& (ret matches Poll::Ready(Ok(n)) ==> n == buf1.len() - start && k == r0.bytes().len())
}
//@ fn read_to_end_internal -> ret
//@ dropguard g
//@ subst R: AsyncRead + ?Sized =>> R: AsyncRead
//@ subst g.buf.reserve(32) =>> g.buf.vreserve(32)
//@ subst g.buf.capacity() =>> g.buf.vcapacity()
//@ subst g.buf.extend(iter::repeat(0).take(spare_capacity)) =>> g.buf.vextend_with(0, spare_capacity)
    requires (*old(rd.ptr)).rwf(), start_len <= old(buf)@.len(), old(buf)@.len() + (*old(rd.ptr)).bytes().len() <= usize::MAX,
    ensures
        *final(cx) == *old(cx), (*final(rd.ptr)).rwf(),
        to_end_step(*old(rd.ptr), *final(rd.ptr), old(buf)@, final(buf)@, start_len as int, ret), // all bytes moved once, in order, nothing else left in the buffer; completes only at the end of the data
        ret is Pending ==> (*final(rd.ptr)).rarmed(old(cx).id()), // [wake]
//@ entry
    let ghost b0 = (*rd.ptr).bytes(); let ghost buf0 = buf@;
    broadcast use group_cat;
//@ beforeloop 0
    let ghost g0 = g;
//@ loop 0
    invariant
        (*rd.ptr).rwf(), buf0.len() <= g.len <= g.buf@.len(), start_len <= buf0.len(), buf0.len() + b0.len() <= usize::MAX, g.len - buf0.len() <= b0.len(),
        g.buf@.subrange(0, g.len as int) == buf0 + b0.subrange(0, g.len - buf0.len()), (*rd.ptr).bytes() == b0.skip(g.len - buf0.len()),
        *final(g.buf) == *final(g0.buf),
//@ before let buf =
    let ghost k0 = g.len - buf0.len(); let ghost gb = g.buf@; let ghost gl = g.len as int;
    proof { assert(gb.subrange(0, gl) =~= buf0 + b0.subrange(0, k0)); }
//@ after g.len += n
    proof {
        let f = g.buf@.subrange(gl, gl + n);
        assert(g.buf@.subrange(0, gl) =~= gb.subrange(0, gl));
        assert(g.buf@.subrange(gl, g.buf@.len() as int).subrange(0, n as int) =~= f);
        lemma_adv(b0, k0, f, (*rd.ptr).bytes());
        assert(g.buf@.subrange(0, gl + n) =~= g.buf@.subrange(0, gl) + f);
        assert(buf0 + b0.subrange(0, k0) + f =~= buf0 + b0.subrange(0, k0 + n));
    }
//@ endfn
//@ impl Future for ReadToEnd
//@ header impl<A: AsyncRead> ReadToEnd<'_, A>
//@ noassoc
//@ fn poll -> ret
    requires (*old(self.ptr).reader).rwf(), old(self.ptr).start_len <= old(self.ptr).buf@.len(), old(self.ptr).buf@.len() + old(self.ptr).reader.bytes().len() <= usize::MAX,
    ensures
        *final(cx) == *old(cx), final(self.ptr).reader.rwf(), final(self.ptr).start_len == old(self.ptr).start_len,
        to_end_step(*old(self.ptr).reader, *final(self.ptr).reader, old(self.ptr).buf@, final(self.ptr).buf@, old(self.ptr).start_len as int, ret),
        ret is Pending ==> final(self.ptr).reader.rarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
