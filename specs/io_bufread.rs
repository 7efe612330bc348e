//@ include io_base
verus! {
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::into_boxed_slice ](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
pub assume_specification[ i64::unsigned_abs ](x: i64) -> (r: u64)
    ensures r == (if x < 0 { -(x as int) } else { x as int });
//@ file futures-util/src/io/buf_reader.rs
//@ struct BufReader
//@ impl BufReader
//@ fn with_capacity -> r
    ensures r.inner == inner, r.pos == 0, r.cap == 0, r.buffer@.len() == capacity,
//@ endfn
//@ fn buffer -> r
    requires self.pos <= self.cap <= self.buffer@.len(),
    ensures r@ == self.buffer@.subrange(self.pos as int, self.cap as int),
//@ endfn
//@ fn discard_buffer
    ensures final(self.ptr).inner == old(self.ptr).inner, final(self.ptr).pos == 0, final(self.ptr).cap == 0, final(self.ptr).buffer == old(self.ptr).buffer,
//@ endfn
//@ endimpl
//@ impl AsyncRead for BufReader
    open spec fn rwf(&self) -> bool { self.inner.rwf() && self.pos <= self.cap <= self.buffer@.len() && self.buffer@.len() > 0 }
    open spec fn bytes(&self) -> Seq<u8> { self.buffer@.subrange(self.pos as int, self.cap as int) + self.inner.bytes() } // what is buffered, then the rest of the source
    open spec fn rarmed(&self, w: int) -> bool { self.inner.rarmed(w) }
//@ fn poll_read
//@ subst rem.read(buf) =>> vslice_read(&mut rem, buf)
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for BufReader
    open spec fn avail(&self) -> nat { (self.cap - self.pos) as nat }
    proof fn avail_bound(&self) { }
//@ fn poll_fill_buf
//@ endfn
//@ fn consume
//@ endfn
//@ endimpl
//@ impl AsyncSeek for BufReader
//@ header impl<R: AsyncRead + AsyncSeek> AsyncSeek for BufReader<R>
    open spec fn swf(&self) -> bool { self.inner.swf() && self.pos <= self.cap <= self.buffer@.len() && self.buffer@.len() > 0 }
    open spec fn at(&self) -> int { self.inner.at() - (self.cap - self.pos) } // the inner reader is ahead by what is buffered
    open spec fn end(&self) -> int { self.inner.end() }
    open spec fn settled(&self) -> Seq<u8> { self.inner.settled() }
    open spec fn sarmed(&self, w: int) -> bool { self.inner.sarmed(w) }
//@ fn poll_seek -> ret
    ensures ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).cap == final(self.ptr).pos, // the buffer is discarded: the inner reader is where the caller is
//@ entry
    proof { axiom_slice_len(&*self.ptr.buffer); }
//@ endfn
//@ endimpl
//@ impl BufReader
//@ header impl<R: AsyncRead + AsyncSeek> BufReader<R>
//@ fn poll_seek_relative -> ret
//@ kinds result,poll
    requires (*old(self.ptr)).swf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).swf(),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).at() == (*old(self.ptr)).at() + offset, // moves by exactly the offset
        !(ret matches Poll::Ready(Ok(_))) ==> (*final(self.ptr)).at() == (*old(self.ptr)).at(),
        ret is Pending ==> (*final(self.ptr)).sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ struct SeekRelative
//@ impl Future for SeekRelative
//@ header impl<'a, R: AsyncRead + AsyncSeek> SeekRelative<'a, R>
//@ noassoc
//@ fn poll -> ret
//@ kinds result,poll
    requires (*old(self.ptr).inner.ptr).swf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr).inner.ptr).swf(), final(self.ptr).offset == old(self.ptr).offset,
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr).inner.ptr).at() == (*old(self.ptr).inner.ptr).at() + old(self.ptr).offset,
        !(ret matches Poll::Ready(Ok(_))) ==> (*final(self.ptr).inner.ptr).at() == (*old(self.ptr).inner.ptr).at(),
        ret is Pending ==> (*final(self.ptr).inner.ptr).sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ file futures-util/src/io/seek.rs
//@ struct Seek
//@ impl Future for Seek
//@ header impl<'a, S: AsyncSeek> Seek<'a, S>
//@ noassoc
//@ fn poll -> ret
    requires old(self.ptr).seek.swf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).seek.swf(), final(self.ptr).pos == old(self.ptr).pos,
        ret matches Poll::Ready(Ok(n)) ==> n == final(self.ptr).seek.at() && n == seek_to(old(self.ptr).pos, old(self.ptr).seek.at(), old(self.ptr).seek.end()),
        ret is Pending ==> final(self.ptr).seek.at() == old(self.ptr).seek.at() && final(self.ptr).seek.sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ file futures-io/src/lib.rs
//@ impl AsyncSeek for &mut T
//@ header impl<T: AsyncSeek> AsyncSeek for &mut T
    open spec fn swf(&self) -> bool { (**self).swf() }
    open spec fn at(&self) -> int { (**self).at() }
    open spec fn end(&self) -> int { (**self).end() }
    open spec fn settled(&self) -> Seq<u8> { (**self).settled() }
    open spec fn sarmed(&self, w: int) -> bool { (**self).sarmed(w) }
//@ fn poll_seek -> r
//@ subst Result< =>> io::Result<
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ endimpl
}
