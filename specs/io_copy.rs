//@ include io_base
verus! {
//@ file futures-util/src/io/copy_buf.rs
//@ struct CopyBuf
//@ impl Future for CopyBuf
//@ header impl<R: AsyncBufRead, W: AsyncWrite> CopyBuf<'_, R, W>
//@ noassoc
    pub open spec fn cwf(&self) -> bool { self.reader.rwf() && self.writer.wwf() && self.amt + self.reader.bytes().len() <= u64::MAX }
//@ fn poll -> ret
    requires old(self.ptr).cwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).cwf(),
        final(self.ptr).writer.accepted() + final(self.ptr).reader.bytes() == old(self.ptr).writer.accepted() + old(self.ptr).reader.bytes(), // every byte is moved once, in order
        final(self.ptr).amt + final(self.ptr).reader.bytes().len() == old(self.ptr).amt + old(self.ptr).reader.bytes().len(), // amt counts the bytes moved
        ret matches Poll::Ready(Ok(n)) ==> n == final(self.ptr).amt && final(self.ptr).reader.bytes().len() == 0 && final(self.ptr).writer.flushed(), // completes only at the end, with everything flushed
        ret is Pending ==> final(self.ptr).reader.rarmed(old(cx).id()) || final(self.ptr).writer.warmed(old(cx).id()), // [wake]
//@ entry
    let ghost all0 = self.ptr.writer.accepted() + self.ptr.reader.bytes(); let ghost n0 = self.ptr.amt + self.ptr.reader.bytes().len();
//@ loop 0
    invariant
        (*this.reader.ptr).rwf(), (*this.writer).wwf(), *this.amt + (*this.reader.ptr).bytes().len() == n0, n0 <= u64::MAX,
        (*this.writer).accepted() + (*this.reader.ptr).bytes() == all0,
//@ loopentry 0
    let ghost b0 = (*this.reader.ptr).bytes(); let ghost a0 = (*this.writer).accepted();
//@ loopend 0
    proof { assert((*this.writer).accepted() + (*this.reader.ptr).bytes() =~= a0 + b0); }
//@ endfn
//@ endimpl
}
