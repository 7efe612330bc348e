//@ include io_base
//@ include ab_base
verus! {
//@ trackall load store swap register wake => Tracked(&mut *tok)
//@ file futures-util/src/abortable.rs
//@ struct Aborted
//@ struct AbortInner
//@ struct AbortRegistration
//@ file futures-util/src/io/copy_buf_abortable.rs
//@ struct CopyBufAbortable
//@ impl Future for CopyBufAbortable
//@ header impl<R: AsyncBufRead, W: AsyncWrite> CopyBufAbortable<'_, R, W>
//@ noassoc
    pub open spec fn cwf(&self) -> bool { self.reader.rwf() && self.writer.wwf() && self.amt + self.reader.bytes().len() <= u64::MAX }
//@ fn poll -> ret
//@ subst Self::Output =>> Result<Result<u64, Aborted>, io::Error>
//@ params Tracked(tok): Tracked<&mut AbTok>
//@ attr #[verifier::allow_complex_invariants]
    requires old(self.ptr).cwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).cwf(),
        final(self.ptr).writer.accepted() + final(self.ptr).reader.bytes() == old(self.ptr).writer.accepted() + old(self.ptr).reader.bytes(), // every byte is moved once, in order
        final(self.ptr).amt + final(self.ptr).reader.bytes().len() == old(self.ptr).amt + old(self.ptr).reader.bytes().len(), // amt counts the bytes moved
        ret matches Poll::Ready(Ok(Ok(n))) ==> n == final(self.ptr).amt && final(self.ptr).reader.bytes().len() == 0 && final(self.ptr).writer.flushed(), // completes only at the end, with everything flushed
        old(tok).known ==> (ret matches Poll::Ready(Ok(Err(_)))) && final(self.ptr).reader == old(self.ptr).reader && *final(self.ptr).writer == *old(self.ptr).writer, // aborted: moves nothing more
        ret matches Poll::Ready(Ok(Err(_))) ==> final(tok).known, // Aborted only if abort was called
        ret is Pending ==> final(self.ptr).reader.rarmed(old(cx).id()) || final(self.ptr).writer.warmed(old(cx).id()), // [wake]
        ret is Pending ==> final(tok).reg == Some(old(cx).id()) && final(tok).checked && !final(tok).known, // [wake] registered with the handle, flag unset after that
//@ entry
    let ghost all0 = self.ptr.writer.accepted() + self.ptr.reader.bytes(); let ghost n0 = self.ptr.amt + self.ptr.reader.bytes().len();
    let ghost r0 = self.ptr.reader; let ghost w0 = *self.ptr.writer;
//@ loop 0
    invariant
        (*this.reader.ptr).rwf(), (**this.writer).wwf(), *this.amt + (*this.reader.ptr).bytes().len() == n0, n0 <= u64::MAX,
        (**this.writer).accepted() + (*this.reader.ptr).bytes() == all0,
        old(tok).known ==> tok.known && *this.reader.ptr == r0 && **this.writer == w0,
        *cx == *old(cx),
    ensures (*this.reader.ptr).rarmed(old(cx).id()) || (**this.writer).warmed(old(cx).id()), !tok.known, !old(tok).known,
//@ loopentry 0
    let ghost b0 = (*this.reader.ptr).bytes(); let ghost a0 = (**this.writer).accepted();
//@ loopend 0
    proof { assert((**this.writer).accepted() + (*this.reader.ptr).bytes() =~= a0 + b0); }
//@ endfn
//@ endimpl
}
