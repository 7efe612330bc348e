//@ include io_base
verus! {
//@ file futures-util/src/io/write_all.rs
//@ struct WriteAll
//@ impl Future for WriteAll
//@ header impl<W: AsyncWrite> WriteAll<'_, W>
//@ noassoc
//@ fn poll -> r
    requires old(self.ptr).writer.wwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).writer.wwf(),
        final(self.ptr).writer.accepted() + final(self.ptr).buf@ == old(self.ptr).writer.accepted() + old(self.ptr).buf@, // every byte is written once, in order
        r matches Poll::Ready(Ok(_)) ==> final(self.ptr).buf@.len() == 0, // completes only when all of it was accepted
        r is Pending ==> final(self.ptr).writer.warmed(old(cx).id()), // [wake]
//@ entry
    let ghost all0 = self.ptr.writer.accepted() + self.ptr.buf@;
//@ loop 0
    invariant
        
        this.writer.wwf(), this.writer.accepted() + this.buf@ == all0,
//@ endfn
//@ endimpl
}
