//@ include io_base
verus! {
//@ file futures-util/src/io/empty.rs
//@ struct Empty
//@ impl AsyncRead for Empty
    open spec fn rwf(&self) -> bool { true }
    open spec fn bytes(&self) -> Seq<u8> { Seq::empty() }
    open spec fn rarmed(&self, w: int) -> bool { false }
//@ fn poll_read
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for Empty
    open spec fn avail(&self) -> nat { 0 }
    proof fn avail_bound(&self) { }
//@ fn poll_fill_buf
//@ subst &[] =>> vempty()
//@ endfn
//@ fn consume
//@ endfn
//@ endimpl
//@ file futures-util/src/io/sink.rs
//@ struct Sink
//@ impl AsyncWrite for Sink
//@ header impl Sink
//@ fn poll_write -> ret
    ensures ret matches Poll::Ready(Ok(n)) && n == buf@.len(), // swallows everything offered
//@ endfn
//@ fn poll_flush -> ret
    ensures ret matches Poll::Ready(Ok(_)),
//@ endfn
//@ fn poll_close -> ret
    ensures ret matches Poll::Ready(Ok(_)),
//@ endfn
//@ endimpl
//@ file futures-util/src/io/flush.rs
//@ struct Flush
//@ impl Future for Flush
//@ header impl<W: AsyncWrite> Flush<'_, W>
//@ noassoc
//@ fn poll -> ret
    requires old(self.ptr).writer.wwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).writer.wwf(), final(self.ptr).writer.accepted() == old(self.ptr).writer.accepted(),
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).writer.flushed(), // completes only when everything reached the destination
        ret is Pending ==> final(self.ptr).writer.warmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ file futures-util/src/io/close.rs
//@ struct Close
//@ impl Future for Close
//@ header impl<W: AsyncWrite> Close<'_, W>
//@ noassoc
//@ fn poll -> ret
    requires old(self.ptr).writer.wwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).writer.wwf(), final(self.ptr).writer.accepted() == old(self.ptr).writer.accepted(),
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).writer.flushed() && final(self.ptr).writer.closed(), // completes only once closed with everything flushed
        ret is Pending ==> final(self.ptr).writer.warmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ file futures-util/src/io/write.rs
//@ struct Write
//@ impl Future for Write
//@ header impl<W: AsyncWrite> Write<'_, W>
//@ noassoc
//@ fn poll -> ret
    requires old(self.ptr).writer.wwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).writer.wwf(), final(self.ptr).buf == old(self.ptr).buf,
        ret matches Poll::Ready(Ok(n)) ==> n <= old(self.ptr).buf@.len() && final(self.ptr).writer.accepted() == old(self.ptr).writer.accepted() + old(self.ptr).buf@.subrange(0, n as int), // reports exactly the bytes accepted
        !(ret matches Poll::Ready(Ok(_))) ==> final(self.ptr).writer.accepted() == old(self.ptr).writer.accepted(),
        ret is Pending ==> final(self.ptr).writer.warmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
