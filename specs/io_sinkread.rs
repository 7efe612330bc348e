//@ include io_base
verus! {
// core::convert::AsRef<[u8]>: a fixed view of the bytes
pub trait AsRef<T: ?Sized> { spec fn bv(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
//@ file futures-util/src/io/into_sink.rs
//@ struct Block
//@ struct IntoSink
//@ impl IntoSink
//@ dropbound Item: AsRef<[u8]> =>> Item: AsRef<[u8]>
    pub open spec fn swf(&self) -> bool { self.writer.wwf() && (self.buffer matches Some(b) ==> b.offset <= b.bytes.bv().len()) }
    // bytes accepted by the sink: those the writer took, then the rest of the buffered item
    pub open spec fn taken(&self) -> Seq<u8> { self.writer.accepted() + (match self.buffer { Some(b) => b.bytes.bv().skip(b.offset as int), None => Seq::<u8>::empty() }) }
//@ fn poll_flush_buffer -> ret
    requires old(self.ptr).swf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).swf(), final(self.ptr).taken() == old(self.ptr).taken(), // every byte of an item reaches the writer once, in order
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).buffer is None,
        ret is Pending ==> final(self.ptr).writer.warmed(old(cx).id()), // [wake]
//@ noauto
//@ entry
    let ghost all0 = self.ptr.taken();
//@ beforeloop 0
    let ghost buf0 = buffer; let ghost bv = buffer.bytes.bv();
//@ loop 0
    invariant
        *cx == *old(cx), *final(this.writer.ptr) == *final(__this0.writer.ptr), *final(buffer) == *final(buf0),
        (*this.writer.ptr).wwf(), buffer.bytes.bv() == bv, buffer.offset <= bv.len(), buffer.bytes == buf0.bytes,
        (*this.writer.ptr).accepted() + bv.skip(buffer.offset as int) == all0,
//@ loopentry 0
    let ghost a0 = (*this.writer.ptr).accepted(); let ghost o0 = buffer.offset as int;
    proof { assert(forall|n: int| 0 <= n <= bv.len() - o0 ==> a0 + #[trigger] bv.subrange(o0, bv.len() as int).subrange(0, n) + bv.skip(o0 + n) =~= a0 + bv.skip(o0)); }
//@ after let bytes =
    proof { axiom_slice_len(bytes); }
//@ endfn
//@ endimpl
//@ impl Sink for IntoSink
//@ header impl<W: AsyncWrite, Item: AsRef<[u8]>> IntoSink<W, Item>
//@ noassoc
//@ fn poll_ready -> ret
    requires old(self.ptr).swf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).swf(), final(self.ptr).taken() == old(self.ptr).taken(),
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).buffer is None, // ready only with room for an item
        ret is Pending ==> final(self.ptr).writer.warmed(old(cx).id()), // [wake]
//@ endfn
//@ fn start_send -> ret
    requires old(self.ptr).swf(), old(self.ptr).buffer is None,
    ensures final(self.ptr).swf(), ret is Ok, final(self.ptr).taken() == old(self.ptr).taken() + item.bv(), // the item's bytes follow those sent before
//@ endfn
//@ fn poll_flush -> ret
    requires old(self.ptr).swf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).swf(), final(self.ptr).taken() == old(self.ptr).taken(),
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).buffer is None && final(self.ptr).writer.flushed(), // flushed only when every byte reached the destination
        ret is Pending ==> final(self.ptr).writer.warmed(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_close -> ret
    requires old(self.ptr).swf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).swf(), final(self.ptr).taken() == old(self.ptr).taken(),
        ret matches Poll::Ready(Ok(_)) ==> final(self.ptr).buffer is None && final(self.ptr).writer.flushed() && final(self.ptr).writer.closed(),
        ret is Pending ==> final(self.ptr).writer.warmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
