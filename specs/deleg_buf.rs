//@ include io_base
verus! {
// Writing through a BufReader and reading through a BufWriter go past the buffer.
//@ file futures-util/src/io/buf_reader.rs
//@ struct BufReader
//@ impl AsyncWrite for BufReader
    open spec fn wwf(&self) -> bool { self.inner.wwf() }
    open spec fn accepted(&self) -> Seq<u8> { self.inner.accepted() }
    open spec fn flushed(&self) -> bool { self.inner.flushed() }
    open spec fn closed(&self) -> bool { self.inner.closed() }
    open spec fn warmed(&self, w: int) -> bool { self.inner.warmed(w) }
//@ fn poll_write
//@ subst Result< =>> io::Result<
//@ endfn
//@ fn poll_flush
//@ subst Result< =>> io::Result<
//@ endfn
//@ fn poll_close
//@ subst Result< =>> io::Result<
//@ endfn
//@ endimpl
//@ file futures-util/src/io/buf_writer.rs
//@ struct BufWriter
//@ impl AsyncRead for BufWriter
    open spec fn rwf(&self) -> bool { self.inner.rwf() }
    open spec fn bytes(&self) -> Seq<u8> { self.inner.bytes() }
    open spec fn rarmed(&self, w: int) -> bool { self.inner.rarmed(w) }
//@ fn poll_read
//@ subst Result< =>> io::Result<
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for BufWriter
    open spec fn avail(&self) -> nat { self.inner.avail() }
    proof fn avail_bound(&self) { self.inner.avail_bound() }
//@ fn poll_fill_buf
//@ subst Result< =>> io::Result<
//@ endfn
//@ fn consume
//@ endfn
//@ endimpl
}
