//@ include io_base
verus! {
// std's Read and BufRead for &[u8], Write for Vec<u8>
#[verifier::external_body]
pub fn vio_read(x: &mut &[u8], buf: &mut [u8]) -> (r: io::Result<usize>)
    ensures final(buf)@.len() == old(buf)@.len(),
        r matches Ok(n) && n <= old(buf)@.len() && n <= old(x)@.len() && (n == old(buf)@.len() || n == old(x)@.len()) && final(buf)@.subrange(0, n as int) == old(x)@.subrange(0, n as int) && final(x)@ == old(x)@.skip(n as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vio_fill_buf<'a>(x: &'a mut &[u8]) -> (r: io::Result<&'a [u8]>) ensures final(x)@ == old(x)@, r matches Ok(s) && s@ == old(x)@ { unimplemented!() }
#[verifier::external_body]
pub fn vio_consume(x: &mut &[u8], n: usize) requires n <= old(x)@.len() ensures final(x)@ == old(x)@.skip(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vio_write(x: &mut Vec<u8>, b: &[u8]) -> (r: io::Result<usize>) ensures r matches Ok(n) && n == b@.len() && final(x)@ == old(x)@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vio_flush(x: &mut Vec<u8>) -> (r: io::Result<()>) ensures r is Ok, final(x)@ == old(x)@ { unimplemented!() }
// Readers and writers behind a pointer; `Pin<P>` is taken at P = &mut T.
//@ file futures-io/src/lib.rs
//@ impl AsyncRead for Box<T>
//@ header impl<T: AsyncRead> AsyncRead for Box<T>
    open spec fn rwf(&self) -> bool { (**self).rwf() }
    open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() }
    open spec fn rarmed(&self, w: int) -> bool { (**self).rarmed(w) }
//@ fn poll_read -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for Box<T>
//@ header impl<T: AsyncBufRead> AsyncBufRead for Box<T>
    open spec fn avail(&self) -> nat { (**self).avail() }
    proof fn avail_bound(&self) { (**self).avail_bound(); }
//@ fn poll_fill_buf -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ fn consume
//@ endfn
//@ endimpl
//@ impl AsyncWrite for Box<T>
//@ header impl<T: AsyncWrite> AsyncWrite for Box<T>
    open spec fn wwf(&self) -> bool { (**self).wwf() }
    open spec fn accepted(&self) -> Seq<u8> { (**self).accepted() }
    open spec fn flushed(&self) -> bool { (**self).flushed() }
    open spec fn closed(&self) -> bool { (**self).closed() }
    open spec fn warmed(&self, w: int) -> bool { (**self).warmed(w) }
//@ fn poll_write -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ fn poll_flush -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ fn poll_close -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ endimpl
//@ impl AsyncRead for Pin<P>
//@ header impl<T: AsyncRead> AsyncRead for Pin<&mut T>
    open spec fn rwf(&self) -> bool { (*self.ptr).rwf() }
    open spec fn bytes(&self) -> Seq<u8> { (*self.ptr).bytes() }
    open spec fn rarmed(&self, w: int) -> bool { (*self.ptr).rarmed(w) }
//@ fn poll_read -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for Pin<P>
//@ header impl<T: AsyncBufRead> AsyncBufRead for Pin<&mut T>
    open spec fn avail(&self) -> nat { (*self.ptr).avail() }
    proof fn avail_bound(&self) { (*self.ptr).avail_bound(); }
//@ fn poll_fill_buf -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ fn consume
//@ endfn
//@ endimpl
//@ impl AsyncWrite for Pin<P>
//@ header impl<T: AsyncWrite> AsyncWrite for Pin<&mut T>
    open spec fn wwf(&self) -> bool { (*self.ptr).wwf() }
    open spec fn accepted(&self) -> Seq<u8> { (*self.ptr).accepted() }
    open spec fn flushed(&self) -> bool { (*self.ptr).flushed() }
    open spec fn closed(&self) -> bool { (*self.ptr).closed() }
    open spec fn warmed(&self, w: int) -> bool { (*self.ptr).warmed(w) }
//@ fn poll_write -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ fn poll_flush -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ fn poll_close -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ endimpl
//@ impl AsyncSeek for &mut T
//@ header impl<T: AsyncSeek> AsyncSeek for &mut T
    open spec fn swf(&self) -> bool { (**self).swf() }
    open spec fn at(&self) -> int { (**self).at() }
    open spec fn end(&self) -> int { (**self).end() }
    open spec fn settled(&self) -> Seq<u8> { (**self).settled() }
    open spec fn sarmed(&self, w: int) -> bool { (**self).sarmed(w) }
//@ fn poll_seek -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ endimpl
//@ impl AsyncSeek for Box<T>
//@ header impl<T: AsyncSeek> AsyncSeek for Box<T>
    open spec fn swf(&self) -> bool { (**self).swf() }
    open spec fn at(&self) -> int { (**self).at() }
    open spec fn end(&self) -> int { (**self).end() }
    open spec fn settled(&self) -> Seq<u8> { (**self).settled() }
    open spec fn sarmed(&self, w: int) -> bool { (**self).sarmed(w) }
//@ fn poll_seek -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ endimpl
//@ impl AsyncSeek for Pin<P>
//@ header impl<T: AsyncSeek> AsyncSeek for Pin<&mut T>
    open spec fn swf(&self) -> bool { (*self.ptr).swf() }
    open spec fn at(&self) -> int { (*self.ptr).at() }
    open spec fn end(&self) -> int { (*self.ptr).end() }
    open spec fn settled(&self) -> Seq<u8> { (*self.ptr).settled() }
    open spec fn sarmed(&self, w: int) -> bool { (*self.ptr).sarmed(w) }
//@ fn poll_seek -> r
//@ subst Result< =>> io::Result<
//@ endfn
//@ endimpl
//@ impl AsyncRead for &[u8]
//@ header impl AsyncRead for &[u8]
    open spec fn rwf(&self) -> bool { true }
    open spec fn bytes(&self) -> Seq<u8> { (**self)@ }
    open spec fn rarmed(&self, w: int) -> bool { false }
//@ fn poll_read -> r
//@ subst Result< =>> io::Result<
//@ subst io::Read::read =>> vio_read
    ensures r matches Poll::Ready(Ok(_)),
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for &[u8]
//@ header impl AsyncBufRead for &[u8]
    open spec fn avail(&self) -> nat { (**self)@.len() }
    proof fn avail_bound(&self) { }
//@ fn poll_fill_buf -> r
//@ subst Result< =>> io::Result<
//@ subst io::BufRead::fill_buf =>> vio_fill_buf
    ensures r matches Poll::Ready(Ok(_)),
//@ endfn
//@ fn consume
//@ subst io::BufRead::consume =>> vio_consume
//@ endfn
//@ endimpl
//@ impl AsyncWrite for Vec<u8>
//@ header impl AsyncWrite for Vec<u8>
    open spec fn wwf(&self) -> bool { true }
    open spec fn accepted(&self) -> Seq<u8> { self@ }
    open spec fn flushed(&self) -> bool { true }
    open spec fn closed(&self) -> bool { true }
    open spec fn warmed(&self, w: int) -> bool { false }
//@ fn poll_write -> r
//@ subst Result< =>> io::Result<
//@ subst io::Write::write =>> vio_write
    ensures r matches Poll::Ready(Ok(_)),
//@ endfn
//@ fn poll_flush -> r
//@ subst Result< =>> io::Result<
//@ subst io::Write::flush =>> vio_flush
    ensures r matches Poll::Ready(Ok(_)),
//@ endfn
//@ fn poll_close -> r
//@ subst Result< =>> io::Result<
    ensures r matches Poll::Ready(Ok(_)),
//@ endfn
//@ endimpl
}
