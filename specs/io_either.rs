//@ include io_base
//@ include either
verus! {
//@ file futures-util/src/future/either.rs
//@ substall Poll<Result< =>> Poll<io::Result<
//@ impl AsyncRead for Either
    open spec fn rwf(&self) -> bool { match self { Either::Left(x) => x.rwf(), Either::Right(x) => x.rwf() } }
    open spec fn bytes(&self) -> Seq<u8> { match self { Either::Left(x) => x.bytes(), Either::Right(x) => x.bytes() } }
    open spec fn rarmed(&self, w: int) -> bool { match self { Either::Left(x) => x.rarmed(w), Either::Right(x) => x.rarmed(w) } }
//@ fn poll_read
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for Either
    open spec fn avail(&self) -> nat { match self { Either::Left(x) => x.avail(), Either::Right(x) => x.avail() } }
    proof fn avail_bound(&self) { match self { Either::Left(x) => x.avail_bound(), Either::Right(x) => x.avail_bound() } }
//@ fn poll_fill_buf
//@ endfn
//@ fn consume
//@ endfn
//@ endimpl
//@ impl AsyncWrite for Either
    open spec fn wwf(&self) -> bool { match self { Either::Left(x) => x.wwf(), Either::Right(x) => x.wwf() } }
    open spec fn accepted(&self) -> Seq<u8> { match self { Either::Left(x) => x.accepted(), Either::Right(x) => x.accepted() } }
    open spec fn flushed(&self) -> bool { match self { Either::Left(x) => x.flushed(), Either::Right(x) => x.flushed() } }
    open spec fn closed(&self) -> bool { match self { Either::Left(x) => x.closed(), Either::Right(x) => x.closed() } }
    open spec fn warmed(&self, w: int) -> bool { match self { Either::Left(x) => x.warmed(w), Either::Right(x) => x.warmed(w) } }
//@ fn poll_write
//@ endfn
//@ fn poll_flush
//@ endfn
//@ fn poll_close
//@ endfn
//@ endimpl
//@ impl AsyncSeek for Either
    open spec fn swf(&self) -> bool { match self { Either::Left(x) => x.swf(), Either::Right(x) => x.swf() } }
    open spec fn at(&self) -> int { match self { Either::Left(x) => x.at(), Either::Right(x) => x.at() } }
    open spec fn end(&self) -> int { match self { Either::Left(x) => x.end(), Either::Right(x) => x.end() } }
    open spec fn settled(&self) -> Seq<u8> { match self { Either::Left(x) => x.settled(), Either::Right(x) => x.settled() } }
    open spec fn sarmed(&self, w: int) -> bool { match self { Either::Left(x) => x.sarmed(w), Either::Right(x) => x.sarmed(w) } }
//@ fn poll_seek
//@ endfn
//@ endimpl
}
