//@ include trys
//@ include io_base
verus! {
pub type Error = io::Error;
pub trait AsRef<T: ?Sized> { spec fn bv(&self) -> Seq<u8>; proof fn bv_len(&self) ensures self.bv().len() <= isize::MAX; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
// the chunks up to the first error, concatenated
pub open spec fn cat_chunks<C: AsRef<[u8]>>(s: Seq<Result<C, io::Error>>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 || s[0] is Err { Seq::empty() } else { s[0]->Ok_0.bv() + cat_chunks(s.skip(1)) } }
//@ file futures-util/src/stream/try_stream/into_async_read.rs
//@ struct ReadState
//@ struct IntoAsyncRead
//@ impl AsyncRead for IntoAsyncRead
    open spec fn rwf(&self) -> bool {
        self.stream.wf() && (self.state is Eof || !self.stream.ended()) && (self.state matches ReadState::Ready { chunk, chunk_start } ==> chunk_start < chunk.bv().len())
    }
    open spec fn bytes(&self) -> Seq<u8> {
        match self.state {
            ReadState::Ready { chunk, chunk_start } => chunk.bv().skip(chunk_start as int) + cat_chunks(self.stream.rest()),
            ReadState::PendingChunk => cat_chunks(self.stream.rest()),
            ReadState::Eof => Seq::empty(),
        }
    }
    open spec fn rarmed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll_read
//@ subst Poll<Result<usize>> =>> Poll<io::Result<usize>>
//@ entry
    let ghost b0 = (*self.ptr).bytes(); let ghost buf0 = buf;
//@ loop 0
    invariant
        final(buf)@ == final(buf0)@, buf@ == buf0@,
        (*this.stream.ptr).wf(), *this.state is Eof || !(*this.stream.ptr).ended(),
        *this.state matches ReadState::Ready { chunk, chunk_start } ==> chunk_start < chunk.bv().len(),
        b0 == (match *this.state {
            ReadState::Ready { chunk, chunk_start } => chunk.bv().skip(chunk_start as int) + cat_chunks((*this.stream.ptr).rest()),
            ReadState::PendingChunk => cat_chunks((*this.stream.ptr).rest()),
            ReadState::Eof => Seq::empty(),
        }),
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for IntoAsyncRead
    open spec fn avail(&self) -> nat { match self.state { ReadState::Ready { chunk, chunk_start } => (chunk.bv().len() - chunk_start) as nat, _ => 0 } }
    proof fn avail_bound(&self) { }
//@ fn poll_fill_buf
//@ subst Poll<Result<&[u8]>> =>> Poll<io::Result<&[u8]>>
//@ subst &[] =>> vempty()
//@ subst &mut ReadState::Ready { ref chunk, chunk_start } = this.state { =>> ReadState::Ready { chunk, chunk_start } = this.state { let chunk_start = *chunk_start;
//@ attr #[verifier::allow_complex_invariants]
//@ entry
    let ghost b0 = (*self.ptr).bytes();
//@ loop 0
    invariant
        (*this.stream.ptr).wf(), *this.state is Eof || !(*this.stream.ptr).ended(),
        *this.state matches ReadState::Ready { chunk, chunk_start } ==> chunk_start < chunk.bv().len(),
        b0 == (match *this.state {
            ReadState::Ready { chunk, chunk_start } => chunk.bv().skip(chunk_start as int) + cat_chunks((*this.stream.ptr).rest()),
            ReadState::PendingChunk => cat_chunks((*this.stream.ptr).rest()),
            ReadState::Eof => Seq::empty(),
        }),
    ensures !(*this.state is PendingChunk),
//@ endfn
//@ fn consume
//@ entry
    proof { if let ReadState::Ready { ref chunk, chunk_start } = (*self.ptr).state { chunk.bv_len(); } }
//@ endfn
//@ endimpl
}
