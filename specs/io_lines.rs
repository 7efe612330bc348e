//@ include io_reads
verus! {
// String as its UTF-8 bytes
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_cat(a: Seq<u8>, b: Seq<u8>) requires utf8(a), utf8(b) ensures #[trigger] utf8(a + b) {}
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_empty(s: Seq<u8>) requires s.len() == 0 ensures #[trigger] utf8(s) {}
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_pop(s: Seq<u8>) requires utf8(s), s.len() > 0, s.last() < 128u8 ensures utf8(#[trigger] s.drop_last()) {}
pub broadcast group group_utf8 { axiom_utf8_cat, axiom_utf8_empty, axiom_utf8_pop }
pub struct String { pub v: Vec<u8> }
impl VDefault for String {
    open spec fn is_default(&self) -> bool { self.v@ == Seq::<u8>::empty() }
    fn vdefault() -> String { String { v: Vec::new() } }
}
impl String {
    pub fn as_mut_vec(&mut self) -> (r: &mut Vec<u8>) ensures *r == old(self).v, *final(r) == final(self).v { &mut self.v }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { self.v.len() == 0 }
    pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
    pub fn clear(&mut self) ensures final(self).v@ == Seq::<u8>::empty() { self.v.clear(); proof { assert(self.v@ =~= Seq::<u8>::empty()); } }
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r == self.v { self.v }
    #[verifier::external_body]
    pub fn ends_with(&self, c: char) -> (r: bool) requires (c as u32) < 128 ensures r == (self.v@.len() > 0 && self.v@.last() == c as u8) { unimplemented!() }
    // pop of an ASCII character removes one byte
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<char>) requires old(self).v@.len() > 0, old(self).v@.last() < 128u8 ensures final(self).v@ == old(self).v@.drop_last() { unimplemented!() }
}
pub mod str {
    use vstd::prelude::*;
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn from_utf8(s: &[u8]) -> (r: core::result::Result<(), ()>) ensures r is Ok == utf8(s@) { unimplemented!() }
    }
}
pub proof fn lemma_tail_utf8(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), utf8(s.subrange(0, n)), utf8(s.subrange(n, s.len() as int))
    ensures utf8(s)
{ broadcast use group_utf8; assert(s =~= s.subrange(0, n) + s.subrange(n, s.len() as int)); }
//@ file futures-util/src/io/read_line.rs
//@ struct ReadLine
// result of reading a line into `bytes`: p = length of what was there before the line
pub open spec fn line_done(ret: io::Result<usize>, all: Seq<u8>, p: int, buf1: Seq<u8>) -> bool {
    if utf8(all.subrange(p, all.len() as int)) { buf1 == all && (ret matches Ok(n) ==> n == all.len() - p) }
    else { buf1 == all.subrange(0, p) && ret is Err }
}
pub open spec fn line_step<R: AsyncBufRead>(r0: R, r1: R, buf0: Seq<u8>, buf1: Seq<u8>, bytes0: Seq<u8>, bytes1: Seq<u8>, read0: int, read1: int, ret: Poll<io::Result<usize>>) -> bool {
    let k = r0.bytes().len() - r1.bytes().len();
    let all = bytes0 + r0.bytes().subrange(0, k);
    &&& 0 <= k && r1.bytes() == r0.bytes().skip(k)
    &&& (ret matches Poll::Ready(x) ==> read1 == 0 && bytes1 == buf0 && line_done(x, all, bytes0.len() - read0, buf1) && (x is Ok ==> until_end(r0.bytes(), k, 10u8)))
    &&& (ret is Pending ==> bytes1 == all && read1 == read0 + k && buf1 == buf0)
    &&& (!(ret matches Poll::Ready(Ok(_))) ==> no_byte(r0.bytes(), k, 10u8) || (ret is Ready && until_end(r0.bytes(), k, 10u8)))
}
//@ fn read_line_internal -> ret
//@ subst R: AsyncBufRead + ?Sized =>> R: AsyncBufRead
    requires (*old(reader.ptr)).rwf(), *old(read) + (*old(reader.ptr)).bytes().len() <= usize::MAX,
        *old(read) <= old(bytes)@.len(), utf8(old(bytes)@.subrange(0, old(bytes)@.len() - *old(read))),
    ensures
        *final(cx) == *old(cx), (*final(reader.ptr)).rwf(),
        line_step(*old(reader.ptr), *final(reader.ptr), old(buf).v@, final(buf).v@, old(bytes)@, final(bytes)@, *old(read) as int, *final(read) as int, ret), // the line is what was read, complete and once
        ret is Ready ==> utf8(final(buf).v@), // a String never holds invalid UTF-8
        ret is Pending ==> *final(read) <= final(bytes)@.len() && final(bytes)@.len() - *final(read) == old(bytes)@.len() - *old(read) && utf8(final(bytes)@.subrange(0, final(bytes)@.len() - *final(read))),
        ret is Pending ==> (*final(reader.ptr)).rarmed(old(cx).id()), // [wake]
//@ entry
    broadcast use group_cat; broadcast use group_utf8;
    let ghost p = bytes@.len() - *read; let ghost by0 = bytes@;
//@ before *read = 0
    proof {
        assert(by0.subrange(0, p) == bytes@.subrange(0, p));
        if utf8(bytes@.subrange(p, bytes@.len() as int)) { lemma_tail_utf8(bytes@, p); }
    }
//@ endfn
//@ impl ReadLine
//@ fn new -> r
    requires utf8(old(buf).v@),
    ensures *r.reader == *old(reader), *final(r.reader) == *final(reader), r.bytes@ == old(buf).v@, *final(r.buf) == *final(buf), r.buf.v@ == Seq::<u8>::empty(), r.read == 0, !r.finished, // the caller's text is the prefix
//@ endfn
//@ endimpl
//@ impl Future for ReadLine
//@ header impl<R: AsyncBufRead> ReadLine<'_, R>
//@ noassoc
    pub open spec fn lwf(&self) -> bool { self.read <= self.bytes@.len() && utf8(self.bytes@.subrange(0, self.bytes@.len() - self.read)) && utf8(self.buf.v@) }
//@ fn poll -> ret
    requires old(self.ptr).reader.rwf(), old(self.ptr).lwf(), old(self.ptr).read + old(self.ptr).reader.bytes().len() <= usize::MAX,
    ensures
        *final(cx) == *old(cx), final(self.ptr).reader.rwf(), utf8(final(self.ptr).buf.v@), // a String never holds invalid UTF-8
        line_step(*old(self.ptr).reader, *final(self.ptr).reader, old(self.ptr).buf.v@, final(self.ptr).buf.v@, old(self.ptr).bytes@, final(self.ptr).bytes@, old(self.ptr).read as int, final(self.ptr).read as int, ret),
        ret is Pending ==> final(self.ptr).lwf() && final(self.ptr).finished == old(self.ptr).finished,
        ret is Ready ==> final(self.ptr).finished,
        ret is Pending ==> final(self.ptr).reader.rarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl Drop for ReadLine
//@ header impl<R: AsyncBufRead> ReadLine<'_, R>
//@ noassoc
//@ fn drop
//@ emit_as vdrop
    requires !old(self).finished ==> old(self).lwf(), old(self).finished ==> utf8(old(self).buf.v@),
    ensures
        utf8(final(self).buf.v@), // a String never holds invalid UTF-8, also when the future is dropped half-way
        !old(self).finished ==> final(self).buf.v@ == old(self).bytes@.subrange(0, old(self).bytes@.len() - old(self).read), // the caller gets its original text back
        old(self).finished ==> final(self).buf == old(self).buf,
        *final(final(self).buf) == *final(old(self).buf),
//@ endfn
//@ endimpl
//@ file futures-util/src/io/lines.rs
//@ struct Lines
pub open spec fn strip_nl(s: Seq<u8>) -> Seq<u8> {
    if s.len() > 0 && s.last() == 10u8 { let t = s.drop_last(); if t.len() > 0 && t.last() == 13u8 { t.drop_last() } else { t } } else { s }
}
//@ impl Stream for Lines
//@ header impl<R: AsyncBufRead> Lines<R>
//@ noassoc
    // bytes holds what was read of the current line; nothing else is kept between lines
    pub open spec fn lwf(&self) -> bool { self.reader.rwf() && self.buf.v@ == Seq::<u8>::empty() && self.read == self.bytes@.len() && self.read + self.reader.bytes().len() <= usize::MAX }
//@ fn poll_next -> ret
//@ tries pollopt
    requires old(self.ptr).lwf(),
    ensures
        *final(cx) == *old(cx), final(self.ptr).lwf(), // no byte of a previous line (complete, failed or not) leaks into a later one
        ({
            let b0 = old(self.ptr).reader.bytes(); let k = b0.len() - final(self.ptr).reader.bytes().len();
            let all = old(self.ptr).bytes@ + b0.subrange(0, k);
            &&& 0 <= k && final(self.ptr).reader.bytes() == b0.skip(k)
            &&& (ret matches Poll::Ready(Some(Ok(l))) ==> l.v@ == strip_nl(all) && until_end(b0, k, 10u8) && all.len() > 0 && utf8(l.v@) && final(self.ptr).bytes@.len() == 0) // exactly the next line, without its terminator
            &&& (ret matches Poll::Ready(None) ==> all.len() == 0 && b0.len() == 0) // ends only at the end of the data
            &&& (ret is Pending ==> final(self.ptr).bytes@ == all) // pending loses nothing
            &&& (ret matches Poll::Ready(Some(Err(_))) ==> final(self.ptr).bytes@.len() == 0)
        }),
        ret is Pending ==> final(self.ptr).reader.rarmed(old(cx).id()), // [wake]
//@ entry
    broadcast use group_utf8;
//@ endfn
//@ endimpl
//@ file futures-util/src/io/read_to_string.rs
//@ struct ReadToString
//@ fn read_to_string_internal -> ret
//@ subst R: AsyncRead + ?Sized =>> R: AsyncRead
//@ kinds result
    requires (*old(reader.ptr)).rwf(), start_len <= old(bytes)@.len(), old(bytes)@.len() + (*old(reader.ptr)).bytes().len() <= usize::MAX, utf8(old(buf).v@), old(buf).v@.len() == 0,
    ensures
        *final(cx) == *old(cx), (*final(reader.ptr)).rwf(), utf8(final(buf).v@), // a String never holds invalid UTF-8
        ({
            let b0 = (*old(reader.ptr)).bytes(); let k = b0.len() - (*final(reader.ptr)).bytes().len(); let all = old(bytes)@ + b0.subrange(0, k);
            &&& 0 <= k && (*final(reader.ptr)).bytes() == b0.skip(k)
            &&& (ret matches Poll::Ready(Ok(n)) ==> final(buf).v@ == all && n == all.len() - start_len && k == b0.len()) // all of the data, once
            &&& (ret is Pending ==> final(bytes)@ == all && final(buf).v@ == old(buf).v@)
        }),
        ret is Pending ==> (*final(reader.ptr)).rarmed(old(cx).id()), // [wake]
//@ endfn
//@ impl Future for ReadToString
//@ header impl<A: AsyncRead> ReadToString<'_, A>
//@ noassoc
//@ fn poll -> ret
    requires old(self.ptr).reader.rwf(), old(self.ptr).start_len <= old(self.ptr).bytes@.len(), old(self.ptr).bytes@.len() + old(self.ptr).reader.bytes().len() <= usize::MAX, utf8(old(self.ptr).buf.v@), old(self.ptr).buf.v@.len() == 0,
    ensures
        *final(cx) == *old(cx), final(self.ptr).reader.rwf(), utf8(final(self.ptr).buf.v@), // a String never holds invalid UTF-8
        ret matches Poll::Ready(Ok(n)) ==> final(self.ptr).buf.v@ == old(self.ptr).bytes@ + old(self.ptr).reader.bytes() && n == final(self.ptr).buf.v@.len() - old(self.ptr).start_len,
        ret is Pending ==> final(self.ptr).reader.rarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
