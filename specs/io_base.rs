//@ include seqs
verus! {
pub mod io {
    use vstd::prelude::*;
    verus! {
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum ErrorKind { UnexpectedEof, WriteZero, InvalidData, Interrupted, Other, InvalidInput }
    #[verifier::external_body]
    pub struct Error { x: u8 }
    impl Error {
        pub uninterp spec fn kind_of(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind_of() { unimplemented!() }
        #[verifier::external_body]
        pub fn new(k: ErrorKind, msg: &'static str) -> (r: Error) ensures r.kind_of() == k { unimplemented!() }
    }
    impl ErrorKind {
        #[verifier::external_body]
        pub fn into(self) -> (r: Error) ensures r.kind_of() == self { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    }
}
pub mod memchr {
    use vstd::prelude::*;
    verus! {
    // first position of a byte
    pub open spec fn first_at(b: u8, s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && s[i] == b && (forall|j: int| 0 <= j < i ==> s[j] != b) }
    pub open spec fn last_at(b: u8, s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && s[i] == b && (forall|j: int| i < j < s.len() ==> s[j] != b) }
    #[verifier::external_body]
    pub fn memchr(b: u8, s: &[u8]) -> (r: Option<usize>)
        ensures
            r is Some ==> first_at(b, s@, r->0 as int),
            r is None ==> (forall|j: int| 0 <= j < s@.len() ==> s@[j] != b),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn memrchr(b: u8, s: &[u8]) -> (r: Option<usize>)
        ensures
            r is Some ==> last_at(b, s@, r->0 as int),
            r is None ==> (forall|j: int| 0 <= j < s@.len() ==> s@[j] != b),
    { unimplemented!() }
    }
}
// slice indexing with ranges
pub broadcast proof fn lemma_sub_sub<A>(s: Seq<A>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn lemma_sub_empty<A>(s: Seq<A>, a: int)
    requires 0 <= a <= s.len()
    ensures #[trigger] s.subrange(a, a) == Seq::<A>::empty()
{ assert(s.subrange(a, a) =~= Seq::<A>::empty()); }
pub broadcast proof fn lemma_sub_full<A>(s: Seq<A>, n: int)
    requires n == s.len()
    ensures #[trigger] s.subrange(0, n) == s
{ assert(s.subrange(0, n) =~= s); }
// advancing through a byte sequence
pub proof fn lemma_adv<A>(b0: Seq<A>, k: int, f: Seq<A>, t: Seq<A>)
    requires 0 <= k <= b0.len(), b0.skip(k) == f + t
    ensures k + f.len() <= b0.len(), t == b0.skip(k + f.len()), b0.subrange(0, k) + f == b0.subrange(0, k + f.len()), f == b0.subrange(k, k + f.len())
{
    assert((f + t).len() == b0.len() - k);
    assert(f =~= b0.subrange(k, k + f.len())) by { assert forall|i: int| 0 <= i < f.len() implies f[i] == b0[k + i] by { assert((f + t)[i] == f[i]); assert(b0.skip(k)[i] == b0[k + i]); } };
    assert(t =~= b0.skip(k + f.len())) by { assert forall|i: int| 0 <= i < t.len() implies t[i] == b0[k + f.len() + i] by { assert((f + t)[f.len() + i] == t[i]); assert(b0.skip(k)[f.len() + i] == b0[k + f.len() + i]); } };
    assert(b0.subrange(0, k) + f =~= b0.subrange(0, k + f.len()));
}
pub broadcast proof fn lemma_assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    ensures #[trigger] (a + b + c) == a + (b + c)
{ assert(a + b + c =~= a + (b + c)); }
pub broadcast proof fn lemma_cat_left<A>(a: Seq<A>, b: Seq<A>, n: int)
    requires 0 <= n <= a.len()
    ensures #[trigger] (a + b).subrange(0, n) == a.subrange(0, n)
{ assert((a + b).subrange(0, n) =~= a.subrange(0, n)); }
pub broadcast proof fn lemma_cat_right<A>(a: Seq<A>, b: Seq<A>, n: int, m: int)
    requires a.len() <= n <= m <= a.len() + b.len()
    ensures #[trigger] (a + b).subrange(n, m) == b.subrange(n - a.len(), m - a.len())
{ assert((a + b).subrange(n, m) =~= b.subrange(n - a.len(), m - a.len())); }
pub broadcast group group_cat { lemma_cat_left, lemma_cat_right }
pub broadcast group group_io { group_seqs, lemma_sub_sub, lemma_sub_empty, lemma_sub_full, lemma_prefix_add }
pub trait VSub<T> {
    spec fn sv(&self) -> Seq<T>;
    fn vsub(&self, a: usize, b: usize) -> (r: &[T])
        requires a <= b <= self.sv().len(),
        ensures r@ == self.sv().subrange(a as int, b as int);
    fn vsub_from(&self, a: usize) -> (r: &[T])
        requires a <= self.sv().len(),
        ensures r@ == self.sv().subrange(a as int, self.sv().len() as int);
    fn vsplit_at(&self, n: usize) -> (r: (&[T], &[T]))
        requires n <= self.sv().len(),
        ensures r.0@ == self.sv().subrange(0, n as int), r.1@ == self.sv().subrange(n as int, self.sv().len() as int);
    fn vsub_mut(&mut self, a: usize, b: usize) -> (r: &mut [T])
        requires a <= b <= old(self).sv().len(),
        ensures
            r@ == old(self).sv().subrange(a as int, b as int),
            final(r)@.len() == b - a ==> final(self).sv() == old(self).sv().subrange(0, a as int) + final(r)@ + old(self).sv().subrange(b as int, old(self).sv().len() as int);
    fn vsub_from_mut(&mut self, a: usize) -> (r: &mut [T])
        requires a <= old(self).sv().len(),
        ensures
            r@ == old(self).sv().subrange(a as int, old(self).sv().len() as int),
            final(r)@.len() == old(self).sv().len() - a ==> final(self).sv() == old(self).sv().subrange(0, a as int) + final(r)@;
}
impl<T> VSub<T> for [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vsub(&self, a: usize, b: usize) -> &[T] { &self[a..b] }
    #[verifier::external_body]
    fn vsub_from(&self, a: usize) -> &[T] { &self[a..] }
    #[verifier::external_body]
    fn vsplit_at(&self, n: usize) -> (&[T], &[T]) { (&self[..n], &self[n..]) }
    #[verifier::external_body]
    fn vsub_mut(&mut self, a: usize, b: usize) -> &mut [T] { &mut self[a..b] }
    #[verifier::external_body]
    fn vsub_from_mut(&mut self, a: usize) -> &mut [T] { &mut self[a..] }
}
impl<T> VSub<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vsub(&self, a: usize, b: usize) -> &[T] { &self[a..b] }
    #[verifier::external_body]
    fn vsub_from(&self, a: usize) -> &[T] { &self[a..] }
    #[verifier::external_body]
    fn vsplit_at(&self, n: usize) -> (&[T], &[T]) { (&self[..n], &self[n..]) }
    #[verifier::external_body]
    fn vsub_mut(&mut self, a: usize, b: usize) -> &mut [T] { &mut self[a..b] }
    #[verifier::external_body]
    fn vsub_from_mut(&mut self, a: usize) -> &mut [T] { &mut self[a..] }
}
impl<'a, T> VDefault for &'a [T] {
    open spec fn is_default(&self) -> bool { (*self)@ == Seq::<T>::empty() }
    #[verifier::external_body]
    fn vdefault() -> &'a [T] { &[] }
}
impl<'a, T> VDefault for &'a mut [T] {
    open spec fn is_default(&self) -> bool { (**self)@ == Seq::<T>::empty() }
    #[verifier::external_body]
    fn vdefault() -> &'a mut [T] { &mut [] }
}
// <[T]>::split_at_mut
#[verifier::external_body]
pub fn vsplit_at_mut<'a, T>(s: &'a mut [T], n: usize) -> (r: (&'a mut [T], &'a mut [T]))
    requires n <= old(s)@.len(),
    ensures
        r.0@ == old(s)@.subrange(0, n as int), r.1@ == old(s)@.subrange(n as int, old(s)@.len() as int),
        final(s)@ == final(r.0)@ + final(r.1)@,
{ s.split_at_mut(n) }
// Vec capacity: reserve(n) leaves room for n more elements
pub uninterp spec fn cap_of<T>(v: Vec<T>) -> nat;
pub trait VCap<T> {
    spec fn cv(&self) -> Seq<T>;
    spec fn cap(&self) -> nat;
    fn vreserve(&mut self, n: usize) ensures final(self).cv() == old(self).cv(), final(self).cap() >= final(self).cv().len() + n;
    fn vcapacity(&self) -> (r: usize) ensures r == self.cap(), r >= self.cv().len();
    // unsafe Vec::set_len, used here only to shorten: never exposes uninitialised bytes
    fn vset_len(&mut self, n: usize) requires n <= old(self).cv().len(), ensures final(self).cv() == old(self).cv().subrange(0, n as int), final(self).cap() == old(self).cap();
    fn vextend_with(&mut self, b: T, n: usize)
        ensures final(self).cv().len() == old(self).cv().len() + n, final(self).cv().subrange(0, old(self).cv().len() as int) == old(self).cv();
}
impl<T: Copy> VCap<T> for Vec<T> {
    open spec fn cv(&self) -> Seq<T> { self@ }
    open spec fn cap(&self) -> nat { cap_of(*self) }
    #[verifier::external_body]
    fn vreserve(&mut self, n: usize) { self.reserve(n) }
    #[verifier::external_body]
    fn vcapacity(&self) -> usize { self.capacity() }
    #[verifier::external_body]
    fn vset_len(&mut self, n: usize) { unsafe { self.set_len(n) } }
    #[verifier::external_body]
    fn vextend_with(&mut self, b: T, n: usize) { self.extend(core::iter::repeat(b).take(n)) }
}
// std::io::Read for &[u8]: copies as much as fits, advances the slice
#[verifier::external_body]
pub fn vslice_read(s: &mut &[u8], buf: &mut [u8]) -> (r: io::Result<usize>)
    ensures
        r is Ok, r->Ok_0 == (if old(s)@.len() <= old(buf)@.len() { old(s)@.len() as usize } else { old(buf)@.len() as usize }),
        final(buf)@ == old(s)@.subrange(0, r->Ok_0 as int) + old(buf)@.subrange(r->Ok_0 as int, old(buf)@.len() as int),
        final(s)@ == old(s)@.subrange(r->Ok_0 as int, old(s)@.len() as int),
{ unimplemented!() }
// allocations never exceed isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_slice_len(s: &[u8]) ensures s@.len() <= isize::MAX {}
#[verifier::external_body]
pub proof fn axiom_vec_len(s: &Vec<u8>) ensures s@.len() <= isize::MAX {}
// std::io::Write for Vec<u8>: appends everything
#[verifier::external_body]
pub fn vvec_write(v: &mut Vec<u8>, s: &[u8]) -> (r: io::Result<usize>)
    ensures r matches Ok(n) && n == s@.len(), final(v)@ == old(v)@ + s@,
{ unimplemented!() }
pub trait VVecWrite: Sized { spec fn wv(&self) -> Seq<u8>; fn vwrite(&mut self, s: &[u8]) -> (r: io::Result<usize>) ensures r matches Ok(n) && n == s@.len(), final(self).wv() == old(self).wv() + s@; }
impl VVecWrite for Vec<u8> {
    open spec fn wv(&self) -> Seq<u8> { self@ }
    fn vwrite(&mut self, s: &[u8]) -> (r: io::Result<usize>) { vvec_write(self, s) }
}
// Vec::drain(..n) dropped at once: removes the first n elements
#[verifier::external_body]
pub fn vdrain_front<T>(v: &mut Vec<T>, n: usize)
    requires n <= old(v)@.len(),
    ensures final(v)@ == old(v)@.skip(n as int),
{ v.drain(..n); }
// <[T]>::copy_from_slice
#[verifier::external_body]
pub fn vcopy_from<T: Copy>(d: &mut [T], s: &[T])
    requires old(d)@.len() == s@.len(),
    ensures final(d)@ == s@,
{ d.copy_from_slice(s) }
pub trait VExt<T> {
    spec fn xv(&self) -> Seq<T>;
    fn vextend(&mut self, s: &[T]) ensures final(self).xv() == old(self).xv() + s@; // Vec::extend_from_slice of plain values
}
impl<T: Copy> VExt<T> for Vec<T> {
    open spec fn xv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vextend(&mut self, s: &[T]) { self.extend_from_slice(s) }
}
#[verifier::external_body]
pub fn vempty<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { &[] }
// AsyncRead: rest() is the (prophesied) byte sequence the reader still delivers
pub trait AsyncRead: Sized {
    spec fn rwf(&self) -> bool;
    spec fn bytes(&self) -> Seq<u8>;
    spec fn rarmed(&self, w: int) -> bool;
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> (r: Poll<io::Result<usize>>)
        requires (*old(self.ptr)).rwf(),
        ensures
            *final(cx) == *old(cx), (*final(self.ptr)).rwf(), final(buf)@.len() == old(buf)@.len(),
            r matches Poll::Ready(Ok(n)) ==> n <= old(buf)@.len() && (*old(self.ptr)).bytes() == final(buf)@.subrange(0, n as int) + (*final(self.ptr)).bytes(), // delivers exactly the next bytes
            r matches Poll::Ready(Ok(n)) ==> (n == 0 && old(buf)@.len() > 0 ==> (*old(self.ptr)).bytes() == Seq::<u8>::empty()), // 0 means end of data
            !(r matches Poll::Ready(Ok(_))) ==> (*final(self.ptr)).bytes() == (*old(self.ptr)).bytes(), // an error or Pending loses nothing
            r is Pending ==> (*final(self.ptr)).rarmed(old(cx).id()), // [wake] pending only with the current task's waker registered
    ;
}
pub open spec fn is_prefix<A>(p: Seq<A>, s: Seq<A>) -> bool { p.len() <= s.len() && p == s.subrange(0, p.len() as int) }
pub broadcast proof fn lemma_prefix_add<A>(p: Seq<A>, s: Seq<A>, t: Seq<A>)
    requires is_prefix(p, s)
    ensures #[trigger] is_prefix(p, s + t)
{ assert(s.subrange(0, p.len() as int) =~= (s + t).subrange(0, p.len() as int)); }
// AsyncBufRead: avail() is the number of bytes the last poll_fill_buf exposed that are not consumed yet
pub trait AsyncBufRead: AsyncRead {
    spec fn avail(&self) -> nat;
    proof fn avail_bound(&self) requires self.rwf() ensures self.avail() <= self.bytes().len();
    fn poll_fill_buf<'a>(self: Pin<&'a mut Self>, cx: &mut Context<'_>) -> (r: Poll<io::Result<&'a [u8]>>)
        requires (*old(self.ptr)).rwf(),
        ensures
            *final(cx) == *old(cx), (*final(self.ptr)).rwf(), (*final(self.ptr)).bytes() == (*old(self.ptr)).bytes(),
            r matches Poll::Ready(Ok(s)) ==> is_prefix(s@, (*old(self.ptr)).bytes()) && (s@.len() == 0 ==> (*old(self.ptr)).bytes() == Seq::<u8>::empty()) && (*final(self.ptr)).avail() == s@.len(), // exposes the next bytes; empty only at the end
            r is Pending ==> (*final(self.ptr)).rarmed(old(cx).id()), // [wake]
    ;
    fn consume(self: Pin<&mut Self>, amt: usize)
        requires (*old(self.ptr)).rwf(), amt <= (*old(self.ptr)).avail(),
        ensures
            (*final(self.ptr)).rwf(), (*final(self.ptr)).bytes() == (*old(self.ptr)).bytes().skip(amt as int), (*final(self.ptr)).avail() == (*old(self.ptr)).avail() - amt, // exactly amt bytes are taken
    ;
}
// AsyncWrite: accepted() is the byte sequence accepted so far
pub trait AsyncWrite: Sized {
    spec fn wwf(&self) -> bool;
    spec fn accepted(&self) -> Seq<u8>;
    spec fn flushed(&self) -> bool; // everything accepted has reached the destination
    spec fn closed(&self) -> bool;
    spec fn warmed(&self, w: int) -> bool;
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> (r: Poll<io::Result<usize>>)
        requires (*old(self.ptr)).wwf(),
        ensures
            *final(cx) == *old(cx), (*final(self.ptr)).wwf(),
            r matches Poll::Ready(Ok(n)) ==> n <= buf@.len() && (*final(self.ptr)).accepted() == (*old(self.ptr)).accepted() + buf@.subrange(0, n as int), // accepts exactly the first n bytes
            !(r matches Poll::Ready(Ok(_))) ==> (*final(self.ptr)).accepted() == (*old(self.ptr)).accepted(), // an error or Pending accepts nothing
            r is Pending ==> (*final(self.ptr)).warmed(old(cx).id()), // [wake]
    ;
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<io::Result<()>>)
        requires (*old(self.ptr)).wwf(),
        ensures
            *final(cx) == *old(cx), (*final(self.ptr)).wwf(), (*final(self.ptr)).accepted() == (*old(self.ptr)).accepted(),
            r matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).flushed(), // completes only when everything reached the destination
            r is Pending ==> (*final(self.ptr)).warmed(old(cx).id()), // [wake]
    ;
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<io::Result<()>>)
        requires (*old(self.ptr)).wwf(),
        ensures
            *final(cx) == *old(cx), (*final(self.ptr)).wwf(), (*final(self.ptr)).accepted() == (*old(self.ptr)).accepted(),
            r matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).flushed() && (*final(self.ptr)).closed(), // closes only after everything reached the destination
            r is Pending ==> (*final(self.ptr)).warmed(old(cx).id()), // [wake]
    ;
}
// AsyncSeek: at() is the position the next byte is read from or written to; a failed or pending seek leaves it where it was
#[derive(Clone, Copy)]
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait AsyncSeek: Sized {
    spec fn swf(&self) -> bool;
    spec fn at(&self) -> int;
    spec fn end(&self) -> int;
    spec fn settled(&self) -> Seq<u8>; // what was written before the seek (for a writer)
    spec fn sarmed(&self, w: int) -> bool;
    fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> (r: Poll<io::Result<u64>>)
        requires (*old(self.ptr)).swf(),
        ensures
            *final(cx) == *old(cx), (*final(self.ptr)).swf(), (*final(self.ptr)).settled() == (*old(self.ptr)).settled(),
            r matches Poll::Ready(Ok(n)) ==> n == (*final(self.ptr)).at() && (*final(self.ptr)).at() == seek_to(pos, (*old(self.ptr)).at(), (*old(self.ptr)).end()), // the new position, counted from where the caller is
            !(r matches Poll::Ready(Ok(_))) ==> (*final(self.ptr)).at() == (*old(self.ptr)).at(), // an error or Pending does not move
            (*final(self.ptr)).end() == (*old(self.ptr)).end(),
            r is Pending ==> (*final(self.ptr)).sarmed(old(cx).id()), // [wake]
    ;
}
pub open spec fn seek_to(p: SeekFrom, at: int, end: int) -> int { match p { SeekFrom::Start(n) => n as int, SeekFrom::End(n) => end + n, SeekFrom::Current(n) => at + n } }
}
//@ bcast group_io
verus! {
//@ file futures-io/src/lib.rs
//@ impl AsyncRead for &mut T
//@ header impl<T: AsyncRead> AsyncRead for &mut T
    open spec fn rwf(&self) -> bool { (**self).rwf() }
    open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() }
    open spec fn rarmed(&self, w: int) -> bool { (**self).rarmed(w) }
//@ fn poll_read -> r
//@ subst Result< =>> io::Result<
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ endimpl
//@ impl AsyncBufRead for &mut T
//@ header impl<T: AsyncBufRead> AsyncBufRead for &mut T
    open spec fn avail(&self) -> nat { (**self).avail() }
    proof fn avail_bound(&self) { (**self).avail_bound(); }
//@ fn poll_fill_buf -> r
//@ subst Result< =>> io::Result<
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ fn consume
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ endimpl
//@ impl AsyncWrite for &mut T
//@ header impl<T: AsyncWrite> AsyncWrite for &mut T
    open spec fn wwf(&self) -> bool { (**self).wwf() }
    open spec fn accepted(&self) -> Seq<u8> { (**self).accepted() }
    open spec fn flushed(&self) -> bool { (**self).flushed() }
    open spec fn closed(&self) -> bool { (**self).closed() }
    open spec fn warmed(&self, w: int) -> bool { (**self).warmed(w) }
//@ fn poll_write -> r
//@ subst Result< =>> io::Result<
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ fn poll_flush -> r
//@ subst Result< =>> io::Result<
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ fn poll_close -> r
//@ subst Result< =>> io::Result<
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ endimpl
}
