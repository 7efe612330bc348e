//@ include fuse
verus! {
pub trait StreamFuse: Stream {
    fn fuse(self) -> (r: Fuse<Self>) ensures r.stream == self, !r.done { Fuse::new(self) }
}
impl<S: Stream> StreamFuse for S {}
//@ file futures-util/src/stream/stream/zip.rs
//@ struct Zip
pub open spec fn zip_seq<A, B>(s: Seq<A>, t: Seq<B>) -> Seq<(A, B)> { Seq::new(min_int(s.len() as int, t.len() as int) as nat, |i: int| (s[i], t[i])) }
pub broadcast proof fn lemma_zip_front<A, B>(x: A, s: Seq<A>, y: B, t: Seq<B>)
    ensures #[trigger] zip_seq(seq![x] + s, seq![y] + t) == seq![(x, y)] + zip_seq(s, t)
{ assert(zip_seq(seq![x] + s, seq![y] + t) =~= seq![(x, y)] + zip_seq(s, t)); }
pub broadcast proof fn lemma_zip_empty<A, B>(s: Seq<A>, t: Seq<B>)
    requires s.len() == 0 || t.len() == 0
    ensures #[trigger] zip_seq(s, t) == Seq::<(A, B)>::empty()
{ assert(zip_seq(s, t) =~= Seq::<(A, B)>::empty()); }
pub broadcast group group_zip { group_seqs, lemma_zip_front, lemma_zip_empty }
//@ bcast group_zip
//@ impl Zip
//@ fn new -> r
    requires stream1.wf(), stream2.wf(), !stream1.ended(), !stream2.ended(), stream1.rest().len() <= usize::MAX, stream2.rest().len() <= usize::MAX,
    ensures r.wf(), r.rest() == zip_seq(stream1.rest(), stream2.rest()),
//@ endfn
//@ endimpl
//@ impl Stream for Zip
    open spec fn wf(&self) -> bool {
        &&& self.stream1.wf() && self.stream2.wf()
        &&& opt_seq(self.queued1).len() + self.stream1.rest().len() <= usize::MAX // assumed: a stream yields at most usize::MAX items
        &&& opt_seq(self.queued2).len() + self.stream2.rest().len() <= usize::MAX
        &&& self.queued1 is Some ==> !self.stream1.done
        &&& self.queued2 is Some ==> !self.stream2.done
    }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<(St1::Item, St2::Item)> { zip_seq(opt_seq(self.queued1) + self.stream1.rest(), opt_seq(self.queued2) + self.stream2.rest()) }
    open spec fn armed(&self, w: int) -> bool {
        &&& self.queued1 is None || self.queued2 is None
        &&& self.queued1 is None ==> self.stream1.armed(w)
        &&& self.queued2 is None ==> self.stream2.armed(w)
    }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Zip
//@ fn is_terminated
//@ endfn
//@ endimpl
}
