//@ include seqs
verus! {
pub open spec fn ext_all<A, C: Extend<A>>(c: C, s: Seq<A>) -> C
    decreases s.len()
{ if s.len() == 0 { c } else { ext_all(c.ext(s[0]), s.skip(1)) } }
pub open spec fn lefts<A, B>(s: Seq<(A, B)>) -> Seq<A> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn rights<A, B>(s: Seq<(A, B)>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i].1) }
pub broadcast proof fn lemma_lefts<A, B>(x: (A, B), s: Seq<(A, B)>)
    ensures (#[trigger] lefts(seq![x] + s)) == seq![x.0] + lefts(s)
{ assert(lefts(seq![x] + s) =~= seq![x.0] + lefts(s)); }
pub broadcast proof fn lemma_rights<A, B>(x: (A, B), s: Seq<(A, B)>)
    ensures (#[trigger] rights(seq![x] + s)) == seq![x.1] + rights(s)
{ assert(rights(seq![x] + s) =~= seq![x.1] + rights(s)); }
pub broadcast group group_unzip { group_seqs, lemma_lefts, lemma_rights }
//@ bcast group_unzip
//@ file futures-util/src/stream/stream/unzip.rs
//@ struct Unzip
//@ impl Unzip
//@ dropbound : Default =>> : VDefault
//@ fn finish -> r
    ensures r.0 == old(self.ptr).left, r.1 == old(self.ptr).right, final(self.ptr).stream == old(self.ptr).stream,
//@ endfn
//@ endimpl
//@ impl Future for Unzip
//@ dropbound : Default =>> : VDefault
    open spec fn wf(&self) -> bool { self.stream.wf() }
    open spec fn done(&self) -> bool { self.stream.ended() }
    open spec fn fin(&self) -> bool { self.stream.rest() == Seq::<(A, B)>::empty() }
    open spec fn output(&self) -> (FromA, FromB) { (ext_all(self.left, lefts(self.stream.rest())), ext_all(self.right, rights(self.stream.rest()))) }
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll
//@ entry
    let ghost out0 = self.ptr.output();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        ext_all(*this.left, lefts(this.stream.ptr.rest())) == out0.0, ext_all(*this.right, rights(this.stream.ptr.rest())) == out0.1,
//@ endfn
//@ endimpl
//@ impl FusedFuture for Unzip
//@ dropbound : Default =>> : VDefault
    open spec fn over(&self) -> bool { self.stream.rest() == Seq::<(A, B)>::empty() }
//@ fn is_terminated
//@ endfn
//@ endimpl
}
