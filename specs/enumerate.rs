//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/enumerate.rs
//@ struct Enumerate
pub open spec fn enum_seq<A>(n: int, s: Seq<A>) -> Seq<(usize, A)> { Seq::new(s.len(), |i: int| ((n + i) as usize, s[i])) }
pub broadcast proof fn lemma_enum_front<A>(n: int, x: A, t: Seq<A>)
    ensures #[trigger] enum_seq(n, seq![x] + t) == seq![(n as usize, x)] + enum_seq(n + 1, t)
{ assert(enum_seq(n, seq![x] + t) =~= seq![(n as usize, x)] + enum_seq(n + 1, t)); }
pub broadcast proof fn lemma_enum_empty<A>(n: int)
    ensures #[trigger] enum_seq(n, Seq::<A>::empty()) == Seq::<(usize, A)>::empty()
{ assert(enum_seq(n, Seq::<A>::empty()) =~= Seq::<(usize, A)>::empty()); }
pub broadcast group group_enum { group_seqs, lemma_enum_front, lemma_enum_empty }
//@ bcast group_enum
//@ impl Stream for Enumerate
    // the index is assumed not to overflow usize (documented: panics in debug builds / wraps otherwise)
    open spec fn wf(&self) -> bool { self.stream.wf() && self.count + self.stream.rest().len() <= usize::MAX }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<(usize, St::Item)> { enum_seq(self.count as int, self.stream.rest()) }
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Enumerate
//@ fn is_terminated
//@ endfn
//@ endimpl
}
