//@ include seqs
verus! {
//@ file futures-util/src/stream/stream/map.rs
//@ struct Map

pub open spec fn map_seq<A, F: FnMut1<A>>(f: F, s: Seq<A>) -> Seq<F::Output>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { seq![f.step(s[0]).1] + map_seq(f.step(s[0]).0, s.skip(1)) }
}
pub proof fn lemma_map_len<A, F: FnMut1<A>>(f: F, s: Seq<A>)
    ensures map_seq(f, s).len() == s.len()
    decreases s.len()
{
    if s.len() != 0 { lemma_map_len(f.step(s[0]).0, s.skip(1)); }
}

//@ impl Stream for Map
    open spec fn wf(&self) -> bool { self.stream.wf() }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<F::Output> { map_seq(self.f, self.stream.rest()) }
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ entry
    proof { lemma_map_len(self.f, self.stream.rest()); }
//@ endfn
//@ endimpl
//@ impl FusedStream for Map
//@ fn is_terminated
//@ endfn
//@ endimpl
}
