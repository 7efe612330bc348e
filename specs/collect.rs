//@ include seqs
verus! {
pub open spec fn ext_all<A, C: Extend<A>>(c: C, s: Seq<A>) -> C
    decreases s.len()
{ if s.len() == 0 { c } else { ext_all(c.ext(s[0]), s.skip(1)) } }
//@ file futures-util/src/stream/stream/collect.rs
//@ struct Collect
//@ impl Collect
//@ dropbound C: Default =>> C: VDefault
//@ fn finish -> r
    ensures r == old(self.ptr).collection, final(self.ptr).stream == old(self.ptr).stream,
//@ endfn
//@ fn new -> r
//@ subst Default::default() =>> C::vdefault()
    ensures r.stream == stream, r.collection.is_default(),
//@ endfn
//@ endimpl
//@ impl Future for Collect
//@ dropbound C: Default =>> C: VDefault
    open spec fn wf(&self) -> bool { self.stream.wf() }
    open spec fn done(&self) -> bool { self.stream.ended() }
    open spec fn fin(&self) -> bool { self.stream.rest() == Seq::<St::Item>::empty() }
    open spec fn output(&self) -> C { ext_all(self.collection, self.stream.rest()) } // every item, once, in order
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll
//@ entry
    let ghost out0 = self.ptr.output();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(), ext_all(*this.collection, this.stream.ptr.rest()) == out0,
//@ endfn
//@ endimpl
//@ impl FusedFuture for Collect
//@ dropbound C: Default =>> C: VDefault
    open spec fn over(&self) -> bool { self.stream.rest() == Seq::<St::Item>::empty() }
//@ fn is_terminated
//@ endfn
//@ endimpl
}
