//@ include fuse
verus! {
pub use vstd::multiset::Multiset;
// Assumed contract of FuturesUnordered (its own functions: unit futures_unordered): outs() is the multiset of outputs
// the futures it holds will produce; a future is handed out exactly once, when it completed.
#[verifier::external_body]
#[verifier::accept_recursive_types(Fut)]
pub struct FuturesUnordered<Fut> { x: Vec<Fut> }
impl<Fut: Future> FuturesUnordered<Fut> {
    pub uninterp spec fn outs(&self) -> Multiset<Fut::Output>;
    pub uninterp spec fn uarmed(&self, w: int) -> bool;
    pub uninterp spec fn term(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.outs() == Multiset::<Fut::Output>::empty(), !r.term() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.outs().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.outs().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, f: Fut)
        requires f.wf(), !f.done(), // [term] only futures that have not completed
        ensures final(self).outs() == old(self).outs().insert(f.output()), !final(self).term()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).outs() == Multiset::<Fut::Output>::empty(), !final(self).term() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_terminated(&self) -> (r: bool) ensures r == self.term(), r ==> self.outs().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn poll_next_unpin(&mut self, cx: &mut Context<'_>) -> (r: Poll<Option<Fut::Output>>)
        ensures
            *final(cx) == *old(cx),
            r matches Poll::Ready(Some(x)) ==> old(self).outs().count(x) > 0 && final(self).outs() == old(self).outs().remove(x),
            r matches Poll::Ready(None) ==> old(self).outs().len() == 0 && final(self).outs() == old(self).outs() && final(self).term(),
            r is Pending ==> final(self).outs() == old(self).outs() && old(self).outs().len() > 0,
            r is Pending ==> final(self).uarmed(old(cx).id()), // [wake]
    { unimplemented!() }
}
impl<Fut: Future> VDefault for FuturesUnordered<Fut> {
    open spec fn is_default(&self) -> bool { self.outs() == Multiset::<Fut::Output>::empty() && !self.term() }
    fn vdefault() -> Self { FuturesUnordered::new() }
}
#[derive(Clone, Copy)]
pub struct NonZeroUsize { pub v: usize }
impl NonZeroUsize {
    pub fn get(self) -> (r: usize) ensures r == self.v { self.v }
    pub fn new(v: usize) -> (r: Option<NonZeroUsize>) ensures r is Some == (v != 0), r is Some ==> r->0.v == v { if v == 0 { None } else { Some(NonZeroUsize { v }) } }
}
}
