//@ include unfold_state
verus! {
//@ file futures-util/src/stream/stream/scan.rs
//@ struct Scan
pub open spec fn scan_seq<A, S, B, Fut: Future<Output = Option<(S, B)>>, F: FnMut2<S, A, Output = Fut>>(f: F, st: S, s: Seq<A>) -> Seq<B>
    decreases s.len(), 1int
{
    if s.len() == 0 { Seq::empty() } else { scan_tail(f.step(st, s[0]).0, f.step(st, s[0]).1.output(), s.skip(1)) }
}
pub open spec fn scan_tail<A, S, B, Fut: Future<Output = Option<(S, B)>>, F: FnMut2<S, A, Output = Fut>>(f: F, o: Option<(S, B)>, s: Seq<A>) -> Seq<B>
    decreases s.len(), 2int
{
    match o { Some(p) => seq![p.1] + scan_seq(f, p.0, s), None => Seq::empty() }
}
pub open spec fn scan_ok<A, S, B, Fut: Future<Output = Option<(S, B)>>, F: FnMut2<S, A, Output = Fut>>(f: F, st: S, s: Seq<A>) -> bool
    decreases s.len(), 1int
{
    s.len() == 0 || (f.step(st, s[0]).1.wf() && !f.step(st, s[0]).1.done() && scan_ok_tail(f.step(st, s[0]).0, f.step(st, s[0]).1.output(), s.skip(1)))
}
pub open spec fn scan_ok_tail<A, S, B, Fut: Future<Output = Option<(S, B)>>, F: FnMut2<S, A, Output = Fut>>(f: F, o: Option<(S, B)>, s: Seq<A>) -> bool
    decreases s.len(), 2int
{
    match o { Some(p) => scan_ok(f, p.0, s), None => true }
}
pub broadcast proof fn lemma_scan_len<A, S, B, Fut: Future<Output = Option<(S, B)>>, F: FnMut2<S, A, Output = Fut>>(f: F, st: S, s: Seq<A>)
    ensures (#[trigger] scan_seq(f, st, s)).len() <= s.len()
    decreases s.len()
{
    if s.len() != 0 { if let Some(p) = f.step(st, s[0]).1.output() { lemma_scan_len(f.step(st, s[0]).0, p.0, s.skip(1)); } }
}
pub broadcast proof fn lemma_scan_tail_len<A, S, B, Fut: Future<Output = Option<(S, B)>>, F: FnMut2<S, A, Output = Fut>>(f: F, o: Option<(S, B)>, s: Seq<A>)
    ensures (#[trigger] scan_tail(f, o, s)).len() <= s.len() + 1
{ if let Some(p) = o { lemma_scan_len(f, p.0, s); } }
pub broadcast group group_scan { group_seqs, lemma_scan_len, lemma_scan_tail_len }
//@ bcast group_scan
//@ impl Scan
//@ fn is_done_taking -> r
    ensures r == (self.state is Empty),
//@ endfn
//@ endimpl
//@ impl Stream for Scan
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.state is Value ==> scan_ok(self.f, self.state->value, self.stream.rest())
        &&& self.state is Future ==> self.state->future.wf() && !self.state->future.done() && !self.stream.ended()
            && scan_ok_tail(self.f, self.state->future.output(), self.stream.rest())
    }
    open spec fn ended(&self) -> bool { !(self.state is Empty) && self.stream.ended() }
    open spec fn rest(&self) -> Seq<B> {
        match self.state {
            UnfoldState::Value { value } => scan_seq(self.f, value, self.stream.rest()),
            UnfoldState::Future { future } => scan_tail(self.f, future.output(), self.stream.rest()),
            UnfoldState::Empty => Seq::empty(),
        }
    }
    open spec fn armed(&self, w: int) -> bool { if self.state is Future { self.state->future.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        !(*this.state.ptr is Empty),
        *this.state.ptr is Value ==> scan_ok(*this.f, (*this.state.ptr)->value, this.stream.ptr.rest()) && rest0 == scan_seq(*this.f, (*this.state.ptr)->value, this.stream.ptr.rest()),
        *this.state.ptr is Future ==> (*this.state.ptr)->future.wf() && !(*this.state.ptr)->future.done()
            && scan_ok_tail(*this.f, (*this.state.ptr)->future.output(), this.stream.ptr.rest())
            && rest0 == scan_tail(*this.f, (*this.state.ptr)->future.output(), this.stream.ptr.rest()),
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Scan
//@ fn is_terminated
//@ endfn
//@ endimpl
}
