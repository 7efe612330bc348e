//@ include maybe_done
//@ include big_stub
verus! {
//@ file futures-util/src/future/join_all.rs
//@ struct JoinAllKind
//@ struct JoinAll
pub open spec fn all_wf<F: Future>(s: Seq<MaybeDone<F>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() && !(s[i] is Gone) }
pub open spec fn vals<F: Future>(s: Seq<MaybeDone<F>>) -> Seq<F::Output> { Seq::new(s.len(), |i: int| md_val(s[i])) }
//@ impl Future for JoinAll
//@ header impl<F: Future> JoinAll<F>
//@ noassoc
    pub open spec fn wf(&self) -> bool { match self.kind { JoinAllKind::Small { elems } => all_wf(elems.v@), JoinAllKind::Big { fut } => fut.wf() && !fut.done() } }
//@ fn poll -> r
//@ subst Self::Output =>> Vec<F::Output>
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        old(self.ptr).kind is Small && r is Ready ==> (r->0)@ =~= vals(old(self.ptr).kind->elems.v@), // every output, in input order
        old(self.ptr).kind is Small && r is Pending ==> final(self.ptr).wf() && final(self.ptr).kind is Small && vals(final(self.ptr).kind->elems.v@) == vals(old(self.ptr).kind->elems.v@),
        old(self.ptr).kind is Small && r is Pending ==> (forall|i: int| #![trigger final(self.ptr).kind->elems.v@[i]] 0 <= i < final(self.ptr).kind->elems.v@.len() && final(self.ptr).kind->elems.v@[i] is Future ==> final(self.ptr).kind->elems.v@[i].armed(old(cx).id())), // [wake]
        old(self.ptr).kind is Big && r is Ready ==> r->0 == old(self.ptr).kind->fut.output(),
//@ entry
    let ghost e0 = self.ptr.kind->elems.v@;
//@ loop 0
    invariant
        *cx == *old(cx),
        elems.v@.len() == e0.len(), __i@ <= e0.len(),
        all_wf(elems.v@), forall|i: int| 0 <= i < e0.len() ==> md_val(#[trigger] elems.v@[i]) == md_val(e0[i]),
        all_done ==> (forall|i: int| 0 <= i < __i@ ==> (#[trigger] elems.v@[i]) is Done),
        !all_done ==> (exists|i: int| 0 <= i < __i@ && (#[trigger] elems.v@[i]) is Future),
        forall|i: int| 0 <= i < __i@ && (#[trigger] elems.v@[i]) is Future ==> elems.v@[i].armed(old(cx).id()),
    decreases e0.len() - __i@,
//@ loopentry 0
    let ghost prev = elems.v@;
//@ loopend 0
    assert(forall|i: int| 0 <= i < __i - 1 ==> elems.v@[i] == #[trigger] prev[i]);
    assert(elems.v@[__i - 1] == elems.v@[__i - 1]);
//@ afterloop 0
    proof { if !all_done { assert(vals(elems.v@) =~= vals(e0)); } }
//@ loop 1
    invariant
        elems.v@.len() == e0.len(), __i@ <= e0.len(), __c@.len() == __i@,
        forall|i: int| 0 <= i < __i@ ==> #[trigger] __c@[i] == md_val(e0[i]),
        forall|i: int| __i@ <= i < e0.len() ==> (#[trigger] elems.v@[i]) is Done && md_val(elems.v@[i]) == md_val(e0[i]),
    decreases e0.len() - __i@,
//@ endfn
//@ endimpl
}
