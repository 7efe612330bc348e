//@ include try_maybe_done
verus! {
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
#[verifier::accept_recursive_types(C)]
pub struct TryCollect<S, C> { x: core::marker::PhantomData<(S, C)> }
#[verifier::external_body]
#[verifier::accept_recursive_types(F)]
pub struct FuturesOrdered<F> { x: core::marker::PhantomData<F> }
impl<F: TryFuture> Future for TryCollect<FuturesOrdered<IntoFuture<F>>, Vec<F::Ok>> {
    type Output = Result<Vec<F::Ok>, F::Error>;
    uninterp spec fn wf(&self) -> bool;
    uninterp spec fn done(&self) -> bool;
    uninterp spec fn output(&self) -> Result<Vec<F::Ok>, F::Error>;
    uninterp spec fn armed(&self, w: int) -> bool;
    #[verifier::external_body]
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<Vec<F::Ok>, F::Error>> { unimplemented!() }
}
//@ file futures-util/src/future/try_future/into_future.rs
//@ struct IntoFuture
//@ impl Future for IntoFuture
    open spec fn wf(&self) -> bool { self.future.wf() }
    open spec fn done(&self) -> bool { self.future.done() }
    open spec fn fin(&self) -> bool { self.future.fin() }
    open spec fn output(&self) -> Result<Fut::Ok, Fut::Error> { self.future.output() }
    open spec fn armed(&self, w: int) -> bool { self.future.armed(w) }
//@ fn poll
//@ endfn
//@ endimpl
//@ impl FusedFuture for IntoFuture
    open spec fn over(&self) -> bool { self.future.over() }
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ file futures-util/src/future/try_join_all.rs
//@ struct FinalState
//@ struct TryJoinAllKind
//@ struct TryJoinAll
pub open spec fn all_wf<F: TryFuture>(s: Seq<TryMaybeDone<IntoFuture<F>>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() && !(s[i] is Gone) }
//@ impl Future for TryJoinAll
//@ header impl<F: TryFuture> TryJoinAll<F>
//@ noassoc
    pub open spec fn wf(&self) -> bool { match self.kind { TryJoinAllKind::Small { elems } => all_wf(elems.v@), TryJoinAllKind::Big { fut } => fut.wf() && !fut.done() } }
//@ fn poll -> r
//@ attr #[verifier::allow_complex_invariants]
//@ subst elem.try_poll(cx) =>> elem.poll(cx)
//@ subst Self::Output =>> Result<Vec<F::Ok>, F::Error>
    requires old(self.ptr).wf(),
    ensures
        *final(cx) == *old(cx),
        old(self.ptr).kind is Small && r is Ready && r->0 is Ok ==> ((r->0)->Ok_0)@.len() == old(self.ptr).kind->elems.v@.len() && (forall|i: int| 0 <= i < old(self.ptr).kind->elems.v@.len() ==> tmd_val(#[trigger] old(self.ptr).kind->elems.v@[i]) == Ok::<F::Ok, F::Error>(((r->0)->Ok_0)@[i])), // every output, in input order
        old(self.ptr).kind is Small && r is Ready && r->0 is Err ==> exists|i: int| 0 <= i < old(self.ptr).kind->elems.v@.len() && tmd_val(#[trigger] old(self.ptr).kind->elems.v@[i]) == Err::<F::Ok, F::Error>((r->0)->Err_0), // fails with an error one of the futures produced
        old(self.ptr).kind is Small && r is Ready ==> final(self.ptr).kind is Small && final(self.ptr).kind->elems.v@.len() == 0, // the futures are dropped on completion
        old(self.ptr).kind is Small && r is Pending ==> final(self.ptr).wf() && final(self.ptr).kind is Small && final(self.ptr).kind->elems.v@.len() == old(self.ptr).kind->elems.v@.len() && (forall|i: int| 0 <= i < old(self.ptr).kind->elems.v@.len() ==> tmd_val(#[trigger] final(self.ptr).kind->elems.v@[i]) == tmd_val(old(self.ptr).kind->elems.v@[i])),
        old(self.ptr).kind is Small && r is Pending ==> (forall|i: int| #![trigger final(self.ptr).kind->elems.v@[i]] 0 <= i < final(self.ptr).kind->elems.v@.len() && final(self.ptr).kind->elems.v@[i] is Future ==> final(self.ptr).kind->elems.v@[i].armed(old(cx).id())), // [wake]
        old(self.ptr).kind is Small && r is Pending ==> (exists|i: int| 0 <= i < final(self.ptr).kind->elems.v@.len() && (#[trigger] final(self.ptr).kind->elems.v@[i]) is Future), // [wake] pending only while a future is
        old(self.ptr).kind is Big && r is Ready ==> r->0 == old(self.ptr).kind->fut.output(),
//@ entry
    let ghost e0 = self.ptr.kind->elems.v@;
//@ loop 0
    invariant_except_break !(state is Error),
    invariant
        *cx == *old(cx),
        elems.v@.len() == e0.len(), __i@ <= e0.len(),
        !(state is Error) ==> all_wf(elems.v@),
        !(state is Error) ==> forall|i: int| 0 <= i < e0.len() ==> tmd_val(#[trigger] elems.v@[i]) == tmd_val(e0[i]),
        state is Error ==> exists|i: int| 0 <= i < e0.len() && tmd_val(#[trigger] e0[i]) == Err::<F::Ok, F::Error>(state->Error_0),
        state is AllDone ==> (forall|i: int| 0 <= i < __i@ ==> (#[trigger] elems.v@[i]) is Done),
        state is Pending ==> (exists|i: int| 0 <= i < __i@ && (#[trigger] elems.v@[i]) is Future),
        !(state is Error) ==> forall|i: int| 0 <= i < __i@ && (#[trigger] elems.v@[i]) is Future ==> elems.v@[i].armed(old(cx).id()),
    ensures !(state is Error) ==> __i@ == e0.len(),
    decreases e0.len() - __i@,
//@ loopentry 0
    let ghost prev = elems.v@;
    assert(tmd_val(prev[__i@ as int]) == tmd_val(e0[__i@ as int]));
    assert(prev[__i@ as int].wf());
//@ loopend 0
    assert(forall|i: int| 0 <= i < __i - 1 ==> elems.v@[i] == #[trigger] prev[i]);
    assert(elems.v@[__i - 1] == elems.v@[__i - 1]);
//@ loop 1
    invariant
        elems.v@.len() == e0.len(), __i@ <= e0.len(), __c@.len() == __i@,
        forall|i: int| 0 <= i < __i@ ==> Ok::<F::Ok, F::Error>(#[trigger] __c@[i]) == tmd_val(e0[i]),
        forall|i: int| __i@ <= i < e0.len() ==> (#[trigger] elems.v@[i]) is Done && tmd_val(elems.v@[i]) == tmd_val(e0[i]),
    decreases e0.len() - __i@,
//@ endfn
//@ endimpl
}
