//@ include fut_select_all
verus! {
//@ file futures-util/src/future/select_ok.rs
//@ struct SelectOk
// every future of `all` is still in `cur` (live, same result to come) or has failed
#[verifier::opaque]
pub open spec fn failed_or_in<F: TryFuture>(all: Seq<F>, cur: Seq<F>) -> bool {
    forall|i: int| 0 <= i < all.len() ==> in_rest(#[trigger] all[i], cur) || all[i].output() is Err
}
#[verifier::opaque]
pub open spec fn subset<F: TryFuture>(cur: Seq<F>, all: Seq<F>) -> bool { forall|j: int| 0 <= j < cur.len() ==> from_all(#[trigger] cur[j], all, -1) }
pub proof fn lemma_step<F: TryFuture>(all: Seq<F>, cur: Seq<F>, mid: Seq<F>, rest: Seq<F>, idx: int)
    requires
        failed_or_in(all, cur), subset(cur, all), 0 <= idx < cur.len(), live(cur), mid.len() == cur.len(),
        forall|i: int| 0 <= i < cur.len() && i != idx ==> same(#[trigger] mid[i], cur[i]),
        rest =~= mid.remove(idx) || rest =~= mid.update(idx, mid.last()).drop_last(),
    ensures
        subset(rest, all), live(rest), rest.len() + 1 == cur.len(),
        cur[idx].output() is Err ==> failed_or_in(all, rest),
        exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).output() == cur[idx].output(),
        cur[idx].output() is Err && rest.len() == 0 ==> forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).output() is Err,
{
    reveal(failed_or_in); reveal(subset);
    assert(from_all(cur[idx], all, -1));
    lemma_others(cur, mid, rest, idx);
    assert forall|j: int| 0 <= j < rest.len() implies from_all(#[trigger] rest[j], all, -1) && rest[j].wf() && !rest[j].done() by {
        assert(from_all(rest[j], cur, idx));
        let i = choose|i: int| 0 <= i < cur.len() && i != idx && #[trigger] same(rest[j], cur[i]);
        assert(from_all(cur[i], all, -1));
        let k = choose|k: int| 0 <= k < all.len() && k != -1 && #[trigger] same(cur[i], all[k]);
        assert(same(rest[j], all[k]));
    }
    if cur[idx].output() is Err {
        assert forall|i: int| 0 <= i < all.len() implies in_rest(#[trigger] all[i], rest) || all[i].output() is Err by {
            if in_rest(all[i], cur) {
                let j = choose|j: int| 0 <= j < cur.len() && #[trigger] same(cur[j], all[i]);
                if j != idx {
                    assert(in_rest(cur[j], rest));
                    let k = choose|k: int| 0 <= k < rest.len() && #[trigger] same(rest[k], cur[j]);
                    assert(same(rest[k], all[i]));
                }
            }
        }
    }
}
pub proof fn lemma_same<F: TryFuture>(all: Seq<F>, cur: Seq<F>, mid: Seq<F>)
    requires failed_or_in(all, cur), subset(cur, all), mid.len() == cur.len(), forall|i: int| 0 <= i < cur.len() ==> same(#[trigger] mid[i], cur[i]),
    ensures failed_or_in(all, mid), subset(mid, all), live(mid),
{
    reveal(failed_or_in); reveal(subset);
    assert forall|j: int| 0 <= j < mid.len() implies from_all(#[trigger] mid[j], all, -1) by {
        assert(from_all(cur[j], all, -1));
        let k = choose|k: int| 0 <= k < all.len() && k != -1 && #[trigger] same(cur[j], all[k]);
        assert(same(mid[j], cur[j]));
        assert(same(mid[j], all[k]));
    }
    assert forall|i: int| 0 <= i < all.len() implies in_rest(#[trigger] all[i], mid) || all[i].output() is Err by {
        if in_rest(all[i], cur) {
            let j = choose|j: int| 0 <= j < cur.len() && #[trigger] same(cur[j], all[i]);
            assert(same(mid[j], cur[j]));
            assert(same(mid[j], all[i]));
        }
    }
}
pub proof fn lemma_init<F: TryFuture>(all: Seq<F>)
    requires live(all)
    ensures failed_or_in(all, all), subset(all, all)
{
    reveal(failed_or_in); reveal(subset);
    assert forall|i: int| 0 <= i < all.len() implies in_rest(#[trigger] all[i], all) && from_all(all[i], all, -1) by { assert(same(all[i], all[i])); }
}
//@ impl Future for SelectOk
//@ header impl<Fut: TryFuture> SelectOk<Fut>
//@ noassoc
//@ fn poll -> r
//@ attr #[verifier::allow_complex_invariants]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ postsubst let mut __r = None =>> let mut __r: Option<(usize, Result<Fut::Ok, Fut::Error>)> = None
//@ subst Self::Output =>> Result<(Fut::Ok, Vec<Fut>), Fut::Error>
    requires live(old(self.ptr).inner@), old(self.ptr).inner@.len() > 0,
    ensures
        *final(cx) == *old(cx),
        r is Ready && r->0 is Ok ==> exists|i: int| 0 <= i < old(self.ptr).inner@.len() && (#[trigger] old(self.ptr).inner@[i]).output() == Ok::<Fut::Ok, Fut::Error>(((r->0)->Ok_0).0), // resolves with a success one of the futures produced
        r is Ready && r->0 is Ok ==> subset(((r->0)->Ok_0).1@, old(self.ptr).inner@), // hands back only futures that are still live
        r is Ready && r->0 is Err ==> forall|i: int| 0 <= i < old(self.ptr).inner@.len() ==> (#[trigger] old(self.ptr).inner@[i]).output() is Err, // fails only when every future failed
        r is Pending ==> live(final(self.ptr).inner@) && final(self.ptr).inner@.len() > 0 && failed_or_in(old(self.ptr).inner@, final(self.ptr).inner@) && subset(final(self.ptr).inner@, old(self.ptr).inner@),
        r is Pending ==> (forall|i: int| 0 <= i < final(self.ptr).inner@.len() ==> (#[trigger] final(self.ptr).inner@[i]).armed(old(cx).id())), // [wake]
//@ entry
    let ghost a0 = self.ptr.inner@;
    proof { lemma_init(a0); }
//@ loop 0
    invariant
        *cx == *old(cx), a0 == old(self.ptr).inner@, live(self.ptr.inner@), self.ptr.inner@.len() > 0, failed_or_in(a0, self.ptr.inner@), subset(self.ptr.inner@, a0),
//@ loopentry 0
    let ghost e0 = self.ptr.inner@;
//@ loop 1
    invariant_except_break __r is None,
    invariant
        *cx == *old(cx), self.ptr.inner@.len() == e0.len(), __i@ <= e0.len(), e0.len() > 0, live(e0),
        a0 == old(self.ptr).inner@, failed_or_in(a0, e0), subset(e0, a0),
        __r is Some ==> (__r->0).0 < e0.len() && (__r->0).1 == e0[(__r->0).0 as int].output(),
        forall|i: int| 0 <= i < e0.len() && !(__r is Some && i == (__r->0).0) ==> same(#[trigger] self.ptr.inner@[i], e0[i]),
        __r is None ==> forall|i: int| 0 <= i < __i@ ==> (#[trigger] self.ptr.inner@[i]).armed(old(cx).id()),
    ensures __r is None ==> __i@ == e0.len(),
    decreases e0.len() - __i@,
//@ loopentry 1
    assert(same(self.ptr.inner@[__i@ as int], e0[__i@ as int]));
    let ghost prev = self.ptr.inner@;
//@ loopend 1
    assert(forall|i: int| 0 <= i < e0.len() && i != __i - 1 ==> self.ptr.inner@[i] == #[trigger] prev[i]);
//@ after let item =
    let ghost mid = self.ptr.inner@;
    proof {
        if item is None { lemma_same(a0, e0, mid); }
        else {
            lemma_step(a0, e0, mid, mid.remove((item->0).0 as int), (item->0).0 as int);
            lemma_step(a0, e0, mid, mid.update((item->0).0 as int, mid.last()).drop_last(), (item->0).0 as int);
        }
    }
//@ endfn
//@ endimpl
}
