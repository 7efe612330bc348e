//@ include trys
verus! {
pub open spec fn live<F: Future>(s: Seq<F>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() && !s[i].done() }
pub open spec fn same<F: Future>(a: F, b: F) -> bool { a.output() == b.output() && a.wf() && !a.done() }
pub open spec fn from_all<F: Future>(x: F, all: Seq<F>, idx: int) -> bool { exists|i: int| 0 <= i < all.len() && i != idx && #[trigger] same(x, all[i]) }
pub open spec fn in_rest<F: Future>(y: F, rest: Seq<F>) -> bool { exists|j: int| 0 <= j < rest.len() && #[trigger] same(rest[j], y) }
// `rest` holds exactly the futures of `all` except number `idx`, each still live
pub open spec fn others<F: Future>(rest: Seq<F>, all: Seq<F>, idx: int) -> bool {
    &&& rest.len() + 1 == all.len()
    &&& forall|j: int| 0 <= j < rest.len() ==> from_all(#[trigger] rest[j], all, idx)
    &&& forall|i: int| 0 <= i < all.len() && i != idx ==> in_rest(#[trigger] all[i], rest)
}
// what is left after a removal, however the vector is compacted
pub proof fn lemma_others<F: Future>(all: Seq<F>, mid: Seq<F>, rest: Seq<F>, idx: int)
    requires
        0 <= idx < all.len(), mid.len() == all.len(), forall|i: int| 0 <= i < all.len() && i != idx ==> same(#[trigger] mid[i], all[i]),
        rest =~= mid.remove(idx) || rest =~= mid.update(idx, mid.last()).drop_last(),
    ensures others(rest, all, idx)
{
    if rest =~= mid.remove(idx) {
        assert forall|j: int| 0 <= j < rest.len() implies from_all(#[trigger] rest[j], all, idx) by {
            let i = if j < idx { j } else { j + 1 };
            assert(rest[j] == mid[i] && same(mid[i], all[i]));
        }
        assert forall|i: int| 0 <= i < all.len() && i != idx implies in_rest(#[trigger] all[i], rest) by {
            let j = if i < idx { i } else { i - 1 };
            assert(rest[j] == mid[i] && same(mid[i], all[i]));
        }
    } else {
        assert forall|j: int| 0 <= j < rest.len() implies from_all(#[trigger] rest[j], all, idx) by {
            let i = if j == idx { all.len() - 1 } else { j };
            assert(rest[j] == mid[i] && same(mid[i], all[i]));
        }
        assert forall|i: int| 0 <= i < all.len() && i != idx implies in_rest(#[trigger] all[i], rest) by {
            let j = if i == all.len() - 1 { idx } else { i };
            assert(rest[j] == mid[i] && same(mid[i], all[i]));
        }
    }
}
//@ file futures-util/src/future/select_all.rs
//@ struct SelectAll
//@ impl SelectAll
//@ fn into_inner -> r
    ensures r == self.inner,
//@ endfn
//@ endimpl
//@ impl Future for SelectAll
//@ header impl<Fut: Future> SelectAll<Fut>
//@ noassoc
//@ fn poll -> r
//@ attr #[verifier::allow_complex_invariants]
//@ postsubst let mut __r = None =>> let mut __r: Option<(usize, Fut::Output)> = None
//@ subst Self::Output =>> (Fut::Output, usize, Vec<Fut>)
    requires live(old(self.ptr).inner@), old(self.ptr).inner@.len() > 0,
    ensures
        *final(cx) == *old(cx),
        r is Ready ==> ((r->0).1) < old(self.ptr).inner@.len() && (r->0).0 == old(self.ptr).inner@[(r->0).1 as int].output(), // output of the future at the reported index
        r is Ready ==> others((r->0).2@, old(self.ptr).inner@, (r->0).1 as int), // the remaining futures are handed back, live
        r is Pending ==> live(final(self.ptr).inner@) && final(self.ptr).inner@.len() == old(self.ptr).inner@.len() && (forall|i: int| 0 <= i < old(self.ptr).inner@.len() ==> (#[trigger] final(self.ptr).inner@[i]).output() == old(self.ptr).inner@[i].output()),
        r is Pending ==> (forall|i: int| 0 <= i < old(self.ptr).inner@.len() ==> (#[trigger] final(self.ptr).inner@[i]).armed(old(cx).id())), // [wake]
//@ entry
    let ghost e0 = self.ptr.inner@;
//@ loop 0
    invariant_except_break __r is None,
    invariant
        *cx == *old(cx), self.ptr.inner@.len() == e0.len(), __i@ <= e0.len(), e0.len() > 0, live(e0), e0 == old(self.ptr).inner@,
        __r is Some ==> (__r->0).0 < e0.len() && (__r->0).1 == e0[(__r->0).0 as int].output(),
        forall|i: int| 0 <= i < e0.len() && !(__r is Some && i == (__r->0).0) ==> same(#[trigger] self.ptr.inner@[i], e0[i]),
        __r is None ==> forall|i: int| 0 <= i < __i@ ==> (#[trigger] self.ptr.inner@[i]).armed(old(cx).id()),
    ensures __r is None ==> __i@ == e0.len(),
    decreases e0.len() - __i@,
//@ loopentry 0
    assert(same(self.ptr.inner@[__i@ as int], e0[__i@ as int]));
    let ghost prev = self.ptr.inner@;
//@ loopend 0
    assert(forall|i: int| 0 <= i < e0.len() && i != __i - 1 ==> self.ptr.inner@[i] == #[trigger] prev[i]);
//@ after let item =
    let ghost mid = self.ptr.inner@;
//@ after let rest
    proof { lemma_others(e0, mid, rest@, idx as int); }
//@ endfn
//@ endimpl
}
