//@ include prelude
verus! {
// every future the closure produces for the remaining items is fresh (assumed of user code)
pub open spec fn futs_ok<A, Fut: Future, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>) -> bool
    decreases s.len()
{
    s.len() == 0 || (f.step(s[0]).1.wf() && !f.step(s[0]).1.done() && futs_ok(f.step(s[0]).0, s.skip(1)))
}
pub open spec fn futs_ok_ref<A, Fut: Future, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<A>) -> bool
    decreases s.len()
{
    s.len() == 0 || (f.step(&s[0]).1.wf() && !f.step(&s[0]).1.done() && futs_ok_ref(f.step(&s[0]).0, s.skip(1)))
}
pub open spec fn opt_seq<A>(o: Option<A>) -> Seq<A> { match o { Some(x) => seq![x], None => Seq::empty() } }

// ---- filter
pub open spec fn filter_seq<A, Fut: Future<Output = bool>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<A>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let t = filter_seq(f.step(&s[0]).0, s.skip(1));
        if f.step(&s[0]).1.output() { seq![s[0]] + t } else { t }
    }
}
pub broadcast proof fn lemma_filter_len<A, Fut: Future<Output = bool>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<A>)
    ensures #[trigger] filter_seq(f, s).len() <= s.len()
    decreases s.len()
{ if s.len() != 0 { lemma_filter_len(f.step(&s[0]).0, s.skip(1)); } }

// ---- filter_map
pub open spec fn filter_map_seq<A, T, Fut: Future<Output = Option<T>>, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        opt_seq(f.step(s[0]).1.output()) + filter_map_seq(f.step(s[0]).0, s.skip(1))
    }
}
pub broadcast proof fn lemma_filter_map_len<A, T, Fut: Future<Output = Option<T>>, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>)
    ensures (#[trigger] filter_map_seq(f, s)).len() <= s.len()
    decreases s.len()
{ if s.len() != 0 { lemma_filter_map_len(f.step(s[0]).0, s.skip(1)); } }

// ---- then
pub open spec fn then_seq<A, Fut: Future, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>) -> Seq<Fut::Output>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { seq![f.step(s[0]).1.output()] + then_seq(f.step(s[0]).0, s.skip(1)) }
}
pub broadcast proof fn lemma_then_len<A, Fut: Future, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>)
    ensures (#[trigger] then_seq(f, s)).len() == s.len()
    decreases s.len()
{ if s.len() != 0 { lemma_then_len(f.step(s[0]).0, s.skip(1)); } }

// ---- take_while / skip_while
pub open spec fn take_while_seq<A, Fut: Future<Output = bool>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<A>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 || !f.step(&s[0]).1.output() { Seq::empty() } else { seq![s[0]] + take_while_seq(f.step(&s[0]).0, s.skip(1)) }
}
pub broadcast proof fn lemma_take_while_len<A, Fut: Future<Output = bool>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<A>)
    ensures (#[trigger] take_while_seq(f, s)).len() <= s.len()
    decreases s.len()
{ if s.len() != 0 { lemma_take_while_len(f.step(&s[0]).0, s.skip(1)); } }
pub open spec fn skip_while_seq<A, Fut: Future<Output = bool>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<A>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if f.step(&s[0]).1.output() { skip_while_seq(f.step(&s[0]).0, s.skip(1)) } else { s }
}
pub broadcast proof fn lemma_skip_while_len<A, Fut: Future<Output = bool>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<A>)
    ensures (#[trigger] skip_while_seq(f, s)).len() <= s.len()
    decreases s.len()
{ if s.len() != 0 { lemma_skip_while_len(f.step(&s[0]).0, s.skip(1)); } }

pub broadcast proof fn lemma_take_front<A>(x: A, s: Seq<A>, n: int)
    requires 0 < n <= s.len() + 1
    ensures #[trigger] (seq![x] + s).take(n) == seq![x] + s.take(n - 1)
{ assert((seq![x] + s).take(n) =~= seq![x] + s.take(n - 1)); }
pub broadcast proof fn lemma_empty_add<A>(s: Seq<A>)
    ensures #[trigger] (Seq::<A>::empty() + s) == s
{ assert(Seq::<A>::empty() + s =~= s); }
pub broadcast proof fn lemma_add_empty<A>(s: Seq<A>)
    ensures #[trigger] (s + Seq::<A>::empty()) == s
{ assert(s + Seq::<A>::empty() =~= s); }
pub broadcast proof fn lemma_assoc_front<A>(x: A, s: Seq<A>, t: Seq<A>)
    ensures #[trigger] ((seq![x] + s) + t) == seq![x] + (s + t)
{ assert((seq![x] + s) + t =~= seq![x] + (s + t)); }

pub open spec fn min_int(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn take_upto<A>(s: Seq<A>, n: int) -> Seq<A> { s.take(min_int(n, s.len() as int)) }
pub open spec fn skip_upto<A>(s: Seq<A>, n: int) -> Seq<A> { s.skip(min_int(n, s.len() as int)) }
pub broadcast proof fn lemma_take_upto_front<A>(x: A, s: Seq<A>, n: int)
    requires 0 < n
    ensures #[trigger] take_upto(seq![x] + s, n) == seq![x] + take_upto(s, n - 1)
{ assert(take_upto(seq![x] + s, n) =~= seq![x] + take_upto(s, n - 1)); }
pub broadcast proof fn lemma_take_upto_zero<A>(s: Seq<A>)
    ensures #[trigger] take_upto(s, 0) == Seq::<A>::empty()
{ assert(take_upto(s, 0) =~= Seq::<A>::empty()); }
pub broadcast proof fn lemma_take_upto_empty<A>(n: int)
    requires n >= 0
    ensures #[trigger] take_upto(Seq::<A>::empty(), n) == Seq::<A>::empty()
{ assert(take_upto(Seq::<A>::empty(), n) =~= Seq::<A>::empty()); }
pub broadcast proof fn lemma_skip_upto_front<A>(x: A, s: Seq<A>, n: int)
    requires 0 < n
    ensures #[trigger] skip_upto(seq![x] + s, n) == skip_upto(s, n - 1)
{ assert(skip_upto(seq![x] + s, n) =~= skip_upto(s, n - 1)); }
pub broadcast proof fn lemma_skip_upto_zero<A>(s: Seq<A>)
    ensures #[trigger] skip_upto(s, 0) == s
{ assert(skip_upto(s, 0) =~= s); }
pub broadcast proof fn lemma_skip_upto_empty<A>(n: int)
    requires n >= 0
    ensures #[trigger] skip_upto(Seq::<A>::empty(), n) == Seq::<A>::empty()
{ assert(skip_upto(Seq::<A>::empty(), n) =~= Seq::<A>::empty()); }

pub broadcast group group_seqs {
    lemma_push_front, lemma_filter_len, lemma_filter_map_len, lemma_then_len, lemma_take_while_len, lemma_skip_while_len,
    lemma_empty_add, lemma_add_empty, lemma_assoc_front,
    lemma_take_upto_front, lemma_take_upto_zero, lemma_take_upto_empty, lemma_skip_upto_front, lemma_skip_upto_zero, lemma_skip_upto_empty,
}
}
//@ bcast group_seqs
