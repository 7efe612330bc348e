//@ include trys
verus! {
// every future the closure produces for the remaining Ok items is fresh (assumed of user code)
pub open spec fn tfuts_ok<A, E, Fut: Future, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> bool
    decreases s.len()
{
    s.len() == 0 || (match s[0] { Ok(a) => f.step(a).1.wf() && !f.step(a).1.done() && tfuts_ok(f.step(a).0, s.skip(1)), Err(_) => tfuts_ok(f, s.skip(1)) })
}
pub open spec fn tfuts_ok_ref<A, E, Fut: Future, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> bool
    decreases s.len()
{
    s.len() == 0 || (match s[0] { Ok(a) => f.step(&a).1.wf() && !f.step(&a).1.done() && tfuts_ok_ref(f.step(&a).0, s.skip(1)), Err(_) => tfuts_ok_ref(f, s.skip(1)) })
}
pub open spec fn efuts_ok<A, E, Fut: Future, F: FnMut1<E, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> bool
    decreases s.len()
{
    s.len() == 0 || (match s[0] { Err(a) => f.step(a).1.wf() && !f.step(a).1.done() && efuts_ok(f.step(a).0, s.skip(1)), Ok(_) => efuts_ok(f, s.skip(1)) })
}
// ---- and_then
pub open spec fn and_then_seq<A, B, E, Fut: Future<Output = Result<B, E>>, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> Seq<Result<B, E>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s[0] {
        Ok(a) => seq![f.step(a).1.output()] + and_then_seq(f.step(a).0, s.skip(1)),
        Err(e) => seq![Err(e)] + and_then_seq(f, s.skip(1)),
    } }
}
pub proof fn lemma_and_then_len<A, B, E, Fut: Future<Output = Result<B, E>>, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<Result<A, E>>)
    ensures and_then_seq(f, s).len() == s.len()
    decreases s.len()
{ if s.len() != 0 { match s[0] { Ok(a) => lemma_and_then_len(f.step(a).0, s.skip(1)), Err(_) => lemma_and_then_len(f, s.skip(1)) } } }
//@ file futures-util/src/stream/try_stream/and_then.rs
//@ struct AndThen
//@ impl Stream for AndThen
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.future is Some ==> self.future->0.wf() && !self.future->0.done() && !self.stream.ended()
        &&& tfuts_ok(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<Result<Fut::Ok, St::Error>> {
        (if self.future is Some { seq![self.future->0.output()] } else { Seq::empty() }) + and_then_seq(self.f, self.stream.rest())
    }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ subst Self::Item =>> Result<Fut::Ok, St::Error>
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        (*this.future.ptr) is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done(),
        tfuts_ok(*this.f, this.stream.ptr.rest()),
        rest0 == (if (*this.future.ptr) is Some { seq![(*this.future.ptr)->0.output()] } else { Seq::empty() }) + and_then_seq(*this.f, this.stream.ptr.rest()),
//@ endfn
//@ fn size_hint
//@ entry
    proof { lemma_and_then_len(self.f, self.stream.rest()); }
//@ endfn
//@ endimpl
//@ impl FusedStream for AndThen
//@ fn is_terminated
//@ endfn
//@ endimpl
// ---- or_else
pub open spec fn or_else_seq<A, B, E, Fut: Future<Output = Result<A, B>>, F: FnMut1<E, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> Seq<Result<A, B>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s[0] {
        Err(a) => seq![f.step(a).1.output()] + or_else_seq(f.step(a).0, s.skip(1)),
        Ok(e) => seq![Ok(e)] + or_else_seq(f, s.skip(1)),
    } }
}
pub proof fn lemma_or_else_len<A, B, E, Fut: Future<Output = Result<A, B>>, F: FnMut1<E, Output = Fut>>(f: F, s: Seq<Result<A, E>>)
    ensures or_else_seq(f, s).len() == s.len()
    decreases s.len()
{ if s.len() != 0 { match s[0] { Err(a) => lemma_or_else_len(f.step(a).0, s.skip(1)), Ok(_) => lemma_or_else_len(f, s.skip(1)) } } }
//@ file futures-util/src/stream/try_stream/or_else.rs
//@ struct OrElse
//@ impl Stream for OrElse
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.future is Some ==> self.future->0.wf() && !self.future->0.done() && !self.stream.ended()
        &&& efuts_ok(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<Result<St::Ok, Fut::Error>> {
        (if self.future is Some { seq![self.future->0.output()] } else { Seq::empty() }) + or_else_seq(self.f, self.stream.rest())
    }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ subst Self::Item =>> Result<St::Ok, Fut::Error>
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        (*this.future.ptr) is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done(),
        efuts_ok(*this.f, this.stream.ptr.rest()),
        rest0 == (if (*this.future.ptr) is Some { seq![(*this.future.ptr)->0.output()] } else { Seq::empty() }) + or_else_seq(*this.f, this.stream.ptr.rest()),
//@ endfn
//@ fn size_hint
//@ entry
    proof { lemma_or_else_len(self.f, self.stream.rest()); }
//@ endfn
//@ endimpl
//@ impl FusedStream for OrElse
//@ fn is_terminated
//@ endfn
//@ endimpl
// ---- try_filter
pub open spec fn tfilter_seq<A, E, Fut: Future<Output = bool>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> Seq<Result<A, E>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s[0] {
        Ok(a) => (if f.step(&a).1.output() { seq![s[0]] } else { Seq::empty() }) + tfilter_seq(f.step(&a).0, s.skip(1)),
        Err(e) => seq![s[0]] + tfilter_seq(f, s.skip(1)),
    } }
}
pub proof fn lemma_tfilter_len<A, E, Fut: Future<Output = bool>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<Result<A, E>>)
    ensures tfilter_seq(f, s).len() <= s.len()
    decreases s.len()
{ if s.len() != 0 { match s[0] { Ok(a) => lemma_tfilter_len(f.step(&a).0, s.skip(1)), Err(_) => lemma_tfilter_len(f, s.skip(1)) } } }
//@ file futures-util/src/stream/try_stream/try_filter.rs
//@ struct TryFilter
//@ impl Stream for TryFilter
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.pending_fut is Some <==> self.pending_item is Some
        &&& self.pending_fut is Some ==> self.pending_fut->0.wf() && !self.pending_fut->0.done() && !self.stream.ended()
        &&& tfuts_ok_ref(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<Result<St::Ok, St::Error>> {
        (if self.pending_fut is Some && self.pending_fut->0.output() { seq![Ok(self.pending_item->0)] } else { Seq::empty() }) + tfilter_seq(self.f, self.stream.rest())
    }
    open spec fn armed(&self, w: int) -> bool { if self.pending_fut is Some { self.pending_fut->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ subst Self::Item =>> Result<St::Ok, St::Error>
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        (*this.pending_fut.ptr) is Some <==> (*this.pending_item) is Some,
        (*this.pending_fut.ptr) is Some ==> (*this.pending_fut.ptr)->0.wf() && !(*this.pending_fut.ptr)->0.done(),
        tfuts_ok_ref(*this.f, this.stream.ptr.rest()),
        rest0 == (if (*this.pending_fut.ptr) is Some && (*this.pending_fut.ptr)->0.output() { seq![Ok((*this.pending_item)->0)] } else { Seq::empty() }) + tfilter_seq(*this.f, this.stream.ptr.rest()),
//@ endfn
//@ fn size_hint
//@ entry
    proof { lemma_tfilter_len(self.f, self.stream.rest()); }
//@ endfn
//@ endimpl
//@ impl FusedStream for TryFilter
//@ fn is_terminated
//@ endfn
//@ endimpl
// ---- try_filter_map
pub open spec fn fm_head<T, E>(r: Result<Option<T>, E>) -> Seq<Result<T, E>> { match r { Ok(Some(t)) => seq![Ok(t)], Ok(None) => Seq::empty(), Err(e) => seq![Err(e)] } }
pub open spec fn tfm_seq<A, T, E, Fut: Future<Output = Result<Option<T>, E>>, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> Seq<Result<T, E>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s[0] {
        Ok(a) => fm_head(f.step(a).1.output()) + tfm_seq(f.step(a).0, s.skip(1)),
        Err(e) => seq![Err(e)] + tfm_seq(f, s.skip(1)),
    } }
}
pub proof fn lemma_tfm_len<A, T, E, Fut: Future<Output = Result<Option<T>, E>>, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<Result<A, E>>)
    ensures tfm_seq(f, s).len() <= s.len()
    decreases s.len()
{ if s.len() != 0 { match s[0] { Ok(a) => lemma_tfm_len(f.step(a).0, s.skip(1)), Err(_) => lemma_tfm_len(f, s.skip(1)) } } }
//@ file futures-util/src/stream/try_stream/try_filter_map.rs
//@ struct TryFilterMap
//@ impl Stream for TryFilterMap
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.pending is Some ==> self.pending->0.wf() && !self.pending->0.done() && !self.stream.ended()
        &&& tfuts_ok(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<Result<T, St::Error>> {
        (if self.pending is Some { fm_head(self.pending->0.output()) } else { Seq::empty() }) + tfm_seq(self.f, self.stream.rest())
    }
    open spec fn armed(&self, w: int) -> bool { if self.pending is Some { self.pending->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ subst Self::Item =>> Result<T, St::Error>
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        (*this.pending.ptr) is Some ==> (*this.pending.ptr)->0.wf() && !(*this.pending.ptr)->0.done(),
        tfuts_ok(*this.f, this.stream.ptr.rest()),
        rest0 == (if (*this.pending.ptr) is Some { fm_head((*this.pending.ptr)->0.output()) } else { Seq::empty() }) + tfm_seq(*this.f, this.stream.ptr.rest()),
//@ endfn
//@ fn size_hint
//@ entry
    proof { lemma_tfm_len(self.f, self.stream.rest()); }
//@ endfn
//@ endimpl
//@ impl FusedStream for TryFilterMap
//@ fn is_terminated
//@ endfn
//@ endimpl
// ---- try_take_while / try_skip_while
pub open spec fn ttw_seq<A, E, Fut: Future<Output = Result<bool, E>>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> Seq<Result<A, E>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s[0] {
        Ok(a) => match f.step(&a).1.output() { Ok(true) => seq![s[0]] + ttw_seq(f.step(&a).0, s.skip(1)), Ok(false) => Seq::empty(), Err(e) => seq![Err(e)] + ttw_seq(f.step(&a).0, s.skip(1)) },
        Err(e) => seq![s[0]] + ttw_seq(f, s.skip(1)),
    } }
}
pub proof fn lemma_ttw_len<A, E, Fut: Future<Output = Result<bool, E>>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<Result<A, E>>)
    ensures ttw_seq(f, s).len() <= s.len()
    decreases s.len()
{ if s.len() != 0 { match s[0] { Ok(a) => lemma_ttw_len(f.step(&a).0, s.skip(1)), Err(_) => lemma_ttw_len(f, s.skip(1)) } } }
pub open spec fn ttw_with<A, E>(o: Result<bool, E>, a: A, t: Seq<Result<A, E>>) -> Seq<Result<A, E>> {
    match o { Ok(true) => seq![Ok(a)] + t, Ok(false) => Seq::empty(), Err(e) => seq![Err(e)] + t }
}
//@ file futures-util/src/stream/try_stream/try_take_while.rs
//@ struct TryTakeWhile
//@ impl Stream for TryTakeWhile
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.pending_fut is Some <==> self.pending_item is Some
        &&& self.pending_fut is Some ==> self.pending_fut->0.wf() && !self.pending_fut->0.done() && !self.stream.ended() && !self.done_taking
        &&& tfuts_ok_ref(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { !self.done_taking && self.stream.ended() }
    open spec fn rest(&self) -> Seq<Result<St::Ok, St::Error>> {
        if self.done_taking { Seq::empty() }
        else if self.pending_fut is Some { ttw_with(self.pending_fut->0.output(), self.pending_item->0, ttw_seq(self.f, self.stream.rest())) }
        else { ttw_seq(self.f, self.stream.rest()) }
    }
    open spec fn armed(&self, w: int) -> bool { if self.pending_fut is Some { self.pending_fut->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ subst Self::Item =>> Result<St::Ok, St::Error>
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(), !*this.done_taking,
        (*this.pending_fut.ptr) is Some <==> (*this.pending_item) is Some,
        (*this.pending_fut.ptr) is Some ==> (*this.pending_fut.ptr)->0.wf() && !(*this.pending_fut.ptr)->0.done(),
        tfuts_ok_ref(*this.f, this.stream.ptr.rest()),
        rest0 == if (*this.pending_fut.ptr) is Some { ttw_with((*this.pending_fut.ptr)->0.output(), (*this.pending_item)->0, ttw_seq(*this.f, this.stream.ptr.rest())) }
            else { ttw_seq(*this.f, this.stream.ptr.rest()) },
//@ endfn
//@ fn size_hint
//@ entry
    proof { lemma_ttw_len(self.f, self.stream.rest()); }
//@ endfn
//@ endimpl
//@ impl FusedStream for TryTakeWhile
//@ fn is_terminated
//@ endfn
//@ endimpl
pub open spec fn tsw_seq<A, E, Fut: Future<Output = Result<bool, E>>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> Seq<Result<A, E>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s[0] {
        Ok(a) => match f.step(&a).1.output() { Ok(true) => tsw_seq(f.step(&a).0, s.skip(1)), Ok(false) => s, Err(e) => seq![Err(e)] + tsw_seq(f.step(&a).0, s.skip(1)) },
        Err(e) => seq![s[0]] + tsw_seq(f, s.skip(1)),
    } }
}
pub proof fn lemma_tsw_len<A, E, Fut: Future<Output = Result<bool, E>>, F: for<'fa> FnMut1<&'fa A, Output = Fut>>(f: F, s: Seq<Result<A, E>>)
    ensures tsw_seq(f, s).len() <= s.len()
    decreases s.len()
{ if s.len() != 0 { match s[0] { Ok(a) => lemma_tsw_len(f.step(&a).0, s.skip(1)), Err(_) => lemma_tsw_len(f, s.skip(1)) } } }
pub open spec fn tsw_with<A, E>(o: Result<bool, E>, a: A, t: Seq<Result<A, E>>, raw: Seq<Result<A, E>>) -> Seq<Result<A, E>> {
    match o { Ok(true) => t, Ok(false) => seq![Ok(a)] + raw, Err(e) => seq![Err(e)] + t }
}
//@ file futures-util/src/stream/try_stream/try_skip_while.rs
//@ struct TrySkipWhile
//@ impl Stream for TrySkipWhile
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.pending_fut is Some <==> self.pending_item is Some
        &&& self.pending_fut is Some ==> self.pending_fut->0.wf() && !self.pending_fut->0.done() && !self.stream.ended() && !self.done_skipping
        &&& self.done_skipping || tfuts_ok_ref(self.f, self.stream.rest())
    }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<Result<St::Ok, St::Error>> {
        if self.done_skipping { self.stream.rest() }
        else if self.pending_fut is Some { tsw_with(self.pending_fut->0.output(), self.pending_item->0, tsw_seq(self.f, self.stream.rest()), self.stream.rest()) }
        else { tsw_seq(self.f, self.stream.rest()) }
    }
    open spec fn armed(&self, w: int) -> bool { if self.pending_fut is Some { self.pending_fut->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll_next
//@ subst Self::Item =>> Result<St::Ok, St::Error>
//@ entry
    let ghost rest0 = self.ptr.rest();
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(), !*this.done_skipping,
        (*this.pending_fut.ptr) is Some <==> (*this.pending_item) is Some,
        (*this.pending_fut.ptr) is Some ==> (*this.pending_fut.ptr)->0.wf() && !(*this.pending_fut.ptr)->0.done(),
        tfuts_ok_ref(*this.f, this.stream.ptr.rest()),
        rest0 == if (*this.pending_fut.ptr) is Some { tsw_with((*this.pending_fut.ptr)->0.output(), (*this.pending_item)->0, tsw_seq(*this.f, this.stream.ptr.rest()), this.stream.ptr.rest()) }
            else { tsw_seq(*this.f, this.stream.ptr.rest()) },
//@ endfn
//@ fn size_hint
//@ entry
    proof { lemma_tsw_len(self.f, self.stream.rest()); }
//@ endfn
//@ endimpl
//@ impl FusedStream for TrySkipWhile
//@ fn is_terminated
//@ endfn
//@ endimpl
}
