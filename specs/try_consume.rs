//@ include trys
verus! {
pub open spec fn ext_all_t<A, E, C: Extend<A>>(c: C, s: Seq<Result<A, E>>) -> Result<C, E>
    decreases s.len()
{ if s.len() == 0 { Ok(c) } else { match s[0] { Ok(a) => ext_all_t(c.ext(a), s.skip(1)), Err(e) => Err(e) } } }
// what is left of the source after the first error (nothing if there is none)
pub open spec fn after_err<A, E>(s: Seq<Result<A, E>>) -> Seq<Result<A, E>>
    decreases s.len()
{ if s.len() == 0 { s } else { match s[0] { Ok(a) => after_err(s.skip(1)), Err(e) => s.skip(1) } } }
//@ file futures-util/src/stream/try_stream/try_collect.rs
//@ struct TryCollect
//@ impl TryCollect
//@ dropbound C: Default =>> C: VDefault
//@ fn new -> r
//@ subst Default::default() =>> C::vdefault()
    ensures r.stream == s, r.items.is_default(),
//@ endfn
//@ endimpl
//@ impl Future for TryCollect
//@ dropbound C: Default =>> C: VDefault
    open spec fn wf(&self) -> bool { self.stream.wf() }
    open spec fn done(&self) -> bool { self.stream.ended() }
    open spec fn fin(&self) -> bool { true }
    open spec fn output(&self) -> Result<C, St::Error> { ext_all_t(self.items, self.stream.rest()) } // every Ok item once, in order, up to the first error
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll -> r
//@ subst Self::Output =>> Result<C, St::Error>
    ensures r is Ready ==> final(self.ptr).stream.rest() == after_err(old(self.ptr).stream.rest()), // nothing beyond the first error is consumed
//@ entry
    let ghost out0 = self.ptr.output();
    let ghost ae0 = after_err(self.ptr.stream.rest());
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(), ext_all_t(*this.items, this.stream.ptr.rest()) == out0, after_err(this.stream.ptr.rest()) == ae0,
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryCollect
//@ dropbound C: Default =>> C: VDefault
    open spec fn over(&self) -> bool { self.stream.rest() == Seq::<Result<St::Ok, St::Error>>::empty() }
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/try_stream/try_next.rs
//@ struct TryNext
//@ impl Future for TryNext
//@ header impl<St: TryStream> TryNext<'_, St>
//@ noassoc
//@ fn poll -> r
//@ kinds poll
//@ subst Self::Output =>> Result<Option<St::Ok>, St::Error>
    requires old(self.ptr).stream.wf(), !old(self.ptr).stream.ended(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).stream.wf(),
        r is Ready && !(r->0 matches Ok(None)) ==> !final(self.ptr).stream.ended(),
        r matches Poll::Ready(Ok(Some(x))) ==> old(self.ptr).stream.rest() == seq![Ok::<St::Ok, St::Error>(x)] + final(self.ptr).stream.rest(), // the next Ok item
        r matches Poll::Ready(Err(e)) ==> old(self.ptr).stream.rest() == seq![Err::<St::Ok, St::Error>(e)] + final(self.ptr).stream.rest(), // the error met
        r matches Poll::Ready(Ok(None)) ==> old(self.ptr).stream.rest() == Seq::<Result<St::Ok, St::Error>>::empty(),
        r is Pending ==> final(self.ptr).stream.rest() == old(self.ptr).stream.rest() && !final(self.ptr).stream.ended(),
        r is Pending ==> final(self.ptr).stream.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryNext
//@ header impl<St: TryStream + FusedStream> TryNext<'_, St>
//@ fn is_terminated -> r
    requires self.stream.wf(),
    ensures
        r ==> old(self.stream).rest() == Seq::<St::Item>::empty(), // [term] reported as terminated: nothing is left
        !r ==> !old(self.stream).ended(), // [term] reported as live: safe to poll
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/try_stream/try_any.rs
pub open spec fn try_hit<A, E, Fut: Future<Output = bool>, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<Result<A, E>>, stop: bool) -> Result<bool, E>
    decreases s.len()
{ if s.len() == 0 { Ok(!stop) } else { match s[0] {
    Ok(a) => if f.step(a).1.output() == stop { Ok(stop) } else { try_hit(f.step(a).0, s.skip(1), stop) },
    Err(e) => Err(e) } } }
pub open spec fn tfuts_ok<A, E, Fut: Future, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<Result<A, E>>) -> bool
    decreases s.len()
{ s.len() == 0 || (match s[0] { Ok(a) => f.step(a).1.wf() && !f.step(a).1.done() && tfuts_ok(f.step(a).0, s.skip(1)), Err(_) => tfuts_ok(f, s.skip(1)) }) }
//@ struct TryAny
//@ impl TryAny
//@ fn new -> r
    ensures r.stream == stream, r.f == f, !r.done, r.future is None,
//@ endfn
//@ endimpl
//@ impl Future for TryAny
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& !self.done ==> !self.stream.ended() && tfuts_ok(self.f, self.stream.rest())
        &&& self.future is Some ==> !self.done && self.future->0.wf() && !self.future->0.done()
    }
    open spec fn done(&self) -> bool { self.done }
    open spec fn output(&self) -> Result<bool, St::Error> { if self.future is Some && self.future->0.output() { Ok(true) } else { try_hit(self.f, self.stream.rest(), true) } }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll -> r
    ensures r is Ready && r->0 is Err ==> final(self.ptr).stream.rest() == after_err(old(self.ptr).stream.rest()), // nothing beyond the first error is consumed
//@ entry
    let ghost out0 = self.ptr.output();
    let ghost ae0 = after_err(self.ptr.stream.rest());
//@ loop 0
    invariant
        !*this.done, after_err(this.stream.ptr.rest()) == ae0,
        this.stream.ptr.wf(), !this.stream.ptr.ended(), tfuts_ok(*this.f, this.stream.ptr.rest()),
        *this.future.ptr is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done(),
        out0 == if *this.future.ptr is Some && (*this.future.ptr)->0.output() { Ok::<bool, St::Error>(true) } else { try_hit(*this.f, this.stream.ptr.rest(), true) },
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryAny
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/try_stream/try_all.rs
//@ struct TryAll
//@ impl TryAll
//@ fn new -> r
    ensures r.stream == stream, r.f == f, !r.done, r.future is None,
//@ endfn
//@ endimpl
//@ impl Future for TryAll
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& !self.done ==> !self.stream.ended() && tfuts_ok(self.f, self.stream.rest())
        &&& self.future is Some ==> !self.done && self.future->0.wf() && !self.future->0.done()
    }
    open spec fn done(&self) -> bool { self.done }
    open spec fn output(&self) -> Result<bool, St::Error> { if self.future is Some && !self.future->0.output() { Ok(false) } else { try_hit(self.f, self.stream.rest(), false) } }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll -> r
    ensures r is Ready && r->0 is Err ==> final(self.ptr).stream.rest() == after_err(old(self.ptr).stream.rest()), // nothing beyond the first error is consumed
//@ entry
    let ghost out0 = self.ptr.output();
    let ghost ae0 = after_err(self.ptr.stream.rest());
//@ loop 0
    invariant
        !*this.done, after_err(this.stream.ptr.rest()) == ae0,
        this.stream.ptr.wf(), !this.stream.ptr.ended(), tfuts_ok(*this.f, this.stream.ptr.rest()),
        *this.future.ptr is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done(),
        out0 == if *this.future.ptr is Some && !(*this.future.ptr)->0.output() { Ok::<bool, St::Error>(false) } else { try_hit(*this.f, this.stream.ptr.rest(), false) },
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryAll
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/stream/try_fold.rs
pub open spec fn tfold_seq<A, T, E, Fut: Future<Output = Result<T, E>>, F: FnMut2<T, A, Output = Fut>>(f: F, a: Result<T, E>, s: Seq<A>) -> Result<T, E>
    decreases s.len()
{ match a { Err(e) => Err(e), Ok(t) => if s.len() == 0 { Ok(t) } else { tfold_seq(f.step(t, s[0]).0, f.step(t, s[0]).1.output(), s.skip(1)) } } }
pub open spec fn tfold_ok<A, T, E, Fut: Future<Output = Result<T, E>>, F: FnMut2<T, A, Output = Fut>>(f: F, a: Result<T, E>, s: Seq<A>) -> bool
    decreases s.len()
{ a is Err || s.len() == 0 || (f.step(a->Ok_0, s[0]).1.wf() && !f.step(a->Ok_0, s[0]).1.done() && tfold_ok(f.step(a->Ok_0, s[0]).0, f.step(a->Ok_0, s[0]).1.output(), s.skip(1))) }
// what is left of the source after the step that fails
pub open spec fn tfold_left<A, T, E, Fut: Future<Output = Result<T, E>>, F: FnMut2<T, A, Output = Fut>>(f: F, a: Result<T, E>, s: Seq<A>) -> Seq<A>
    decreases s.len()
{ match a { Err(e) => s, Ok(t) => if s.len() == 0 { s } else { tfold_left(f.step(t, s[0]).0, f.step(t, s[0]).1.output(), s.skip(1)) } } }
//@ struct TryFold
//@ impl TryFold
//@ fn new -> r
    ensures r.stream == stream, r.f == f, r.accum == Some(t), r.future is None,
//@ endfn
//@ endimpl
//@ impl Future for TryFold
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf()
        &&& self.accum is Some || self.future is Some ==> !self.stream.ended()
        &&& self.future is Some ==> self.accum is None
        &&& self.future is Some ==> self.future->0.wf() && !self.future->0.done() && tfold_ok(self.f, self.future->0.output(), self.stream.rest())
        &&& self.accum is Some && self.future is None ==> tfold_ok(self.f, Ok::<T, Fut::Error>(self.accum->0), self.stream.rest())
    }
    open spec fn done(&self) -> bool { self.accum is None && self.future is None }
    open spec fn output(&self) -> Result<T, Fut::Error> { tfold_seq(self.f, if self.future is Some { self.future->0.output() } else { Ok(self.accum->0) }, self.stream.rest()) }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll -> r
//@ subst Self::Output =>> Result<T, Fut::Error>
    ensures
        r is Ready ==> final(self.ptr).stream.rest() == tfold_left(old(self.ptr).f, if old(self.ptr).future is Some { old(self.ptr).future->0.output() } else { Ok::<T, Fut::Error>(old(self.ptr).accum->0) }, old(self.ptr).stream.rest()), // nothing beyond the failing step is consumed
//@ entry
    let ghost out0 = self.ptr.output();
    let ghost left0 = tfold_left(self.ptr.f, if self.ptr.future is Some { self.ptr.future->0.output() } else { Ok::<T, Fut::Error>(self.ptr.accum->0) }, self.ptr.stream.rest());
//@ loop 0
    invariant
        this.stream.ptr.wf(), !this.stream.ptr.ended(),
        *this.accum is Some || *this.future.ptr is Some,
        *this.future.ptr is Some ==> *this.accum is None,
        *this.future.ptr is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done() && tfold_ok(*this.f, (*this.future.ptr)->0.output(), this.stream.ptr.rest()),
        *this.future.ptr is None ==> tfold_ok(*this.f, Ok::<T, Fut::Error>((*this.accum)->0), this.stream.ptr.rest()),
        out0 == tfold_seq(*this.f, if *this.future.ptr is Some { (*this.future.ptr)->0.output() } else { Ok::<T, Fut::Error>((*this.accum)->0) }, this.stream.ptr.rest()),
        left0 == tfold_left(*this.f, if *this.future.ptr is Some { (*this.future.ptr)->0.output() } else { Ok::<T, Fut::Error>((*this.accum)->0) }, this.stream.ptr.rest()),
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryFold
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ file futures-util/src/stream/stream/try_for_each.rs
pub open spec fn tfe<A, E, Fut: Future<Output = Result<(), E>>, F: FnMut1<A, Output = Fut>>(f: F, s: Seq<A>) -> (Result<(), E>, Seq<A>)
    decreases s.len()
{ if s.len() == 0 { (Ok(()), s) } else if f.step(s[0]).1.output() is Err { (f.step(s[0]).1.output(), s.skip(1)) } else { tfe(f.step(s[0]).0, s.skip(1)) } }
pub open spec fn tfe0<A, E, Fut: Future<Output = Result<(), E>>, F: FnMut1<A, Output = Fut>>(future: Option<Fut>, f: F, s: Seq<A>) -> (Result<(), E>, Seq<A>)
{ if future is Some && future->0.output() is Err { (future->0.output(), s) } else { tfe(f, s) } }
//@ struct TryForEach
//@ impl TryForEach
//@ fn new -> r
    ensures r.stream == stream, r.f == f, r.future is None,
//@ endfn
//@ endimpl
//@ impl Future for TryForEach
    open spec fn wf(&self) -> bool {
        &&& self.stream.wf() && futs_ok(self.f, self.stream.rest())
        &&& self.future is Some ==> !self.stream.ended() && self.future->0.wf()
    }
    open spec fn done(&self) -> bool { if self.future is Some { self.future->0.done() } else { self.stream.ended() } }
    open spec fn fin(&self) -> bool { true }
    open spec fn output(&self) -> Result<(), Fut::Error> { tfe0(self.future, self.f, self.stream.rest()).0 }
    open spec fn armed(&self, w: int) -> bool { if self.future is Some { self.future->0.armed(w) } else { self.stream.armed(w) } }
//@ fn poll -> r
//@ attr #[verifier::allow_complex_invariants]
//@ subst Self::Output =>> Result<(), Fut::Error>
    ensures
        r is Ready ==> final(self.ptr).stream.rest() == tfe0(old(self.ptr).future, old(self.ptr).f, old(self.ptr).stream.rest()).1, // nothing beyond the failing step is consumed
//@ entry
    let ghost o0 = tfe0(self.ptr.future, self.ptr.f, self.ptr.stream.rest());
//@ loop 0
    invariant_except_break
        !this.stream.ptr.ended(),
    invariant
        this.stream.ptr.wf(), futs_ok(*this.f, this.stream.ptr.rest()),
        *this.future.ptr is Some ==> (*this.future.ptr)->0.wf() && !(*this.future.ptr)->0.done(),
        o0 == tfe0(*this.future.ptr, *this.f, this.stream.ptr.rest()),
    ensures
        o0 == (Ok::<(), Fut::Error>(()), this.stream.ptr.rest()), *this.future.ptr is None,
//@ endfn
//@ endimpl
}
