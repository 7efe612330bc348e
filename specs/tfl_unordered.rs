//@ include into_stream
//@ include either
verus! {
//@ file futures-util/src/stream/stream/flatten_unordered.rs
//@ struct FlowStep
pub trait FlowController<I, O> {
    spec fn okitem(item: I) -> bool;
    spec fn nstep(item: I) -> FlowStep<I, O>;
    fn next_step(item: I) -> (r: FlowStep<I, O>) requires Self::okitem(item) ensures r == Self::nstep(item);
}
pub trait VIntoStream: TryStream + Sized { fn into_stream(self) -> (r: IntoStream<Self>) ensures r.stream == self { IntoStream::new(self) } }
impl<S: TryStream> VIntoStream for S {}
//@ file futures-util/src/stream/try_stream/try_flatten_unordered.rs
//@ struct NestedTryStreamIntoEitherTryStream nobounds
//@ struct Single
//@ impl Single
//@ fn new -> r
    ensures r.0 == Some(val),
//@ endfn
//@ fn next_immediate -> r
    ensures r == old(self).0, final(self).0 is None,
//@ endfn
//@ endimpl
//@ impl Stream for Single
    open spec fn wf(&self) -> bool { true }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<T> { opt_seq(self.0) }
    open spec fn armed(&self, w: int) -> bool { false }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
pub type SingleStreamResult<St> = Single<Result<<St as TryStream>::Ok, <St as TryStream>::Error>>;
pub type NItem<U> = Either<IntoStream<U>, Single<Result<<U as TryStream>::Ok, <U as TryStream>::Error>>>;
// an inner stream goes on as it is, an error of the source becomes a single item, converted
pub open spec fn nest<E1, U: TryStream>(x: Result<U, E1>) -> NItem<U> where U::Error: VFrom<E1> {
    match x { Ok(u) => Either::Left(IntoStream { stream: u }), Err(e) => Either::Right(Single(Some(Err::<U::Ok, U::Error>(U::Error::conv(e))))) }
}
pub open spec fn nests<E1, U: TryStream>(s: Seq<Result<U, E1>>) -> Seq<NItem<U>> where U::Error: VFrom<E1> { s.map(|k: int, x: Result<U, E1>| nest::<E1, U>(x)) }
pub broadcast proof fn lemma_nests<E1, U: TryStream>(x: Result<U, E1>, s: Seq<Result<U, E1>>) where U::Error: VFrom<E1>
    ensures #[trigger] nests::<E1, U>(seq![x] + s) == seq![nest::<E1, U>(x)] + nests::<E1, U>(s)
{ assert(nests::<E1, U>(seq![x] + s) =~= seq![nest::<E1, U>(x)] + nests::<E1, U>(s)); }
pub broadcast proof fn lemma_nests0<E1, U: TryStream>(s: Seq<Result<U, E1>>) where U::Error: VFrom<E1>
    ensures #[trigger] nests::<E1, U>(s).len() == s.len(), s.len() == 0 ==> nests::<E1, U>(s) == Seq::<NItem<U>>::empty()
{ assert(s.len() == 0 ==> nests::<E1, U>(s) =~= Seq::<NItem<U>>::empty()); }
//@ impl NestedTryStreamIntoEitherTryStream
//@ header impl<St: TryStream> NestedTryStreamIntoEitherTryStream<St>
//@ fn new -> r
    ensures r.stream == stream,
//@ endfn
//@ endimpl
//@ impl Stream for NestedTryStreamIntoEitherTryStream
//@ header impl<St: TryStream> Stream for NestedTryStreamIntoEitherTryStream<St> where St::Ok: TryStream, <St::Ok as TryStream>::Error: VFrom<St::Error>
    open spec fn wf(&self) -> bool { self.stream.wf() }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<NItem<St::Ok>> { nests::<St::Error, St::Ok>(self.stream.rest()) }
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
    // provided method of the trait: (0, None)
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { (0, None) }
//@ fn poll_next
//@ subst Self::Item =>> NItem<St::Ok>
//@ subst err.map(|_: St::Ok| unreachable!()).map_err(Into::into) =>> verr_into(err)
//@ entry
    broadcast use {lemma_nests, lemma_nests0};
//@ endfn
//@ endimpl
//@ impl FusedStream for NestedTryStreamIntoEitherTryStream
//@ header impl<St: TryStream + FusedStream> FusedStream for NestedTryStreamIntoEitherTryStream<St> where St::Ok: TryStream, <St::Ok as TryStream>::Error: VFrom<St::Error>
//@ fn is_terminated
//@ entry
    broadcast use lemma_nests0;
//@ endfn
//@ endimpl
// Err(_) with the error converted; panics otherwise
pub fn verr_into<U, O, E1, E2: VFrom<E1>>(x: Result<U, E1>) -> (r: Result<O, E2>) requires x is Err ensures r == Err::<O, E2>(E2::conv(x->Err_0)) { match x { Ok(_) => { proof { assert(false); } unreached() }, Err(e) => Err(VFrom::vfrom(e)) } }
//@ struct PropagateBaseStreamError nobounds
//@ impl FlowController for PropagateBaseStreamError
//@ header impl<St: TryStream> FlowController<NItem<St::Ok>, Result<<St::Ok as TryStream>::Ok, <St::Ok as TryStream>::Error>> for PropagateBaseStreamError<St> where St::Ok: TryStream
    open spec fn okitem(item: NItem<St::Ok>) -> bool { item matches Either::Right(s) ==> s.0 is Some }
    open spec fn nstep(item: NItem<St::Ok>) -> FlowStep<NItem<St::Ok>, Result<<St::Ok as TryStream>::Ok, <St::Ok as TryStream>::Error>> {
        match item { Either::Left(_) => FlowStep::Continue(item), Either::Right(s) => FlowStep::Return(s.0->0) }
    }
//@ fn next_step
//@ subst item: BaseStreamItem<St> =>> item: NItem<St::Ok>
//@ subst FlowStep<BaseStreamItem<St>, InnerStreamItem<St>> =>> FlowStep<NItem<St::Ok>, Result<<St::Ok as TryStream>::Ok, <St::Ok as TryStream>::Error>>
//@ endfn
//@ endimpl
// what the source wrapper yields is what the flow controller expects: streams are driven, errors returned at once
pub proof fn nested_items_ok<St: TryStream>(s: Seq<Result<St::Ok, St::Error>>, k: int) where St::Ok: TryStream, <St::Ok as TryStream>::Error: VFrom<St::Error>
    requires 0 <= k < s.len()
    ensures
        PropagateBaseStreamError::<St>::okitem(nests::<St::Error, St::Ok>(s)[k]),
        s[k] matches Ok(u) ==> PropagateBaseStreamError::<St>::nstep(nests::<St::Error, St::Ok>(s)[k]) == FlowStep::<NItem<St::Ok>, Result<<St::Ok as TryStream>::Ok, <St::Ok as TryStream>::Error>>::Continue(Either::Left(IntoStream { stream: u })),
        s[k] matches Err(e) ==> PropagateBaseStreamError::<St>::nstep(nests::<St::Error, St::Ok>(s)[k]) == FlowStep::<NItem<St::Ok>, Result<<St::Ok as TryStream>::Ok, <St::Ok as TryStream>::Error>>::Return(Err(<St::Ok as TryStream>::Error::conv(e))),
{}
}
