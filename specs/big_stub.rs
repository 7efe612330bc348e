verus! {
// FuturesOrdered + collect: the `Big` representation, decided by its own units; here a future of the right type
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
#[verifier::accept_recursive_types(C)]
pub struct Collect<S, C> { x: core::marker::PhantomData<(S, C)> }
#[verifier::external_body]
#[verifier::accept_recursive_types(F)]
pub struct FuturesOrdered<F> { x: core::marker::PhantomData<F> }
impl<S, C> Future for Collect<S, C> {
    type Output = C;
    uninterp spec fn wf(&self) -> bool;
    uninterp spec fn done(&self) -> bool;
    uninterp spec fn output(&self) -> C;
    uninterp spec fn armed(&self, w: int) -> bool;
    #[verifier::external_body]
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<C> { unimplemented!() }
}
}
