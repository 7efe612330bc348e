//@ include seqs
verus! {
//@ file futures-util/src/fns.rs
//@ struct MapOkFn
//@ impl FnOnce1 for MapOkFn
//@ fn call_once
//@ kinds result
//@ subst Self::Output =>> Result<F::Output, E>
//@ endfn
    open spec fn app(&self, a: Result<T, E>) -> Result<F::Output, E> { match a { Ok(x) => Ok(self.0.app(x)), Err(e) => Err(e) } } // only Ok values, once
//@ endimpl
//@ impl FnMut1 for MapOkFn
    type Output = Result<F::Output, E>;
    open spec fn step(&self, a: Result<T, E>) -> (Self, Result<F::Output, E>) { match a { Ok(x) => (MapOkFn(self.0.step(x).0), Ok(self.0.step(x).1)), Err(e) => (*self, Err(e)) } } // only Ok values, once
//@ fn call_mut
//@ kinds result
//@ subst Self::Output =>> Result<F::Output, E>
//@ endfn
//@ endimpl
//@ fn map_ok_fn -> r
    ensures r.0 == f,
//@ endfn
//@ struct MapErrFn
//@ impl FnOnce1 for MapErrFn
    open spec fn app(&self, a: Result<T, E>) -> Result<T, F::Output> { match a { Ok(x) => Ok(x), Err(e) => Err(self.0.app(e)) } }
//@ fn call_once
//@ kinds result
//@ subst Self::Output =>> Result<T, F::Output>
//@ endfn
//@ endimpl
//@ impl FnMut1 for MapErrFn
    type Output = Result<T, F::Output>;
    open spec fn step(&self, a: Result<T, E>) -> (Self, Result<T, F::Output>) { match a { Ok(x) => (*self, Ok(x)), Err(e) => (MapErrFn(self.0.step(e).0), Err(self.0.step(e).1)) } }
//@ fn call_mut
//@ kinds result
//@ subst Self::Output =>> Result<T, F::Output>
//@ endfn
//@ endimpl
//@ fn map_err_fn -> r
    ensures r.0 == f,
//@ endfn
//@ struct InspectFn
//@ impl FnOnce1 for InspectFn
    open spec fn app(&self, a: A) -> A { a } // the value passes through
//@ fn call_once
//@ subst Self::Output =>> A
//@ endfn
//@ endimpl
//@ impl FnMut1 for InspectFn
    type Output = A;
    open spec fn step(&self, a: A) -> (Self, A) { (InspectFn(self.0.step(&a).0), a) } // the closure sees the value once; the value passes through
//@ fn call_mut
//@ subst Self::Output =>> A
//@ endfn
//@ endimpl
//@ fn inspect_fn -> r
    ensures r.0 == f,
//@ endfn
//@ struct InspectOkFn
//@ impl FnMut1 for InspectOkFn
    type Output = ();
    open spec fn step(&self, a: &'a Result<T, E>) -> (Self, ()) { match *a { Ok(x) => (InspectOkFn(self.0.step(&x).0), ()), Err(e) => (*self, ()) } }
//@ fn call_mut
//@ subst Self::Output =>> ()
//@ endfn
//@ endimpl
//@ fn inspect_ok_fn -> r
    ensures r.0 == f,
//@ endfn
//@ struct InspectErrFn
//@ impl FnMut1 for InspectErrFn
    type Output = ();
    open spec fn step(&self, a: &'a Result<T, E>) -> (Self, ()) { match *a { Err(x) => (InspectErrFn(self.0.step(&x).0), ()), Ok(e) => (*self, ()) } }
//@ fn call_mut
//@ subst Self::Output =>> ()
//@ endfn
//@ endimpl
//@ fn inspect_err_fn -> r
    ensures r.0 == f,
//@ endfn
//@ struct ChainFn
//@ impl FnOnce1 for ChainFn
    open spec fn app(&self, a: A) -> G::Output { self.1.app(self.0.app(a)) }
//@ fn call_once
//@ subst Self::Output =>> G::Output
//@ endfn
//@ endimpl
//@ impl FnMut1 for ChainFn
    type Output = G::Output;
    open spec fn step(&self, a: A) -> (Self, G::Output) { (ChainFn(self.0.step(a).0, self.1.step(self.0.step(a).1).0), self.1.step(self.0.step(a).1).1) }
//@ fn call_mut
//@ subst Self::Output =>> G::Output
//@ endfn
//@ endimpl
//@ fn chain_fn -> r
    ensures r.0 == f, r.1 == g,
//@ endfn
//@ struct UnwrapOrElseFn
//@ impl FnOnce1 for UnwrapOrElseFn
    open spec fn app(&self, a: Result<T, E>) -> T { match a { Ok(x) => x, Err(e) => self.0.app(e) } }
//@ fn call_once
//@ kinds result
//@ subst Self::Output =>> T
//@ endfn
//@ endimpl
//@ impl FnMut1 for UnwrapOrElseFn
    type Output = T;
    open spec fn step(&self, a: Result<T, E>) -> (Self, T) { match a { Ok(x) => (*self, x), Err(e) => (UnwrapOrElseFn(self.0.step(e).0), self.0.step(e).1) } }
//@ fn call_mut
//@ kinds result
//@ subst Self::Output =>> T
//@ endfn
//@ endimpl
//@ fn unwrap_or_else_fn -> r
    ensures r.0 == f,
//@ endfn
//@ struct MergeResultFn
//@ impl FnOnce1 for MergeResultFn
    open spec fn app(&self, a: Result<T, T>) -> T { match a { Ok(x) => x, Err(e) => e } }
//@ fn call_once
//@ subst Self::Output =>> T
//@ endfn
//@ endimpl
}
