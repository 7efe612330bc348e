//@ include seqs
verus! {
//@ file futures-util/src/future/future/map.rs
//@ struct Map
//@ impl Map
//@ fn new -> r
    ensures r == (Map::<Fut, F>::Incomplete { future, f }),
//@ endfn
//@ endimpl
//@ impl Future for Map
    open spec fn wf(&self) -> bool { self is Incomplete ==> self->future.wf() && !self->future.done() }
    open spec fn done(&self) -> bool { self is Complete }
    open spec fn output(&self) -> T { self->f.app(self->future.output()) }
    open spec fn armed(&self, w: int) -> bool { self is Incomplete && self->future.armed(w) }
//@ fn poll
//@ endfn
//@ endimpl
//@ impl FusedFuture for Map
//@ fn is_terminated
//@ endfn
//@ endimpl
}
