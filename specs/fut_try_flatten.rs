//@ include trys
verus! {
//@ file futures-util/src/future/try_future/try_flatten.rs
//@ struct TryFlatten
//@ impl Future for TryFlatten
    open spec fn wf(&self) -> bool {
        &&& self is First ==> self->First_f.wf() && !self->First_f.done() && (self->First_f.output() is Ok ==> (self->First_f.output()->Ok_0).wf() && !(self->First_f.output()->Ok_0).done())
        &&& self is Second ==> self->Second_f.wf() && !self->Second_f.done()
    }
    open spec fn done(&self) -> bool { self is Empty }
    open spec fn output(&self) -> Result<<Fut::Ok as TryFuture>::Ok, Fut::Error> {
        if self is First { match self->First_f.output() { Ok(f) => f.output(), Err(e) => Err(e) } } else { self->Second_f.output() }
    }
    open spec fn armed(&self, w: int) -> bool { (self is First && self->First_f.armed(w)) || (self is Second && self->Second_f.armed(w)) }
//@ fn poll
//@ entry
    let ghost out0 = self.ptr.output();
//@ loop 0
    invariant self.ptr.wf(), !self.ptr.done(), self.ptr.output() == out0,
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryFlatten
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ impl Stream for TryFlatten
    open spec fn wf(&self) -> bool {
        &&& self is First ==> self->First_f.wf() && !self->First_f.done() && (self->First_f.output() is Ok ==> (self->First_f.output()->Ok_0).wf() && !(self->First_f.output()->Ok_0).ended())
        &&& self is Second ==> self->Second_f.wf() && !self->Second_f.ended()
    }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<Result<<Fut::Ok as TryStream>::Ok, Fut::Error>> {
        if self is First { match self->First_f.output() { Ok(f) => f.rest(), Err(e) => seq![Err(e)] } } else if self is Second { self->Second_f.rest() } else { Seq::empty() }
    }
    open spec fn armed(&self, w: int) -> bool { (self is First && self->First_f.armed(w)) || (self is Second && self->Second_f.armed(w)) }
//@ fn poll_next
//@ entry
    let ghost rest0 = Stream::rest(self.ptr);
//@ loop 0
    invariant Stream::wf(self.ptr), Stream::rest(self.ptr) == rest0,
//@ endfn
//@ endimpl
//@ impl FusedStream for TryFlatten
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ file futures-util/src/future/try_future/try_flatten_err.rs
//@ struct TryFlattenErr
//@ impl Future for TryFlattenErr
    open spec fn wf(&self) -> bool {
        &&& self is First ==> self->First_f.wf() && !self->First_f.done() && (self->First_f.output() is Err ==> (self->First_f.output()->Err_0).wf() && !(self->First_f.output()->Err_0).done())
        &&& self is Second ==> self->Second_f.wf() && !self->Second_f.done()
    }
    open spec fn done(&self) -> bool { self is Empty }
    open spec fn output(&self) -> Result<Fut::Ok, <Fut::Error as TryFuture>::Error> {
        if self is First { match self->First_f.output() { Err(f) => f.output(), Ok(e) => Ok(e) } } else { self->Second_f.output() }
    }
    open spec fn armed(&self, w: int) -> bool { (self is First && self->First_f.armed(w)) || (self is Second && self->Second_f.armed(w)) }
//@ fn poll
//@ entry
    let ghost out0 = self.ptr.output();
//@ loop 0
    invariant self.ptr.wf(), !self.ptr.done(), self.ptr.output() == out0,
//@ endfn
//@ endimpl
//@ impl FusedFuture for TryFlattenErr
//@ fn is_terminated
//@ endfn
//@ endimpl
}
