//@ include seqs
verus! {
//@ file futures-util/src/future/future/flatten.rs
//@ struct Flatten
//@ impl Future for Flatten
    open spec fn wf(&self) -> bool {
        &&& self is First ==> self->First_f.wf() && !self->First_f.done() && self->First_f.output().wf() && !self->First_f.output().done()
        &&& self is Second ==> self->Second_f.wf() && !self->Second_f.done()
    }
    open spec fn done(&self) -> bool { self is Empty }
    open spec fn output(&self) -> <Fut::Output as Future>::Output { if self is First { self->First_f.output().output() } else { self->Second_f.output() } }
    open spec fn armed(&self, w: int) -> bool { (self is First && self->First_f.armed(w)) || (self is Second && self->Second_f.armed(w)) }
//@ fn poll
//@ entry
    let ghost out0 = self.ptr.output();
//@ loop 0
    invariant self.ptr.wf(), !self.ptr.done(), self.ptr.output() == out0,
//@ endfn
//@ endimpl
//@ impl FusedFuture for Flatten
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ impl Stream for Flatten
    open spec fn wf(&self) -> bool {
        &&& self is First ==> self->First_f.wf() && !self->First_f.done() && self->First_f.output().wf() && !self->First_f.output().ended()
        &&& self is Second ==> self->Second_f.wf() && !self->Second_f.ended()
    }
    open spec fn ended(&self) -> bool { false }
    open spec fn rest(&self) -> Seq<<Fut::Output as Stream>::Item> { if self is First { self->First_f.output().rest() } else if self is Second { self->Second_f.rest() } else { Seq::empty() } }
    open spec fn armed(&self, w: int) -> bool { (self is First && self->First_f.armed(w)) || (self is Second && self->Second_f.armed(w)) }
//@ fn poll_next
//@ entry
    let ghost rest0 = Stream::rest(self.ptr);
//@ loop 0
    invariant Stream::wf(self.ptr), Stream::rest(self.ptr) == rest0,
//@ endfn
//@ endimpl
//@ impl FusedStream for Flatten
//@ fn is_terminated
//@ endfn
//@ endimpl
}
