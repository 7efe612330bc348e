//@ include sink_base
verus! {
// A future of a sink is the sink it resolves to: items sent, readiness, flushing and closing are that sink's.
// unresolved: still a future; the(): the sink it resolves to; over(): closed (or the future failed)
pub trait SinkFuture<Item>: Sized {
    type S: Sink<Item>;
    spec fn lwf(&self) -> bool;
    spec fn unresolved(&self) -> bool;
    spec fn over(&self) -> bool;
    spec fn the(&self) -> Self::S;
    spec fn farmed(&self, w: int) -> bool;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Result<(), <Self::S as Sink<Item>>::Error>>)
        requires (*old(self.ptr)).lwf(), !(*old(self.ptr)).over(),
        ensures
            *final(cx) == *old(cx),
            !(r matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).lwf() && !(*final(self.ptr)).over() && (*final(self.ptr)).the().sent() == (*old(self.ptr)).the().sent(), // accepts nothing by itself
            r matches Poll::Ready(Ok(_)) ==> !(*final(self.ptr)).unresolved() && (*final(self.ptr)).the().ready(), // the sink itself said it is ready
            r is Pending ==> ((*final(self.ptr)).unresolved() && (*final(self.ptr)).farmed(old(cx).id())) || (!(*final(self.ptr)).unresolved() && (*final(self.ptr)).the().sarmed(old(cx).id())), // [wake]
    ;
    fn start_send(self: Pin<&mut Self>, item: Item) -> (r: Result<(), <Self::S as Sink<Item>>::Error>)
        requires (*old(self.ptr)).lwf(), !(*old(self.ptr)).over(), !(*old(self.ptr)).unresolved(), (*old(self.ptr)).the().ready(),
        ensures
            r is Ok ==> (*final(self.ptr)).lwf() && !(*final(self.ptr)).over() && !(*final(self.ptr)).unresolved() && (*final(self.ptr)).the().sent() == (*old(self.ptr)).the().sent().push(item), // the item is accepted, once, after all earlier ones
    ;
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Result<(), <Self::S as Sink<Item>>::Error>>)
        requires (*old(self.ptr)).lwf(), !(*old(self.ptr)).over(),
        ensures
            *final(cx) == *old(cx),
            !(r matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).lwf() && !(*final(self.ptr)).over() && (*final(self.ptr)).the().sent() == (*old(self.ptr)).the().sent(),
            r matches Poll::Ready(Ok(_)) ==> (*old(self.ptr)).unresolved() || ((*final(self.ptr)).the().sflushed() && !(*final(self.ptr)).unresolved()), // completes only when everything accepted was delivered
            r is Pending ==> ((*final(self.ptr)).unresolved() && (*final(self.ptr)).farmed(old(cx).id())) || (!(*final(self.ptr)).unresolved() && (*final(self.ptr)).the().sarmed(old(cx).id())), // [wake]
    ;
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Result<(), <Self::S as Sink<Item>>::Error>>)
        requires (*old(self.ptr)).lwf(),
        ensures
            *final(cx) == *old(cx),
            r is Pending ==> (*final(self.ptr)).lwf() && !(*final(self.ptr)).over() && (*final(self.ptr)).the().sent() == (*old(self.ptr)).the().sent(),
            r is Ready ==> (*final(self.ptr)).over(), // a closed sink is not used again
            r matches Poll::Ready(Ok(_)) ==> (*old(self.ptr)).over() || (*old(self.ptr)).unresolved() || closed_with::<Item, Self::S>((*old(self.ptr)).the().sent()), // closes only after everything was delivered
            r is Pending ==> ((*final(self.ptr)).unresolved() && (*final(self.ptr)).farmed(old(cx).id())) || (!(*final(self.ptr)).unresolved() && (*final(self.ptr)).the().sarmed(old(cx).id())), // [wake]
    ;
}
// some sink of this type was closed, with exactly these items accepted and delivered
pub open spec fn closed_with<Item, S: Sink<Item>>(sent: Seq<Item>) -> bool { exists|s: S| s.sent() == sent && s.sflushed() && #[trigger] s.sclosed() }
//@ file futures-util/src/future/future/flatten.rs
//@ struct Flatten
//@ impl Sink for Flatten
//@ header impl<Fut: Future, Item> SinkFuture<Item> for Flatten<Fut, Fut::Output> where Fut::Output: Sink<Item>
//@ noassoc
    type S = Fut::Output;
    open spec fn lwf(&self) -> bool {
        &&& self is First ==> self->First_f.wf() && !self->First_f.done() && (self->First_f.output().kwf())
        &&& self is Second ==> self->Second_f.kwf()
    }
    open spec fn unresolved(&self) -> bool { self is First }
    open spec fn over(&self) -> bool { self is Empty }
    open spec fn the(&self) -> Fut::Output { if self is First { self->First_f.output() } else { self->Second_f } }
    open spec fn farmed(&self, w: int) -> bool { self is First && self->First_f.armed(w) }
//@ fn poll_ready
//@ subst Self::Error =>> <Fut::Output as Sink<Item>>::Error
//@ entry
    let ghost t0 = (*self.ptr).the().sent();
//@ loop 0
    invariant (*self.ptr).lwf(), !(*self.ptr is Empty), (*self.ptr).the().sent() == t0, *cx == *old(cx),
//@ endfn
//@ fn start_send
//@ subst Self::Error =>> <Fut::Output as Sink<Item>>::Error
//@ endfn
//@ fn poll_flush
//@ subst Self::Error =>> <Fut::Output as Sink<Item>>::Error
//@ endfn
//@ fn poll_close
//@ subst Self::Error =>> <Fut::Output as Sink<Item>>::Error
//@ endfn
//@ endimpl
//@ file futures-util/src/future/try_future/try_flatten.rs
//@ struct TryFlatten
//@ impl Sink for TryFlatten
//@ header impl<Fut: TryFuture, Item> SinkFuture<Item> for TryFlatten<Fut, Fut::Ok> where Fut::Ok: Sink<Item, Error = Fut::Error>
//@ noassoc
    type S = Fut::Ok;
    open spec fn lwf(&self) -> bool {
        &&& self is First ==> self->First_f.wf() && !self->First_f.done() && (self->First_f.output() is Ok ==> (self->First_f.output()->Ok_0).kwf())
        &&& self is Second ==> self->Second_f.kwf()
    }
    open spec fn unresolved(&self) -> bool { self is First }
    open spec fn over(&self) -> bool { self is Empty }
    open spec fn the(&self) -> Fut::Ok { if self is First { self->First_f.output()->Ok_0 } else { self->Second_f } }
    open spec fn farmed(&self, w: int) -> bool { self is First && self->First_f.armed(w) }
//@ fn poll_ready
//@ subst Self::Error =>> Fut::Error
//@ entry
    let ghost t0 = (*self.ptr).the().sent();
//@ loop 0
    invariant (*self.ptr).lwf(), !(*self.ptr is Empty), (*self.ptr).the().sent() == t0, *cx == *old(cx),
//@ endfn
//@ fn start_send
//@ subst Self::Error =>> Fut::Error
//@ endfn
//@ fn poll_flush
//@ subst Self::Error =>> Fut::Error
//@ endfn
//@ fn poll_close
//@ subst Self::Error =>> Fut::Error
//@ endfn
//@ endimpl
}
