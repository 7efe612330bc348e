//@ include sink_base
//@ include unfold_state
verus! {
//@ file futures-util/src/sink/fanout.rs
//@ struct Fanout
pub trait VClone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
//@ impl Sink for Fanout
//@ header impl<Si1, Si2, Item> Sink<Item> for Fanout<Si1, Si2> where Si1: Sink<Item>, Item: VClone, Si2: Sink<Item, Error = Si1::Error>
    open spec fn kwf(&self) -> bool { self.sink1.kwf() && self.sink2.kwf() }
    open spec fn sent(&self) -> Seq<Item> { self.sink1.sent() }
    open spec fn ready(&self) -> bool { self.sink1.ready() && self.sink2.ready() } // ready only when both sinks are
    open spec fn sflushed(&self) -> bool { self.sink1.sflushed() && self.sink2.sflushed() }
    open spec fn sclosed(&self) -> bool { self.sink1.sclosed() && self.sink2.sclosed() }
    open spec fn sarmed(&self, w: int) -> bool { self.sink1.sarmed(w) || self.sink2.sarmed(w) }
//@ fn poll_ready -> ret
//@ tries poll,poll
    ensures
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).sink2.sent() == (*old(self.ptr)).sink2.sent(),
        ret is Pending ==> ((*final(self.ptr)).sink1.ready() || (*final(self.ptr)).sink1.sarmed(old(cx).id())) && ((*final(self.ptr)).sink2.ready() || (*final(self.ptr)).sink2.sarmed(old(cx).id())), // [wake] every sink that is not ready wakes the task
//@ endfn
//@ fn start_send -> ret
//@ tries result
    ensures
        ret is Ok ==> (*final(self.ptr)).sink2.sent() == (*old(self.ptr)).sink2.sent().push(item), // both sinks get the item, once
//@ endfn
//@ fn poll_flush -> ret
//@ tries poll,poll
    ensures
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).sink2.sent() == (*old(self.ptr)).sink2.sent(),
        ret is Pending ==> ((*final(self.ptr)).sink1.sflushed() || (*final(self.ptr)).sink1.sarmed(old(cx).id())) && ((*final(self.ptr)).sink2.sflushed() || (*final(self.ptr)).sink2.sarmed(old(cx).id())), // [wake] every sink not flushed wakes the task
//@ endfn
//@ fn poll_close -> ret
//@ tries poll,poll
    ensures
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).sink2.sent() == (*old(self.ptr)).sink2.sent(),
        ret is Pending ==> ((*final(self.ptr)).sink1.sclosed() || (*final(self.ptr)).sink1.sarmed(old(cx).id())) && ((*final(self.ptr)).sink2.sclosed() || (*final(self.ptr)).sink2.sarmed(old(cx).id())), // [wake] every sink not closed wakes the task
//@ endfn
//@ endimpl
//@ file futures-util/src/sink/unfold.rs
//@ struct Unfold
//@ impl Sink for Unfold
//@ header impl<T, F, Fut, E> Unfold<T, F, Fut> where Fut: Future<Output = Result<T, E>>
//@ noassoc
    pub open spec fn uwf(&self) -> bool { self.state is Future ==> self.state->future.wf() && !self.state->future.done() }
//@ fn poll_ready -> ret
    requires (*old(self.ptr)).uwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).function == (*old(self.ptr)).function, (*final(self.ptr)).uwf(),
        ret matches Poll::Ready(Ok(_)) ==> !((*final(self.ptr)).state is Future) && ((*old(self.ptr)).state is Future ==> (*final(self.ptr)).state is Value), // ready only when the previous step finished
        ret is Pending ==> (*final(self.ptr)).state is Future && (*final(self.ptr)).state->future.armed(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_flush -> ret
    requires (*old(self.ptr)).uwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).function == (*old(self.ptr)).function, (*final(self.ptr)).uwf(),
        (*old(self.ptr)).state is Future && (ret matches Poll::Ready(Ok(_))) ==> (*old(self.ptr)).state->future.output() is Ok && (*final(self.ptr)).state == (UnfoldState::<T, Fut>::Value { value: (*old(self.ptr)).state->future.output()->Ok_0 }), // the new state is the one the step produced
        ret matches Poll::Ready(Err(e)) ==> (*old(self.ptr)).state is Future && (*old(self.ptr)).state->future.output() == Result::<T, E>::Err(e) && (*final(self.ptr)).state is Empty,
        !((*old(self.ptr)).state is Future) ==> ret is Ready && *final(self.ptr) == *old(self.ptr),
        ret is Pending ==> (*final(self.ptr)).state is Future && (*final(self.ptr)).state->future.output() == (*old(self.ptr)).state->future.output(), // the step in flight is kept
        ret is Pending ==> (*final(self.ptr)).state->future.armed(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_close -> ret
    requires (*old(self.ptr)).uwf(),
    ensures
        *final(cx) == *old(cx), (*final(self.ptr)).function == (*old(self.ptr)).function, (*final(self.ptr)).uwf(),
        ret matches Poll::Ready(Ok(_)) ==> !((*final(self.ptr)).state is Future) && ((*old(self.ptr)).state is Future ==> (*final(self.ptr)).state is Value), // completes only when the last step finished
        ret is Pending ==> (*final(self.ptr)).state is Future && (*final(self.ptr)).state->future.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
pub trait VSend<Item, E>: Sized {
    spec fn send_ok(&self, item: Item) -> bool;
    spec fn after_send(&self, o: &Self, item: Item) -> bool;
    fn start_send(self: Pin<&mut Self>, item: Item) -> (ret: Result<(), E>)
        requires (*old(self.ptr)).send_ok(item),
        ensures ret is Ok, (*final(self.ptr)).after_send(&*old(self.ptr), item);
}
//@ impl Sink for Unfold
//@ header impl<T, F, Fut, Item, E> VSend<Item, E> for Unfold<T, F, Fut> where F: FnMut2<T, Item, Output = Fut>, Fut: Future<Output = Result<T, E>>
//@ noassoc
    // sent to only after poll_ready: a state is at hand
    open spec fn send_ok(&self, item: Item) -> bool { self.state is Value && (forall|t: T| #[trigger] self.function.step(t, item).1.wf() && !self.function.step(t, item).1.done()) }
    open spec fn after_send(&self, o: &Self, item: Item) -> bool {
        self.function == o.function.step(o.state->value, item).0
        && self.state == (UnfoldState::<T, Fut>::Future { future: o.function.step(o.state->value, item).1 }) // the closure is called once, on the current state and this item
    }
//@ fn start_send -> ret
//@ subst Self::Error =>> E
//@ endfn
//@ endimpl
//@ file futures-util/src/sink/drain.rs
//@ struct Drain
pub struct Infallible {}
//@ impl Sink for Drain
//@ header impl<T> Drain<T>
//@ noassoc
//@ fn poll_ready -> ret
//@ subst Self::Error =>> Infallible
    ensures ret == Poll::<Result<(), Infallible>>::Ready(Ok(())), *final(_cx) == *old(_cx),
//@ endfn
//@ fn start_send -> ret
//@ subst Self::Error =>> Infallible
    ensures ret is Ok,
//@ endfn
//@ fn poll_flush -> ret
//@ subst Self::Error =>> Infallible
    ensures ret == Poll::<Result<(), Infallible>>::Ready(Ok(())), *final(_cx) == *old(_cx),
//@ endfn
//@ fn poll_close -> ret
//@ subst Self::Error =>> Infallible
    ensures ret == Poll::<Result<(), Infallible>>::Ready(Ok(())), *final(_cx) == *old(_cx),
//@ endfn
//@ endimpl
}
