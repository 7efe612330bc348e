//@ include trys
verus! {
// Sink: sent() is the sequence of items accepted so far; ready() holds between a successful poll_ready and the
// next start_send; sflushed() says everything accepted reached the destination. Nothing is promised about an item
// once the sink reported an error.
pub trait Sink<Item>: Sized {
    type Error;
    spec fn kwf(&self) -> bool;
    spec fn sent(&self) -> Seq<Item>;
    spec fn ready(&self) -> bool;
    spec fn sflushed(&self) -> bool;
    spec fn sclosed(&self) -> bool;
    spec fn sarmed(&self, w: int) -> bool;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Result<(), Self::Error>>)
        requires (*old(self.ptr)).kwf(),
        ensures
            *final(cx) == *old(cx),
            !(r matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).kwf() && (*final(self.ptr)).sent() == (*old(self.ptr)).sent(), // accepts nothing by itself
            !(r matches Poll::Ready(Err(_))) && (*old(self.ptr)).ready() ==> (*final(self.ptr)).ready(), // room announced before stays
            r matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).ready(), // success means the next item can be sent
            r is Pending ==> (*final(self.ptr)).sarmed(old(cx).id()), // [wake]
    ;
    fn start_send(self: Pin<&mut Self>, item: Item) -> (r: Result<(), Self::Error>)
        requires (*old(self.ptr)).kwf(), (*old(self.ptr)).ready(), // an item is sent only after poll_ready reported room for it
        ensures
            r is Ok ==> (*final(self.ptr)).kwf() && (*final(self.ptr)).sent() == (*old(self.ptr)).sent().push(item), // the item is accepted, once, after all earlier ones
    ;
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Result<(), Self::Error>>)
        requires (*old(self.ptr)).kwf(),
        ensures
            *final(cx) == *old(cx),
            !(r matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).kwf() && (*final(self.ptr)).sent() == (*old(self.ptr)).sent(),
            !(r matches Poll::Ready(Err(_))) && (*old(self.ptr)).ready() ==> (*final(self.ptr)).ready(), // room announced before stays
            r matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).sflushed(), // completes only when everything accepted was delivered
            r is Pending ==> (*final(self.ptr)).sarmed(old(cx).id()), // [wake]
    ;
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> (r: Poll<Result<(), Self::Error>>)
        requires (*old(self.ptr)).kwf(),
        ensures
            *final(cx) == *old(cx),
            !(r matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).kwf() && (*final(self.ptr)).sent() == (*old(self.ptr)).sent(),
            r matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).sflushed() && (*final(self.ptr)).sclosed(), // closes only after everything was delivered
            r is Pending ==> (*final(self.ptr)).sarmed(old(cx).id()), // [wake]
    ;
}
//@ file futures-sink/src/lib.rs
//@ impl Sink for &mut S
//@ header impl<Item, S: Sink<Item>> Sink<Item> for &mut S
//@ noassoc
    type Error = S::Error;
    open spec fn kwf(&self) -> bool { (**self).kwf() }
    open spec fn sent(&self) -> Seq<Item> { (**self).sent() }
    open spec fn ready(&self) -> bool { (**self).ready() }
    open spec fn sflushed(&self) -> bool { (**self).sflushed() }
    open spec fn sclosed(&self) -> bool { (**self).sclosed() }
    open spec fn sarmed(&self, w: int) -> bool { (**self).sarmed(w) }
//@ fn poll_ready -> r
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ fn start_send -> r
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ fn poll_flush -> r
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ fn poll_close -> r
    ensures *final(*final(self.ptr)) == *final(*old(self.ptr)),
//@ endfn
//@ endimpl
}
