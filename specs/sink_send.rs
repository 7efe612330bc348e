//@ include sink_base
verus! {
//@ file futures-util/src/sink/feed.rs
//@ struct Feed
//@ impl Feed
//@ header impl<'a, Si: Sink<Item>, Item> Feed<'a, Si, Item>
//@ fn new -> r
    ensures *r.sink == *old(sink), *final(r.sink) == *final(sink), r.item == Some(item),
//@ endfn
//@ fn is_item_pending -> r
    ensures r == (self.item is Some),
//@ endfn
//@ fn sink_pin_mut -> r
    ensures *r.ptr == *old(self).sink, *final(r.ptr) == *final(self).sink, *final(final(self).sink) == *final(old(self).sink), final(self).item == old(self).item,
//@ endfn
//@ endimpl
//@ impl Future for Feed
//@ header impl<Si: Sink<Item>, Item> Feed<'_, Si, Item>
//@ noassoc
//@ fn poll -> ret
    requires (*old(self.ptr)).sink.kwf(), (*old(self.ptr)).item is Some,
    ensures
        *final(cx) == *old(cx), *final((*final(self.ptr)).sink) == *final((*old(self.ptr)).sink),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).sink.kwf() && (*final(self.ptr)).item is None && (*final(self.ptr)).sink.sent() == (*old(self.ptr)).sink.sent().push((*old(self.ptr)).item->0), // completes exactly when the item was accepted, once
        ret is Pending ==> (*final(self.ptr)).sink.kwf() && (*final(self.ptr)).item == (*old(self.ptr)).item && (*final(self.ptr)).sink.sent() == (*old(self.ptr)).sink.sent(), // the item waits
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ file futures-util/src/sink/send.rs
//@ struct Send
//@ impl Future for Send
//@ header impl<Si: Sink<Item>, Item> Send<'_, Si, Item>
//@ noassoc
    pub open spec fn total(&self) -> Seq<Item> { match self.feed.item { Some(x) => self.feed.sink.sent().push(x), None => self.feed.sink.sent() } }
//@ fn poll -> ret
    requires (*old(self.ptr)).feed.sink.kwf(),
    ensures
        *final(cx) == *old(cx),
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).feed.sink.kwf() && (*final(self.ptr)).total() == (*old(self.ptr)).total(), // the item is sent exactly once
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).feed.item is None && (*final(self.ptr)).feed.sink.sflushed(), // completes only when the item was accepted and flushed
        ret is Pending ==> (*final(self.ptr)).feed.sink.sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ file futures-util/src/sink/flush.rs
//@ struct Flush
//@ impl Future for Flush
//@ header impl<Si: Sink<Item>, Item> Flush<'_, Si, Item>
//@ noassoc
//@ fn poll -> ret
    requires (*old(self.ptr)).sink.kwf(),
    ensures
        *final(cx) == *old(cx),
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).sink.kwf() && (*final(self.ptr)).sink.sent() == (*old(self.ptr)).sink.sent(),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).sink.sflushed(), // completes only when flushed
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ file futures-util/src/sink/close.rs
//@ struct Close
//@ impl Future for Close
//@ header impl<Si: Sink<Item>, Item> Close<'_, Si, Item>
//@ noassoc
//@ fn poll -> ret
    requires (*old(self.ptr)).sink.kwf(),
    ensures
        *final(cx) == *old(cx),
        !(ret matches Poll::Ready(Err(_))) ==> (*final(self.ptr)).sink.kwf() && (*final(self.ptr)).sink.sent() == (*old(self.ptr)).sink.sent(),
        ret matches Poll::Ready(Ok(_)) ==> (*final(self.ptr)).sink.sflushed() && (*final(self.ptr)).sink.sclosed(), // completes only when flushed and closed
        ret is Pending ==> (*final(self.ptr)).sink.sarmed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
}
