//@ include sink_base
verus! {
//@ file futures-util/src/sink/map_err.rs
//@ struct SinkMapErr
//@ impl SinkMapErr
//@ fn take_f -> ret
    requires (*old(self.ptr)).f is Some, // [term] the closure is used once
    ensures (*old(self.ptr)).f == Some(ret), (*final(self.ptr)).f is None, (*final(self.ptr)).sink == (*old(self.ptr)).sink,
//@ endfn
//@ endimpl
//@ impl Sink for SinkMapErr
//@ header impl<Si, F, Item> Sink<Item> for SinkMapErr<Si, F> where Si: Sink<Item>, F: FnOnce1<<Si as Sink<Item>>::Error>
//@ noassoc
    type Error = <F as FnOnce1<<Si as Sink<Item>>::Error>>::Output;
    open spec fn kwf(&self) -> bool { self.sink.kwf() && self.f is Some }
    open spec fn sent(&self) -> Seq<Item> { self.sink.sent() }
    open spec fn ready(&self) -> bool { self.sink.ready() }
    open spec fn sflushed(&self) -> bool { self.sink.sflushed() }
    open spec fn sclosed(&self) -> bool { self.sink.sclosed() }
    open spec fn sarmed(&self, w: int) -> bool { self.sink.sarmed(w) }
//@ fn poll_ready -> ret
//@ subst Self::Error =>> <F as FnOnce1<<Si as Sink<Item>>::Error>>::Output
    ensures (*final(self.ptr)).f == (*old(self.ptr)).f || (ret matches Poll::Ready(Err(_))),
//@ kinds pollresult
//@ subst self.as_mut().take_f()(e) =>> self.as_mut().take_f().call_once(e)
//@ endfn
//@ fn start_send
//@ subst Self::Error =>> <F as FnOnce1<<Si as Sink<Item>>::Error>>::Output
//@ kinds result
//@ subst self.as_mut().take_f()(e) =>> self.as_mut().take_f().call_once(e)
//@ endfn
//@ fn poll_flush
//@ subst Self::Error =>> <F as FnOnce1<<Si as Sink<Item>>::Error>>::Output
//@ kinds pollresult
//@ subst self.as_mut().take_f()(e) =>> self.as_mut().take_f().call_once(e)
//@ endfn
//@ fn poll_close
//@ subst Self::Error =>> <F as FnOnce1<<Si as Sink<Item>>::Error>>::Output
//@ kinds pollresult
//@ subst self.as_mut().take_f()(e) =>> self.as_mut().take_f().call_once(e)
//@ endfn
//@ endimpl
}
