//@ include sink_base
verus! {
//@ file futures-util/src/future/either.rs
//@ struct Either
//@ impl Either
//@ header impl<A, B> Either<A, B>
//@ fn as_pin_mut -> r
    ensures
        *old(self.ptr) matches Either::Left(a) ==> r is Left && *r->Left_0.ptr == a && *final(self.ptr) == Either::<A, B>::Left(*final(r->Left_0.ptr)),
        *old(self.ptr) matches Either::Right(b) ==> r is Right && *r->Right_0.ptr == b && *final(self.ptr) == Either::<A, B>::Right(*final(r->Right_0.ptr)),
//@ endfn
//@ endimpl
//@ impl Either
//@ header impl<A, B, T> Either<(T, A), (T, B)>
//@ fn factor_first -> r
    ensures match self { Either::Left((x, a)) => r == (x, Either::<A, B>::Left(a)), Either::Right((x, b)) => r == (x, Either::<A, B>::Right(b)) },
//@ endfn
//@ endimpl
//@ impl Either
//@ header impl<A, B, T> Either<(A, T), (B, T)>
//@ fn factor_second -> r
    ensures match self { Either::Left((a, x)) => r == (Either::<A, B>::Left(a), x), Either::Right((b, x)) => r == (Either::<A, B>::Right(b), x) },
//@ endfn
//@ endimpl
//@ impl Either
//@ header impl<T> Either<T, T>
//@ fn into_inner -> r
    ensures self matches Either::Left(x) ==> r == x, self matches Either::Right(x) ==> r == x,
//@ endfn
//@ endimpl
//@ impl Future for Either
    open spec fn wf(&self) -> bool { match self { Either::Left(x) => x.wf(), Either::Right(x) => x.wf() } }
    open spec fn done(&self) -> bool { match self { Either::Left(x) => x.done(), Either::Right(x) => x.done() } }
    open spec fn fin(&self) -> bool { match self { Either::Left(x) => x.fin(), Either::Right(x) => x.fin() } }
    open spec fn output(&self) -> A::Output { match self { Either::Left(x) => x.output(), Either::Right(x) => x.output() } }
    open spec fn armed(&self, w: int) -> bool { match self { Either::Left(x) => x.armed(w), Either::Right(x) => x.armed(w) } }
//@ fn poll
//@ endfn
//@ endimpl
//@ impl FusedFuture for Either
    open spec fn over(&self) -> bool { match self { Either::Left(x) => x.over(), Either::Right(x) => x.over() } }
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ impl Stream for Either
    open spec fn wf(&self) -> bool { match self { Either::Left(x) => x.wf(), Either::Right(x) => x.wf() } }
    open spec fn ended(&self) -> bool { match self { Either::Left(x) => x.ended(), Either::Right(x) => x.ended() } }
    open spec fn rest(&self) -> Seq<A::Item> { match self { Either::Left(x) => x.rest(), Either::Right(x) => x.rest() } }
    open spec fn armed(&self, w: int) -> bool { match self { Either::Left(x) => x.armed(w), Either::Right(x) => x.armed(w) } }
//@ fn poll_next
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for Either
//@ fn is_terminated
//@ endfn
//@ endimpl
//@ impl Sink for Either
    open spec fn kwf(&self) -> bool { match self { Either::Left(x) => x.kwf(), Either::Right(x) => x.kwf() } }
    open spec fn sent(&self) -> Seq<Item> { match self { Either::Left(x) => x.sent(), Either::Right(x) => x.sent() } }
    open spec fn ready(&self) -> bool { match self { Either::Left(x) => x.ready(), Either::Right(x) => x.ready() } }
    open spec fn sflushed(&self) -> bool { match self { Either::Left(x) => x.sflushed(), Either::Right(x) => x.sflushed() } }
    open spec fn sclosed(&self) -> bool { match self { Either::Left(x) => x.sclosed(), Either::Right(x) => x.sclosed() } }
    open spec fn sarmed(&self, w: int) -> bool { match self { Either::Left(x) => x.sarmed(w), Either::Right(x) => x.sarmed(w) } }
//@ fn poll_ready
//@ endfn
//@ fn start_send
//@ endfn
//@ fn poll_flush
//@ endfn
//@ fn poll_close
//@ endfn
//@ endimpl
}
