//@ include seqs
verus! {
//@ file futures-util/src/future/future/fuse.rs
//@ struct Fuse
//@ impl Fuse
//@ fn new -> r
    ensures r.inner == Some(f),
//@ endfn
//@ fn terminated -> r
    ensures r.inner is None,
//@ endfn
//@ endimpl
//@ impl Future for Fuse
//@ header impl<Fut: Future> Fuse<Fut>
//@ noassoc
//@ fn poll -> r
//@ kinds poll
    requires old(self.ptr).inner is Some ==> old(self.ptr).inner->0.wf() && !old(self.ptr).inner->0.done(),
    ensures
        *final(cx) == *old(cx),
        final(self.ptr).inner is Some ==> final(self.ptr).inner->0.wf() && !final(self.ptr).inner->0.done(), // [term] the inner future is dropped once complete
        old(self.ptr).inner is None ==> r is Pending && final(self.ptr).inner is None, // [term] a terminated fuse stays pending
        r is Ready ==> old(self.ptr).inner is Some && r->0 == old(self.ptr).inner->0.output() && final(self.ptr).inner is None,
        r is Pending && old(self.ptr).inner is Some ==> final(self.ptr).inner is Some && final(self.ptr).inner->0.output() == old(self.ptr).inner->0.output(),
        r is Pending && old(self.ptr).inner is Some ==> final(self.ptr).inner->0.armed(old(cx).id()), // [wake]
//@ endfn
//@ endimpl
//@ impl FusedFuture for Fuse
//@ header impl<Fut: Future> Fuse<Fut>
//@ fn is_terminated -> r
    ensures r == self.inner is None,
//@ endfn
//@ endimpl
}
