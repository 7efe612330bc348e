//@ include fuse
//@ include trys
verus! {
//@ file futures-util/src/stream/try_stream/into_stream.rs
//@ struct IntoStream
//@ impl IntoStream
//@ fn new -> r
    ensures r.stream == stream,
//@ endfn
//@ endimpl
//@ impl Stream for IntoStream
    open spec fn wf(&self) -> bool { self.stream.wf() }
    open spec fn ended(&self) -> bool { self.stream.ended() }
    open spec fn rest(&self) -> Seq<Result<St::Ok, St::Error>> { self.stream.rest() }
    open spec fn armed(&self, w: int) -> bool { self.stream.armed(w) }
//@ fn poll_next
//@ subst Self::Item =>> Result<St::Ok, St::Error>
//@ endfn
//@ fn size_hint
//@ endfn
//@ endimpl
//@ impl FusedStream for IntoStream
//@ fn is_terminated
//@ endfn
//@ endimpl
}
