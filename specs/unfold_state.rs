//@ include seqs
verus! {
//@ file futures-util/src/unfold_state.rs
//@ struct UnfoldState
//@ impl UnfoldState
//@ fn is_empty -> r
    ensures r == (*self is Empty),
//@ endfn
//@ fn is_future -> r
    ensures r == (*self is Future),
//@ endfn
//@ fn project_future -> r
    ensures
        *old(self.ptr) is Future ==> r is Some && *r->0.ptr == (*old(self.ptr))->future && *final(self.ptr) == (UnfoldState::<T, Fut>::Future { future: *final(r->0.ptr) }),
        !(*old(self.ptr) is Future) ==> r is None && *final(self.ptr) == *old(self.ptr),
//@ endfn
//@ fn take_value -> r
    ensures
        *old(self.ptr) is Value ==> r == Some((*old(self.ptr))->value) && *final(self.ptr) is Empty,
        !(*old(self.ptr) is Value) ==> r is None && *final(self.ptr) == *old(self.ptr),
//@ endfn
//@ endimpl
}
