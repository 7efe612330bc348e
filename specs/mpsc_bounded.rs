//@ include mpsc_base
verus! {
//@ file futures-channel/src/mpsc/mod.rs
//@ trackall push set_closed close_channel inc_num_messages queue_push_and_signal do_send_b try_send park poll_unparked poll_ready next_message dec_num_messages unpark_one close => Tracked(&mut *tok)
//@ guardall lock => Tracked(&mut *tok)
//@ struct SendErrorKind
//@ struct SendError
//@ struct TrySendError
//@ struct TryRecvError
//@ struct SenderTask
pub open spec fn wid(w: Option<Waker>) -> Option<int> { match w { Some(x) => Some(x.id()), None => None } }
// std::sync::Mutex around the parking state of one sender (never poisoned)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(C)]
pub struct Mutex<C, T> { x: PhantomData<(C, T)> }
#[derive(Debug)]
pub struct Poison { }
pub struct MGuard<T> { pub v: SenderTask, pub live: Ghost<bool>, pub id: Ghost<int>, pub found: Ghost<SenderTask>, pub p: PhantomData<T> }
impl<T> Mutex<SenderTask, T> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn init(&self) -> SenderTask;
    #[verifier::external_body]
    pub fn new(c: SenderTask) -> (r: Self) ensures r.init() == c { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: Result<MGuard<T>, Poison>)
        ensures
            r matches Ok(g) && g.live@ && g.id@ == self.id() && g.found@ == g.v,
            r matches Ok(g) && (old(t).role == 1 && g.v.is_parked ==> old(t).left_parked && wid(g.v.task) == old(t).left_task), // only the sender itself sets the mark and the waker; unparking clears both
            r matches Ok(g) && *final(t) == (MpTok { found_parked: g.v.is_parked, ..*old(t) }),
    { unimplemented!() }
}
impl<T> Deref for MGuard<T> { type Target = SenderTask; fn deref(&self) -> (r: &SenderTask) ensures *r == self.v { &self.v } }
impl<T> DerefMut for MGuard<T> {
    fn deref_mut(&mut self) -> (r: &mut SenderTask) ensures *r == old(self).v, *final(self) == (MGuard { v: *final(r), ..*old(self) }) { &mut self.v }
}
impl<T> MGuard<T> {
    #[verifier::external_body]
    pub fn vunlock(&mut self, Tracked(t): Tracked<&mut MpTok<T>>)
        requires
            old(self).live@ && old(t).role == 1 ==> !old(self).v.is_parked || old(self).found@.is_parked || old(t).owed == 1, // a sender marks itself as parked only for a message it has counted and not queued yet
            old(self).live@ && old(t).role == 2 ==> !old(self).v.is_parked, // a parked sender taken from the queue is unparked
        ensures
            !final(self).live@,
            !old(self).live@ ==> *final(t) == *old(t),
            old(self).live@ && old(t).role == 1 ==> *final(t) == (MpTok { left_parked: old(self).v.is_parked, left_task: wid(old(self).v.task), ..*old(t) }),
            old(self).live@ && old(t).role == 2 ==> *final(t) == (MpTok { notify_due: if old(t).notify_due == Some(old(self).id@) { None } else { old(t).notify_due }, due_wakes: match wid(old(self).found@.task) { Some(w) => old(t).due_wakes.insert(w), None => old(t).due_wakes }, ..*old(t) }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ParkQueue<T> { x: PhantomData<T> }
impl<T> ParkQueue<T> {
    #[verifier::external_body]
    pub fn push(&self, m: Arc<Mutex<SenderTask, T>>, Tracked(t): Tracked<&mut MpTok<T>>)
        requires
            old(t).role == 1 && old(t).owed == 1, // the sender parks before its message is queued: the receiver looks for a parked sender after taking it
            old(t).left_parked, // and is marked as parked by then
        ensures *final(t) == (MpTok { parks: old(t).parks + 1, open_after_park: false, ..*old(t) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_spin(&self, Tracked(t): Tracked<&mut MpTok<T>>) -> (r: Option<Arc<Mutex<SenderTask, T>>>)
        requires old(t).role == 2 && old(t).notify_due is None, // every sender taken from the queue is unparked
        ensures
            r matches Some(m) ==> *final(t) == (MpTok { visits: old(t).visits + 1, notify_due: Some(m.id()), ..*old(t) }),
            r is None ==> *final(t) == (MpTok { visits: old(t).visits + 1, drained: old(t).closed, ..*old(t) }),
    { unimplemented!() }
}
impl<T> VZero for ParkQueue<T> { #[verifier::external_body] fn vzero() -> (r: Self) { unimplemented!() } }
// ---- machine: no sender stays parked on a channel whose messages have all been taken.  `entries`: handles in the parked queue;
// `parkers`: senders with a counted message, already in the parked queue, that have not queued it yet; `plain`: the other ones;
// `unvisited`: messages taken for which the receiver has not looked for a parked sender yet.
pub struct Pk { pub entries: int, pub parkers: int, pub plain: int, pub queued: int, pub unvisited: int }
pub open spec fn pinv(s: Pk) -> bool { 0 <= s.entries <= s.parkers + s.queued + s.unvisited && s.parkers >= 0 && s.plain >= 0 && s.queued >= 0 && s.unvisited >= 0 }
pub enum PStep { Count, Park, PushParked, PushPlain, Pop, Visit }
pub open spec fn pnext(s: Pk, x: PStep, n: Pk) -> bool {
    match x {
        PStep::Count => n == (Pk { plain: s.plain + 1, ..s }),
        PStep::Park => s.plain > 0 && n == (Pk { plain: s.plain - 1, parkers: s.parkers + 1, entries: s.entries + 1, ..s }), // contract of park: message counted and not queued
        PStep::PushParked => s.parkers > 0 && n == (Pk { parkers: s.parkers - 1, queued: s.queued + 1, ..s }),
        PStep::PushPlain => s.plain > 0 && n == (Pk { plain: s.plain - 1, queued: s.queued + 1, ..s }),
        PStep::Pop => s.queued > 0 && n == (Pk { queued: s.queued - 1, unvisited: s.unvisited + 1, ..s }),
        PStep::Visit => s.unvisited > 0 && n == (Pk { unvisited: s.unvisited - 1, entries: if s.entries > 0 { s.entries - 1 } else { s.entries }, ..s }), // contract of next_message: one visit per message
    }
}
pub proof fn machine_park_step(s: Pk, x: PStep, n: Pk) requires pinv(s), pnext(s, x, n) ensures pinv(n) {}
pub proof fn machine_all_unparked(s: Pk) requires pinv(s), s.queued == 0, s.parkers == 0, s.unvisited == 0 ensures s.entries == 0 {}
//@ struct BoundedInner type:state=StateWord<T> type:message_queue=MsgQueue<T> type:parked_queue=ParkQueue<T> type:num_senders=SenderCount<T> type:recv_task=RecvTask<T>
//@ struct BoundedSenderInner type:sender_task=Arc<Mutex<SenderTask,T>>
//@ struct Sender
//@ struct Receiver
//@ impl SendError
//@ fn is_disconnected -> r
    ensures r == (self.kind is Disconnected),
//@ endfn
//@ fn is_full -> r
    ensures r == (self.kind is Full),
//@ endfn
//@ endimpl
//@ impl SenderTask
//@ fn new -> r
    ensures !r.is_parked && r.task is None,
//@ endfn
//@ fn notify
    ensures !final(self).is_parked, old(self).task matches Some(w) ==> wake_requested(w.id()), // [wake] unparks the sender and wakes its task
//@ endfn
//@ endimpl
impl<T> BoundedInner<T> { pub open spec fn wf(&self) -> bool { self.num_senders.max() == MAX_CAPACITY - self.buffer && self.buffer < MAX_BUFFER } }
//@ impl BoundedInner
//@ fn max_senders -> r
    requires self.wf(),
    ensures r == MAX_CAPACITY - self.buffer, // every sender has room for one message beyond the buffer
//@ entry
    proof { lemma_mask(); }
//@ endfn
//@ fn set_closed
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).owed == 0 && old(tok).credit == 0,
    ensures
        final(tok).closed, // closes the channel
        final(tok).role == old(tok).role && final(tok).pushed == old(tok).pushed && final(tok).popped == old(tok).popped && final(tok).owed == 0 && final(tok).credit == 0 && final(tok).minted == old(tok).minted && final(tok).released == old(tok).released && final(tok).last == old(tok).last && final(tok).notify_due == old(tok).notify_due && final(tok).due_wakes == old(tok).due_wakes,
//@ entry
    proof { lemma_mask(); }
//@ endfn
//@ endimpl
//@ impl BoundedSenderInner
//@ fn try_send -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ panics
    requires old(tok).tx(),
    ensures
        final(tok).tx(),
        final(self).inner == old(self).inner,
        r is Ok ==> final(tok).pushed == old(tok).pushed.push(msg) && !old(tok).closed, // the message is in the channel
        r is Ok ==> if final(tok).last_n > old(self).inner.buffer { final(tok).parks == old(tok).parks + 1 && (final(self).maybe_parked || final(tok).closed) } else { final(tok).parks == old(tok).parks && !final(self).maybe_parked }, // beyond the buffer: the sender parks
        r matches Err(e) ==> e.val == msg && final(tok).pushed == old(tok).pushed && final(tok).parks == old(tok).parks, // the message is given back
        r matches Err(e) ==> e.err.kind is Disconnected ==> final(tok).closed, // disconnected only if the receiver is gone
        r matches Err(e) ==> e.err.kind is Full ==> old(self).maybe_parked && final(self).maybe_parked && final(tok).found_parked, // full only while parked
        r matches Err(e) ==> e.err.kind is Full ==> final(tok).left_parked && final(tok).left_task == old(tok).left_task, // [wake] a task already waiting stays registered
//@ endfn
//@ fn do_send_b -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ panics
    requires old(tok).tx(), !old(self).maybe_parked, // a parked sender does not send
    ensures
        final(tok).tx(),
        final(self).inner == old(self).inner,
        r is Ok ==> final(tok).pushed == old(tok).pushed.push(msg) && !old(tok).closed,
        r is Ok ==> if final(tok).last_n > old(self).inner.buffer { final(tok).parks == old(tok).parks + 1 && (final(self).maybe_parked || final(tok).closed) } else { final(tok).parks == old(tok).parks && !final(self).maybe_parked },
        r matches Err(e) ==> e.val == msg && e.err.kind is Disconnected && final(tok).closed && final(tok).pushed == old(tok).pushed && final(tok).parks == old(tok).parks,
//@ endfn
//@ fn queue_push_and_signal
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ tracked wake => Tracked(&mut *tok)
    requires old(tok).role == 1, old(tok).owed == 1,
    ensures
        final(tok).tx() && final(tok).pushed == old(tok).pushed.push(msg), // the message is queued and the receiver is woken afterwards
        final(tok).closed == old(tok).closed && final(tok).minted == old(tok).minted && final(tok).released == old(tok).released && final(tok).parks == old(tok).parks && final(tok).last_n == old(tok).last_n,
//@ endfn
//@ fn inc_num_messages -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
//@ panics
    requires old(tok).tx(),
    ensures
        r is Some ==> final(tok).owed == 1 && r->0 == final(tok).last_n && final(tok).pushed == old(tok).pushed && final(tok).role == 1 && !old(tok).closed && !final(tok).unsignalled && final(tok).minted == old(tok).minted && final(tok).released == old(tok).released && final(tok).parks == old(tok).parks,
        r is None ==> final(tok).tx() && final(tok).same_tx(old(tok)) && final(tok).closed, // refuses only if closed
//@ loop 0
    invariant tok.tx() && tok.same_tx(old(tok)), is_open(curr as int) ==> !tok.closed, !is_open(curr as int) ==> tok.closed, old(tok).closed ==> tok.closed,
//@ loopentry 0
    proof { lemma_mask(); }
//@ endfn
//@ fn park
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).role == 1, old(tok).owed == 1, !old(tok).unsignalled,
    ensures
        final(tok).role == 1 && final(tok).owed == 1 && final(tok).pushed == old(tok).pushed && final(tok).last_n == old(tok).last_n && !final(tok).unsignalled,
        final(tok).parks == old(tok).parks + 1, // the sender is in the parked queue
        final(self).maybe_parked ==> final(tok).open_after_park, // and counts on being unparked only if the channel was open afterwards
        final(self).maybe_parked || final(tok).closed,
        final(self).inner == old(self).inner && final(self).sender_task == old(self).sender_task,
//@ endfn
//@ fn poll_ready -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        *final(cx) == *old(cx),
        final(tok).tx() && final(tok).same_tx(old(tok)),
        r matches Poll::Ready(Ok(_)) ==> !final(self).maybe_parked && !old(tok).closed, // ready: not parked
        r matches Poll::Ready(Err(e)) ==> e.kind is Disconnected && final(tok).closed,
        r is Pending ==> final(self).maybe_parked && final(tok).left_parked && final(tok).left_task == Some(old(cx).id()), // [wake] still parked, with the waker where unparking finds it
//@ endfn
//@ fn poll_unparked -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        final(tok).tx() && final(tok).same_tx(old(tok)) && final(tok).closed == old(tok).closed,
        final(self).inner == old(self).inner,
        r is Ready ==> !final(self).maybe_parked, // ready only if not parked
        r is Ready ==> !old(self).maybe_parked || !final(tok).found_parked,
        r is Pending ==> old(self).maybe_parked && final(self).maybe_parked && final(tok).found_parked,
        r is Pending && cx is None ==> final(tok).left_parked && final(tok).left_task == old(tok).left_task, // [wake] a task already waiting stays registered
        r is Pending ==> (cx matches Some(c) ==> final(tok).left_parked && final(tok).left_task == Some((*c).id())), // [wake] pending with the waker where unparking finds it
        cx matches Some(c) ==> *final(c) == *c,
//@ endfn
//@ fn is_closed -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    ensures r == final(tok).closed, old(tok).closed ==> r, final(tok).same_tx(old(tok)),
//@ endfn
//@ fn close_channel
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ tracked wake => Tracked(&mut *tok)
    requires old(tok).tx(), old(tok).credit == 0,
    ensures final(tok).closed && !final(tok).unsignalled && final(tok).pushed == old(tok).pushed && final(tok).released == old(tok).released && final(tok).last == old(tok).last && final(tok).role == 1 && final(tok).owed == 0, // closed, and the receiver is woken afterwards
//@ endfn
//@ endimpl
//@ impl Sender
//@ fn try_send -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        final(tok).tx(),
        r is Ok ==> final(tok).pushed == old(tok).pushed.push(msg) && !old(tok).closed,
        r matches Err(e) ==> e.val == msg && final(tok).pushed == old(tok).pushed,
        r matches Err(e) ==> e.err.kind is Disconnected ==> final(tok).closed || old(self).0 is None,
//@ endfn
//@ fn start_send -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        final(tok).tx(),
        r is Ok ==> final(tok).pushed == old(tok).pushed.push(msg),
        r is Err ==> final(tok).pushed == old(tok).pushed,
//@ endfn
//@ fn poll_ready -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        *final(cx) == *old(cx),
        final(tok).tx() && final(tok).pushed == old(tok).pushed,
        r matches Poll::Ready(Ok(_)) ==> final(self).0 is Some && !final(self).0->0.maybe_parked,
        r matches Poll::Ready(Err(e)) ==> e.kind is Disconnected && (final(tok).closed || old(self).0 is None),
        r is Pending ==> final(tok).left_parked && final(tok).left_task == Some(old(cx).id()), // [wake]
//@ subst let inner = self.0.as_mut().ok_or(SendError { kind: SendErrorKind::Disconnected })?; =>> let inner = match self.0.as_mut() { Some(x) => x, None => return Poll::Ready(Err(SendError { kind: SendErrorKind::Disconnected })) };
//@ endfn
//@ fn disconnect
    ensures final(self).0 is None,
//@ endfn
//@ fn close_channel
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(), old(tok).credit == 0,
    ensures old(self).0 is Some ==> final(tok).closed, final(tok).pushed == old(tok).pushed && final(tok).tx(),
//@ endfn
//@ endimpl
//@ impl Clone for BoundedSenderInner
//@ header impl<T> BoundedSenderInner<T>
//@ fn clone -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
//@ panics
    requires self.inner.wf(),
    ensures
        final(tok).minted == old(tok).minted + 1, // every handle is counted
        !r.maybe_parked && r.inner == self.inner && !r.sender_task.init().is_parked, // and parks on its own
//@ loop 0
    invariant *tok == *old(tok), self.inner.wf(), 1 <= curr <= self.inner.num_senders.max(),
//@ loopentry 0
    proof { lemma_mask(); }
//@ endfn
//@ endimpl
//@ impl Drop for BoundedSenderInner
//@ header impl<T> BoundedSenderInner<T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(), old(tok).credit == 0,
    ensures
        final(tok).released == old(tok).released + 1, // the handle is given up
        final(tok).last ==> final(tok).closed && !final(tok).unsignalled, // dropping the last sender closes the channel and wakes the receiver
        !final(tok).last ==> final(tok).closed == old(tok).closed, // and only the last one does
        final(tok).pushed == old(tok).pushed,
//@ endfn
//@ endimpl
//@ impl Receiver
//@ fn close
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
    requires old(tok).rx(), old(tok).owed == 0,
    ensures
        old(self).inner is Some ==> final(tok).closed && final(tok).drained, // closed, then every parked sender is unparked
        final(tok).rx() && final(tok).popped == old(tok).popped && final(tok).owed == 0, *final(self) == *old(self), // messages already sent stay
//@ loop 0
    invariant tok.rx(), tok.closed, tok.owed == 0, tok.popped == old(tok).popped,
    ensures tok.drained, tok.rx(), tok.closed, tok.owed == 0, tok.popped == old(tok).popped,
//@ endfn
//@ fn try_recv -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).rx(),
    ensures
        final(tok).rx(),
        r matches Ok(m) ==> final(tok).popped == old(tok).popped.push(m) && final(self).inner is Some, // the next message
        r is Err ==> final(tok).popped == old(tok).popped,
        r matches Err(TryRecvError::Closed) ==> final(self).inner is None && (old(self).inner is Some ==> final(tok).finished), // closed and drained
        r matches Err(TryRecvError::Empty) ==> old(self).inner is Some && final(self).inner is Some,
//@ endfn
//@ fn try_next -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).rx(),
    ensures
        final(tok).rx(),
        r matches Ok(Some(m)) ==> final(tok).popped == old(tok).popped.push(m) && final(self).inner is Some, // the next message
        r matches Ok(None) ==> final(tok).popped == old(tok).popped && final(self).inner is None && (old(self).inner is Some ==> final(tok).finished), // closed and drained
        r matches Err(e) ==> e is Empty && final(tok).popped == old(tok).popped && old(self).inner is Some && final(self).inner is Some,
//@ endfn
//@ fn next_message -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).rx(),
    ensures
        final(tok).rx(),
        old(tok).finished ==> final(tok).finished,
        old(tok).closed ==> final(tok).closed,
        final(tok).reg == old(tok).reg && final(tok).owed == old(tok).owed,
        r matches Poll::Ready(Some(m)) ==> final(tok).popped == old(tok).popped.push(m) && final(self).inner is Some && old(self).inner is Some, // the next message, uncounted
        r matches Poll::Ready(Some(m)) ==> final(tok).visits == old(tok).visits + 1, // one parked sender, if any, is unparked for it
        r matches Poll::Ready(None) ==> final(tok).popped == old(tok).popped && final(self).inner is None && (old(self).inner is Some ==> final(tok).finished), // ends only if closed and drained
        r is Pending ==> final(tok).popped == old(tok).popped && final(self).inner is Some && old(self).inner is Some,
        r is Pending && old(tok).reg is Some ==> final(tok).empty_after && final(tok).live_after,
//@ endfn
//@ fn unpark_one
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).role == 2, old(tok).notify_due is None, forall|w: int| old(tok).due_wakes.contains(w) ==> #[trigger] wake_requested(w),
    ensures
        *final(self) == *old(self),
        old(self).inner is Some ==> final(tok).visits == old(tok).visits + 1,
        final(tok).notify_due is None && (forall|w: int| final(tok).due_wakes.contains(w) ==> #[trigger] wake_requested(w)), // the sender taken from the queue is unparked and woken
        *final(tok) == (MpTok { visits: final(tok).visits, notify_due: None, due_wakes: final(tok).due_wakes, drained: final(tok).drained, found_parked: final(tok).found_parked, ..*old(tok) }),
//@ endfn
//@ fn dec_num_messages
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).role == 2, old(tok).credit >= 1,
    ensures self.inner is Some ==> *final(tok) == (MpTok { credit: old(tok).credit - 1, ..*old(tok) }),
//@ endfn
//@ endimpl
//@ impl FusedStream for Receiver
//@ header impl<T> Receiver<T>
//@ fn is_terminated -> r
    ensures r == (self.inner is None), // [term] exactly after the end was reported
//@ endfn
//@ endimpl
//@ impl Stream for Receiver
//@ header impl<T> Receiver<T>
//@ noassoc
//@ fn poll_next -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).rx(),
    ensures
        *final(cx) == *old(cx),
        final(tok).rx(),
        r matches Poll::Ready(Some(m)) ==> final(tok).popped == old(tok).popped.push(m) && final(self.ptr).inner is Some, // the next message, none lost
        r matches Poll::Ready(None) ==> final(tok).popped == old(tok).popped && final(self.ptr).inner is None && (old(self.ptr).inner is Some ==> final(tok).finished), // ends only if closed and drained
        r is Pending ==> final(tok).popped == old(tok).popped && final(self.ptr).inner is Some,
        r is Pending ==> final(tok).reg == Some(old(cx).id()) && final(tok).empty_after && final(tok).live_after, // [wake] waker registered, and nothing there afterwards
//@ endfn
//@ fn size_hint -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    ensures
        self.inner is None ==> r.0 == 0, // [size]
        self.inner is Some && r.1 is Some ==> final(tok).closed, // [size] an upper bound only once no more messages can be sent
//@ endfn
//@ endimpl
//@ impl Drop for Receiver
//@ header impl<T> Receiver<T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
    requires old(tok).rx(), old(tok).owed == 0,
    ensures
        old(self).inner is Some ==> final(tok).closed, // senders see that the receiver is gone
        old(self).inner is Some ==> final(tok).finished, // and every message left is dropped
//@ loop 0
    invariant tok.rx(), tok.closed, self.inner is None ==> tok.finished,
    ensures tok.finished, tok.closed,
//@ endfn
//@ endimpl
//@ fn channel -> r
//@ panics
    ensures
        r.0.0 is Some && r.1.inner is Some && r.0.0->0.inner == r.1.inner->0, // both ends share one channel
        r.1.inner->0.buffer == buffer && buffer < MAX_BUFFER, // with the buffer asked for
        r.1.inner->0.state.init() == INIT_STATE && r.1.inner->0.num_senders.init() == 1, // open, empty, one sender
        !r.0.0->0.maybe_parked && !r.0.0->0.sender_task.init().is_parked, // that may send
//@ endfn
//@ file futures-channel/src/mpsc/sink_impl.rs
//@ impl Sink for Sender
//@ header impl<T> VSink<T> for Sender<T>
//@ noassoc
//@ fn poll_ready -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ subst Self::Error =>> SendError
    ensures
        r matches Poll::Ready(Ok(_)) ==> final(self.ptr).0 is Some && !final(self.ptr).0->0.maybe_parked, // ready: the next message is taken
        r is Pending ==> final(tok).left_parked && final(tok).left_task == Some(old(cx).id()), // [wake]
//@ endfn
//@ fn start_send -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ tracked start_send => Tracked(&mut *tok)
//@ subst Self::Error =>> SendError
//@ endfn
//@ fn poll_flush -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ subst Self::Error =>> SendError
    ensures
        r is Pending ==> final(tok).left_parked && final(tok).left_task == Some(old(cx).id()), // [wake]
//@ endfn
//@ fn poll_close -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ subst Self::Error =>> SendError
    ensures final(self.ptr).0 is None, // the handle is given up
//@ endfn
//@ endimpl
}
