//@ include mpsc_base
verus! {
//@ file futures-channel/src/mpsc/mod.rs
//@ trackall push set_closed close_channel inc_num_messages queue_push_and_signal do_send_nb next_message dec_num_messages poll_ready_nb is_closed_ch unbounded_send close => Tracked(&mut *tok)
//@ struct SendErrorKind
//@ struct SendError
//@ struct TrySendError
//@ struct TryRecvError
//@ struct UnboundedInner type:state=StateWord<T> type:message_queue=MsgQueue<T> type:num_senders=SenderCount<T> type:recv_task=RecvTask<T>
//@ struct UnboundedSenderInner
//@ struct UnboundedSender
//@ struct UnboundedReceiver
impl<T> UnboundedInner<T> { pub open spec fn wf(&self) -> bool { self.num_senders.max() == MAX_BUFFER } }
//@ impl UnboundedInner
//@ fn set_closed
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).owed == 0 && old(tok).credit == 0,
    ensures
        final(tok).closed, // closes the channel
        final(tok).role == old(tok).role && final(tok).pushed == old(tok).pushed && final(tok).popped == old(tok).popped && final(tok).owed == 0 && final(tok).credit == 0 && final(tok).minted == old(tok).minted && final(tok).released == old(tok).released && final(tok).last == old(tok).last && final(tok).notify_due == old(tok).notify_due && final(tok).due_wakes == old(tok).due_wakes,
//@ entry
    proof { lemma_mask(); }
//@ endfn
//@ endimpl
//@ impl UnboundedSenderInner
//@ fn poll_ready_nb -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        final(tok).tx() && final(tok).same_tx(old(tok)),
        r is Ready, // never full
        r->0 matches Err(e) ==> e.kind is Disconnected && final(tok).closed, // fails only if closed
        r->0 is Ok ==> !old(tok).closed,
//@ endfn
//@ fn queue_push_and_signal
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ tracked wake => Tracked(&mut *tok)
    requires old(tok).role == 1, old(tok).owed == 1,
    ensures
        final(tok).tx() && final(tok).pushed == old(tok).pushed.push(msg), // the message is queued and the receiver is woken afterwards
        final(tok).closed == old(tok).closed && final(tok).minted == old(tok).minted && final(tok).released == old(tok).released,
//@ endfn
//@ fn inc_num_messages -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
//@ panics
    requires old(tok).tx(),
    ensures
        r is Some ==> final(tok).owed == 1 && r->0 == final(tok).last_n && final(tok).pushed == old(tok).pushed && final(tok).role == 1 && !old(tok).closed && !final(tok).unsignalled && final(tok).minted == old(tok).minted && final(tok).released == old(tok).released,
        r is None ==> final(tok).tx() && final(tok).same_tx(old(tok)) && final(tok).closed, // refuses only if closed
//@ loop 0
    invariant tok.tx() && tok.same_tx(old(tok)), is_open(curr as int) ==> !tok.closed, !is_open(curr as int) ==> tok.closed, old(tok).closed ==> tok.closed,
//@ loopentry 0
    proof { lemma_mask(); }
//@ endfn
//@ fn is_closed -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    ensures r == final(tok).closed, old(tok).closed ==> r, final(tok).same_tx(old(tok)),
//@ endfn
//@ fn close_channel
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ tracked wake => Tracked(&mut *tok)
    requires old(tok).tx(), old(tok).credit == 0,
    ensures final(tok).closed && !final(tok).unsignalled && final(tok).pushed == old(tok).pushed && final(tok).released == old(tok).released && final(tok).last == old(tok).last && final(tok).role == 1 && final(tok).owed == 0, // closed, and the receiver is woken afterwards
//@ endfn
//@ endimpl
//@ impl UnboundedSender
//@ fn poll_ready -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        *final(cx) == *old(cx),
        final(tok).tx() && final(tok).pushed == old(tok).pushed,
        r is Ready,
        r->0 matches Err(e) ==> e.kind is Disconnected && (final(tok).closed || self.0 is None),
//@ subst let inner = self.0.as_ref().ok_or(SendError { kind: SendErrorKind::Disconnected })?; =>> let inner = match self.0.as_ref() { Some(x) => x, None => return Poll::Ready(Err(SendError { kind: SendErrorKind::Disconnected })) };
//@ endfn
//@ fn do_send_nb -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        final(tok).tx(),
        r is Ok ==> final(tok).pushed == old(tok).pushed.push(msg) && !old(tok).closed, // the message is in the channel
        r matches Err(e) ==> e.val == msg && e.err.kind is Disconnected && final(tok).pushed == old(tok).pushed && (final(tok).closed || self.0 is None), // given back only if the receiver is gone
//@ endfn
//@ fn start_send -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        final(tok).tx(),
        r is Ok ==> final(tok).pushed == old(tok).pushed.push(msg),
        r matches Err(e) ==> e.kind is Disconnected && final(tok).pushed == old(tok).pushed && (final(tok).closed || old(self).0 is None),
//@ endfn
//@ fn unbounded_send -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(),
    ensures
        final(tok).tx(),
        r is Ok ==> final(tok).pushed == old(tok).pushed.push(msg),
        r matches Err(e) ==> e.val == msg && e.err.kind is Disconnected && final(tok).pushed == old(tok).pushed && (final(tok).closed || self.0 is None),
//@ endfn
//@ fn disconnect
    ensures final(self).0 is None,
//@ endfn
//@ fn close_channel
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(), old(tok).credit == 0,
    ensures self.0 is Some ==> final(tok).closed, final(tok).pushed == old(tok).pushed && final(tok).tx(),
//@ endfn
//@ fn len -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    ensures final(tok).same_tx(old(tok)), self.0 is None ==> r == 0, self.0 is Some ==> r >= old(tok).owed + old(tok).credit,
//@ endfn
//@ endimpl
//@ impl Clone for UnboundedSenderInner
//@ header impl<T> UnboundedSenderInner<T>
//@ fn clone -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
//@ panics
    requires self.inner.wf(),
    ensures final(tok).minted == old(tok).minted + 1, // every handle is counted
//@ loop 0
    invariant *tok == *old(tok), self.inner.wf(), 1 <= curr <= self.inner.num_senders.max(),
//@ loopentry 0
    proof { lemma_mask(); }
//@ endfn
//@ endimpl
//@ impl Drop for UnboundedSenderInner
//@ header impl<T> UnboundedSenderInner<T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).tx(), old(tok).credit == 0,
    ensures
        final(tok).released == old(tok).released + 1, // the handle is given up
        final(tok).last ==> final(tok).closed && !final(tok).unsignalled, // dropping the last sender closes the channel and wakes the receiver
        !final(tok).last ==> final(tok).closed == old(tok).closed, // and only the last one does
        final(tok).pushed == old(tok).pushed,
//@ endfn
//@ endimpl
//@ impl UnboundedReceiver
//@ fn close
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).rx(), old(tok).owed == 0,
    ensures old(self).inner is Some ==> final(tok).closed, final(tok).rx() && final(tok).popped == old(tok).popped && final(tok).owed == 0, *final(self) == *old(self), // messages already sent stay
//@ endfn
//@ fn try_recv -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).rx(),
    ensures
        final(tok).rx(),
        r matches Ok(m) ==> final(tok).popped == old(tok).popped.push(m) && final(self).inner is Some, // the next message
        r is Err ==> final(tok).popped == old(tok).popped,
        r matches Err(TryRecvError::Closed) ==> final(self).inner is None && (old(self).inner is Some ==> final(tok).finished), // closed and drained
        r matches Err(TryRecvError::Empty) ==> old(self).inner is Some && final(self).inner is Some,
//@ endfn
//@ fn try_next -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).rx(),
    ensures
        final(tok).rx(),
        r matches Ok(Some(m)) ==> final(tok).popped == old(tok).popped.push(m) && final(self).inner is Some, // the next message
        r matches Ok(None) ==> final(tok).popped == old(tok).popped && final(self).inner is None && (old(self).inner is Some ==> final(tok).finished), // closed and drained
        r matches Err(e) ==> e is Empty && final(tok).popped == old(tok).popped && old(self).inner is Some && final(self).inner is Some,
//@ endfn
//@ fn next_message -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).rx(),
    ensures
        final(tok).rx(),
        old(tok).finished ==> final(tok).finished,
        old(tok).closed ==> final(tok).closed,
        final(tok).reg == old(tok).reg && final(tok).owed == old(tok).owed,
        r matches Poll::Ready(Some(m)) ==> final(tok).popped == old(tok).popped.push(m) && final(self).inner is Some && old(self).inner is Some, // the next message, uncounted
        r matches Poll::Ready(None) ==> final(tok).popped == old(tok).popped && final(self).inner is None && (old(self).inner is Some ==> final(tok).finished), // ends only if closed and drained
        r is Pending ==> final(tok).popped == old(tok).popped && final(self).inner is Some && old(self).inner is Some,
        r is Pending && old(tok).reg is Some ==> final(tok).empty_after && final(tok).live_after,
//@ endfn
//@ fn dec_num_messages
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).role == 2, old(tok).credit >= 1,
    ensures self.inner is Some ==> *final(tok) == (MpTok { credit: old(tok).credit - 1, ..*old(tok) }),
//@ endfn
//@ endimpl
//@ impl FusedStream for UnboundedReceiver
//@ header impl<T> UnboundedReceiver<T>
//@ fn is_terminated -> r
    ensures r == (self.inner is None), // [term] exactly after the end was reported
//@ endfn
//@ endimpl
//@ impl Stream for UnboundedReceiver
//@ header impl<T> UnboundedReceiver<T>
//@ noassoc
//@ fn poll_next -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    requires old(tok).rx(),
    ensures
        *final(cx) == *old(cx),
        final(tok).rx(),
        r matches Poll::Ready(Some(m)) ==> final(tok).popped == old(tok).popped.push(m) && final(self.ptr).inner is Some, // the next message, none lost
        r matches Poll::Ready(None) ==> final(tok).popped == old(tok).popped && final(self.ptr).inner is None && (old(self.ptr).inner is Some ==> final(tok).finished), // ends only if closed and drained
        r is Pending ==> final(tok).popped == old(tok).popped && final(self.ptr).inner is Some,
        r is Pending ==> final(tok).reg == Some(old(cx).id()) && final(tok).empty_after && final(tok).live_after, // [wake] waker registered, and nothing there afterwards
//@ endfn
//@ fn size_hint -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
    ensures
        self.inner is None ==> r.0 == 0, // [size]
        self.inner is Some && r.1 is Some ==> final(tok).closed, // [size] an upper bound only once no more messages can be sent
//@ endfn
//@ endimpl
//@ impl Drop for UnboundedReceiver
//@ header impl<T> UnboundedReceiver<T>
//@ fn drop
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::allow_complex_invariants]
    requires old(tok).rx(), old(tok).owed == 0,
    ensures
        old(self).inner is Some ==> final(tok).closed, // senders see that the receiver is gone
        old(self).inner is Some ==> final(tok).finished, // and every message left is dropped
//@ loop 0
    invariant tok.rx(), tok.closed, self.inner is None ==> tok.finished,
    ensures tok.finished, tok.closed,
//@ endfn
//@ endimpl
//@ impl TrySendError
//@ fn into_send_error -> r
    ensures r == self.err,
//@ endfn
//@ endimpl
//@ fn unbounded -> r
    ensures
        r.0.0 is Some && r.1.inner is Some && r.0.0->0.inner == r.1.inner->0, // both ends share one channel
        r.1.inner->0.state.init() == INIT_STATE && r.1.inner->0.num_senders.init() == 1, // open, empty, one sender
//@ endfn
//@ file futures-channel/src/mpsc/sink_impl.rs
//@ impl Sink for UnboundedSender
//@ header impl<T> VSink<T> for UnboundedSender<T>
//@ noassoc
//@ fn poll_ready -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ subst Self::Error =>> SendError
    ensures
        !(r is Pending), // always room
//@ tracked poll_ready => Tracked(&mut *tok)
//@ subst Self::poll_ready(&*self, cx) =>> (*self).poll_ready(cx)
//@ endfn
//@ fn start_send -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ tracked start_send => Tracked(&mut *tok)
//@ subst Self::Error =>> SendError
//@ subst Self::start_send(&mut *self, msg) =>> (*self).start_send(msg)
//@ endfn
//@ fn poll_flush -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ subst Self::Error =>> SendError
    ensures !(r is Pending),
//@ endfn
//@ fn poll_close -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ subst Self::Error =>> SendError
    ensures final(self.ptr).0 is None, // the handle is given up
//@ endfn
//@ endimpl
//@ impl Sink for &UnboundedSender
//@ header impl<'a, T> VSink<T> for &'a UnboundedSender<T>
//@ noassoc
//@ fn poll_ready -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ tracked poll_ready => Tracked(&mut *tok)
//@ subst Self::Error =>> SendError
    ensures !(r is Pending),
//@ subst UnboundedSender::poll_ready(*self, cx) =>> (**self).poll_ready(cx)
//@ endfn
//@ fn start_send -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ tracked unbounded_send => Tracked(&mut *tok)
//@ subst Self::Error =>> SendError
//@ endfn
//@ fn poll_flush -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ subst Self::Error =>> SendError
    ensures !(r is Pending),
//@ endfn
//@ fn poll_close -> r
//@ params Tracked(tok): Tracked<&mut MpTok<T>>
//@ subst Self::Error =>> SendError
    ensures old(self.ptr).0 is Some ==> final(tok).closed, // closes the whole channel
//@ endfn
//@ endimpl
}
