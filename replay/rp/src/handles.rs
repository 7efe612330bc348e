//! Shared, Abortable and RemoteHandle: operation sequences against a model, with operations injected while the inner future
//! is being polled, and runs on real threads.
use crate::conc::{block, rounds, spin, Wk};
use crate::core::*;
use futures::future::{AbortHandle, Abortable, Aborted, FutureExt, RemoteHandle, Shared, WeakShared};
use futures::StreamExt;
use futures_core::FusedFuture;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

// ---- Shared
#[derive(Clone, Debug, PartialEq)]
struct Val(i32);
struct Cl {
    s: Shared<In>,
    wk: Option<Wk>,
    mark: usize,
    pending: bool,
}
#[derive(Default)]
struct St {
    cl: RefCell<Vec<Option<Cl>>>,
    plan: Cell<(usize, usize, usize)>, // what the next poll of the inner future does: wake?, re-entrant operation, result
    polls: Cell<usize>,
    polling: Cell<bool>,
    outcome: Cell<u8>, // 1 completed, 2 panicked
    waker: RefCell<Option<Waker>>,
    due: Cell<bool>, // the inner future's waker was called since its last poll began
    dropped: Cell<usize>,
}
struct In {
    st: Rc<St>,
    w: W,
}
impl Drop for In {
    fn drop(&mut self) {
        self.st.dropped.set(self.st.dropped.get() + 1);
    }
}
impl Future for In {
    type Output = Val;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Val> {
        let st = self.st.clone();
        if st.polling.get() {
            self.w.fault("core", "inner future polled while it is being polled");
        }
        if st.outcome.get() != 0 {
            self.w.fault("term", "inner future polled after it finished");
        }
        st.polling.set(true);
        st.polls.set(st.polls.get() + 1);
        st.due.set(false);
        let (wake, op, res) = st.plan.get();
        *st.waker.borrow_mut() = Some(cx.waker().clone());
        if wake == 1 {
            self.w.note("[inner: wake]");
            st.due.set(true);
            cx.waker().wake_by_ref();
        }
        match op {
            1 | 2 => {
                // another clone is polled (elsewhere) in the meantime
                let j = st.cl.borrow().iter().position(|c| c.is_some());
                if let Some(j) = j {
                    self.w.note(format!("[meanwhile: poll s{}]", j));
                    poll_clone(&st, &self.w, j, op == 2);
                }
            }
            3 => {
                let c = st.cl.borrow_mut().iter_mut().find(|c| c.is_some()).and_then(|c| c.take());
                if c.is_some() {
                    self.w.note("[meanwhile: drop a clone]");
                }
                drop(c);
            }
            _ => {}
        }
        st.polling.set(false);
        match res {
            1 => {
                st.outcome.set(1);
                Poll::Ready(Val(7))
            }
            2 => {
                st.outcome.set(2);
                std::panic::resume_unwind(Box::new("inner"))
            }
            _ => Poll::Pending,
        }
    }
}
fn poll_clone(st: &Rc<St>, w: &W, i: usize, fresh: bool) {
    let mut c = match st.cl.borrow_mut()[i].take() {
        Some(c) => c,
        None => return,
    };
    let old = if c.wk.is_none() || fresh { c.wk.replace(Wk::new(0)) } else { None };
    let wk = c.wk.as_ref().unwrap().0;
    c.mark = wk.wakes.get();
    let waker = wk.waker();
    let was = st.outcome.get();
    let polling = st.polling.get();
    let r = catch_unwind(AssertUnwindSafe(|| c.s.poll_unpin(&mut Context::from_waker(&waker))));
    drop(waker);
    drop(old);
    let now = st.outcome.get();
    match r {
        Ok(Poll::Ready(v)) => {
            w.note(format!("s{} -> Ready", i));
            if v != Val(7) || now != 1 {
                w.fault("core", format!("clone completed with {:?}, inner outcome {}", v, now));
            }
            if !c.s.is_terminated() {
                w.fault("term", "is_terminated false after completion");
            }
        }
        Ok(Poll::Pending) => {
            w.note(format!("s{} -> Pending", i));
            if was != 0 || now != 0 && !polling {
                w.fault("wake", "clone Pending although the inner future has finished");
            }
            if c.s.is_terminated() {
                w.fault("term", "is_terminated while Pending");
            }
            c.pending = true;
            st.cl.borrow_mut()[i] = Some(c);
        }
        Err(_) => {
            w.note(format!("s{} -> panic", i));
            if now != 2 {
                w.fault("core", "polling a clone panicked although the inner future did not");
            }
        }
    }
}
fn sh_ops(c: &mut Ch, w: &W) {
    let st: Rc<St> = Rc::new(St::default());
    let s0 = In { st: st.clone(), w: w.clone() }.shared();
    let weak: WeakShared<In> = s0.downgrade().unwrap();
    st.cl.borrow_mut().push(Some(Cl { s: s0, wk: None, mark: 0, pending: false }));
    let n = if c.is_random() { 12 } else { 5 };
    for _ in 0..n {
        let live: Vec<usize> = (0..st.cl.borrow().len()).filter(|i| st.cl.borrow()[*i].is_some()).collect();
        match c.pick(6) {
            0 | 1 => {
                if live.is_empty() {
                    continue;
                }
                let i = live[c.pick(live.len())];
                if st.outcome.get() == 0 {
                    st.plan.set((c.pick(2), c.pick(4), c.pick(3)));
                }
                let fresh = c.flag();
                w.note(format!("poll s{}{}", i, if fresh { " (new waker)" } else { "" }));
                poll_clone(&st, w, i, fresh);
            }
            2 => {
                if live.is_empty() || st.cl.borrow().len() >= 4 {
                    continue;
                }
                let i = live[c.pick(live.len())];
                let how = c.pick(2);
                let s = if how == 0 {
                    st.cl.borrow()[i].as_ref().unwrap().s.clone()
                } else {
                    match weak.upgrade() {
                        Some(s) => s,
                        None => {
                            w.fault("core", "upgrade failed although a clone is alive");
                            continue;
                        }
                    }
                };
                w.note(format!("s{} = clone", st.cl.borrow().len()));
                if !s.ptr_eq(&st.cl.borrow()[i].as_ref().unwrap().s) {
                    w.fault("core", "ptr_eq false for a clone");
                }
                st.cl.borrow_mut().push(Some(Cl { s, wk: None, mark: 0, pending: false }));
            }
            3 => {
                if live.is_empty() {
                    continue;
                }
                let i = live[c.pick(live.len())];
                w.note(format!("drop s{}", i));
                let x = st.cl.borrow_mut()[i].take();
                drop(x);
            }
            4 => {
                let wk = st.waker.borrow_mut().take();
                if let (Some(wk), 0) = (wk, st.outcome.get()) {
                    w.note("inner woken");
                    st.due.set(true);
                    wk.wake();
                }
            }
            _ => {
                if live.is_empty() || st.outcome.get() == 2 {
                    continue;
                }
                let b = st.cl.borrow();
                let p = b[live[0]].as_ref().unwrap().s.peek();
                if p.is_some() != (st.outcome.get() == 1) || p.map_or(false, |v| *v != Val(7)) {
                    w.fault("core", "peek wrong");
                }
            }
        }
        let b = st.cl.borrow();
        let waiting: Vec<&Cl> = b.iter().flatten().filter(|f| f.pending).collect();
        let woken = |f: &&Cl| f.wk.as_ref().unwrap().0.wakes.get() > f.mark;
        if st.outcome.get() != 0 && !waiting.iter().all(woken) {
            w.fault("wake", format!("the inner future {}, a clone is Pending and has not been woken", if st.outcome.get() == 1 { "completed" } else { "panicked" }));
            return;
        }
        if st.outcome.get() == 0 && st.due.get() && !waiting.is_empty() && !waiting.iter().any(woken) {
            w.fault("wake", "the inner future was woken, clones are Pending, and none of them has been woken");
            return;
        }
    }
    st.cl.borrow_mut().clear();
    *st.waker.borrow_mut() = None;
    if st.dropped.get() != 1 {
        w.fault("core", format!("inner future dropped {} times", st.dropped.get()));
    }
}
fn sh_threads(c: &mut Ch, w: &W) {
    let (n, a, b) = match rounds(c) {
        Some(x) => x,
        None => return,
    };
    for k in 0..n {
        let (tx, rx) = futures::channel::oneshot::channel::<usize>();
        let boom = k % 4 == 3;
        let s = async move {
            let v = rx.await.unwrap();
            if boom {
                std::panic::resume_unwind(Box::new("inner"));
            }
            Arc::new(v)
        }
        .shared();
        let hs: Vec<_> = (0..3usize)
            .map(|t| {
                let mut s = s.clone();
                std::thread::spawn(move || {
                    spin(a * ((k + t) % 5));
                    if t == 2 {
                        // a clone that is polled and dropped
                        let mut x = s.clone();
                        let wk = futures::task::noop_waker();
                        let _ = catch_unwind(AssertUnwindSafe(|| x.poll_unpin(&mut Context::from_waker(&wk)).is_ready()));
                    }
                    match catch_unwind(AssertUnwindSafe(|| block(|cx| s.poll_unpin(cx)))) {
                        Ok(Some(v)) => (*v == k && !boom) as u8,
                        Ok(None) => 2,
                        Err(_) => boom as u8,
                    }
                })
            })
            .collect();
        drop(s);
        spin(b * (k % 7));
        let _ = tx.send(k);
        for h in hs {
            match h.join().unwrap() {
                1 => {}
                2 => {
                    w.fault("wake", format!("Shared awaited on three threads, inner {}: one waited 10 s without being woken", if boom { "panicked" } else { "completed" }));
                    return;
                }
                _ => {
                    w.fault("core", "wrong outcome of a clone");
                    return;
                }
            }
        }
    }
}

// ---- Abortable
struct Task {
    w: W,
    plan: Rc<Cell<(usize, usize)>>, // abort during the poll?, result (0 pending, 1 ready / item, 2 end)
    h: AbortHandle,
    aborted: Rc<Cell<bool>>,
    done: bool,
    polled: Rc<Cell<bool>>,
    n: i32,
}
impl Task {
    fn go(&mut self) -> usize {
        if self.done {
            self.w.fault("term", "polled after completion");
        }
        self.polled.set(true);
        let (ab, r) = self.plan.get();
        if ab == 1 {
            self.w.note("[abort during the poll]");
            self.h.abort();
            self.aborted.set(true);
        }
        r
    }
}
impl Future for Task {
    type Output = i32;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<i32> {
        if self.go() == 0 {
            Poll::Pending
        } else {
            self.done = true;
            Poll::Ready(5)
        }
    }
}
impl Stream for Task {
    type Item = i32;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<i32>> {
        match self.go() {
            0 => Poll::Pending,
            1 => {
                self.n += 1;
                Poll::Ready(Some(self.n))
            }
            _ => {
                self.done = true;
                Poll::Ready(None)
            }
        }
    }
}
fn ab(c: &mut Ch, w: &W, stream: bool) {
    let (h, reg) = AbortHandle::new_pair();
    let h2 = if c.flag() { h.clone() } else { reg.handle() };
    let plan = Rc::new(Cell::new((0, 0)));
    let aborted = Rc::new(Cell::new(false));
    let polled = Rc::new(Cell::new(false));
    let mut a = Abortable::new(Task { w: w.clone(), plan: plan.clone(), h: h2.clone(), aborted: aborted.clone(), done: false, polled: polled.clone(), n: 0 }, reg);
    let mut pend: Option<(Wk, usize)> = None;
    let mut got = 0;
    for _ in 0..5 {
        match c.pick(4) {
            0 | 1 | 2 => {
                let before = aborted.get();
                plan.set((c.pick(3), c.pick(3)));
                let wk = if c.flag() { pend.take().map(|x| x.0).unwrap_or_else(|| Wk::new(0)) } else { Wk::new(0) };
                wk.0.unhook();
                // abort while the waker is being registered
                if plan.get().0 == 2 {
                    let (h3, ab2, w2) = (h.clone(), aborted.clone(), w.clone());
                    *wk.0.on_clone.borrow_mut() = Some(Box::new(move || {
                        w2.note("[abort while registering]");
                        ab2.set(true);
                        h3.abort();
                    }));
                }
                let mark = wk.0.wakes.get();
                let waker = wk.0.waker();
                let mut cx = Context::from_waker(&waker);
                polled.set(false);
                w.note(format!("poll {:?}", plan.get()));
                let r: Poll<Result<Option<i32>, Aborted>> = if stream {
                    match a.poll_next_unpin(&mut cx) {
                        Poll::Pending => Poll::Pending,
                        Poll::Ready(Some(x)) => Poll::Ready(Ok(Some(x))),
                        Poll::Ready(None) if before || (aborted.get() && plan.get().1 == 0) => Poll::Ready(Err(Aborted)),
                        Poll::Ready(None) => Poll::Ready(Ok(None)),
                    }
                } else {
                    Pin::new(&mut a).poll(&mut cx).map(|r| r.map(Some))
                };
                drop(waker);
                wk.0.unhook();
                if before {
                    if r != Poll::Ready(Err(Aborted)) || polled.get() {
                        w.fault("core", "aborted before the poll: the task must not run and the outcome is Aborted");
                    }
                    return;
                }
                let want = if plan.get().1 == 0 {
                    if aborted.get() {
                        Poll::Ready(Err(Aborted))
                    } else {
                        Poll::Pending
                    }
                } else if !stream {
                    Poll::Ready(Ok(Some(5)))
                } else if plan.get().1 == 1 {
                    got += 1;
                    Poll::Ready(Ok(Some(got)))
                } else {
                    Poll::Ready(Ok(None))
                };
                if r != want {
                    if r.is_pending() && aborted.get() {
                        if wk.0.wakes.get() == mark {
                            w.fault("wake", "aborted during the poll: Pending and not woken");
                        }
                    } else {
                        w.fault("core", format!("poll gave {:?}, expected {:?}", r, want));
                    }
                    return;
                }
                match r {
                    Poll::Pending => pend = Some((wk, mark)),
                    Poll::Ready(Ok(Some(_))) if stream => pend = None,
                    _ => return,
                }
            }
            _ => {
                w.note("abort");
                if c.flag() {
                    h.abort()
                } else {
                    h2.abort()
                }
                aborted.set(true);
                if let Some((wk, mark)) = &pend {
                    if wk.0.wakes.get() == *mark {
                        w.fault("wake", "aborted while Pending, task not woken");
                        return;
                    }
                }
            }
        }
        if a.is_aborted() != aborted.get() || h.is_aborted() != aborted.get() {
            w.fault("core", "is_aborted wrong");
        }
    }
}
fn ab_fut(c: &mut Ch, w: &W) {
    ab(c, w, false)
}
fn ab_stream(c: &mut Ch, w: &W) {
    ab(c, w, true)
}
fn ab_threads(c: &mut Ch, w: &W) {
    let (n, a, b) = match rounds(c) {
        Some(x) => x,
        None => return,
    };
    for k in 0..n * 2 {
        let (f, h) = futures::future::abortable(futures::future::pending::<()>());
        let t = std::thread::spawn(move || {
            let mut f = f;
            spin(a * (k % 5));
            block(|cx| Pin::new(&mut f).poll(cx))
        });
        spin(b * (k % 7));
        h.abort();
        if t.join().unwrap() != Some(Err(Aborted)) {
            w.fault("wake", "abort() on another thread: the task never completed with Aborted");
            return;
        }
    }
}

// ---- RemoteHandle
struct Job {
    w: W,
    plan: Rc<Cell<(usize, usize)>>, // drop / forget the handle during the poll, result (0 pending, 1 ready, 2 panic)
    h: Rc<RefCell<Option<RemoteHandle<i32>>>>,
    done: bool,
    polls: Rc<Cell<usize>>,
    dropped: Rc<Cell<usize>>,
    st: Rc<Cell<u8>>, // 0 handle alive, 1 dropped, 2 forgotten
}
impl Drop for Job {
    fn drop(&mut self) {
        self.dropped.set(self.dropped.get() + 1);
    }
}
impl Future for Job {
    type Output = i32;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<i32> {
        if self.done {
            self.w.fault("term", "polled after completion");
        }
        self.polls.set(self.polls.get() + 1);
        let (op, r) = self.plan.get();
        if op == 1 || op == 2 {
            let h = self.h.borrow_mut().take();
            if let Some(h) = h {
                self.w.note(if op == 1 { "[handle dropped during the poll]" } else { "[handle forgotten during the poll]" });
                self.st.set(op as u8);
                if op == 1 {
                    drop(h)
                } else {
                    h.forget()
                }
            }
        }
        match r {
            0 => Poll::Pending,
            1 => {
                self.done = true;
                Poll::Ready(9)
            }
            _ => {
                self.done = true;
                std::panic::resume_unwind(Box::new(42u32))
            }
        }
    }
}
fn rh_ops(c: &mut Ch, w: &W) {
    let plan = Rc::new(Cell::new((0, 0)));
    let polls = Rc::new(Cell::new(0));
    let dropped = Rc::new(Cell::new(0));
    let st = Rc::new(Cell::new(0u8));
    let hc: Rc<RefCell<Option<RemoteHandle<i32>>>> = Rc::new(RefCell::new(None));
    let (r, h) = Job { w: w.clone(), plan: plan.clone(), h: hc.clone(), done: false, polls: polls.clone(), dropped: dropped.clone(), st: st.clone() }.remote_handle();
    *hc.borrow_mut() = Some(h);
    let mut r = Some(Box::pin(r));
    let mut outcome = 0u8; // 1 value, 2 panic, 3 remote dropped before an outcome
    let mut rp: Option<(Wk, usize)> = None; // remote pending
    let mut hp: Option<(Wk, usize)> = None; // handle pending
    for _ in 0..if c.is_random() { 9 } else { 5 } {
        match c.pick(5) {
            0 | 1 => {
                let x = match r.as_mut() {
                    Some(x) => x,
                    None => continue,
                };
                plan.set((c.pick(3), c.pick(3)));
                let wk = if c.flag() { rp.take().map(|x| x.0).unwrap_or_else(|| Wk::new(0)) } else { Wk::new(0) };
                wk.0.unhook();
                let mark = wk.0.wakes.get();
                let waker = wk.0.waker();
                let (p0, s0) = (polls.get(), st.get());
                w.note(format!("poll remote {:?}", plan.get()));
                let res = catch_unwind(AssertUnwindSafe(|| x.as_mut().poll(&mut Context::from_waker(&waker))));
                drop(waker);
                let ran = polls.get() > p0;
                if ran == (s0 == 1) {
                    w.fault("core", if s0 == 1 { "the future ran although its handle was dropped" } else { "the future was not polled" });
                    return;
                }
                match res {
                    Ok(Poll::Pending) => {
                        if s0 == 1 || plan.get().1 != 0 {
                            w.fault("core", "remote Pending after its future finished");
                        }
                        // the handle may have been dropped during the poll
                        if st.get() == 1 && wk.0.wakes.get() == mark {
                            w.fault("wake", "handle dropped during the poll: remote not woken");
                        }
                        rp = Some((wk, mark));
                    }
                    Ok(Poll::Ready(())) => {
                        if s0 != 1 && plan.get().1 == 0 {
                            w.fault("core", "remote finished although its future is Pending and its handle alive or forgotten");
                        }
                        outcome = if s0 == 1 { 3 } else { plan.get().1 as u8 };
                        if c.flag() {
                            r = None;
                        }
                        rp = None;
                        if r.is_some() {
                            r = None;
                        }
                        if dropped.get() != 1 {
                            w.fault("core", format!("future dropped {} times", dropped.get()));
                        }
                    }
                    Err(_) => {
                        w.fault("core", "panic of the future left the remote");
                        return;
                    }
                }
            }
            2 => {
                let mut h = match hc.borrow_mut().take() {
                    Some(h) => h,
                    None => continue,
                };
                let wk = if c.flag() { hp.take().map(|x| x.0).unwrap_or_else(|| Wk::new(0)) } else { Wk::new(0) };
                let mark = wk.0.wakes.get();
                let waker = wk.0.waker();
                let res = catch_unwind(AssertUnwindSafe(|| Pin::new(&mut h).poll(&mut Context::from_waker(&waker))));
                drop(waker);
                w.note(format!("poll handle -> {}", match &res { Ok(Poll::Pending) => "Pending", Ok(_) => "Ready", Err(_) => "panic" }));
                match (outcome, res) {
                    (0, Ok(Poll::Pending)) => {
                        hp = Some((wk, mark));
                        *hc.borrow_mut() = Some(h);
                    }
                    (1, Ok(Poll::Ready(9))) => return,
                    (2, Err(e)) => {
                        if e.downcast_ref::<u32>() != Some(&42) {
                            w.fault("core", "handle panicked with another payload");
                        }
                        return;
                    }
                    (3, Err(_)) => return,
                    (o, _) => {
                        w.fault("core", format!("handle's result does not match the outcome {}", o));
                        return;
                    }
                }
            }
            3 => {
                let h = match hc.borrow_mut().take() {
                    Some(h) => h,
                    None => continue,
                };
                let k = 1 + c.pick(2);
                w.note(["drop handle", "forget handle"][k - 1]);
                st.set(k as u8);
                hp = None;
                if k == 1 {
                    drop(h)
                } else {
                    h.forget()
                }
                if let (1, Some((wk, mark))) = (k, &rp) {
                    if wk.0.wakes.get() == *mark {
                        w.fault("wake", "handle dropped: pending remote not woken");
                        return;
                    }
                }
            }
            _ => {
                if r.is_some() && c.flag() {
                    w.note("drop remote");
                    r = None;
                    rp = None;
                    if outcome == 0 {
                        outcome = 3;
                    }
                }
            }
        }
        if outcome != 0 {
            if let Some((wk, mark)) = &hp {
                if hc.borrow().is_some() && wk.0.wakes.get() == *mark {
                    w.fault("wake", "outcome decided, pending handle not woken");
                    return;
                }
            }
        }
    }
}
fn rh_threads(c: &mut Ch, w: &W) {
    let (n, a, b) = match rounds(c) {
        Some(x) => x,
        None => return,
    };
    for k in 0..n {
        let cnt = Arc::new((AtomicUsize::new(0), AtomicBool::new(false)));
        struct D(Arc<(AtomicUsize, AtomicBool)>);
        impl Drop for D {
            fn drop(&mut self) {
                self.0 .1.store(true, Ordering::SeqCst);
            }
        }
        let d = D(cnt.clone());
        let how = k % 3;
        let fut = async move {
            let _d = d;
            for _ in 0..3 {
                futures::pending_once().await;
            }
            if how == 1 {
                futures::future::pending::<()>().await;
            }
            k
        };
        let (r, h) = fut.remote_handle();
        let t = std::thread::spawn(move || {
            let mut r = Box::pin(r);
            spin(a * (k % 5));
            block(|cx| r.as_mut().poll(cx)).is_some()
        });
        spin(b * (k % 7));
        match how {
            0 => {
                let mut h = h;
                if block(|cx| Pin::new(&mut h).poll(cx)) != Some(k) {
                    w.fault("wake", "value computed on another thread not received");
                    return;
                }
            }
            1 => drop(h),
            _ => h.forget(),
        }
        if !t.join().unwrap() || !cnt.1.load(Ordering::SeqCst) {
            w.fault("wake", "remote task did not come to an end (10 s)");
            return;
        }
    }
}
mod futures {
    pub use ::futures::*;
    pub fn pending_once() -> impl std::future::Future<Output = ()> {
        let mut first = true;
        std::future::poll_fn(move |cx| {
            if std::mem::take(&mut first) {
                cx.waker().wake_by_ref();
                std::task::Poll::Pending
            } else {
                std::task::Poll::Ready(())
            }
        })
    }
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("shared", vec![("clones", sh_ops as fn(&mut Ch, &W)), ("threads", sh_threads)]),
        ("abort", vec![("future", ab_fut as fn(&mut Ch, &W)), ("stream", ab_stream), ("threads", ab_threads)]),
        ("remote", vec![("ops", rh_ops as fn(&mut Ch, &W)), ("threads", rh_threads)]),
    ]
}
