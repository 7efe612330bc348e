//! sink adapters over a scripted sink
use crate::core::*;
use crate::io::Gate;
use futures_core::Stream;
use futures_sink::Sink;
use futures_util::future::TryFutureExt;
use futures_util::stream::TryStreamExt;
use futures_util::{SinkExt, StreamExt};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq)]
enum KEv {
    Ok,
    Pend,
    Err(i32),
}
/// destination: items it accepted, how many of them are flushed, closed?, first error it reported
#[derive(Clone)]
struct KH {
    got: Rc<RefCell<Vec<i32>>>,
    flushed: Rc<Cell<usize>>,
    closed: Rc<Cell<bool>>,
    err: Rc<Cell<Option<i32>>>,
    readies: Rc<Cell<usize>>,
    waiting: Rc<Cell<bool>>,
}
struct Sk {
    g: Gate,
    name: String,
    ev: VecDeque<KEv>,
    ready: bool,
    h: KH,
}
impl Sk {
    fn new(w: &W, name: &str, ev: Vec<KEv>) -> (Self, KH) {
        w.note(format!("sink {}={:?}", name, ev));
        let h = KH { got: Default::default(), flushed: Default::default(), closed: Default::default(), err: Default::default(), readies: Default::default(), waiting: Default::default() };
        (Sk { g: Gate::new(w, name), name: name.into(), ev: ev.into(), ready: false, h: h.clone() }, h)
    }
    fn ctl(&mut self, cx: &mut Context<'_>, what: &str) -> Poll<Result<(), i32>> {
        if self.h.err.get().is_some() {
            // nothing is promised any more
            return Poll::Ready(Err(self.h.err.get().unwrap()));
        }
        self.h.waiting.set(true);
        if self.g.blocked(cx) {
            return Poll::Pending;
        }
        self.h.waiting.set(false);
        if self.h.closed.get() && what == "poll_ready" {
            self.g.w.fault("core", format!("{} on closed sink {}", what, self.name));
        }
        match self.ev.pop_front() {
            Some(KEv::Pend) => {
                self.h.waiting.set(true);
                self.g.block(cx);
                Poll::Pending
            }
            Some(KEv::Err(e)) => {
                self.h.err.set(Some(e));
                Poll::Ready(Err(e))
            }
            _ => Poll::Ready(Ok(())),
        }
    }
}
impl Sink<i32> for Sk {
    type Error = i32;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), i32>> {
        let r = self.ctl(cx, "poll_ready");
        if let Poll::Ready(Ok(())) = r {
            self.ready = true;
            self.h.readies.set(self.h.readies.get() + 1);
        }
        r
    }
    fn start_send(mut self: Pin<&mut Self>, item: i32) -> Result<(), i32> {
        if let Some(e) = self.h.err.get() {
            return Err(e);
        }
        if !self.ready {
            self.g.w.fault("core", format!("sink {}: start_send({}) without a preceding successful poll_ready", self.name, item));
        }
        if self.h.closed.get() {
            self.g.w.fault("core", format!("sink {}: start_send after close", self.name));
        }
        self.ready = false;
        if let Some(KEv::Err(e)) = self.ev.front().copied() {
            // an error may also surface here
            if e % 2 == 0 {
                self.ev.pop_front();
                self.h.err.set(Some(e));
                return Err(e);
            }
        }
        self.h.got.borrow_mut().push(item);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), i32>> {
        let r = self.ctl(cx, "poll_flush");
        if let Poll::Ready(Ok(())) = r {
            let n = self.h.got.borrow().len();
            self.h.flushed.set(n);
        }
        r
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), i32>> {
        let r = self.ctl(cx, "poll_close");
        if let Poll::Ready(Ok(())) = r {
            let n = self.h.got.borrow().len();
            self.h.flushed.set(n);
            self.h.closed.set(true);
        }
        r
    }
}
fn kscript(c: &mut Ch, max: usize, errs: bool) -> Vec<KEv> {
    let max = if c.is_random() { max + 5 } else { max };
    let n = c.pick(max + 1);
    (0..n)
        .map(|i| match c.pick(if errs { 4 } else { 2 }) {
            0 => KEv::Pend,
            1 => KEv::Ok,
            2 => KEv::Err(100 + 2 * i as i32),
            _ => KEv::Err(101 + 2 * i as i32),
        })
        .collect()
}
/// use a sink as a client would; `exp(n)` is what the destination must hold once the first n items were flushed.
/// Returns the error the sink reported, if any.
fn kdrive<S: Sink<i32, Error = i32>>(w: &W, c: &mut Ch, s: &mut Pin<Box<S>>, hs: &[&KH], items: usize, exp: &dyn Fn(usize) -> Vec<i32>, direct: bool) -> Option<i32> {
    let mut n = 0;
    let check = |w: &W, n: usize, full: bool, closed: bool, what: &str| {
        let e = exp(n);
        for h in hs {
            let got = h.got.borrow();
            if !e.starts_with(&got) {
                w.fault("core", format!("{}: destination has {:?}, accepted were {:?}", what, got, e));
                return false;
            }
            if full && (*got != e || h.flushed.get() != e.len()) {
                w.fault("core", format!("{} completed: destination has {:?} ({} flushed) of {:?}", what, got, h.flushed.get(), e));
                return false;
            }
            if closed && !h.closed.get() {
                w.fault("core", format!("{} completed although the destination is not closed", what));
                return false;
            }
        }
        true
    };
    macro_rules! err {
        ($e:expr) => {{
            check(w, n + 1, false, false, "error");
            return Some($e);
        }};
    }
    while n < items {
        let item = n as i32 + 1;
        let how = c.pick(3);
        let r = match how {
            0 => {
                w.note(format!("feed {}", item));
                drive_fut(w, c, s.feed(item))
            }
            1 => {
                w.note(format!("send {}", item));
                drive_fut(w, c, s.send(item))
            }
            _ => {
                w.note(format!("flush; send {}", item));
                match drive_fut(w, c, s.flush()) {
                    None => return None,
                    Some(Err(e)) => err!(e),
                    Some(Ok(())) => {
                        if !check(w, n, true, false, "flush") {
                            return None;
                        }
                        drive_fut(w, c, s.feed(item))
                    }
                }
            }
        };
        match r {
            None => return None,
            Some(Err(e)) => err!(e),
            Some(Ok(())) => {
                n += 1;
                if !check(w, n, how == 1, false, if how == 1 { "send" } else { "feed" }) {
                    return None;
                }
                if direct && how == 0 && hs.iter().any(|h| *h.got.borrow() != exp(n)) {
                    w.fault("core", "feed completed but the sink does not have the item");
                    return None;
                }
            }
        }
    }
    w.note("close");
    match drive_fut(w, c, s.close()) {
        None => None,
        Some(Err(e)) => err!(e),
        Some(Ok(())) => {
            check(w, n, true, true, "close");
            None
        }
    }
}
fn ident(n: usize) -> Vec<i32> {
    (1..=n as i32).collect()
}
fn err_ok(w: &W, h: &KH, e: Option<i32>) {
    match (e, h.err.get()) {
        (Some(e), Some(x)) if e == x => {}
        (Some(e), x) => w.fault("core", format!("sink reported {:?}, caller saw error {}", x, e)),
        (None, Some(x)) if w.faults.borrow().is_empty() => w.fault("core", format!("error {} of the sink was swallowed", x)),
        _ => {}
    }
}
fn nitems(c: &mut Ch) -> usize {
    if c.is_random() {
        c.pick(6)
    } else {
        c.pick(4)
    }
}
fn k_direct(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (s, h) = Sk::new(w, "s", kscript(c, 4, errs));
    let n = nitems(c);
    let e = kdrive(w, c, &mut Box::pin(s), &[&h], n, &ident, true);
    err_ok(w, &h, e);
}
fn k_buffer(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (s, h) = Sk::new(w, "s", kscript(c, 4, errs));
    let cap = c.pick(3);
    w.note(format!("capacity {}", cap));
    let n = nitems(c);
    let e = kdrive(w, c, &mut Box::pin(s.buffer(cap)), &[&h], n, &ident, cap == 0);
    err_ok(w, &h, e);
}
/// a buffering sink takes up to its capacity while the inner sink is not ready, and never more
fn k_buffer_cap(c: &mut Ch, w: &W) {
    let k = 1 + c.pick(4);
    let mut ev = vec![KEv::Ok; c.pick(3)];
    ev.extend(vec![KEv::Pend; k]);
    let (s, h) = Sk::new(w, "s", ev);
    let cap = 1 + c.pick(3);
    w.note(format!("capacity {}", cap));
    let mut b = Box::pin(s.buffer(cap));
    let mut acc = 0;
    for _ in 0..8 {
        let (_f, wk) = new_waker();
        let mut cx = Context::from_waker(&wk);
        match b.as_mut().poll_ready(&mut cx) {
            Poll::Ready(Ok(())) => {
                acc += 1;
                b.as_mut().start_send(acc).unwrap();
            }
            Poll::Ready(Err(_)) => w.fault("core", "error from a sink without errors"),
            Poll::Pending => {
                let held = acc as usize - h.got.borrow().len();
                if held < cap {
                    w.fault("core", format!("not ready with {} of {} slots used", held, cap));
                }
                break;
            }
        }
        let held = acc as usize - h.got.borrow().len();
        if held > cap {
            w.fault("core", format!("{} items held with capacity {}", held, cap));
            return;
        }
    }
    if !ident(acc as usize).starts_with(&h.got.borrow()) {
        w.fault("core", format!("order: {:?}", h.got.borrow()));
    }
}
/// a sink that fails once: what the buffer still holds is delivered afterwards, in order
fn k_buffer_err(c: &mut Ch, w: &W) {
    struct Once {
        busy: usize,
        fail_ready: usize,
        fail_send: usize,
        got: Rc<RefCell<Vec<i32>>>,
        lost: Rc<RefCell<Vec<i32>>>,
    }
    impl Sink<i32> for Once {
        type Error = ();
        fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
            if self.busy > 0 {
                self.busy -= 1;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            self.fail_ready = self.fail_ready.wrapping_sub(1);
            Poll::Ready(if self.fail_ready == 0 { Err(()) } else { Ok(()) })
        }
        fn start_send(mut self: Pin<&mut Self>, x: i32) -> Result<(), ()> {
            self.fail_send = self.fail_send.wrapping_sub(1);
            if self.fail_send == 0 {
                self.lost.borrow_mut().push(x);
                return Err(());
            }
            self.got.borrow_mut().push(x);
            Ok(())
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
            Poll::Ready(Ok(()))
        }
    }
    let (busy, fail_ready, fail_send, cap) = (c.pick(5), c.pick(4), c.pick(4), 1 + c.pick(3));
    w.note(format!("busy {} poll_ready fails #{} start_send fails #{} capacity {}", busy, fail_ready, fail_send, cap));
    let (got, lost): (Rc<RefCell<Vec<i32>>>, Rc<RefCell<Vec<i32>>>) = Default::default();
    let mut b = Box::pin(Once { busy, fail_ready, fail_send, got: got.clone(), lost: lost.clone() }.buffer(cap));
    let (_f, wk) = new_waker();
    let mut cx = Context::from_waker(&wk);
    let mut acc = vec![];
    for i in 0..4 {
        if let Poll::Ready(Ok(())) = b.as_mut().poll_ready(&mut cx) {
            b.as_mut().start_send(i).unwrap();
            acc.push(i);
        }
    }
    for _ in 0..12 {
        if let Poll::Ready(Ok(())) = b.as_mut().poll_flush(&mut cx) {
            break;
        }
    }
    let want: Vec<i32> = acc.into_iter().filter(|x| !lost.borrow().contains(x)).collect();
    if *got.borrow() != want {
        w.fault("core", format!("after an error the sink has {:?}, accepted {:?}", got.borrow(), want));
    }
}
fn k_with(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (s, h) = Sk::new(w, "s", kscript(c, 3, errs));
    let n = nitems(c);
    let p = pends(c, n);
    let fail = if errs { c.pick(n + 1) } else { n };
    w.note(format!("closure pends {:?}, fails at {}", p, fail));
    let w2 = w.clone();
    let calls = Rc::new(RefCell::new(vec![]));
    let calls2 = calls.clone();
    let p2 = p.clone();
    let s = s.with(move |x: i32| {
        calls2.borrow_mut().push(x);
        let k = x as usize - 1;
        SFut::new(&w2, format!("f{}", x), p2[k], if k == fail { Err(55) } else { Ok(x * 10) })
    });
    let e = kdrive(w, c, &mut Box::pin(s), &[&h], n, &|n| ident(n).iter().map(|x| x * 10).collect(), false);
    match e {
        Some(55) => {
            if fail == n {
                w.fault("core", "spurious closure error")
            }
        }
        e => {
            err_ok(w, &h, e);
            if e.is_none() && w.faults.borrow().is_empty() && fail < n {
                w.fault("core", "the closure's error was swallowed");
            }
        }
    }
    let cl = calls.borrow().clone();
    if !ident(n).starts_with(&cl) || (e.is_none() && w.faults.borrow().is_empty() && cl.len() != n) {
        w.fault("core", format!("closure calls {:?}", cl));
    }
}
fn k_flatmap(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (s, h) = Sk::new(w, "s", kscript(c, 3, errs));
    let n = if c.is_random() { nitems(c) } else { c.pick(3) };
    let evs: Vec<Vec<Ev<i32>>> = (0..n).map(|i| script(c, 2, 10 * (i as i32 + 1))).collect();
    let its: Vec<Vec<i32>> = evs.iter().map(|e| items(e)).collect();
    let fail = if errs { c.pick(n + 1) } else { n };
    let w2 = w.clone();
    let evs2 = evs.clone();
    let s = s.with_flat_map(move |x: i32| {
        let k = x as usize - 1;
        let mut e: Vec<Ev<Result<i32, i32>>> = evs2[k]
            .iter()
            .map(|e| match e {
                Ev::Item(x) => Ev::Item(Ok(*x)),
                Ev::Pend => Ev::Pend,
            })
            .collect();
        if k == fail {
            e.push(Ev::Item(Err(55)));
        }
        Src::new(&w2, "m", e)
    });
    let e = kdrive(w, c, &mut Box::pin(s), &[&h], n, &|n| its[..n.min(its.len())].concat(), false);
    match e {
        Some(55) if fail < n => {}
        e => {
            err_ok(w, &h, e);
            if e.is_none() && w.faults.borrow().is_empty() && fail < n {
                w.fault("core", "the stream's error was swallowed");
            }
        }
    }
}
fn k_fanout(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (s, h) = Sk::new(w, "a", kscript(c, 2, errs));
    let (t, g) = Sk::new(w, "b", kscript(c, 2, errs));
    let n = nitems(c);
    let e = kdrive(w, c, &mut Box::pin(s.fanout(t)), &[&h, &g], n, &ident, true);
    match e {
        Some(e) if Some(e) == h.err.get() || Some(e) == g.err.get() => {}
        Some(e) => w.fault("core", format!("error {} out of nowhere", e)),
        None => {
            if w.faults.borrow().is_empty() && (h.err.get().is_some() || g.err.get().is_some()) {
                w.fault("core", "an error was swallowed");
            }
        }
    }
}
fn k_unfold(c: &mut Ch, w: &W) {
    let n = nitems(c);
    let p = pends(c, n);
    let fail = if c.flag() { c.pick(n + 1) } else { n };
    let w2 = w.clone();
    let h = KH { got: Default::default(), flushed: Default::default(), closed: Default::default(), err: Default::default(), readies: Default::default(), waiting: Default::default() };
    let h2 = h.clone();
    let s = futures_util::sink::unfold(1i32, move |st: i32, x: i32| {
        if st != x {
            w2.fault("core", format!("state {} passed with item {}", st, x));
        }
        let k = x as usize - 1;
        h2.got.borrow_mut().push(x);
        let h3 = h2.clone();
        SFut::new(&w2, format!("u{}", x), p[k], if k == fail { Err(77) } else { Ok(x + 1) }).then_note(move || h3.flushed.set(h3.flushed.get() + 1))
    });
    let mut s = Box::pin(s);
    let mut k = 0;
    while k < n {
        let send = c.flag();
        let r = if send { drive_fut(w, c, s.send(k as i32 + 1)) } else { drive_fut(w, c, s.feed(k as i32 + 1)) };
        k += 1;
        match r {
            None => return,
            Some(Ok(())) => {
                if h.got.borrow().len() != k || (send && h.flushed.get() != k) {
                    w.fault("core", format!("item {}: {} steps started, {} finished", k, h.got.borrow().len(), h.flushed.get()));
                    return;
                }
                if send && fail < k {
                    w.fault("core", "error swallowed");
                }
            }
            Some(Err(e)) => {
                if e != 77 || fail >= k {
                    w.fault("core", "unexpected error");
                }
                return;
            }
        }
    }
    match drive_fut(w, c, s.close()) {
        None => (),
        Some(Ok(())) => {
            if h.flushed.get() != n || fail < n {
                w.fault("core", format!("close completed after {} of {} steps", h.flushed.get(), n));
            }
        }
        Some(Err(e)) => {
            if e != 77 || fail >= n {
                w.fault("core", "unexpected error");
            }
        }
    }
}
trait ThenNote: Sized {
    fn then_note<F: FnMut()>(self, f: F) -> Noted<Self, F> {
        Noted(self, f)
    }
}
impl<T> ThenNote for SFut<T> {}
struct Noted<T, F>(T, F);
impl<T: Unpin, F> Unpin for Noted<T, F> {}
impl<T: std::future::Future + Unpin, F: FnMut()> std::future::Future for Noted<T, F> {
    type Output = T::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T::Output> {
        let r = Pin::new(&mut self.0).poll(cx);
        if r.is_ready() {
            (self.1)();
        }
        r
    }
}
fn k_map_err(c: &mut Ch, w: &W) {
    let (s, h) = Sk::new(w, "s", kscript(c, 4, true));
    let n = nitems(c);
    let e = if c.flag() {
        kdrive(w, c, &mut Box::pin(s.sink_map_err(|e: i32| e + 1000)), &[&h], n, &ident, true)
    } else {
        let s = s.sink_err_into::<i64>();
        // i64 from i32: shift back into i32 for the oracle
        kdrive(w, c, &mut Box::pin(s.sink_map_err(|e: i64| e as i32 + 1000)), &[&h], n, &ident, true)
    };
    err_ok(w, &h, e.map(|e| e - 1000));
}
/// while the future waits, everything sent is flushed unless it waits for the sink itself
fn idle_flushed<F: std::future::Future>(w: &W, h: &KH, what: &'static str, f: F) -> impl std::future::Future<Output = F::Output> {
    let (w, h) = (w.clone(), h.clone());
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| {
        let r = f.as_mut().poll(cx);
        if r.is_pending() && !h.waiting.get() && h.flushed.get() != h.got.borrow().len() {
            w.fault("core", format!("{} waits for its stream with {} of {} items flushed", what, h.flushed.get(), h.got.borrow().len()));
        }
        r
    })
}
fn k_send_all(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (s, h) = Sk::new(w, "s", kscript(c, 3, errs));
    let ev = script(c, 3, 1);
    let its = items(&ev);
    let fail = if errs && c.flag() { Some(c.pick(its.len() + 1)) } else { None };
    let mut k = 0;
    let mut e2: Vec<Ev<Result<i32, i32>>> = vec![];
    for e in &ev {
        match e {
            Ev::Item(x) => {
                if fail == Some(k) {
                    e2.push(Ev::Item(Err(66)));
                    break;
                }
                k += 1;
                e2.push(Ev::Item(Ok(*x)));
            }
            Ev::Pend => e2.push(Ev::Pend),
        }
    }
    let failing = e2.iter().any(|e| matches!(e, Ev::Item(Err(_))));
    let want: Vec<i32> = its[..k].to_vec();
    let mut src = Src::new(w, "i", e2);
    let mut s = s;
    let r = drive_fut(w, c, idle_flushed(w, &h, "send_all", s.send_all(&mut src)));
    let Some(r) = r else { return };
    if !want.starts_with(&h.got.borrow()) {
        w.fault("core", format!("destination has {:?} of {:?}", h.got.borrow(), want));
    }
    if h.closed.get() {
        w.fault("core", "send_all closed the sink");
    }
    match r {
        Ok(()) => {
            if failing || h.err.get().is_some() {
                w.fault("core", "error swallowed");
            }
            if *h.got.borrow() != want || h.flushed.get() != want.len() {
                w.fault("core", format!("send_all completed, destination has {:?} ({} flushed) of {:?}", h.got.borrow(), h.flushed.get(), want));
            }
        }
        Err(66) if failing => {}
        Err(e) => {
            if h.err.get() != Some(e) {
                w.fault("core", format!("unexpected error {}", e));
            }
        }
    }
}
fn k_forward(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (s, h) = Sk::new(w, "s", kscript(c, 3, errs));
    let ev = script(c, 3, 1);
    let its = items(&ev);
    let Some(r) = drive_fut(w, c, idle_flushed(w, &h, "forward", Src::new(w, "i", ev).forward(s))) else { return };
    if !its.starts_with(&h.got.borrow()) {
        w.fault("core", format!("destination has {:?} of {:?}", h.got.borrow(), its));
    }
    match r {
        Ok(()) => {
            if h.err.get().is_some() {
                w.fault("core", "error swallowed");
            }
            if *h.got.borrow() != its || h.flushed.get() != its.len() || !h.closed.get() {
                w.fault("core", format!("forward completed, destination has {:?} ({} flushed, closed {}) of {:?}", h.got.borrow(), h.flushed.get(), h.closed.get(), its));
            }
        }
        Err(e) => {
            if h.err.get() != Some(e) {
                w.fault("core", format!("unexpected error {}", e));
            }
        }
    }
}
fn k_try_forward(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (s, h) = Sk::new(w, "s", kscript(c, 3, errs));
    let ev = script(c, 3, 1);
    let its = items(&ev);
    let fail = if errs && c.flag() { Some(c.pick(its.len() + 1)) } else { None };
    let mut k = 0;
    let mut e2: Vec<Ev<Result<i32, i32>>> = vec![];
    for e in &ev {
        match e {
            Ev::Item(_) if fail == Some(k) => {
                e2.push(Ev::Item(Err(66)));
                break;
            }
            Ev::Item(x) => {
                e2.push(Ev::Item(Ok(*x)));
                k += 1;
            }
            Ev::Pend => e2.push(Ev::Pend),
        }
    }
    let failing = e2.iter().any(|e| matches!(e, Ev::Item(Err(_))));
    let want: Vec<i32> = its[..k].to_vec();
    let Some(r) = drive_fut(w, c, idle_flushed(w, &h, "try_forward", Src::new(w, "i", e2).try_forward(s))) else { return };
    if !want.starts_with(&h.got.borrow()) {
        w.fault("core", format!("destination has {:?} of {:?}", h.got.borrow(), want));
    }
    match r {
        Ok(()) => {
            if failing || h.err.get().is_some() {
                w.fault("core", "error swallowed");
            }
            if *h.got.borrow() != want || h.flushed.get() != want.len() || !h.closed.get() {
                w.fault("core", format!("try_forward completed, destination has {:?} ({} flushed, closed {}) of {:?}", h.got.borrow(), h.flushed.get(), h.closed.get(), want));
            }
        }
        Err(66) if failing => {}
        Err(e) => {
            if h.err.get() != Some(e) {
                w.fault("core", format!("unexpected error {}", e));
            }
        }
    }
}
fn k_flatten_sink(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (s, h) = Sk::new(w, "s", kscript(c, 3, errs));
    let n = nitems(c).max(1);
    let p = c.pick(3);
    if errs && c.flag() {
        let f = SFut::new(w, "f", p, Err::<Sk, i32>(66));
        if kdrive(w, c, &mut Box::pin(f.flatten_sink()), &[&h], n, &ident, true) != Some(66) && w.faults.borrow().is_empty() {
            w.fault("core", "the error of the future was swallowed");
        }
        return;
    }
    let f = SFut::new(w, "f", p, Ok::<Sk, i32>(s));
    let e = kdrive(w, c, &mut Box::pin(f.flatten_sink()), &[&h], n, &ident, true);
    err_ok(w, &h, e);
}
/// both a stream and a sink
struct Both {
    s: Src<i32>,
    k: Sk,
}
impl Stream for Both {
    type Item = i32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<i32>> {
        Pin::new(&mut self.s).poll_next(cx)
    }
}
impl Sink<i32> for Both {
    type Error = i32;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), i32>> {
        Pin::new(&mut self.k).poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, item: i32) -> Result<(), i32> {
        Pin::new(&mut self.k).start_send(item)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), i32>> {
        Pin::new(&mut self.k).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), i32>> {
        Pin::new(&mut self.k).poll_close(cx)
    }
}
fn k_split(c: &mut Ch, w: &W) {
    let (k, h) = Sk::new(w, "s", kscript(c, 3, false));
    let ev = script(c, 2, 50);
    let its = items(&ev);
    let b = Both { s: Src::new(w, "r", ev), k };
    let (mut tx, mut rx) = b.split::<i32>();
    let n = if c.is_random() { nitems(c) } else { c.pick(3) };
    let mut got = vec![];
    let mut ended = false;
    for i in 0..n + its.len() + 1 {
        if i < n {
            let send = c.flag();
            let r = if send { drive_fut(w, c, tx.send(i as i32 + 1)) } else { drive_fut(w, c, tx.feed(i as i32 + 1)) };
            let Some(r) = r else { return };
            if r.is_err() || !ident(i + 1).starts_with(&h.got.borrow()) || (send && (*h.got.borrow() != ident(i + 1) || h.flushed.get() != i + 1)) {
                w.fault("core", format!("after send {}: destination {:?} ({} flushed)", i + 1, h.got.borrow(), h.flushed.get()));
                return;
            }
        }
        if !ended && c.flag() {
            let Some(x) = drive_fut(w, c, rx.next()) else { return };
            match x {
                Some(x) => got.push(x),
                None => ended = true,
            }
        }
    }
    while !ended {
        let Some(x) = drive_fut(w, c, rx.next()) else { return };
        match x {
            Some(x) => got.push(x),
            None => ended = true,
        }
    }
    if got != its {
        w.fault("core", format!("stream half yields {:?}, expected {:?}", got, its));
    }
    let Some(r) = drive_fut(w, c, tx.close()) else { return };
    if r.is_err() || *h.got.borrow() != ident(n) || !h.closed.get() || h.flushed.get() != n {
        w.fault("core", format!("closed: destination {:?} ({} flushed, closed {})", h.got.borrow(), h.flushed.get(), h.closed.get()));
    }
    if rx.reunite(tx).is_err() {
        w.fault("core", "halves of one pair do not reunite");
    }
}
/// adapters that pass the sink side of their inner object through
fn k_delegate(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (k, h) = Sk::new(w, "s", kscript(c, 3, errs));
    let n = if c.is_random() { nitems(c) } else { c.pick(3) };
    let b = Both { s: Src::new(w, "r", vec![]), k };
    macro_rules! d {
        ($e:expr) => {
            kdrive(w, c, &mut Box::pin($e), &[&h], n, &ident, true)
        };
    }
    use futures_util::future::{ready, Either};
    let e = match c.pick(26) {
        0 => d!(b.map(|x| x)),
        1 => d!(b.filter(|_| ready(true))),
        2 => d!(b.filter_map(|x| ready(Some(x)))),
        3 => d!(b.then(|x| ready(x))),
        4 => d!(b.enumerate()),
        5 => d!(b.peekable()),
        6 => d!(b.skip(1)),
        7 => d!(b.take(1)),
        8 => d!(b.skip_while(|_| ready(true))),
        9 => d!(b.take_while(|_| ready(true))),
        10 => d!(b.fuse()),
        11 => d!(b.inspect(|_| ())),
        12 => d!(b.chunks(2)),
        13 => d!(b.ready_chunks(2)),
        14 => d!(b.scan(0, |s, x| ready(Some((s, x))))),
        15 => d!(Either::<_, Both>::Left(b)),
        16 => d!(Either::<Both, _>::Right(b)),
        17 => d!(Box::new(b)),
        18 => d!(b.map(ready).buffered(2)),
        19 => d!(b.take_until(ready(()))),
        20 => {
            let mut b = b;
            kdrive(w, c, &mut Box::pin(&mut b), &[&h], n, &ident, true)
        }
        21 => d!(Box::pin(b)),
        22 => d!(b.sink_map_err(|e| e)),
        23 => d!(b.buffer(0)),
        24 => d!(b.map(ready).buffer_unordered(2)),
        _ => d!(b.map(|_| futures_util::stream::empty::<i32>()).flatten()),
    };
    err_ok(w, &h, e);
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![(
        "sink",
        vec![
            ("direct", k_direct),
            ("buffer", k_buffer),
            ("buffer_cap", k_buffer_cap),
            ("buffer_err", k_buffer_err),
            ("with", k_with),
            ("with_flat_map", k_flatmap),
            ("fanout", k_fanout),
            ("unfold", k_unfold),
            ("map_err", k_map_err),
            ("send_all", k_send_all),
            ("forward", k_forward),
            ("try_forward", k_try_forward),
            ("flatten_sink", k_flatten_sink),
            ("split", k_split),
            ("delegate", k_delegate),
        ],
    )]
}
