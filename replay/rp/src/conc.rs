//! AtomicWaker and channels: operation sequences against a model, with operations of the other side injected at the points
//! where the real code calls out (clone, wake and drop of wakers, drop of messages), and runs on real threads.
use crate::core::*;
use futures::channel::{mpsc, oneshot};
use futures::task::AtomicWaker;
use futures::{FutureExt, Sink, SinkExt, StreamExt};
use futures_core::{FusedFuture, FusedStream};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker};
use std::time::Duration;

// ---- a waker that runs hooks (single-threaded use only)
type Hook = Option<Box<dyn FnOnce()>>;
pub struct HW {
    pub id: usize,
    pub wakes: Cell<usize>,
    pub refs: Cell<isize>,
    pub on_clone: RefCell<Hook>,
    pub on_wake: RefCell<Hook>,
    pub on_drop: RefCell<Hook>,
}
fn run(h: &RefCell<Hook>) {
    let f = h.borrow_mut().take();
    if let Some(f) = f {
        f()
    }
}
unsafe fn hw<'a>(p: *const ()) -> &'a HW {
    &*(p as *const HW)
}
static VT: RawWakerVTable = RawWakerVTable::new(
    |p| unsafe {
        hw(p).refs.set(hw(p).refs.get() + 1);
        run(&hw(p).on_clone);
        RawWaker::new(p, &VT)
    },
    |p| unsafe {
        hw(p).wakes.set(hw(p).wakes.get() + 1);
        run(&hw(p).on_wake);
        hw(p).refs.set(hw(p).refs.get() - 1);
    },
    |p| unsafe {
        hw(p).wakes.set(hw(p).wakes.get() + 1);
        run(&hw(p).on_wake);
    },
    |p| unsafe {
        run(&hw(p).on_drop);
        hw(p).refs.set(hw(p).refs.get() - 1);
    },
);
impl HW {
    pub fn new(id: usize) -> &'static HW {
        Box::leak(Box::new(HW { id, wakes: Cell::new(0), refs: Cell::new(0), on_clone: RefCell::new(None), on_wake: RefCell::new(None), on_drop: RefCell::new(None) }))
    }
    pub fn waker(&'static self) -> Waker {
        self.refs.set(self.refs.get() + 1);
        unsafe { Waker::from_raw(RawWaker::new(self as *const HW as *const (), &VT)) }
    }
    pub fn unhook(&self) {
        *self.on_clone.borrow_mut() = None;
        *self.on_wake.borrow_mut() = None;
        *self.on_drop.borrow_mut() = None;
    }
}
/// wakers live for the whole run; a pool per thread avoids leaking one per execution
pub struct Wk(pub &'static HW);
thread_local!(static POOL: RefCell<Vec<&'static HW>> = RefCell::new(vec![]));
impl Wk {
    pub fn new(id: usize) -> Wk {
        let _ = id;
        let h = POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| HW::new(0));
        h.wakes.set(0);
        h.refs.set(0);
        h.unhook();
        Wk(h)
    }
}
impl Drop for Wk {
    fn drop(&mut self) {
        self.0.unhook();
        if self.0.refs.get() == 0 {
            POOL.with(|p| p.borrow_mut().push(self.0))
        }
    }
}

// ---- AtomicWaker
fn aw_ops(c: &mut Ch, w: &W) {
    let aw = Rc::new(AtomicWaker::new());
    let ws: Vec<Wk> = (0..2).map(Wk::new).collect();
    let mut slot: Option<usize> = None;
    let n = if c.is_random() { 2 + c.pick(8) } else { 3 };
    for _ in 0..n {
        let before: Vec<usize> = ws.iter().map(|x| x.0.wakes.get()).collect();
        let fired = Rc::new(Cell::new(0));
        match c.pick(3) {
            0 => {
                let i = c.pick(2);
                let h = c.pick(5);
                let target = match h {
                    1 | 2 | 4 => Some(&ws[i].0.on_clone),
                    3 => slot.map(|s| &ws[s].0.on_drop),
                    _ => None,
                };
                if let Some(t) = target {
                    let (aw2, f2, other) = (aw.clone(), fired.clone(), ws[1 - i].0);
                    *t.borrow_mut() = Some(Box::new(move || {
                        f2.set(1);
                        match h {
                            1 | 3 => aw2.wake(),
                            2 => drop(aw2.take()),
                            _ => aw2.register(&other.waker()),
                        }
                    }));
                }
                w.note(format!("register({}) hook {}", i, ["none", "wake in clone", "take in clone", "wake in drop of the old waker", "register(other) in clone"][h]));
                let wk = ws[i].0.waker();
                aw.register(&wk);
                ws.iter().for_each(|x| x.0.unhook());
                drop(wk);
                let woken = |k: usize| ws[k].0.wakes.get() > before[k];
                if fired.get() == 0 {
                    slot = Some(i);
                    if woken(0) || woken(1) {
                        w.fault("wake", "register alone woke a task");
                    }
                } else {
                    let t = aw.take();
                    let reg = t.as_ref().map(|t| if t.will_wake(&ws[0].0.waker()) { 0 } else { 1 });
                    drop(t);
                    match h {
                        1 | 3 => {
                            if !woken(i) {
                                w.fault("wake", format!("wake() during register({}) was lost: the task registered is not woken", i));
                            }
                        }
                        2 => {
                            if !woken(i) && reg != Some(i) {
                                w.fault("wake", "a waker is neither registered nor woken after register() during take()");
                            }
                        }
                        _ => {
                            if reg.is_none() && !woken(0) && !woken(1) {
                                w.fault("wake", "two registrations, none of them registered nor woken");
                            }
                        }
                    }
                    slot = None;
                }
            }
            1 => {
                let h = c.pick(3);
                w.note(format!("wake hook {}", ["none", "register in wake", "wake in wake"][h]));
                if let Some(s) = slot {
                    let (aw2, f2, other) = (aw.clone(), fired.clone(), ws[1 - s].0);
                    *ws[s].0.on_wake.borrow_mut() = match h {
                        0 => None,
                        _ => Some(Box::new(move || {
                            f2.set(1);
                            if h == 1 {
                                aw2.register(&other.waker())
                            } else {
                                aw2.wake()
                            }
                        })),
                    };
                }
                aw.wake();
                for (k, x) in ws.iter().enumerate() {
                    x.0.unhook();
                    let d = x.0.wakes.get() - before[k];
                    if slot == Some(k) && d != 1 {
                        w.fault("wake", format!("wake() woke the registered task {} times", d));
                    }
                    if slot != Some(k) && d != 0 {
                        w.fault("wake", "wake() woke a task that is not registered");
                    }
                }
                slot = match (slot, fired.get(), h) {
                    (Some(s), 1, 1) => Some(1 - s),
                    _ => None,
                };
            }
            _ => {
                w.note("take");
                let t = aw.take();
                match (&t, slot) {
                    (None, None) => {}
                    (Some(t), Some(s)) if t.will_wake(&ws[s].0.waker()) => {}
                    _ => w.fault("core", format!("take() returned {} with waker {:?} registered", if t.is_some() { "a waker" } else { "none" }, slot)),
                }
                if ws.iter().enumerate().any(|(k, x)| x.0.wakes.get() != before[k]) {
                    w.fault("wake", "take() woke a task");
                }
                slot = None;
            }
        }
    }
    drop(aw);
    for x in &ws {
        if x.0.refs.get() != 0 {
            w.fault("core", format!("{} waker references left after everything was dropped", x.0.refs.get()));
        }
    }
}

// ---- threads
pub struct Park {
    m: Mutex<bool>,
    c: Condvar,
}
impl Wake for Park {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        *self.m.lock().unwrap() = true;
        self.c.notify_one();
    }
}
/// poll until ready, sleeping while Pending; None if not woken within 10 s
pub fn block<T>(mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Option<T> {
    loop {
        // a fresh waker per poll: only the waker of the last poll counts
        let p = Arc::new(Park { m: Mutex::new(false), c: Condvar::new() });
        let wk = Waker::from(p.clone());
        if let Poll::Ready(x) = f(&mut Context::from_waker(&wk)) {
            return Some(x);
        }
        let g = p.m.lock().unwrap();
        let (g, t) = p.c.wait_timeout_while(g, Duration::from_secs(10), |b| !*b).unwrap();
        if t.timed_out() && !*g {
            return None;
        }
    }
}
pub fn spin(n: usize) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}
/// choices decide the timing of threads only
pub fn rounds(c: &mut Ch) -> Option<(usize, usize, usize)> {
    if c.is_random() && c.pick(40) != 0 {
        return None;
    }
    Some((60, c.pick(3) * 37, c.pick(3) * 53))
}
fn aw_threads(c: &mut Ch, w: &W) {
    let (n, a, b) = match rounds(c) {
        Some(x) => x,
        None => return,
    };
    for k in 0..n {
        let aw = Arc::new((AtomicWaker::new(), AtomicBool::new(false), AtomicUsize::new(0)));
        let aw2 = aw.clone();
        let t = std::thread::spawn(move || {
            spin(a * (k % 7));
            aw2.2.store(7, Ordering::Relaxed);
            aw2.1.store(true, Ordering::Relaxed);
            aw2.0.wake();
        });
        spin(b * (k % 5));
        let r = block(|cx| {
            aw.0.register(cx.waker());
            if aw.1.load(Ordering::Relaxed) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        });
        let _ = t.join();
        if r.is_none() {
            w.fault("wake", "thread A: flag = true, wake(); thread B: register, flag false -> Pending, never woken");
            return;
        }
    }
}

// ---- oneshot
struct Msg(i32, Rc<Cell<i32>>, RefCell<Hook>);
impl Drop for Msg {
    fn drop(&mut self) {
        self.1.set(self.1.get() - 1);
        run(&self.2)
    }
}
fn os_ops(c: &mut Ch, w: &W) {
    let live = Rc::new(Cell::new(0));
    let (tx, rx) = oneshot::channel::<Msg>();
    let tx = Rc::new(RefCell::new(Some(tx)));
    let rx = Rc::new(RefCell::new(Some(rx)));
    // model
    #[derive(Default)]
    struct M {
        value: Cell<Option<i32>>,
        sent: Cell<bool>,
        tx_gone: Cell<bool>,
        rx_gone: Cell<bool>, // closed or dropped
        rx_done: Cell<bool>, // result delivered
    }
    let m = Rc::new(M::default());
    let wk: Vec<Wk> = (0..8).map(Wk::new).collect();
    let mut nw = 0;
    let rx_waiting: Rc<Cell<Option<usize>>> = Rc::new(Cell::new(None));
    let tx_waiting: Rc<Cell<Option<usize>>> = Rc::new(Cell::new(None));
    let n = if c.is_random() { 2 + c.pick(8) } else { 4 };
    let mut k = 0;
    let send = {
        let (tx, m, live, w) = (tx.clone(), m.clone(), live.clone(), w.clone());
        move |v: i32| {
            let t = tx.borrow_mut().take();
            if let Some(t) = t {
                live.set(live.get() + 1);
                let dead = m.rx_gone.get();
                match t.send(Msg(v, live.clone(), RefCell::new(None))) {
                    Ok(()) if dead => w.fault("core", "send succeeded although the receiver was closed or dropped before"),
                    Ok(()) => m.value.set(Some(v)),
                    Err(x) if !dead => w.fault("core", format!("send failed with {} although the receiver is there", x.0)),
                    Err(x) if x.0 != v => w.fault("core", "send returned another value"),
                    Err(_) => {}
                }
                m.sent.set(true);
                m.tx_gone.set(true);
            }
        }
    };
    let drop_tx = {
        let (tx, m) = (tx.clone(), m.clone());
        move || {
            if let Some(t) = tx.borrow_mut().take() {
                m.tx_gone.set(true);
                drop(t);
            }
        }
    };
    let close_rx = {
        let (rx, m) = (rx.clone(), m.clone());
        move || {
            if let Some(r) = rx.borrow_mut().as_mut() {
                m.rx_gone.set(true);
                r.close();
            }
        }
    };
    let drop_rx = {
        let (rx, m) = (rx.clone(), m.clone());
        move || {
            let r = rx.borrow_mut().take();
            if let Some(r) = r {
                m.rx_gone.set(true);
                m.value.set(None);
                drop(r);
            }
        }
    };
    let check_wakes = |wk: &Vec<Wk>, w: &W| {
        if let Some(x) = rx_waiting.get() {
            if (m.tx_gone.get() || m.value.get().is_some()) && wk[x].0.wakes.get() == 0 && rx.borrow().is_some() {
                w.fault("wake", "the sender sent or was dropped, and the waiting receiver was not woken");
            }
        }
        if let Some(x) = tx_waiting.get() {
            if m.rx_gone.get() && wk[x].0.wakes.get() == 0 && tx.borrow().is_some() {
                w.fault("wake", "the receiver was closed or dropped, and the task waiting for cancellation was not woken");
            }
        }
    };
    let (_otx, orx) = oneshot::channel::<Msg>();
    while k < n {
        k += 1;
        if let (Some(t), Some(r)) = (tx.borrow().as_ref(), rx.borrow().as_ref()) {
            if !t.is_connected_to(r) || t.is_connected_to(&orx) {
                w.fault("core", "is_connected_to() is wrong");
            }
        }
        match c.pick(8) {
            0 => {
                w.note("send");
                send(k as i32);
            }
            1 => {
                w.note("drop sender");
                drop_tx();
            }
            2 => {
                w.note("close receiver");
                close_rx();
            }
            3 => {
                w.note("drop receiver");
                drop_rx();
            }
            4 => {
                // poll_canceled, maybe with the receiver going away in the middle
                if tx.borrow().is_none() || nw >= wk.len() {
                    continue;
                }
                let x = nw;
                nw += 1;
                let h = c.pick(3);
                w.note(format!("poll_canceled hook {}", ["none", "close in clone", "drop receiver in clone"][h]));
                let (cl, dr) = (close_rx.clone(), drop_rx.clone());
                *wk[x].0.on_clone.borrow_mut() = match h {
                    1 => Some(Box::new(move || cl())),
                    2 => Some(Box::new(move || dr())),
                    _ => None,
                };
                let wa = wk[x].0.waker();
                let was = m.rx_gone.get();
                let r = if c.flag() {
                    w.note("through cancellation()");
                    Pin::new(&mut tx.borrow_mut().as_mut().unwrap().cancellation()).poll(&mut Context::from_waker(&wa))
                } else {
                    tx.borrow_mut().as_mut().unwrap().poll_canceled(&mut Context::from_waker(&wa))
                };
                wk[x].0.unhook();
                match r {
                    Poll::Ready(()) => {
                        if !m.rx_gone.get() {
                            w.fault("core", "poll_canceled ready although the receiver is there");
                        }
                    }
                    Poll::Pending => {
                        if was {
                            w.fault("core", "poll_canceled pending although the receiver was gone before");
                        }
                        tx_waiting.set(Some(x));
                    }
                }
                drop(wa);
                if tx.borrow().as_ref().unwrap().is_canceled() != m.rx_gone.get() {
                    w.fault("core", "is_canceled() is wrong");
                }
            }
            5 => {
                if rx.borrow().is_none() || nw >= wk.len() || m.rx_done.get() {
                    continue;
                }
                let x = nw;
                nw += 1;
                let h = c.pick(3);
                w.note(format!("poll receiver hook {}", ["none", "send in clone", "drop sender in clone"][h]));
                let (se, dr) = (send.clone(), drop_tx.clone());
                *wk[x].0.on_clone.borrow_mut() = match h {
                    1 => Some(Box::new(move || se(k as i32 + 100))),
                    2 => Some(Box::new(move || dr())),
                    _ => None,
                };
                let wa = wk[x].0.waker();
                let (gone0, val0) = (m.tx_gone.get(), m.value.get());
                let closed0 = m.rx_gone.get();
                let r = rx.borrow_mut().as_mut().unwrap().poll_unpin(&mut Context::from_waker(&wa));
                wk[x].0.unhook();
                match r {
                    Poll::Ready(Ok(v)) => {
                        if m.value.get() != Some(v.0) {
                            w.fault("core", format!("received {} but {:?} was sent", v.0, m.value.get()));
                        }
                        m.value.set(None);
                        m.rx_done.set(true);
                    }
                    Poll::Ready(Err(_)) => {
                        if val0.is_some() || m.value.get().is_some() {
                            w.fault("core", "canceled although a value was sent");
                        }
                        if !m.tx_gone.get() && !closed0 {
                            w.fault("core", "canceled although the sender is there");
                        }
                        m.rx_done.set(true);
                    }
                    Poll::Pending => {
                        if gone0 || val0.is_some() || closed0 {
                            w.fault("core", "pending although the outcome was decided before");
                        }
                        rx_waiting.set(Some(x));
                    }
                }
                drop(wa);
            }
            6 => {
                if rx.borrow().is_none() || m.rx_done.get() {
                    continue;
                }
                w.note("try_recv");
                let r = rx.borrow_mut().as_mut().unwrap().try_recv();
                match r {
                    Ok(Some(v)) => {
                        if m.value.get() != Some(v.0) {
                            w.fault("core", "try_recv: wrong value");
                        }
                        m.value.set(None);
                        m.rx_done.set(true);
                    }
                    Ok(None) => {
                        if m.value.get().is_some() || m.tx_gone.get() || m.rx_gone.get() {
                            w.fault("core", "try_recv: nothing, although the outcome is decided");
                        }
                    }
                    Err(_) => {
                        if m.value.get().is_some() || !(m.tx_gone.get() || m.rx_gone.get()) {
                            w.fault("core", "try_recv: canceled without reason");
                        }
                        m.rx_done.set(true);
                    }
                }
            }
            _ => {
                if let Some(r) = rx.borrow().as_ref() {
                    w.note("is_terminated");
                    let t = FusedFuture::is_terminated(r);
                    if t && m.value.get().is_some() {
                        w.fault("term", "is_terminated() although a value is to come");
                    }
                    if !t && m.rx_done.get() {
                        w.fault("term", "not terminated although the result was delivered");
                    }
                    if t && !m.tx_gone.get() && !m.rx_gone.get() {
                        w.fault("term", "is_terminated() although the sender is there");
                    }
                }
            }
        }
        check_wakes(&wk, w);
    }
    drop_tx();
    check_wakes(&wk, w);
    drop_rx();
    drop((send, drop_tx, close_rx, drop_rx));
    if live.get() != 0 {
        w.fault("core", format!("{} values not dropped exactly once", live.get()));
    }
    for x in &wk {
        if x.0.refs.get() != 0 {
            w.fault("core", "a waker is still held after both halves are gone");
        }
    }
}
fn os_threads(c: &mut Ch, w: &W) {
    let (n, a, b) = match rounds(c) {
        Some(x) => x,
        None => return,
    };
    for k in 0..n {
        let (tx, mut rx) = oneshot::channel::<Box<usize>>();
        let how = k % 3;
        let t = std::thread::spawn(move || {
            spin(a * (k % 7));
            match how {
                0 => tx.send(Box::new(k)).is_ok(),
                1 => {
                    drop(tx);
                    true
                }
                _ => {
                    let mut tx = tx;
                    block(|cx| tx.poll_canceled(cx)).is_some()
                }
            }
        });
        spin(b * (k % 5));
        if how == 2 {
            if k % 2 == 0 {
                rx.close();
            }
            drop(rx);
            if !t.join().unwrap() {
                w.fault("wake", "poll_canceled pending; receiver dropped on another thread; never woken");
                return;
            }
            continue;
        }
        match block(|cx| rx.poll_unpin(cx)) {
            None => {
                w.fault("wake", "receiver pending; sender sent or dropped on another thread; never woken");
                return;
            }
            Some(Ok(v)) if how == 0 && *v == k => {}
            Some(Err(_)) if how == 1 => {}
            Some(x) => {
                w.fault("core", format!("received {:?}", x));
                return;
            }
        }
        if !t.join().unwrap() {
            w.fault("core", "send failed although the receiver was waiting");
        }
    }
}

// ---- mpsc
enum Tx {
    B(mpsc::Sender<Msg>),
    U(mpsc::UnboundedSender<Msg>),
}
enum Rx {
    B(mpsc::Receiver<Msg>),
    U(mpsc::UnboundedReceiver<Msg>),
}
impl Rx {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
        match self {
            Rx::B(r) => r.poll_next_unpin(cx),
            Rx::U(r) => r.poll_next_unpin(cx),
        }
    }
}
struct Ms {
    queue: VecDeque<i32>,
    open: bool,
    parked: Vec<bool>,      // per sender
    order: VecDeque<usize>, // parked senders, oldest first
    alive: Vec<bool>,
    rx: bool,
    ended: bool,
}
fn ch_ops(c: &mut Ch, w: &W, bounded: bool) {
    let buf = if bounded { c.pick(3) } else { usize::MAX };
    let live = Rc::new(Cell::new(0));
    let senders: Rc<RefCell<Vec<Option<Tx>>>> = Rc::new(RefCell::new(vec![]));
    let rx: Rc<RefCell<Option<Rx>>> = Rc::new(RefCell::new(None));
    if bounded {
        w.note(format!("channel({})", buf));
        let (t, r) = mpsc::channel(buf);
        senders.borrow_mut().push(Some(Tx::B(t)));
        *rx.borrow_mut() = Some(Rx::B(r));
    } else {
        w.note("unbounded()");
        let (t, r) = mpsc::unbounded();
        senders.borrow_mut().push(Some(Tx::U(t)));
        *rx.borrow_mut() = Some(Rx::U(r));
    }
    let m = Rc::new(RefCell::new(Ms { queue: VecDeque::new(), open: true, parked: vec![false], order: VecDeque::new(), alive: vec![true], rx: true, ended: false }));
    let wk: Vec<Wk> = (0..14).map(Wk::new).collect();
    let mut nw = 0;
    let rx_wait: Rc<Cell<Option<usize>>> = Rc::new(Cell::new(None));
    let mut tx_wait: Vec<(usize, usize)> = vec![]; // (sender, waker)
    let ctr = Rc::new(Cell::new(0));
    // one send through sender i, by any of the interfaces; checks the outcome
    let send = {
        let (senders, m, live, w, ctr) = (senders.clone(), m.clone(), live.clone(), w.clone(), ctr.clone());
        move |i: usize, via: usize| {
            let t = senders.borrow_mut()[i].take();
            let mut t = match t {
                Some(t) => t,
                None => return,
            };
            ctr.set(ctr.get() + 1);
            let v = ctr.get();
            live.set(live.get() + 1);
            let msg = Msg(v, live.clone(), RefCell::new(None));
            let (parked, open) = { let m = m.borrow(); (m.parked[i], m.open) };
            // res: Ok, Err(full?), value back
            let res: Result<(), (bool, Option<i32>)> = match &mut t {
                Tx::B(s) => match via {
                    0 => s.try_send(msg).map_err(|e| { let f = e.is_full(); if f == e.is_disconnected() { w.fault("core", "error is both or neither of full and disconnected"); } (f, Some(e.into_inner().0)) }),
                    1 => s.start_send(msg).map_err(|e| (e.is_full(), None)),
                    _ => Pin::new(s).start_send(msg).map_err(|e| (e.is_full(), None)),
                },
                Tx::U(s) => match via {
                    0 => s.unbounded_send(msg).map_err(|e| (e.is_full(), Some(e.into_inner().0))),
                    1 => Pin::new(&mut &*s).start_send(msg).map_err(|e| (e.is_full(), None)),
                    _ => Pin::new(s).start_send(msg).map_err(|e| (e.is_full(), None)),
                },
            };
            let mut m = m.borrow_mut();
            match res {
                Ok(()) => {
                    if !open {
                        w.fault("core", "send succeeded although the channel was closed before");
                    }
                    if parked {
                        w.fault("core", "send succeeded although the sender has no room: it must wait for the receiver");
                    }
                    if m.rx {
                        m.queue.push_back(v);
                    }
                    if bounded && m.queue.len() > buf {
                        m.parked[i] = true;
                        m.order.push_back(i);
                    }
                }
                Err((full, back)) => {
                    if full && !(parked) {
                        w.fault("core", "full although this sender is guaranteed a slot");
                    }
                    if !full && open {
                        w.fault("core", "disconnected although the receiver is there");
                    }
                    if !full && parked && open {
                        w.fault("core", "disconnected instead of full");
                    }
                    if back.map(|b| b != v).unwrap_or(false) {
                        w.fault("core", "error carries another message");
                    }
                }
            }
            drop(m);
            senders.borrow_mut()[i] = Some(t);
        }
    };
    let drop_tx = {
        let (senders, m) = (senders.clone(), m.clone());
        move |i: usize, how: usize| {
            let t = senders.borrow_mut()[i].take();
            if let Some(mut t) = t {
                {
                    let mut m = m.borrow_mut();
                    m.alive[i] = false;
                    if !m.alive.iter().any(|a| *a) {
                        m.open = false;
                    }
                }
                match (how, &mut t) {
                    (0, _) => {}
                    (1, Tx::B(s)) => s.disconnect(),
                    (1, Tx::U(s)) => s.disconnect(),
                    (_, Tx::B(s)) => assert!(s.close().now_or_never().unwrap().is_ok()),
                    (_, Tx::U(s)) => assert!(s.close().now_or_never().unwrap().is_ok()),
                }
                drop(t);
            }
        }
    };
    let unpark_all = |m: &mut Ms| {
        m.order.clear();
        m.parked.iter_mut().for_each(|p| *p = false);
    };
    let n = if c.is_random() { 4 + c.pick(16) } else { 5 };
    for _ in 0..n {
        let ns = senders.borrow().len();
        match c.pick(9) {
            0 | 1 => {
                let i = c.pick(ns);
                let via = c.pick(3);
                w.note(format!("send via sender {} by interface {}", i, via));
                send(i, via);
            }
            2 => {
                if ns < 3 {
                    let i = c.pick(ns);
                    let t = match &senders.borrow()[i] {
                        Some(Tx::B(s)) => Some(Tx::B(s.clone())),
                        Some(Tx::U(s)) => Some(Tx::U(s.clone())),
                        None => None,
                    };
                    if t.is_some() {
                        w.note(format!("clone sender {}", i));
                        senders.borrow_mut().push(t);
                        let mut m = m.borrow_mut();
                        m.parked.push(false);
                        m.alive.push(true);
                    }
                }
            }
            3 => {
                let i = c.pick(ns);
                let how = c.pick(3);
                w.note(format!("{} sender {}", ["drop", "disconnect", "Sink::close"][how], i));
                drop_tx(i, how);
            }
            4 => {
                let how = c.pick(4);
                match how {
                    0 => {
                        w.note("receiver.close()");
                        rx_wait.set(None);
                        if let Some(r) = rx.borrow_mut().as_mut() {
                            match r {
                                Rx::B(r) => r.close(),
                                Rx::U(r) => r.close(),
                            }
                            let mut m = m.borrow_mut();
                            if !m.ended {
                                m.open = false;
                                unpark_all(&mut m);
                            }
                        }
                    }
                    1 => {
                        w.note("drop receiver");
                        let r = rx.borrow_mut().take();
                        if r.is_some() {
                            let mut m = m.borrow_mut();
                            m.open = false;
                            m.rx = false;
                            m.queue.clear();
                            unpark_all(&mut m);
                        }
                        drop(r);
                        if live.get() != 0 {
                            w.fault("core", "messages are kept after the receiver was dropped");
                        }
                    }
                    _ => {
                        let i = c.pick(ns);
                        let mut s = senders.borrow_mut();
                        if let Some(t) = s[i].as_mut() {
                            w.note("sender.close_channel()");
                            match t {
                                Tx::B(s) => s.close_channel(),
                                Tx::U(s) => s.close_channel(),
                            }
                            m.borrow_mut().open = false;
                        }
                    }
                }
            }
            5 => {
                // poll_ready / poll_flush of a bounded sender
                let i = c.pick(ns);
                if nw >= wk.len() {
                    continue;
                }
                let t = senders.borrow_mut()[i].take();
                if let Some(mut t) = t {
                    let x = nw;
                    nw += 1;
                    let wa = wk[x].0.waker();
                    let mut cx = Context::from_waker(&wa);
                    let fl = c.flag();
                    tx_wait.retain(|t| t.0 != i);
                    w.note(format!("{} of sender {}", if fl { "poll_flush" } else { "poll_ready" }, i));
                    let r = match (&mut t, fl) {
                        (Tx::B(s), false) => Pin::new(s).poll_ready(&mut cx),
                        (Tx::B(s), true) => Pin::new(s).poll_flush(&mut cx),
                        (Tx::U(s), false) => Pin::new(s).poll_ready(&mut cx),
                        (Tx::U(s), true) => Pin::new(s).poll_flush(&mut cx),
                    };
                    let m = m.borrow();
                    match r {
                        Poll::Ready(Ok(())) => {
                            if m.parked[i] && m.open {
                                w.fault("core", "ready although the sender has no room");
                            }
                            if !m.open && !fl {
                                w.fault("core", "poll_ready ok although the channel is closed");
                            }
                        }
                        Poll::Ready(Err(e)) => {
                            if m.open || fl || !e.is_disconnected() {
                                w.fault("core", format!("error {:?} although the channel is open", e));
                            }
                        }
                        Poll::Pending => {
                            if !m.parked[i] || !m.open {
                                w.fault("wake", "pending although the sender has room or the channel is closed");
                            }
                            tx_wait.retain(|t| t.0 != i);
                            tx_wait.push((i, x));
                        }
                    }
                    drop(m);
                    senders.borrow_mut()[i] = Some(t);
                }
            }
            6 => {
                let mut r = rx.borrow_mut();
                if r.is_none() || m.borrow().ended {
                    continue;
                }
                w.note("try_recv");
                let got = match r.as_mut().unwrap() {
                    Rx::B(r) => r.try_recv(),
                    Rx::U(r) => r.try_recv(),
                };
                let mut m = m.borrow_mut();
                match got {
                    Ok(v) => {
                        let e = m.queue.pop_front();
                        if e != Some(v.0) {
                            w.fault("core", format!("try_recv gave {}, expected {:?}", v.0, e));
                        }
                        if let Some(i) = m.order.pop_front() {
                            m.parked[i] = false;
                        }
                    }
                    Err(e) => {
                        if !m.queue.is_empty() {
                            w.fault("core", "try_recv gave nothing although a message is there");
                        }
                        if e.is_closed() == m.open {
                            w.fault("core", format!("try_recv error {:?}", e));
                        }
                        if e.is_closed() {
                            m.ended = true;
                        }
                    }
                }
            }
            7 => {
                if rx.borrow().is_none() || m.borrow().ended || nw >= wk.len() {
                    continue;
                }
                let x = nw;
                nw += 1;
                let h = c.pick(3);
                let i = c.pick(ns);
                w.note(format!("poll receiver, hook {}", ["none".to_string(), format!("send via {} in clone", i), format!("drop sender {} in clone", i)][h]));
                let (se, dr) = (send.clone(), drop_tx.clone());
                *wk[x].0.on_clone.borrow_mut() = match h {
                    1 => Some(Box::new(move || se(i, 0))),
                    2 => Some(Box::new(move || dr(i, 0))),
                    _ => None,
                };
                let wa = wk[x].0.waker();
                let had = !m.borrow().queue.is_empty();
                rx_wait.set(None);
                let r = rx.borrow_mut().as_mut().unwrap().poll(&mut Context::from_waker(&wa));
                wk[x].0.unhook();
                drop(wa);
                let mut m = m.borrow_mut();
                match r {
                    Poll::Ready(Some(v)) => {
                        let e = m.queue.pop_front();
                        if e != Some(v.0) {
                            w.fault("core", format!("received {}, expected {:?}", v.0, e));
                        }
                        if let Some(i) = m.order.pop_front() {
                            m.parked[i] = false;
                        }
                    }
                    Poll::Ready(None) => {
                        if m.open || !m.queue.is_empty() {
                            w.fault("core", "end of stream although the channel is open or messages are left");
                        }
                        m.ended = true;
                    }
                    Poll::Pending => {
                        if had {
                            w.fault("core", "pending although a message is there");
                        }
                        rx_wait.set(Some(x));
                        if (!m.queue.is_empty() || !m.open) && wk[x].0.wakes.get() == 0 {
                            w.fault("wake", "a message (or the end) arrived while the receiver went to sleep, and its task was not woken");
                        }
                    }
                }
            }
            _ => {
                w.note("look");
                let m = m.borrow();
                if let Some(r) = rx.borrow().as_ref() {
                    let (h, t) = match r {
                        Rx::B(r) => (futures_core::Stream::size_hint(r), r.is_terminated()),
                        Rx::U(r) => (futures_core::Stream::size_hint(r), r.is_terminated()),
                    };
                    let q = m.queue.len();
                    if h.0 > q || h.1.map(|u| u < q || m.open).unwrap_or(false) {
                        w.fault("size", format!("size_hint {:?} with {} messages, open {}", h, q, m.open));
                    }
                    if t != m.ended {
                        w.fault("term", format!("is_terminated() is {}, end reported: {}", t, m.ended));
                    }
                }
                for s in senders.borrow().iter().flatten() {
                    let cl = match s {
                        Tx::B(s) => s.is_closed(),
                        Tx::U(s) => s.is_closed(),
                    };
                    if cl == m.open {
                        w.fault("core", "is_closed() is wrong");
                    }
                    if let Tx::U(s) = s {
                        if m.rx && s.len() != m.queue.len() {
                            w.fault("core", format!("len() is {} with {} messages", s.len(), m.queue.len()));
                        }
                    }
                }
            }
        }
        let m = m.borrow();
        if let (Some(x), true) = (rx_wait.get(), rx.borrow().is_some()) {
            if (!m.queue.is_empty() || !m.open) && !m.ended && wk[x].0.wakes.get() == 0 {
                w.fault("wake", "a message was sent or the channel closed, and the waiting receiver was not woken");
            }
        }
        for (i, x) in &tx_wait {
            if (!m.parked[*i] || !m.open && !m.rx) && m.alive[*i] && wk[*x].0.wakes.get() == 0 {
                w.fault("wake", "room was made (or the receiver went away), and the waiting sender was not woken");
            }
        }
    }
    // drain
    let r = rx.borrow_mut().take();
    if let Some(mut r) = r {
        let ended = m.borrow().ended;
        if !ended {
            loop {
                let (_f, wa) = new_waker();
                match r.poll(&mut Context::from_waker(&wa)) {
                    Poll::Ready(Some(v)) => {
                        let e = m.borrow_mut().queue.pop_front();
                        if e != Some(v.0) {
                            w.fault("core", format!("received {}, expected {:?}", v.0, e));
                            break;
                        }
                    }
                    Poll::Ready(None) => {
                        if m.borrow().open || !m.borrow().queue.is_empty() {
                            w.fault("core", "end of stream too early");
                        }
                        break;
                    }
                    Poll::Pending => {
                        if !m.borrow().open || !m.borrow().queue.is_empty() {
                            w.fault("core", "pending although messages are left or the channel is closed");
                        }
                        break;
                    }
                }
            }
        }
    }
    senders.borrow_mut().clear();
    drop((send, drop_tx));
    if live.get() != 0 {
        w.fault("core", format!("{} messages not dropped exactly once", live.get()));
    }
    for x in &wk {
        if x.0.refs.get() != 0 {
            w.fault("core", "a waker is still held after the channel is gone");
        }
    }
}
fn ch_bounded(c: &mut Ch, w: &W) {
    ch_ops(c, w, true)
}
fn ch_unbounded(c: &mut Ch, w: &W) {
    ch_ops(c, w, false)
}
fn ch_threads(c: &mut Ch, w: &W) {
    let (_, a, b) = match rounds(c) {
        Some(x) => x,
        None => return,
    };
    for round in 0..12usize {
        let ns = 1 + round % 3;
        let per = 20 + 13 * (round % 3);
        let buf = round % 4;
        let unb = round % 2 == 1;
        let mut hs = vec![];
        let mut rx: Rx2;
        if unb {
            let (t, r) = mpsc::unbounded();
            rx = Rx2::U(r);
            for s in 0..ns {
                let t = t.clone();
                hs.push(std::thread::spawn(move || {
                    for k in 0..per {
                        spin(a * (k % 3));
                        if t.unbounded_send((s, k)).is_err() {
                            return false;
                        }
                    }
                    true
                }));
            }
        } else {
            let (t, r) = mpsc::channel(buf);
            rx = Rx2::B(r);
            for s in 0..ns {
                let mut t = t.clone();
                hs.push(std::thread::spawn(move || {
                    for k in 0..per {
                        spin(a * (k % 3));
                        match block(|cx| Pin::new(&mut t).poll_ready(cx)) {
                            Some(Ok(())) => {}
                            _ => return false,
                        }
                        if Pin::new(&mut t).start_send((s, k)).is_err() {
                            return false;
                        }
                    }
                    true
                }));
            }
        }
        let mut next = vec![0; ns];
        let cut = if round % 5 == 4 { per / 2 } else { usize::MAX };
        let mut cnt = 0;
        loop {
            spin(b * (cnt % 4));
            cnt += 1;
            if cnt > cut {
                break;
            }
            match block(|cx| rx.poll(cx)) {
                None => {
                    w.fault("wake", format!("receiver pending and never woken; received so far {:?} of {} from each of {} senders", next, per, ns));
                    return;
                }
                Some(Some((s, k))) => {
                    if next[s] != k {
                        w.fault("core", format!("from sender {}: message {} after {} were received", s, k, next[s]));
                        return;
                    }
                    next[s] += 1;
                }
                Some(None) => {
                    if next.iter().any(|n| *n != per) {
                        w.fault("core", format!("stream ended after {:?} messages, {} each were sent", next, per));
                    }
                    break;
                }
            }
        }
        drop(rx);
        for h in hs {
            if !h.join().unwrap() && cut == usize::MAX {
                w.fault("wake", "a sender failed, or was left waiting for room forever, although the receiver was reading");
                return;
            }
        }
    }
}
enum Rx2 {
    B(mpsc::Receiver<(usize, usize)>),
    U(mpsc::UnboundedReceiver<(usize, usize)>),
}
impl Rx2 {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<(usize, usize)>> {
        match self {
            Rx2::B(r) => r.poll_next_unpin(cx),
            Rx2::U(r) => r.poll_next_unpin(cx),
        }
    }
}
/// the Recv future
fn ch_recv(c: &mut Ch, w: &W) {
    let (mut tx, mut rx) = mpsc::channel::<i32>(2);
    let n = c.pick(3);
    for k in 0..n {
        tx.try_send(k as i32).unwrap();
    }
    let close = c.flag();
    if close {
        drop(tx);
    }
    for k in 0..n + 1 {
        let (_f, wa) = new_waker();
        let r = rx.recv().poll_unpin(&mut Context::from_waker(&wa));
        w.note(format!("recv -> {:?}", r));
        let ok = if k < n { r == Poll::Ready(Ok(k as i32)) } else if close { matches!(r, Poll::Ready(Err(_))) } else { r.is_pending() };
        if !ok {
            w.fault("core", "recv() future: wrong result");
        }
    }
}
/// what a handle tells about the channel
fn ch_look(c: &mut Ch, w: &W) {
    fn hash(f: impl FnOnce(&mut std::collections::hash_map::DefaultHasher)) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        f(&mut h);
        std::hash::Hasher::finish(&h)
    }
    macro_rules! look {
        ($mk:expr, $send:expr) => {{
            let (a, ra) = $mk;
            let (b, rb) = $mk;
            let mut a2 = a.clone();
            let n = c.pick(3);
            for k in 0..n {
                $send(&a, k as i32);
            }
            let gone = c.pick(3); // 1: a2 is disconnected, 2: its channel is closed
            if gone == 1 {
                a2.disconnect();
            } else if gone == 2 {
                a2.close_channel();
            }
            w.note(format!("two channels, a clone of a sender of the first, {} messages, {}", n, ["", "the clone disconnected", "closed by the clone"][gone]));
            let on = gone != 1;
            if a2.is_closed() != (gone != 0) || a.is_closed() != (gone == 2) || b.is_closed() {
                w.fault("core", "is_closed() is wrong");
            }
            if a.same_receiver(&a2) != on || a2.same_receiver(&a) != on || a2.same_receiver(&b) || !a.same_receiver(&a) || a.same_receiver(&b) {
                w.fault("core", "same_receiver() is wrong");
            }
            if !a.is_connected_to(&ra) || a.is_connected_to(&rb) || a2.is_connected_to(&ra) != on || a2.is_connected_to(&rb) || !b.is_connected_to(&rb) {
                w.fault("core", "is_connected_to() is wrong");
            }
            let (ha, h2, hb) = (hash(|h| a.hash_receiver(h)), hash(|h| a2.hash_receiver(h)), hash(|h| b.hash_receiver(h)));
            if (ha == h2) != on || ha == hb {
                w.fault("core", "hash_receiver() is wrong");
            }
            drop((a, a2, b, ra, rb));
            (n, on)
        }};
    }
    if c.flag() {
        look!(mpsc::channel::<i32>(4), |a: &mpsc::Sender<i32>, k| a.clone().try_send(k).unwrap());
    } else {
        let (s, _r) = mpsc::unbounded::<i32>();
        let mut s2 = s.clone();
        let n = c.pick(3);
        for k in 0..n {
            s.unbounded_send(k as i32).unwrap();
        }
        let off = c.flag();
        if off {
            s2.disconnect();
        }
        if s.len() != n || s.is_empty() != (n == 0) || s2.len() != (if off { 0 } else { n }) || s2.is_empty() != (off || n == 0) {
            w.fault("core", "len() or is_empty() is wrong");
        }
        look!(mpsc::unbounded::<i32>(), |a: &mpsc::UnboundedSender<i32>, k| a.unbounded_send(k).unwrap());
    }
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("awaker", vec![("ops", aw_ops as fn(&mut Ch, &W)), ("threads", aw_threads)]),
        ("oneshot", vec![("ops", os_ops as fn(&mut Ch, &W)), ("threads", os_threads)]),
        ("mpsc", vec![("bounded", ch_bounded as fn(&mut Ch, &W)), ("unbounded", ch_unbounded), ("recv", ch_recv), ("look", ch_look), ("threads", ch_threads)]),
    ]
}
#[allow(dead_code)]
fn _unused<F: Future>(_: F) {}
