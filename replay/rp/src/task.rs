//! futures-task: wakers made from Arcs, waker references, future objects, spawners.
use crate::core::*;
use futures::future::FutureExt;
use futures::task::{ArcWake, FutureObj, LocalFutureObj, LocalSpawn, LocalSpawnExt, Spawn, SpawnError, SpawnExt, WakerRef};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct Seen {
    by_ref: AtomicUsize,
    by_val: AtomicUsize,
    drops: AtomicUsize,
}
struct A(Arc<Seen>); // only wake_by_ref
impl ArcWake for A {
    fn wake_by_ref(x: &Arc<Self>) {
        x.0.by_ref.fetch_add(1, SeqCst);
    }
}
impl Drop for A {
    fn drop(&mut self) {
        self.0.drops.fetch_add(1, SeqCst);
    }
}
struct B(Arc<Seen>); // both
impl ArcWake for B {
    fn wake(self: Arc<Self>) {
        self.0.by_val.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(x: &Arc<Self>) {
        x.0.by_ref.fetch_add(1, SeqCst);
    }
}
impl Drop for B {
    fn drop(&mut self) {
        self.0.drops.fetch_add(1, SeqCst);
    }
}
fn waker_of<T: ArcWake + 'static>(c: &mut Ch, w: &W, both: bool, mk: fn(Arc<Seen>) -> T) {
    let seen = Arc::new(Seen::default());
    let first = Arc::new(mk(seen.clone()));
    let weak = Arc::downgrade(&first);
    let mut arcs = vec![first];
    let mut wakers: Vec<Waker> = vec![];
    let (mut refs, mut vals) = (0usize, 0usize);
    let n = if c.is_random() { 14 } else { 5 };
    for _ in 0..n {
        match c.pick(11) {
            0 => {
                // a waker takes the Arc's reference over
                if let Some(a) = arcs.pop() {
                    w.note("waker(arc)");
                    wakers.push(futures_task::waker(a));
                }
            }
            1 => {
                if let Some(a) = arcs.last().cloned() {
                    w.note("arc.clone()");
                    arcs.push(a);
                }
            }
            2 => {
                if let Some(k) = wakers.last().cloned() {
                    w.note("waker.clone()");
                    wakers.push(k);
                }
            }
            3 => {
                if let Some(k) = wakers.pop() {
                    w.note("waker.wake()");
                    k.wake();
                    if both {
                        vals += 1
                    } else {
                        refs += 1
                    }
                }
            }
            4 => {
                if let Some(k) = wakers.last() {
                    w.note("waker.wake_by_ref()");
                    k.wake_by_ref();
                    refs += 1;
                }
            }
            5 => {
                w.note("drop(waker)");
                wakers.pop();
            }
            6 => {
                w.note("drop(arc)");
                arcs.pop();
            }
            7 => {
                if let Some(a) = arcs.last() {
                    w.note("waker_ref(&arc).wake_by_ref()");
                    let before = Arc::strong_count(a);
                    let r = futures_task::waker_ref(a);
                    if Arc::strong_count(a) != before {
                        w.fault("core", "waker_ref changed the number of references");
                    }
                    r.wake_by_ref();
                    refs += 1;
                }
            }
            8 => {
                if let Some(a) = arcs.last() {
                    w.note("waker_ref(&arc).clone()");
                    let r = futures_task::waker_ref(a);
                    let k: Waker = (*r).clone();
                    drop(r);
                    wakers.push(k);
                }
            }
            9 => {
                if let Some(k) = wakers.last() {
                    w.note("WakerRef::new(&waker): wake_by_ref, clone");
                    let r = WakerRef::new(k);
                    r.wake_by_ref();
                    refs += 1;
                    if !r.will_wake(k) {
                        w.fault("core", "WakerRef::new does not wake the same task");
                    }
                    let k2: Waker = (*r).clone();
                    drop(r);
                    wakers.push(k2);
                }
            }
            _ => {
                if let (Some(a), Some(k)) = (arcs.last(), wakers.last()) {
                    let r = futures_task::waker_ref(a);
                    let _ = r.will_wake(k);
                }
            }
        }
        let own = arcs.len() + wakers.len();
        if weak.strong_count() != own {
            w.fault("core", format!("{} references counted, {} handles alive", weak.strong_count(), own));
            // do not make it worse
            std::mem::forget(arcs);
            std::mem::forget(wakers);
            return;
        }
        let d = seen.drops.load(SeqCst);
        if d != (own == 0) as usize {
            w.fault("core", format!("value dropped {} times, {} handles alive", d, own));
            std::mem::forget(arcs);
            std::mem::forget(wakers);
            return;
        }
        if (seen.by_ref.load(SeqCst), seen.by_val.load(SeqCst)) != (refs, vals) {
            w.fault("wake", format!("woken by reference {} and by value {} times, requested {} and {}", seen.by_ref.load(SeqCst), seen.by_val.load(SeqCst), refs, vals));
        }
    }
    drop(arcs);
    drop(wakers);
    if seen.drops.load(SeqCst) != 1 {
        w.fault("core", format!("value dropped {} times at the end", seen.drops.load(SeqCst)));
    }
}
fn t_waker(c: &mut Ch, w: &W) {
    if c.flag() {
        waker_of(c, w, true, B)
    } else {
        waker_of(c, w, false, A)
    }
}
fn t_noop(c: &mut Ch, w: &W) {
    let a = futures_task::noop_waker();
    let b = a.clone();
    if !a.will_wake(&b) {
        w.fault("core", "a clone of the no-op waker is another waker");
    }
    let r = futures_task::noop_waker_ref();
    for _ in 0..3 {
        match c.pick(4) {
            0 => a.wake_by_ref(),
            1 => b.clone().wake(),
            2 => r.wake_by_ref(),
            _ => r.clone().wake(),
        }
    }
}

struct F {
    left: usize,
    out: u32,
    polls: Rc<Cell<usize>>,
    drops: Rc<Cell<usize>>,
    at: Rc<Cell<usize>>,
    big: [u8; 24],
}
impl Future for F {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        self.polls.set(self.polls.get() + 1);
        let here = &*self as *const F as usize;
        if self.at.get() == 0 {
            self.at.set(here);
        }
        if self.at.get() != here || self.big != [7; 24] {
            self.polls.set(usize::MAX / 2); // moved or overwritten
        }
        if self.left == 0 {
            Poll::Ready(self.out)
        } else {
            self.left -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
impl Drop for F {
    fn drop(&mut self) {
        self.drops.set(self.drops.get() + 1);
    }
}
// the tests below run on one thread only
struct SendF(F);
unsafe impl Send for SendF {}
impl Future for SendF {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        unsafe { self.map_unchecked_mut(|x| &mut x.0) }.poll(cx)
    }
}
fn check_obj<T: Future<Output = u32>>(c: &mut Ch, w: &W, name: &str, pend: usize, out: u32, polls: &Cell<usize>, drops: &Cell<usize>, owned: bool, mv: impl Fn(T) -> T, o: T)
where
    T: Unpin,
{
    let (f, k) = new_waker();
    let n = c.pick(pend + 2);
    let mut o = o;
    for i in 0..n {
        f.0.store(false, SeqCst);
        if c.flag() {
            o = mv(o);
        }
        let r = Pin::new(&mut o).poll(&mut Context::from_waker(&k));
        let want = if i == pend { Poll::Ready(out) } else { Poll::Pending };
        if r != want {
            w.fault("core", format!("{}: poll {} gave {:?}, not {:?}", name, i, r, want));
        }
        if i < pend && !f.0.load(SeqCst) {
            w.fault("wake", format!("{}: the waker did not reach the future", name));
        }
        if polls.get() != i + 1 {
            w.fault("core", format!("{}: the future saw {} polls, not {}", name, polls.get(), i + 1));
        }
        if drops.get() != 0 {
            w.fault("core", format!("{}: dropped while in use", name));
            std::mem::forget(o);
            return;
        }
    }
    if c.flag() {
        w.note("dropped by unwinding");
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _o = o;
            std::panic::resume_unwind(Box::new(()))
        }));
    } else {
        drop(o);
    }
    if drops.get() != owned as usize {
        w.fault("core", format!("{}: dropped {} times with the object", name, drops.get()));
    }
}
fn t_obj(c: &mut Ch, w: &W) {
    let pend = c.pick(3);
    let out = 40 + c.pick(2) as u32;
    let polls = Rc::new(Cell::new(0));
    let drops = Rc::new(Cell::new(0));
    let f = F { left: pend, out, polls: polls.clone(), drops: drops.clone(), at: Rc::new(Cell::new(0)), big: [7; 24] };
    let idl: fn(LocalFutureObj<'_, u32>) -> LocalFutureObj<'_, u32> = |x| x;
    let ids: fn(FutureObj<'_, u32>) -> FutureObj<'_, u32> = |x| x;
    let kind = c.pick(14);
    w.note(format!("constructor {} pend {}", kind, pend));
    match kind {
        0 => check_obj(c, w, "Local Box<F>", pend, out, &polls, &drops, true, idl, LocalFutureObj::new(Box::new(f))),
        1 => check_obj(c, w, "Local Box<dyn>", pend, out, &polls, &drops, true, idl, LocalFutureObj::new(Box::new(f) as Box<dyn Future<Output = u32>>)),
        2 => check_obj(c, w, "Local Box<dyn Send>", pend, out, &polls, &drops, true, idl, LocalFutureObj::new(Box::new(SendF(f)) as Box<dyn Future<Output = u32> + Send>)),
        3 => check_obj(c, w, "Local Pin<Box<F>>", pend, out, &polls, &drops, true, idl, LocalFutureObj::new(Box::pin(f))),
        4 => check_obj(c, w, "Local Pin<Box<dyn>>", pend, out, &polls, &drops, true, idl, LocalFutureObj::new(Box::pin(f) as Pin<Box<dyn Future<Output = u32>>>)),
        5 => check_obj(c, w, "Local Pin<Box<dyn Send>>", pend, out, &polls, &drops, true, idl, LocalFutureObj::new(Box::pin(SendF(f)) as Pin<Box<dyn Future<Output = u32> + Send>>)),
        6 => {
            let mut g = f;
            check_obj(c, w, "Local &mut F", pend, out, &polls, &drops, false, |x| x, LocalFutureObj::new(&mut g));
        }
        7 => {
            let mut g = f;
            check_obj(c, w, "Local &mut dyn", pend, out, &polls, &drops, false, |x| x, LocalFutureObj::new(&mut g as &mut (dyn Future<Output = u32> + Unpin)));
        }
        8 => {
            let mut g = f;
            check_obj(c, w, "Local Pin<&mut F>", pend, out, &polls, &drops, false, |x| x, LocalFutureObj::new(Pin::new(&mut g)));
        }
        9 => {
            let mut g = f;
            check_obj(c, w, "Local Pin<&mut dyn>", pend, out, &polls, &drops, false, |x| x, LocalFutureObj::new(Pin::new(&mut g) as Pin<&mut dyn Future<Output = u32>>));
        }
        10 => check_obj(c, w, "Box<F>", pend, out, &polls, &drops, true, ids, FutureObj::new(Box::new(SendF(f)))),
        11 => check_obj(c, w, "Pin<Box<dyn Send>>", pend, out, &polls, &drops, true, ids, FutureObj::new(Box::pin(SendF(f)) as Pin<Box<dyn Future<Output = u32> + Send>>)),
        12 => check_obj(c, w, "into_future_obj", pend, out, &polls, &drops, true, ids, unsafe { LocalFutureObj::new(Box::new(f)).into_future_obj() }),
        _ => check_obj(c, w, "LocalFutureObj::from(FutureObj)", pend, out, &polls, &drops, true, idl, LocalFutureObj::from(FutureObj::new(Box::new(SendF(f))))),
    }
    if drops.get() != 1 {
        w.fault("core", format!("dropped {} times altogether", drops.get()));
    }
}

// futures with output () through `From`
fn t_from(c: &mut Ch, w: &W) {
    let polls = Rc::new(Cell::new(0));
    let drops = Rc::new(Cell::new(0));
    let f = SendF(F { left: 0, out: 1, polls: polls.clone(), drops: drops.clone(), at: Rc::new(Cell::new(0)), big: [7; 24] }).map(|_| ());
    let kind = c.pick(8);
    let go = c.flag();
    w.note(format!("From {} poll {}", kind, go));
    let (_, k) = new_waker();
    let run = |o: &mut (dyn Future<Output = ()> + Unpin)| {
        if go && Pin::new(o).poll(&mut Context::from_waker(&k)).is_pending() {
            w.fault("core", "From: pending");
        }
    };
    match kind {
        0 => run(&mut FutureObj::from(Box::new(f))),
        1 => run(&mut FutureObj::from(Box::new(f) as Box<dyn Future<Output = ()> + Send>)),
        2 => run(&mut FutureObj::from(Box::pin(f))),
        3 => run(&mut FutureObj::from(Box::pin(f) as Pin<Box<dyn Future<Output = ()> + Send>>)),
        4 => run(&mut LocalFutureObj::from(Box::new(f))),
        5 => run(&mut LocalFutureObj::from(Box::new(f) as Box<dyn Future<Output = ()>>)),
        6 => run(&mut LocalFutureObj::from(Box::pin(f))),
        _ => run(&mut LocalFutureObj::from(Box::pin(f) as Pin<Box<dyn Future<Output = ()>>>)),
    }
    if drops.get() != 1 {
        w.fault("core", format!("From: dropped {} times", drops.get()));
    }
    if polls.get() != go as usize {
        w.fault("core", format!("From: polled {} times", polls.get()));
    }
}

#[derive(Default)]
struct Sp {
    q: RefCell<Vec<FutureObj<'static, ()>>>,
    lq: RefCell<Vec<LocalFutureObj<'static, ()>>>,
    down: Cell<bool>,
    ldown: Cell<bool>,
}
impl Spawn for Sp {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        if self.down.get() {
            return Err(SpawnError::shutdown());
        }
        self.q.borrow_mut().push(f);
        Ok(())
    }
    fn status(&self) -> Result<(), SpawnError> {
        if self.down.get() {
            Err(SpawnError::shutdown())
        } else {
            Ok(())
        }
    }
}
impl LocalSpawn for Sp {
    fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        if self.ldown.get() {
            return Err(SpawnError::shutdown());
        }
        self.lq.borrow_mut().push(f);
        Ok(())
    }
    fn status_local(&self) -> Result<(), SpawnError> {
        if self.ldown.get() {
            Err(SpawnError::shutdown())
        } else {
            Ok(())
        }
    }
}
fn spawn_on<S: Spawn + LocalSpawn>(c: &mut Ch, w: &W, s: &S, base: &Sp) {
    let (_, k) = new_waker();
    for _ in 0..2 {
        let down = c.flag();
        let ldown = c.flag();
        base.down.set(down);
        base.ldown.set(ldown);
        if s.status().is_err() != down || s.status_local().is_err() != ldown {
            w.fault("core", "status is not the executor's");
        }
        let polls = Rc::new(Cell::new(0));
        let drops = Rc::new(Cell::new(0));
        let f = SendF(F { left: 0, out: 9, polls: polls.clone(), drops: drops.clone(), at: Rc::new(Cell::new(0)), big: [7; 24] });
        let mut handle = None;
        let kind = c.pick(6);
        w.note(format!("spawn kind {} down {} {}", kind, down, ldown));
        let (q0, l0) = (base.q.borrow().len(), base.lq.borrow().len());
        let ok = match kind {
            0 => s.spawn(f.map(|_| ())).is_ok(),
            1 => s.spawn_local(f.map(|_| ())).is_ok(),
            2 => match s.spawn_with_handle(f) {
                Ok(h) => {
                    handle = Some(h);
                    true
                }
                Err(_) => false,
            },
            3 => match s.spawn_local_with_handle(f) {
                Ok(h) => {
                    handle = Some(h);
                    true
                }
                Err(_) => false,
            },
            4 => s.spawn_obj(FutureObj::new(Box::new(f.map(|_| ())))).is_ok(),
            _ => s.spawn_local_obj(LocalFutureObj::new(Box::new(f.map(|_| ())))).is_ok(),
        };
        let local = kind % 2 == 1;
        let want = if local { !ldown } else { !down };
        if ok != want {
            w.fault("core", format!("spawning gave {}, the executor {}", ok, want));
        }
        let (q1, l1) = (base.q.borrow().len(), base.lq.borrow().len());
        if (q1 - q0, l1 - l0) != (if ok && !local { 1 } else { 0 }, if ok && local { 1 } else { 0 }) {
            w.fault("core", "the executor did not receive exactly one task");
        }
        if polls.get() != 0 {
            w.fault("core", "polled while spawning");
        }
        if drops.get() != !ok as usize {
            w.fault("core", format!("spawned: {}, but dropped {} times", ok, drops.get()));
        }
        if ok {
            let r = if local {
                let mut t = base.lq.borrow_mut().pop().unwrap();
                Pin::new(&mut t).poll(&mut Context::from_waker(&k))
            } else {
                let mut t = base.q.borrow_mut().pop().unwrap();
                Pin::new(&mut t).poll(&mut Context::from_waker(&k))
            };
            if r.is_pending() || polls.get() != 1 || drops.get() != 1 {
                w.fault("core", format!("spawned task: ready {} polls {} drops {}", r.is_ready(), polls.get(), drops.get()));
            }
            if let Some(mut h) = handle {
                if Pin::new(&mut h).poll(&mut Context::from_waker(&k)) != Poll::Ready(9) {
                    w.fault("core", "the handle does not give the output");
                }
            }
        }
    }
}
fn t_spawn(c: &mut Ch, w: &W) {
    match c.pick(6) {
        0 => {
            let s = Sp::default();
            spawn_on(c, w, &s, &s)
        }
        1 => {
            let s = Sp::default();
            spawn_on(c, w, &&s, &s)
        }
        2 => {
            let s = Box::leak(Box::new(Sp::default())) as *mut Sp;
            unsafe {
                spawn_on(c, w, &&mut *s, &*s);
                drop(Box::from_raw(s));
            }
        }
        3 => {
            let s = Box::new(Sp::default());
            let p = &*s as *const Sp;
            spawn_on(c, w, &s, unsafe { &*p })
        }
        4 => {
            let s = Rc::new(Sp::default());
            let b = s.clone();
            spawn_on(c, w, &s, &b)
        }
        _ => {
            #[allow(clippy::arc_with_non_send_sync)]
            let s = Arc::new(Sp::default());
            let b = s.clone();
            spawn_on(c, w, &s, &b)
        }
    }
}
/// FuturesUnordered as a spawner
fn t_fu(c: &mut Ch, w: &W) {
    use futures::stream::{FuturesUnordered, Stream};
    let (_, k) = new_waker();
    let n = c.pick(4);
    let drops = Rc::new(Cell::new(0));
    let polls = Rc::new(Cell::new(0));
    let f = |_| SendF(F { left: 0, out: 1, polls: polls.clone(), drops: drops.clone(), at: Rc::new(Cell::new(0)), big: [7; 24] }).map(|_| ());
    let local = c.flag();
    w.note(format!("FuturesUnordered as spawner: {} tasks, local {}", n, local));
    let mut got = 0;
    if local {
        let mut q: FuturesUnordered<LocalFutureObj<'static, ()>> = FuturesUnordered::new();
        for i in 0..n {
            if q.spawn_local(f(i)).is_err() || q.status_local().is_err() {
                w.fault("core", "refused");
            }
        }
        if q.len() != n {
            w.fault("core", format!("{} tasks spawned, {} in the set", n, q.len()));
        }
        while let Poll::Ready(Some(())) = Pin::new(&mut q).poll_next(&mut Context::from_waker(&k)) {
            got += 1;
        }
    } else {
        let mut q: FuturesUnordered<FutureObj<'static, ()>> = FuturesUnordered::new();
        for i in 0..n {
            if q.spawn(f(i)).is_err() || q.status().is_err() {
                w.fault("core", "refused");
            }
        }
        if q.len() != n {
            w.fault("core", format!("{} tasks spawned, {} in the set", n, q.len()));
        }
        while let Poll::Ready(Some(())) = Pin::new(&mut q).poll_next(&mut Context::from_waker(&k)) {
            got += 1;
        }
    }
    if (got, polls.get(), drops.get()) != (n, n, n) {
        w.fault("core", format!("{} spawned, {} completed, {} polls, {} drops", n, got, polls.get(), drops.get()));
    }
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![("task", vec![("waker", t_waker as fn(&mut Ch, &W)), ("noop", t_noop), ("obj", t_obj), ("from", t_from), ("spawn", t_spawn), ("fu", t_fu)])]
}
