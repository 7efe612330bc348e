//! Mutex and BiLock: operation sequences against a model (at most one guard; a free lock with waiters has a woken waiter), with
//! the release of the lock injected while a waker is being registered, and runs on real threads.
use crate::conc::{block, rounds, spin, Wk};
use crate::core::*;
use futures::lock::{BiLock, BiLockGuard, MappedMutexGuard, Mutex, MutexGuard, MutexLockFuture, OwnedMutexGuard, OwnedMutexLockFuture};
use futures_core::FusedFuture;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

enum G {
    R(MutexGuard<'static, (i32, i32)>),
    M(MappedMutexGuard<'static, (i32, i32), i32>),
    O(OwnedMutexGuard<(i32, i32)>),
}
enum F {
    R(MutexLockFuture<'static, (i32, i32)>),
    O(OwnedMutexLockFuture<(i32, i32)>),
}
struct Fu {
    f: F,
    wk: Option<Wk>,
    pending: bool,
    mark: usize,
}
fn mx_ops(c: &mut Ch, w: &W) {
    let arc: Arc<Mutex<(i32, i32)>> = Arc::new(Mutex::new((0, 0)));
    let mx: &'static Mutex<(i32, i32)> = unsafe { &*Arc::as_ptr(&arc) };
    let guard: Rc<RefCell<Option<G>>> = Rc::new(RefCell::new(None));
    let mut futs: Vec<Option<Fu>> = vec![];
    let mut count = 0;
    let nops = if c.is_random() { 14 } else { 6 };
    for _ in 0..nops {
        // 0 new future, 1 poll, 2 drop future, 3 drop guard, 4 try_lock, 5 map, 6 poll with the guard dropped while registering
        let op = c.pick(7);
        match op {
            0 => {
                if futs.len() >= 4 {
                    continue;
                }
                let f = if c.flag() { F::R(mx.lock()) } else { F::O(arc.clone().lock_owned()) };
                futs.push(Some(Fu { f, wk: None, pending: false, mark: 0 }));
                w.note(format!("f{} = lock()", futs.len() - 1));
            }
            1 | 6 => {
                let live: Vec<usize> = (0..futs.len()).filter(|i| futs[*i].is_some()).collect();
                if live.is_empty() {
                    continue;
                }
                let i = live[c.pick(live.len())];
                let waiting = futs.iter().flatten().filter(|f| f.pending).count();
                let held = guard.borrow().is_some();
                let f = futs[i].as_mut().unwrap();
                let old = if f.wk.is_none() || c.flag() { f.wk.replace(Wk::new(0)) } else { None };
                let wk = f.wk.as_ref().unwrap().0;
                wk.unhook();
                let inject = op == 6 && held && waiting == 0;
                if inject {
                    let g = guard.clone();
                    *wk.on_clone.borrow_mut() = Some(Box::new(move || {
                        let x = g.borrow_mut().take();
                        drop(x);
                    }));
                }
                f.mark = wk.wakes.get();
                let waker = wk.waker();
                let mut cx = Context::from_waker(&waker);
                let r = match &mut f.f {
                    F::R(x) => Pin::new(x).poll(&mut cx).map(G::R),
                    F::O(x) => Pin::new(x).poll(&mut cx).map(G::O),
                };
                w.note(format!("poll f{}{}{} -> {}", i, if old.is_some() { " (new waker)" } else { "" }, if inject { " (guard dropped while its waker is cloned)" } else { "" }, if r.is_ready() { "guard" } else { "Pending" }));
                drop(waker);
                wk.unhook();
                let term = match &f.f {
                    F::R(x) => x.is_terminated(),
                    F::O(x) => x.is_terminated(),
                };
                if term != r.is_ready() {
                    w.fault("term", "is_terminated wrong");
                }
                let now = guard.borrow().is_some();
                drop(old);
                match r {
                    Poll::Ready(g) => {
                        if now {
                            w.fault("core", "two guards at once");
                            std::mem::forget(g);
                            return;
                        }
                        futs[i] = None;
                        let mut g = g;
                        if !incr(&mut g, &mut count) {
                            w.fault("core", "value lost an update");
                        }
                        *guard.borrow_mut() = Some(g);
                    }
                    Poll::Pending => {
                        f.pending = true;
                        if !now {
                            w.fault("wake", "Pending although the lock is free");
                        }
                    }
                }
            }
            2 => {
                let live: Vec<usize> = (0..futs.len()).filter(|i| futs[*i].is_some()).collect();
                if live.is_empty() {
                    continue;
                }
                let i = live[c.pick(live.len())];
                w.note(format!("drop f{}", i));
                futs[i] = None;
            }
            3 => {
                let g = guard.borrow_mut().take();
                if g.is_none() {
                    continue;
                }
                w.note("drop guard");
                drop(g);
            }
            4 => {
                let held = guard.borrow().is_some();
                let r = if c.flag() { mx.try_lock().map(G::R) } else { arc.try_lock_owned().map(G::O) };
                w.note(format!("try_lock -> {}", r.is_some()));
                if r.is_some() == held {
                    w.fault("core", if held { "try_lock gave out a second guard" } else { "try_lock failed on a free lock" });
                    std::mem::forget(r);
                    return;
                }
                if let Some(mut g) = r {
                    if !incr(&mut g, &mut count) {
                        w.fault("core", "value lost an update");
                    }
                    *guard.borrow_mut() = Some(g);
                }
            }
            _ => {
                let g = guard.borrow_mut().take();
                let g = match g {
                    Some(G::R(g)) => Some(G::M(MutexGuard::map(g, |p| &mut p.1))),
                    Some(G::M(g)) => Some(G::M(MappedMutexGuard::map(g, |p| p))),
                    x => x,
                };
                w.note("map guard");
                *guard.borrow_mut() = g;
                if guard.borrow().is_some() && mx.try_lock().is_some() {
                    w.fault("core", "mapped guard does not hold the lock");
                    return;
                }
            }
        }
        // a free lock with waiters has a waiter that was woken since it was last polled
        if guard.borrow().is_none() {
            let waiting: Vec<&Fu> = futs.iter().flatten().filter(|f| f.pending).collect();
            if !waiting.is_empty() && !waiting.iter().any(|f| f.wk.as_ref().unwrap().0.wakes.get() > f.mark) {
                w.fault("wake", "the lock is free, futures wait for it, and none of them has been woken");
                return;
            }
        }
    }
    drop(guard.borrow_mut().take());
    for i in 0..futs.len() {
        futs[i] = None;
    }
    if mx.try_lock().is_none() {
        w.fault("core", "lock still held after every guard and future is gone");
    }
    match Arc::try_unwrap(arc) {
        Ok(m) => {
            let v = m.into_inner();
            if v.0 != count && v.1 + v.0 < count {
                w.fault("core", "value lost an update");
            }
        }
        Err(_) => w.fault("core", "a handle of the mutex is leaked"),
    }
}
fn incr(g: &mut G, count: &mut i32) -> bool {
    match g {
        G::R(g) => {
            let ok = g.0 == *count;
            g.0 += 1;
            *count += 1;
            ok
        }
        G::O(g) => {
            let ok = g.0 == *count;
            g.0 += 1;
            *count += 1;
            ok
        }
        G::M(_) => true,
    }
}
fn mx_threads(c: &mut Ch, w: &W) {
    let (n, a, b) = match rounds(c) {
        Some(x) => x,
        None => return,
    };
    let nth = 2 + n % 3;
    for k in 0..n / 6 {
        let m = Arc::new((Mutex::new((0usize, 0usize)), AtomicUsize::new(0)));
        let hs: Vec<_> = (0..nth)
            .map(|t| {
                let m = m.clone();
                std::thread::spawn(move || -> Option<bool> {
                    let mut clean = true;
                    for j in 0..40 {
                        spin((a + b) * ((k + t + j) % 5));
                        if (j + t) % 7 == 3 {
                            // a lock future that is polled and dropped
                            let mut f = m.0.lock();
                            let p = Arc::new(Nop);
                            let wk = std::task::Waker::from(p);
                            if let Poll::Ready(g) = Pin::new(&mut f).poll(&mut Context::from_waker(&wk)) {
                                drop(g)
                            }
                            spin(b);
                            drop(f);
                        }
                        let mut f = m.0.lock();
                        let mut g = block(|cx| Pin::new(&mut f).poll(cx))?;
                        if m.1.fetch_add(1, Ordering::SeqCst) != 0 {
                            clean = false;
                        }
                        let x = g.0;
                        spin(a);
                        g.0 = x + 1;
                        g.1 += 1;
                        m.1.fetch_sub(1, Ordering::SeqCst);
                        drop(g);
                    }
                    Some(clean)
                })
            })
            .collect();
        let mut bad = false;
        for h in hs {
            match h.join() {
                Ok(Some(true)) => {}
                Ok(Some(false)) => {
                    w.fault("core", "two threads held the lock at once");
                    bad = true;
                }
                Ok(None) => {
                    w.fault("wake", "threads lock and unlock a Mutex: one waited 10 s without being woken");
                    bad = true;
                }
                Err(_) => {
                    w.fault("core", "a thread panicked");
                    bad = true;
                }
            }
        }
        if bad {
            return;
        }
        let v = *m.0.try_lock().unwrap();
        if v != (nth * 40, nth * 40) {
            w.fault("core", format!("{} increments under the lock gave {:?}", nth * 40, v));
            return;
        }
    }
}
struct Nop;
impl std::task::Wake for Nop {
    fn wake(self: Arc<Self>) {}
}

// ---- BiLock
fn bl_ops(c: &mut Ch, w: &W) {
    let (a, b) = BiLock::new(Box::new(0i32));
    let hs: [*mut BiLock<Box<i32>>; 2] = [Box::into_raw(Box::new(a)), Box::into_raw(Box::new(b))];
    let guard: Rc<RefCell<Option<(usize, BiLockGuard<'static, Box<i32>>)>>> = Rc::new(RefCell::new(None));
    // last waker of each handle's pending lock attempt, and its wake count then
    let mut wait: [Option<(Wk, usize)>; 2] = [None, None];
    let mut count = 0;
    let nops = if c.is_random() { 12 } else { 6 };
    let mut other_dropped = false;
    for _ in 0..nops {
        match c.pick(4) {
            k @ (0 | 1) => {
                let i = c.pick(2);
                let holder = guard.borrow().as_ref().map(|g| g.0);
                if holder == Some(i) {
                    continue;
                }
                let wk = if c.flag() { wait[i].take().map(|x| x.0).unwrap_or_else(|| Wk::new(0)) } else { Wk::new(0) };
                wk.0.unhook();
                let inject = k == 1 && holder.is_some();
                if inject {
                    let g = guard.clone();
                    *wk.0.on_clone.borrow_mut() = Some(Box::new(move || {
                        let x = g.borrow_mut().take();
                        drop(x);
                    }));
                }
                let mark = wk.0.wakes.get();
                let waker = wk.0.waker();
                let lock: &'static BiLock<Box<i32>> = unsafe { &*hs[i] };
                let r = if c.flag() { lock.poll_lock(&mut Context::from_waker(&waker)) } else { Pin::new(&mut lock.lock()).poll(&mut Context::from_waker(&waker)) };
                drop(waker);
                wk.0.unhook();
                w.note(format!("handle {}: poll_lock{} -> {}", i, if inject { " (guard dropped while its waker is cloned)" } else { "" }, if r.is_ready() { "guard" } else { "Pending" }));
                let now = guard.borrow().is_some();
                match r {
                    Poll::Ready(mut g) => {
                        if now {
                            w.fault("core", "two guards at once");
                            std::mem::forget(g);
                            return;
                        }
                        if **g != count {
                            w.fault("core", "value lost an update");
                        }
                        **g += 1;
                        count += 1;
                        if **g.as_pin_mut() != count {
                            w.fault("core", "as_pin_mut shows another value");
                        }
                        *guard.borrow_mut() = Some((i, g));
                        wait[i] = None;
                    }
                    Poll::Pending => {
                        if !now && wk.0.wakes.get() == mark {
                            w.fault("wake", "Pending although the lock is free");
                        }
                        wait[i] = Some((wk, mark));
                    }
                }
            }
            2 => {
                let g = guard.borrow_mut().take();
                if let Some(g) = g {
                    w.note(format!("handle {}: drop guard", g.0));
                    drop(g);
                }
            }
            _ => {
                // look: reunite is only possible for a pair
                let a = unsafe { &*hs[0] };
                let b = unsafe { &*hs[1] };
                if !a.is_pair_of(b) {
                    w.fault("core", "is_pair_of denies a pair");
                }
                let (x, y) = BiLock::new(0u8);
                let (x2, y2) = BiLock::new(1u8);
                if x.is_pair_of(&x2) {
                    w.fault("core", "is_pair_of accepts handles of two locks");
                }
                match x.reunite(y2) {
                    Ok(_) => w.fault("core", "handles of two locks were reunited"),
                    Err(e) => {
                        if e.0.reunite(y).ok() != Some(0) || x2.reunite(e.1).ok() != Some(1) {
                            w.fault("core", "reunite gave back the wrong handles or value");
                        }
                    }
                }
                other_dropped = true;
            }
        }
        if guard.borrow().is_none() {
            for i in 0..2 {
                if let Some((wk, mark)) = &wait[i] {
                    if wk.0.wakes.get() == *mark {
                        w.fault("wake", "the lock is free and the task parked on it has not been woken");
                        return;
                    }
                }
            }
        }
    }
    let _ = other_dropped;
    drop(guard.borrow_mut().take());
    let a = *unsafe { Box::from_raw(hs[0]) };
    let b = *unsafe { Box::from_raw(hs[1]) };
    match a.reunite(b) {
        Ok(v) if *v == count => {}
        Ok(_) => w.fault("core", "reunite gave another value"),
        Err(_) => w.fault("core", "the two halves of a lock could not be reunited"),
    }
    for x in wait.iter().flatten() {
        if x.0 .0.refs.get() != 0 {
            w.fault("core", format!("waker leaked or dropped twice ({} left)", x.0 .0.refs.get()));
        }
    }
}
fn bl_threads(c: &mut Ch, w: &W) {
    let (n, a, b) = match rounds(c) {
        Some(x) => x,
        None => return,
    };
    for k in 0..n / 4 {
        let (x, y) = BiLock::new((0usize, 0usize));
        let go = |l: BiLock<(usize, usize)>, t: usize| {
            std::thread::spawn(move || {
                for j in 0..60 {
                    spin((a + t) * ((k + j) % 5));
                    let mut g = block(|cx| l.poll_lock(cx))?;
                    let v = g.0;
                    spin(b);
                    g.0 = v + 1;
                    g.1 += 1;
                    drop(g);
                }
                Some(l)
            })
        };
        let h1 = go(x, 0);
        let h2 = go(y, 13);
        match (h1.join(), h2.join()) {
            (Ok(Some(p)), Ok(Some(q))) => {
                let v = p.reunite(q).ok();
                if v != Some((120, 120)) {
                    w.fault("core", format!("120 increments under the lock gave {:?}", v));
                    return;
                }
            }
            (Ok(_), Ok(_)) => {
                w.fault("wake", "two threads lock and unlock a BiLock: one waited 10 s without being woken");
                return;
            }
            _ => {
                w.fault("core", "a thread panicked");
                return;
            }
        }
    }
}
/// an object that is both halves of a duplex
struct Duplex(i32);
impl futures_core::Stream for Duplex {
    type Item = i32;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<i32>> {
        Poll::Ready(None)
    }
}
impl futures_sink::Sink<i32> for Duplex {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, _: i32) -> Result<(), ()> {
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
}
/// halves made by split: pairs are recognised from both sides, reunited halves give the object back, others are returned
fn bl_split(c: &mut Ch, w: &W) {
    use futures_util::{AsyncReadExt, StreamExt};
    let back = c.flag();
    let mixed = c.flag();
    if c.flag() {
        let mk = |k: usize| futures_util::io::Cursor::new(vec![0u8; k]).split();
        let ((r1, w1), (r2, w2)) = (mk(1), mk(2));
        if !r1.is_pair_of(&w1) || !w1.is_pair_of(&r1) || r1.is_pair_of(&w2) || w2.is_pair_of(&r1) {
            w.fault("core", "is_pair_of is wrong about the halves of a reader and writer");
        }
        let j = |r: futures_util::io::ReadHalf<_>, x: futures_util::io::WriteHalf<_>| if back { x.reunite(r) } else { r.reunite(x) };
        if !mixed {
            if j(r1, w1).ok().map(|x: futures_util::io::Cursor<Vec<u8>>| x.into_inner().len()) != Some(1) {
                w.fault("core", "the halves of one reader/writer are not reunited");
            }
        } else {
            match j(r1, w2) {
                Ok(_) => w.fault("core", "halves of two readers/writers were reunited"),
                Err(e) => {
                    if j(e.0, w1).ok().map(|x| x.into_inner().len()) != Some(1) || j(r2, e.1).ok().map(|x| x.into_inner().len()) != Some(2) {
                        w.fault("core", "reunite of halves of two readers/writers gave back other halves");
                    }
                }
            }
        }
    } else {
        let ((t1, s1), (t2, s2)) = (Duplex(1).split::<i32>(), Duplex(2).split::<i32>());
        if !t1.is_pair_of(&s1) || !s1.is_pair_of(&t1) || t1.is_pair_of(&s2) || s2.is_pair_of(&t1) {
            w.fault("core", "is_pair_of is wrong about the halves of a stream and sink");
        }
        let j = |t: futures_util::stream::SplitSink<Duplex, i32>, s: futures_util::stream::SplitStream<Duplex>| if back { s.reunite(t) } else { t.reunite(s) };
        if !mixed {
            if j(t1, s1).ok().map(|x| x.0) != Some(1) {
                w.fault("core", "the halves of one stream/sink are not reunited");
            }
        } else {
            match j(t1, s2) {
                Ok(_) => w.fault("core", "halves of two streams/sinks were reunited"),
                Err(e) => {
                    if j(e.0, s1).ok().map(|x| x.0) != Some(1) || j(t2, e.1).ok().map(|x| x.0) != Some(2) {
                        w.fault("core", "reunite of halves of two streams/sinks gave back other halves");
                    }
                }
            }
        }
    }
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("mutex", vec![("lock futures, guards, try_lock, map", mx_ops as fn(&mut Ch, &W)), ("threads", mx_threads)]),
        ("bilock", vec![("two handles", bl_ops as fn(&mut Ch, &W)), ("split halves", bl_split), ("threads", bl_threads)]),
    ]
}
