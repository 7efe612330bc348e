//! merging streams, FuturesUnordered / FuturesOrdered, buffered adapters and *_concurrent consumers
use crate::core::*;
use crate::streams::src_at;
use futures_core::FusedStream;
use futures_util::stream::{self, FuturesOrdered, FuturesUnordered, PollNext, SelectAll, StreamExt, TryStreamExt};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll};

/// every item must be the next one of one of the sources; the end only when all sources are exhausted
pub fn drive_merge<S: Stream<Item = i32>>(w: &W, c: &mut Ch, s: S, srcs: &[Vec<i32>], term: Option<&dyn Fn(&S) -> bool>, size: bool) -> Vec<i32> {
    let mut s = Box::pin(s);
    let mut left: Vec<VecDeque<i32>> = srcs.iter().map(|v| v.iter().cloned().collect()).collect();
    let mut got = vec![];
    loop {
        let n: usize = left.iter().map(|v| v.len()).sum();
        let chk = |s: &S, w: &W| {
            if size {
                let (lo, hi) = s.size_hint();
                if lo > n || hi.map(|h| h < n).unwrap_or(false) {
                    w.fault("size", format!("size_hint() = ({}, {:?}) with {} items left", lo, hi, n));
                }
            }
            if let Some(t) = term {
                if t(s) && n > 0 {
                    w.fault("term", format!("is_terminated() is true although {} items are still to come", n));
                }
            }
        };
        chk(&s, w);
        let sr = &mut s;
        let r = run_poll(w, c, 400, |cx| {
            let r = sr.as_mut().poll_next(cx);
            if r.is_pending() {
                chk(sr, w);
            }
            r
        });
        match r {
            Out::Stuck => return got,
            Out::Val(Some(x)) => {
                got.push(x);
                match left.iter_mut().find(|v| v.front() == Some(&x)) {
                    Some(v) => {
                        v.pop_front();
                    }
                    None => {
                        w.fault("core", format!("item {} is not the next item of any source; left {:?}", x, left));
                        return got;
                    }
                }
            }
            Out::Val(None) => {
                if n > 0 {
                    w.fault("core", format!("ended although items are left: {:?}", left));
                    return got;
                }
                break;
            }
        }
    }
    if let Some(t) = term {
        if !t(&s) {
            let (_f, wk) = new_waker();
            let mut cx = Context::from_waker(&wk);
            w.note("poll again after None");
            match s.as_mut().poll_next(&mut cx) {
                Poll::Ready(None) => {}
                Poll::Ready(Some(x)) => w.fault("term", format!("item {:?} after the end", x)),
                Poll::Pending => w.fault("term", "Pending after the end although the stream claims not to be terminated"),
            }
        }
    }
    got
}
fn tt<S: FusedStream>(s: &S) -> bool {
    s.is_terminated()
}

// ---- select
fn m_select(c: &mut Ch, w: &W) {
    let (a, ia) = src_at(c, w, 3, "a", 0);
    let (b, ib) = src_at(c, w, 3, "b", 100);
    let ready = !w.desc.borrow().contains("Pend");
    let got = drive_merge(w, c, stream::select(a, b), &[ia.clone(), ib.clone()], Some(&tt), true);
    if ready && got.len() == ia.len() + ib.len() {
        // both always ready: strict alternation, the first stream first
        let mut ex: Vec<i32> = vec![];
        for k in 0..ia.len().max(ib.len()) {
            ex.extend(ia.get(k));
            ex.extend(ib.get(k));
        }
        if ia.len().abs_diff(ib.len()) <= 1 && ex != got {
            w.fault("core", format!("select of two always-ready streams is not fair: {:?}", got));
        }
    }
}
fn m_select_strategy(c: &mut Ch, w: &W) {
    let (a, ia) = src_at(c, w, 3, "a", 0);
    let (b, ib) = src_at(c, w, 3, "b", 100);
    let ready = !w.desc.borrow().contains("Pend");
    let t: Vec<bool> = (0..3).map(|_| c.flag()).collect();
    w.note(format!("strategy left-first={:?}", t));
    let calls = Rc::new(RefCell::new(vec![]));
    let (t2, c2) = (t.clone(), calls.clone());
    let s = stream::select_with_strategy(a, b, move |k: &mut usize| {
        *k += 1;
        let l = t2[(*k - 1) % 3];
        c2.borrow_mut().push(l);
        if l {
            PollNext::Left
        } else {
            PollNext::Right
        }
    });
    let got = drive_merge(w, c, s, &[ia.clone(), ib.clone()], Some(&tt), true);
    if ready {
        // with both sides ready the strategy decides, its state carried from call to call
        let (mut i, mut j, mut k) = (0, 0, 0);
        let mut ex = vec![];
        while i < ia.len() && j < ib.len() {
            if t[k % 3] {
                ex.push(ia[i]);
                i += 1;
            } else {
                ex.push(ib[j]);
                j += 1;
            }
            k += 1;
        }
        if got.len() < ex.len() || got[..ex.len()] != ex[..] {
            w.fault("core", format!("strategy not followed: {:?}, expected to start with {:?}", got, ex));
        }
    }
}
fn m_select_strategy_pref(c: &mut Ch, w: &W) {
    // prio left: the right side is only reached when the left one is pending or done
    let (a, ia) = src_at(c, w, 3, "a", 0);
    let (b, ib) = src_at(c, w, 2, "b", 100);
    let (pend, done) = (a.is_pending.clone(), a.done.clone());
    let s = stream::select_with_strategy(a, b, |_: &mut ()| PollNext::Left).inspect(|x| {
        if *x >= 100 && !pend.get() && !done.get() {
            w.fault("core", "an item of the right stream although the preferred left stream was ready");
        }
    });
    drive_merge(w, c, s, &[ia, ib], None, true);
}
// ---- stream_select!
fn m_stream_select(c: &mut Ch, w: &W) {
    let (a, ia) = src_at(c, w, 2, "a", 0);
    let (b, ib) = src_at(c, w, 2, "b", 100);
    if c.flag() && c.flag() {
        // hints that do not fit into a usize together
        w.note("stream_select!(a, repeat, repeat)");
        let s = futures::stream_select!(a, stream::repeat(1), stream::repeat(2));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.size_hint()));
        if !matches!(r, Ok((_, None))) {
            w.fault("size", format!("size_hint() of endless streams: {:?}", r.ok()));
        }
    } else if c.flag() {
        drive_merge(w, c, futures::stream_select!(a, b), &[ia, ib], None, true);
    } else {
        let (d, id) = src_at(c, w, 2, "d", 200);
        drive_merge(w, c, futures::stream_select!(a, b, d), &[ia, ib, id], None, true);
    }
}
// ---- select_all
fn m_select_all(c: &mut Ch, w: &W) {
    let n = c.pick(4);
    let mut v = vec![];
    let mut ex = vec![];
    for k in 0..n {
        let (s, i) = src_at(c, w, 2, &format!("s{}", k), 100 * k as i32);
        v.push(s);
        ex.push(i);
    }
    drive_merge(w, c, stream::select_all(v), &ex, Some(&tt), true);
}
fn m_select_all_push(c: &mut Ch, w: &W) {
    // streams pushed while it runs, also after it ended
    let mut sa = SelectAll::new();
    let mut left: Vec<VecDeque<i32>> = vec![];
    let steps = c.pick(7) + 1;
    let mut k = 0;
    let mut active: usize;
    for _ in 0..steps {
        match c.pick(4) {
            op @ (0 | 1) => {
                let ev = script(c, 2, 100 * k);
                left.push(items(&ev).into());
                let s = Src::new(w, &format!("s{}", k), ev);
                if op == 1 {
                    sa.extend([s]);
                } else {
                    sa.push(s);
                }
                k += 1;
            }
            2 => {
                let r = run_poll(w, c, 100, |cx| sa.poll_next_unpin(cx));
                match r {
                    Out::Stuck => return,
                    Out::Val(Some(x)) => match left.iter_mut().find(|v| v.front() == Some(&x)) {
                        Some(v) => {
                            v.pop_front();
                        }
                        None => {
                            w.fault("core", format!("item {} is not the next one of any stream", x));
                            return;
                        }
                    },
                    Out::Val(None) => {
                        if left.iter().any(|v| !v.is_empty()) {
                            w.fault("core", "select_all ended with items left");
                            return;
                        }
                        if !sa.is_terminated() || !sa.is_empty() {
                            w.fault("term", "returned None but not terminated/empty");
                        }
                        left.clear();
                    }
                }
            }
            _ => {
                if c.flag() {
                    w.note("clear");
                    sa.clear();
                    left.clear();
                    if !sa.is_empty() || sa.len() != 0 {
                        w.fault("core", "not empty after clear");
                    }
                } else {
                    active = sa.len();
                    if sa.iter().count() != active || sa.iter_mut().count() != active || sa.iter().len() != active {
                        w.fault("core", "iter() does not visit len() streams");
                    }
                    let n = sa.iter().filter(|s| s.left() > 0).count();
                    if n != left.iter().filter(|v| !v.is_empty()).count() {
                        w.fault("core", "iter() misses a stream that still has items");
                    }
                }
            }
        }
    }
    if c.flag() {
        let n = sa.len();
        let it = sa.into_iter();
        if it.len() != n || it.map(|s| s.left()).sum::<usize>() != left.iter().map(|v| v.len()).sum::<usize>() {
            w.fault("core", "into_iter() does not hand back every stream");
        }
    } else {
        let l: Vec<Vec<i32>> = left.into_iter().map(|v| v.into_iter().collect()).collect();
        drive_merge(w, c, sa, &l, Some(&tt), true);
    }
}
// ---- flatten_unordered
struct Live(Src<i32>, Rc<Cell<usize>>);
impl Stream for Live {
    type Item = i32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<i32>> {
        Pin::new(&mut self.0).poll_next(cx)
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        self.1.set(self.1.get() - 1);
    }
}
fn lim(c: &mut Ch, w: &W) -> Option<usize> {
    let l = [None, Some(1), Some(2), Some(3)][c.pick(4)];
    w.note(format!("limit {:?}", l));
    l
}
fn m_flatten_unordered(c: &mut Ch, w: &W) {
    let (a, ia) = src_at(c, w, 4, "outer", 0);
    let mut ex = vec![];
    let mut sc = vec![];
    for k in &ia {
        let ev = script(c, 2, 100 * (k + 1));
        ex.push(items(&ev));
        sc.push(ev);
    }
    let l = lim(c, w);
    let live = Rc::new(Cell::new(0));
    let (w2, l2) = (w.clone(), live.clone());
    let s = a.map(move |k| {
        l2.set(l2.get() + 1);
        if let Some(l) = l {
            if l2.get() > l {
                w2.fault("core", format!("{} inner streams live, limit {}", l2.get(), l));
            }
        }
        Live(Src::new(&w2, &format!("i{}", k), sc[k as usize].clone()), l2.clone())
    });
    drive_merge(w, c, s.flatten_unordered(l), &ex, Some(&tt), true);
    if live.get() != 0 {
        w.fault("core", "an inner stream was not dropped");
    }
}
fn m_flat_map_unordered(c: &mut Ch, w: &W) {
    let (a, ia) = src_at(c, w, 3, "outer", 0);
    let mut ex = vec![];
    let mut sc = vec![];
    for k in &ia {
        let ev = script(c, 3, 100 * (k + 1));
        ex.push(items(&ev));
        sc.push(ev);
    }
    let l = lim(c, w);
    let w2 = w.clone();
    let s = a.flat_map_unordered(l, move |k| Src::new(&w2, &format!("i{}", k), sc[k as usize].clone()));
    drive_merge(w, c, s, &ex, Some(&tt), true);
}
fn m_try_flatten_unordered(c: &mut Ch, w: &W) {
    // outer errors and inner errors are both passed on, each channel in order
    let (a, ia) = src_at(c, w, 3, "outer", 0);
    let mut ex: Vec<Vec<i32>> = vec![vec![]];
    let mut sc = vec![];
    for k in &ia {
        if c.flag() {
            ex[0].push(-1 - k);
            sc.push(None);
        } else {
            let ev = script(c, 2, 100 * (k + 1));
            let bad = c.flag();
            ex.push(items(&ev).into_iter().map(|x| if bad && x % 2 == 1 { -x } else { x }).collect());
            sc.push(Some((ev, bad)));
        }
    }
    let l = lim(c, w);
    let w2 = w.clone();
    let s = a.map(move |k| match &sc[k as usize] {
        None => Err(-1 - k),
        Some((ev, bad)) => {
            let bad = *bad;
            Ok(Src::new(&w2, &format!("i{}", k), ev.clone()).map(move |x| if bad && x % 2 == 1 { Err(-x) } else { Ok(x) }))
        }
    });
    drive_merge(w, c, s.try_flatten_unordered(l).map(|r| r.unwrap_or_else(|e| e)), &ex, None, true);
}

// ---- FuturesUnordered
type Fu = FuturesUnordered<SFut<i32>>;
struct Model {
    id: usize,
    out: i32,
    polls: Rc<Cell<usize>>,
    done: Rc<Cell<bool>>,
    dropped: Rc<Cell<bool>>,
    wakes: Rc<Cell<usize>>,
}
fn mk(c: &mut Ch, w: &W, k: i32) -> (SFut<i32>, Model) {
    let p = c.pick(3);
    w.note(format!("future {} pends {}", k, p));
    let f = SFut::new(w, format!("f{}", k), p, k);
    let m = Model { id: f.id, out: k, polls: f.polls.clone(), done: f.done.clone(), dropped: f.dropped.clone(), wakes: Rc::new(Cell::new(0)) };
    (f, m)
}
fn fire_one(c: &mut Ch, w: &W, ms: &[Model]) -> bool {
    let k = w.regs.borrow().len();
    if k == 0 {
        return false;
    }
    let i = c.pick(k);
    let id = w.regs.borrow()[i].id;
    if let Some(m) = ms.iter().find(|m| m.id == id) {
        m.wakes.set(m.wakes.get() + 1);
    }
    w.fire(i);
    true
}
fn u_unordered(c: &mut Ch, w: &W) {
    let mut fu: Fu = FuturesUnordered::new();
    let mut ms: Vec<Model> = vec![];
    let mut old: Vec<Model> = vec![];
    let mut flag: Option<std::sync::Arc<Flag>> = None; // armed: last poll returned Pending
    let steps = 1 + c.pick(if c.is_random() { 24 } else { 7 });
    let mut k = 0;
    for _ in 0..steps {
        match c.pick(6) {
            0 | 1 => {
                let (f, m) = mk(c, w, k);
                k += 1;
                fu.push(f);
                ms.push(m);
                flag = None; // the caller has to poll again after a push
            }
            2 | 3 => {
                w.note("poll");
                let (f, wk) = new_waker();
                let mut cx = Context::from_waker(&wk);
                let before: Vec<(usize, usize)> = ms.iter().map(|m| (m.id, m.polls.get())).collect();
                let r = fu.poll_next_unpin(&mut cx);
                for m in &ms {
                    let b = before.iter().find(|x| x.0 == m.id).unwrap().1;
                    if m.polls.get() > 1 + m.wakes.get() {
                        w.fault("core", format!("future {} polled without having been woken", m.out));
                    }
                    let _ = b;
                }
                match r {
                    Poll::Ready(Some(x)) => {
                        match ms.iter().position(|m| m.out == x) {
                            Some(i) => {
                                let m = ms.remove(i);
                                if !m.dropped.get() {
                                    w.fault("core", "a completed future was not dropped");
                                }
                                old.push(m);
                            }
                            None => w.fault("core", format!("output {} of a future that is not in the set", x)),
                        }
                        flag = None;
                    }
                    Poll::Ready(None) => {
                        if !ms.is_empty() {
                            w.fault("core", format!("ended with {} futures in the set", ms.len()));
                        }
                        if !fu.is_terminated() {
                            w.fault("term", "returned None but is_terminated() is false");
                        }
                        flag = None;
                    }
                    Poll::Pending => {
                        if ms.is_empty() {
                            w.fault("core", "Pending although the set is empty");
                        }
                        if !f.0.load(Ordering::SeqCst) {
                            for m in &ms {
                                if !w.regs.borrow().iter().any(|r| r.id == m.id) {
                                    w.fault("wake", format!("Pending but future {} was not polled after its wake-up", m.out));
                                }
                            }
                        }
                        flag = Some(f);
                    }
                }
            }
            4 => {
                if fire_one(c, w, &ms) {
                    if let Some(f) = &flag {
                        if !f.0.load(Ordering::SeqCst) {
                            w.fault("wake", "a future was woken but the task polling the set was not");
                        }
                    }
                }
            }
            _ => match c.pick(5) {
                0 => {
                    w.note("clear");
                    fu.clear();
                    for m in ms.drain(..) {
                        if !m.dropped.get() {
                            w.fault("core", "clear() did not drop a future");
                        }
                        old.push(m);
                    }
                    flag = None;
                }
                1 => {
                    let mut v: Vec<i32> = fu.iter().map(|f| f.out.unwrap_or(-1)).collect();
                    v.sort();
                    if v != ms.iter().map(|m| m.out).collect::<Vec<_>>() || fu.iter().len() != ms.len() {
                        w.fault("core", format!("iter() yields {:?}", v));
                    }
                }
                2 => {
                    let mut it = fu.iter_mut();
                    let mut v = vec![];
                    loop {
                        let l = it.len();
                        match it.next() {
                            Some(f) => {
                                if l != ms.len() - v.len() {
                                    w.fault("core", "iter_mut().len() is wrong");
                                }
                                v.push(f.out.unwrap_or(-1))
                            }
                            None => break,
                        }
                    }
                    v.sort();
                    if v != ms.iter().map(|m| m.out).collect::<Vec<_>>() {
                        w.fault("core", format!("iter_mut() yields {:?}", v));
                    }
                }
                3 => {
                    w.note("into_iter");
                    let take = c.pick(ms.len() + 1);
                    let mut it = std::mem::take(&mut fu).into_iter();
                    let mut v = vec![];
                    for _ in 0..take {
                        if let Some(f) = it.next() {
                            v.push(f);
                        }
                    }
                    if it.len() != ms.len() - v.len() {
                        w.fault("core", "into_iter().len() is wrong");
                    }
                    drop(it);
                    for m in ms.drain(..) {
                        let given = v.iter().any(|f| f.id == m.id);
                        if given == m.dropped.get() {
                            w.fault("core", "into_iter(): future neither handed out nor dropped");
                        }
                        old.push(m);
                    }
                    drop(v);
                    flag = None;
                }
                _ => {
                    // extend / from_iter
                    let (f, m) = mk(c, w, k);
                    k += 1;
                    fu.extend([f]);
                    ms.push(m);
                    flag = None;
                }
            },
        }
        if fu.len() != ms.len() || fu.is_empty() != ms.is_empty() {
            w.fault("core", format!("len() = {} with {} futures", fu.len(), ms.len()));
            return;
        }
        let (lo, hi) = fu.size_hint();
        if lo > ms.len() || hi.map(|h| h < ms.len()).unwrap_or(false) {
            w.fault("size", format!("size_hint() = ({}, {:?}) with {} futures", lo, hi, ms.len()));
        }
        if fu.is_terminated() && !ms.is_empty() {
            w.fault("term", "is_terminated() with futures in the set");
        }
        for m in &ms {
            if m.dropped.get() || m.done.get() {
                w.fault("core", format!("future {} completed or dropped without being reported", m.out));
            }
        }
    }
    // wakers kept beyond the set are harmless
    let late: Vec<_> = if c.flag() { w.regs.borrow().iter().map(|r| r.waker.clone()).collect() } else { vec![] };
    drop(fu);
    for m in &ms {
        if !m.dropped.get() {
            w.fault("core", "a future was leaked when the set was dropped");
        }
    }
    for l in late {
        l.wake_by_ref();
        l.wake();
    }
}
fn u_drain(c: &mut Ch, w: &W) {
    // everything pushed comes out exactly once under any wake order
    let n = 1 + c.pick(if c.is_random() { 40 } else { 4 });
    let fu: Fu = (0..n as i32).map(|k| mk(c, w, k).0).collect();
    let ex: Vec<Vec<i32>> = (0..n as i32).map(|k| vec![k]).collect();
    drive_merge(w, c, fu, &ex, Some(&tt), true);
}
fn u_reentrant_wake(c: &mut Ch, w: &W) {
    // futures that wake themselves while being polled, and each other
    struct Selfish(SFut<i32>, usize, bool);
    impl Future for Selfish {
        type Output = i32;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<i32> {
            if self.1 > 0 {
                self.1 -= 1;
                if self.2 {
                    cx.waker().wake_by_ref();
                    cx.waker().wake_by_ref();
                } else {
                    cx.waker().clone().wake();
                }
                return Poll::Pending;
            }
            Pin::new(&mut self.0).poll(cx)
        }
    }
    let n = 1 + c.pick(3);
    let fu: FuturesUnordered<Selfish> = FuturesUnordered::new();
    for k in 0..n as i32 {
        let (f, _) = mk(c, w, k);
        fu.push(Selfish(f, c.pick(4), c.flag()));
    }
    let ex: Vec<Vec<i32>> = (0..n as i32).map(|k| vec![k]).collect();
    drive_merge(w, c, fu, &ex, Some(&tt), true);
}
fn u_panic(c: &mut Ch, w: &W) {
    // a panicking future is dropped with the set and the others survive
    struct Boom(Option<i32>);
    impl Future for Boom {
        type Output = i32;
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<i32> {
            match self.0 {
                None => panic!("boom"),
                Some(x) => Poll::Ready(x),
            }
        }
    }
    struct D(Boom, Rc<Cell<i32>>);
    impl Future for D {
        type Output = i32;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<i32> {
            Pin::new(&mut self.0).poll(cx)
        }
    }
    impl Drop for D {
        fn drop(&mut self) {
            self.1.set(self.1.get() + 1);
        }
    }
    let drops = Rc::new(Cell::new(0));
    let n = 1 + c.pick(4);
    let mut fu = FuturesUnordered::new();
    let mut ok = 0;
    for k in 0..n as i32 {
        let b = c.flag();
        if !b {
            ok += 1;
        }
        fu.push(D(Boom(if b { None } else { Some(k) }), drops.clone()));
    }
    let (mut got, mut polls) = (0, 0);
    loop {
        polls += 1;
        if polls > 40 {
            w.fault("core", "does not end");
            return;
        }
        let (_f, wk) = new_waker();
        let mut cx = Context::from_waker(&wk);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fu.poll_next_unpin(&mut cx))) {
            Err(_) => {}
            Ok(Poll::Ready(Some(_))) => got += 1,
            Ok(Poll::Ready(None)) => break,
            Ok(Poll::Pending) => {
                w.fault("core", "Pending although every future is ready");
                return;
            }
        }
        if c.pick(6) == 5 {
            break;
        }
    }
    let early = got < ok;
    drop(fu);
    if drops.get() != n as i32 {
        w.fault("core", format!("{} of {} futures dropped", drops.get(), n));
    }
    let _ = early;
}
fn u_threads(c: &mut Ch, w: &W) {
    // futures woken from other threads while the set is polled, pushed to and dropped
    use std::sync::atomic::{AtomicBool, AtomicUsize};
    use std::sync::{Arc, Mutex};
    struct Sh(AtomicBool, Mutex<Option<std::task::Waker>>);
    struct T(Arc<Sh>, usize);
    impl Future for T {
        type Output = usize;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
            *self.0 .1.lock().unwrap() = Some(cx.waker().clone());
            if self.0 .0.load(Ordering::SeqCst) {
                Poll::Ready(self.1)
            } else {
                Poll::Pending
            }
        }
    }
    if !c.is_random() || c.pick(200) != 0 {
        return;
    }
    let n = 8 + c.pick(24);
    let sh: Vec<Arc<Sh>> = (0..n).map(|_| Arc::new(Sh(AtomicBool::new(false), Mutex::new(None)))).collect();
    let cut = c.flag();
    w.note(format!("{} futures woken by 3 threads, dropped early: {}", n, cut));
    let fu: FuturesUnordered<T> = sh.iter().enumerate().map(|(i, s)| T(s.clone(), i)).collect();
    let seen = Arc::new(AtomicUsize::new(0));
    let h: Vec<_> = (0..3)
        .map(|t| {
            let sh = sh.clone();
            std::thread::spawn(move || {
                for s in sh.iter().skip(t).step_by(3) {
                    s.0.store(true, Ordering::SeqCst);
                    let wk = s.1.lock().unwrap().clone();
                    if let Some(wk) = wk {
                        wk.wake();
                    }
                    if s.1.lock().unwrap().is_some() {
                        std::thread::yield_now();
                    }
                }
            })
        })
        .collect();
    let limit = if cut { n / 2 } else { n };
    let (tx, rx) = std::sync::mpsc::channel();
    let s2 = seen.clone();
    std::thread::spawn(move || {
        let v: Vec<usize> = futures_executor::block_on(fu.take(limit).inspect(|_| {
            s2.fetch_add(1, Ordering::SeqCst);
        }).collect());
        let _ = tx.send(v);
    });
    match rx.recv_timeout(std::time::Duration::from_secs(20)) {
        Ok(mut v) => {
            v.sort();
            v.dedup();
            if v.len() != limit {
                w.fault("core", format!("{} different outputs of {} futures", v.len(), limit));
            }
        }
        Err(_) => w.fault("wake", format!("lost wake-up: {} of {} futures reported within 20 s although all are ready", seen.load(Ordering::SeqCst), limit)),
    }
    for x in h {
        let _ = x.join();
    }
}
// ---- FuturesOrdered
fn o_ordered(c: &mut Ch, w: &W) {
    let mut fo: FuturesOrdered<SFut<i32>> = FuturesOrdered::new();
    let mut m: VecDeque<i32> = VecDeque::new();
    let steps = 1 + c.pick(if c.is_random() { 24 } else { 7 });
    let mut k = 0;
    if c.is_random() && c.flag() {
        // collected from an iterator
        let n = c.pick(4) as i32;
        fo = (0..n).map(|i| mk(c, w, i).0).collect();
        m.extend(0..n);
        k = n;
    }
    for _ in 0..steps {
        match c.pick(6) {
            op @ (0 | 1) => {
                let (f, _) = mk(c, w, k);
                w.note("push_back");
                if op == 1 {
                    fo.extend([f]);
                } else {
                    fo.push_back(f);
                }
                m.push_back(k);
                k += 1;
            }
            2 => {
                let (f, _) = mk(c, w, k);
                w.note("push_front");
                fo.push_front(f);
                m.push_front(k);
                k += 1;
            }
            3 | 4 => {
                let was = m.front().cloned();
                let r = if c.flag() {
                    // poll once
                    let (_f, wk) = new_waker();
                    let mut cx = Context::from_waker(&wk);
                    match fo.poll_next_unpin(&mut cx) {
                        Poll::Pending => {
                            if m.is_empty() {
                                w.fault("core", "Pending although empty");
                            }
                            let n = w.regs.borrow().len();
                            if n > 0 && c.flag() {
                                let i = c.pick(n);
                                w.fire(i);
                            }
                            continue;
                        }
                        Poll::Ready(x) => x,
                    }
                } else {
                    match run_poll(w, c, 100, |cx| fo.poll_next_unpin(cx)) {
                        Out::Stuck => return,
                        Out::Val(x) => x,
                    }
                };
                if r != was {
                    w.fault("core", format!("yielded {:?}, expected {:?} (queue {:?})", r, was, m));
                    return;
                }
                m.pop_front();
                if r.is_none() && !fo.is_terminated() {
                    w.fault("term", "returned None but is_terminated() is false");
                }
            }
            _ => {
                if c.flag() {
                    w.note("clear");
                    fo.clear();
                    m.clear();
                } else {
                    let (f, _) = mk(c, w, k);
                    fo.extend([f]);
                    m.push_back(k);
                    k += 1;
                }
            }
        }
        if fo.len() != m.len() || fo.is_empty() != m.is_empty() {
            w.fault("core", format!("len() = {} with {} futures", fo.len(), m.len()));
            return;
        }
        if fo.is_terminated() && !m.is_empty() {
            w.fault("term", "is_terminated() with futures in the queue");
        }
    }
    let ex: Vec<i32> = m.into_iter().collect();
    drive(w, c, fo, &ex, SOpts { term: Some(&tt), ..Default::default() });
}
// ---- buffered
struct Fl {
    taken: Cell<usize>,
    live: Cell<usize>,
    yielded: Cell<usize>,
}
struct LF<T>(SFut<T>, Rc<Fl>);
impl<T> Unpin for LF<T> {}
impl<T> Future for LF<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        Pin::new(&mut self.0).poll(cx)
    }
}
impl<T> Drop for LF<T> {
    fn drop(&mut self) {
        self.1.live.set(self.1.live.get() - 1);
    }
}
fn fl() -> Rc<Fl> {
    Rc::new(Fl { taken: Cell::new(0), live: Cell::new(0), yielded: Cell::new(0) })
}
fn lf<T>(w: &W, k: i32, p: usize, out: T, f: &Rc<Fl>, l: Option<usize>) -> LF<T> {
    f.taken.set(f.taken.get() + 1);
    f.live.set(f.live.get() + 1);
    if let Some(l) = l {
        if f.live.get() > l {
            w.fault("core", format!("{} futures in flight, limit {}", f.live.get(), l));
        }
        if f.yielded.get() != usize::MAX && f.taken.get() - f.yielded.get() > l {
            w.fault("core", format!("{} futures taken from the source but not yielded, limit {}", f.taken.get() - f.yielded.get(), l));
        }
    }
    LF(SFut::new(w, format!("f{}", k), p, out), f.clone())
}
fn b_setup(c: &mut Ch, w: &W, n: usize) -> (Src<i32>, Vec<i32>, Vec<usize>, Option<usize>, Rc<Fl>) {
    let (a, ia) = src_at(c, w, n, "a", 0);
    let p = pends(c, ia.len());
    w.note(format!("fut_pend={:?}", p));
    let l = lim(c, w);
    (a, ia, p, l, fl())
}
/// a window that is not full is refilled: every Pending leaves the source asked
fn b_buffered(c: &mut Ch, w: &W) {
    let (a, ia, p, l, f) = b_setup(c, w, 4);
    let ex: Vec<i32> = ia.iter().map(|x| x + 1000).collect();
    let (f2, f3, w2) = (f.clone(), f.clone(), w.clone());
    let (apend, adone) = (a.is_pending.clone(), a.done.clone());
    let s = a.map(move |k| lf(&w2, k, p[k as usize], k + 1000, &f2, l)).buffered(l);
    let mut s = Chk(s, move |r: &Poll<Option<i32>>, w: &W| {
        if let Poll::Ready(Some(_)) = r {
            f3.yielded.set(f3.yielded.get() + 1);
        }
        if r.is_pending() && !adone.get() && !apend.get() && l.map(|l| f3.taken.get() - f3.yielded.get() < l).unwrap_or(true) {
            w.fault("wake", "Pending although the source is ready and the buffer is not full");
        }
    }, w.clone());
    drive(w, c, Pin::new(&mut s), &ex, SOpts { term: None, size: true, again: true });
    if s.0.is_terminated() != true {
        w.fault("term", "not terminated after the end");
    }
    drop(s);
    if f.live.get() != 0 {
        w.fault("core", "a future was leaked");
    }
}
struct Chk<S, F>(S, F, W);
impl<S, F> Unpin for Chk<S, F> {}
impl<S: Stream + Unpin, F: FnMut(&Poll<Option<S::Item>>, &W)> Stream for Chk<S, F> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        let me = &mut *self;
        let r = Pin::new(&mut me.0).poll_next(cx);
        (me.1)(&r, &me.2);
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
fn b_unordered(c: &mut Ch, w: &W) {
    let (a, ia, p, l, f) = b_setup(c, w, 4);
    let ex: Vec<Vec<i32>> = ia.iter().map(|x| vec![x + 1000]).collect();
    let (f2, f3, w2) = (f.clone(), f.clone(), w.clone());
    let (apend, adone) = (a.is_pending.clone(), a.done.clone());
    let s = a.map(move |k| lf(&w2, k, p[k as usize], k + 1000, &f2, l)).buffer_unordered(l);
    let mut s = Chk(s, move |r: &Poll<Option<i32>>, w: &W| {
        if let Poll::Ready(Some(_)) = r {
            f3.yielded.set(f3.yielded.get() + 1);
        }
        if r.is_pending() && !adone.get() && !apend.get() && l.map(|l| f3.taken.get() - f3.yielded.get() < l).unwrap_or(true) {
            w.fault("wake", "Pending although the source is ready and the buffer is not full");
        }
    }, w.clone());
    drive_merge(w, c, Pin::new(&mut s), &ex, None, true);
    if s.0.is_terminated() != true {
        let (_f, wk) = new_waker();
        if let Poll::Ready(None) = s.0.poll_next_unpin(&mut Context::from_waker(&wk)) {
        } else {
            w.fault("term", "not terminated after the end, and not ended when polled again");
        }
    }
    drop(s);
    if f.live.get() != 0 {
        w.fault("core", "a future was leaked");
    }
}
fn tb(c: &mut Ch, w: &W, ordered: bool) {
    let (a, ia, p, l, f) = b_setup(c, w, 4);
    let kind: Vec<usize> = ia.iter().map(|_| c.pick(3)).collect(); // 0 ok, 1 future fails, 2 source error
    w.note(format!("kinds={:?}", kind));
    let mut ex: Vec<Vec<i32>> = vec![vec![], vec![]];
    for (k, x) in ia.iter().enumerate() {
        match kind[k] {
            2 => ex[0].push(-1 - x),
            kd => {
                let v = if kd == 1 { -1000 - x } else { 1000 + x };
                if ordered {
                    ex[1].push(v)
                } else {
                    ex.push(vec![v])
                }
            }
        }
    }
    f.yielded.set(usize::MAX);
    let (f2, w2) = (f.clone(), w.clone());
    let s = a.map(move |k| match kind[k as usize] {
        2 => Err(-1 - k),
        kd => Ok(lf(&w2, k, p[k as usize], if kd == 1 { Err(-1000 - k) } else { Ok(1000 + k) }, &f2, l)),
    });
    if ordered {
        drive_merge(w, c, s.try_buffered(l).map(|r| r.unwrap_or_else(|e| e)), &ex, None, true);
    } else {
        drive_merge(w, c, s.try_buffer_unordered(l).map(|r| r.unwrap_or_else(|e| e)), &ex, None, true);
    }
    if f.live.get() != 0 {
        w.fault("core", "a future was leaked");
    }
}
fn b_try_buffered(c: &mut Ch, w: &W) {
    tb(c, w, true)
}
fn b_try_unordered(c: &mut Ch, w: &W) {
    tb(c, w, false)
}
fn b_for_each_concurrent(c: &mut Ch, w: &W) {
    let (a, ia, p, l, f) = b_setup(c, w, 4);
    f.yielded.set(usize::MAX);
    let seen = Rc::new(RefCell::new(vec![]));
    let (f2, w2, s2) = (f.clone(), w.clone(), seen.clone());
    let fut = a.for_each_concurrent(l, move |k| {
        s2.borrow_mut().push(k);
        lf(&w2, k, p[k as usize], (), &f2, l)
    });
    let mut fut = Box::pin(fut);
    if drive_fut(w, c, fut.as_mut()).is_some() {
        if *seen.borrow() != ia {
            w.fault("core", format!("closure called with {:?}, items {:?}", seen.borrow(), ia));
        }
        if f.live.get() != 0 {
            w.fault("core", "completed although a future has not completed");
        }
        if !futures_core::FusedFuture::is_terminated(&*fut) {
            w.fault("term", "completed but not terminated");
        }
    }
}
fn b_try_for_each_concurrent(c: &mut Ch, w: &W) {
    let (a, ia, p, l, f) = b_setup(c, w, 4);
    let bad: Vec<bool> = table(c, ia.len());
    w.note(format!("fails={:?}", bad));
    f.yielded.set(usize::MAX);
    let seen = Rc::new(RefCell::new(vec![]));
    let errs = Rc::new(RefCell::new(vec![]));
    let (f2, w2, s2, b2, e2) = (f.clone(), w.clone(), seen.clone(), bad.clone(), errs.clone());
    let fut = a.try_for_each_concurrent(l, move |k| {
        s2.borrow_mut().push(k);
        let b = b2[k as usize];
        let fu = lf(&w2, k, p[k as usize], if b { Err(k) } else { Ok(()) }, &f2, l);
        e2.borrow_mut().push((b, fu.0.done.clone()));
        fu
    });
    let mut fut = Box::pin(fut);
    if let Some(r) = drive_fut(w, c, fut.as_mut()) {
        if seen.borrow()[..] != ia[..seen.borrow().len().min(ia.len())] {
            w.fault("core", format!("closure called with {:?}, items {:?}", seen.borrow(), ia));
        }
        if f.live.get() != 0 {
            w.fault("core", "a future is kept after completion");
        }
        let done_bad = errs.borrow().iter().any(|(b, d)| *b && d.get());
        match r {
            Ok(()) => {
                if *seen.borrow() != ia || done_bad {
                    w.fault("core", format!("completed with Ok after {:?}, failures seen: {}", seen.borrow(), done_bad));
                }
            }
            Err(e) => {
                if !bad.get(e as usize).cloned().unwrap_or(false) || !seen.borrow().contains(&e) {
                    w.fault("core", format!("error {} of no future", e));
                }
                if errs.borrow().iter().filter(|(b, d)| *b && d.get()).count() != 1 {
                    w.fault("core", "more than one failed future was driven to completion");
                }
            }
        }
        if !futures_core::FusedFuture::is_terminated(&*fut) {
            w.fault("term", "completed but not terminated");
        }
    }
}

pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        (
            "merge",
            vec![
                ("select", m_select as fn(&mut Ch, &W)),
                ("select_with_strategy", m_select_strategy),
                ("select_with_strategy_pref", m_select_strategy_pref),
                ("select_all", m_select_all),
                ("select_all_push", m_select_all_push),
                ("stream_select_macro", m_stream_select),
                ("flatten_unordered", m_flatten_unordered),
                ("flat_map_unordered", m_flat_map_unordered),
                ("try_flatten_unordered", m_try_flatten_unordered),
            ],
        ),
        (
            "unordered",
            vec![
                ("ops", u_unordered as fn(&mut Ch, &W)),
                ("drain", u_drain),
                ("self_wake", u_reentrant_wake),
                ("panic", u_panic),
                ("threads", u_threads),
            ],
        ),
        (
            "buffered",
            vec![
                ("futures_ordered", o_ordered as fn(&mut Ch, &W)),
                ("buffered", b_buffered),
                ("buffer_unordered", b_unordered),
                ("try_buffered", b_try_buffered),
                ("try_buffer_unordered", b_try_unordered),
                ("for_each_concurrent", b_for_each_concurrent),
                ("try_for_each_concurrent", b_try_for_each_concurrent),
            ],
        ),
    ]
}
