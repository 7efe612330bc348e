//! stream sources, adapters and consumers
use crate::core::*;
use futures_core::FusedStream;
use futures_util::future::FutureExt;
use futures_util::stream::{self, StreamExt};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

pub fn src(c: &mut Ch, w: &W, n: usize) -> (Src<i32>, Vec<i32>) {
    src_at(c, w, n, "a", 0)
}
pub fn src_at(c: &mut Ch, w: &W, n: usize, name: &str, base: i32) -> (Src<i32>, Vec<i32>) {
    let ev = script(c, n, base);
    let it = items(&ev);
    let h = c.pick(5) as u8;
    (Src::new(w, name, ev).hinted(h), it)
}
pub fn tt<S: FusedStream>() -> impl Fn(&S) -> bool {
    |s: &S| s.is_terminated()
}
pub fn go<S: FusedStream>(w: &W, c: &mut Ch, s: S, ex: &[S::Item])
where
    S::Item: PartialEq + std::fmt::Debug,
{
    drive(w, c, s, ex, SOpts { term: Some(&tt()), ..Default::default() });
}
pub fn go_nt<S: Stream>(w: &W, c: &mut Ch, s: S, ex: &[S::Item])
where
    S::Item: PartialEq + std::fmt::Debug,
{
    drive(w, c, s, ex, SOpts::default());
}
/// a closure table: truth value and pending count per argument
fn tab(c: &mut Ch, w: &W, n: usize) -> (Vec<bool>, Vec<usize>) {
    let t = table(c, n);
    let p = pends(c, n);
    w.note(format!("result={:?} fut_pend={:?}", t, p));
    (t, p)
}

// ---- element-wise
fn s_map(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 5);
    let mut k = 0;
    let ex: Vec<(i32, i32)> = it.iter().enumerate().map(|(i, x)| (*x, i as i32)).collect();
    let s = s.map(move |x| {
        k += 1;
        (x, k - 1)
    });
    go(w, c, s, &ex);
}
fn s_inspect(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 5);
    let seen = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    go(w, c, s.inspect(move |x| s2.borrow_mut().push(*x)), &it);
    if *seen.borrow() != it {
        w.fault("core", format!("inspect saw {:?}, items {:?}", seen.borrow(), it));
    }
}
fn s_enumerate(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 5);
    let ex: Vec<(usize, i32)> = it.iter().enumerate().map(|(i, x)| (i, *x)).collect();
    go(w, c, s.enumerate(), &ex);
}
fn s_filter(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let (t, p) = tab(c, w, it.len());
    let ex: Vec<i32> = it.iter().filter(|x| t[**x as usize]).cloned().collect();
    let w2 = w.clone();
    let s = s.filter(move |x| SFut::new(&w2, format!("f{}", x), p[*x as usize], t[*x as usize]));
    go(w, c, s, &ex);
}
fn s_filter_map(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let (t, p) = tab(c, w, it.len());
    let ex: Vec<i32> = it.iter().filter(|x| t[**x as usize]).map(|x| x + 100).collect();
    let w2 = w.clone();
    let s = s.filter_map(move |x| SFut::new(&w2, format!("f{}", x), p[x as usize], if t[x as usize] { Some(x + 100) } else { None }));
    go(w, c, s, &ex);
}
fn s_then(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let p = pends(c, it.len());
    w.note(format!("fut_pend={:?}", p));
    let ex: Vec<i32> = it.iter().map(|x| x + 100).collect();
    let w2 = w.clone();
    let s = s.then(move |x| SFut::new(&w2, format!("f{}", x), p[x as usize], x + 100));
    go(w, c, s, &ex);
}
fn s_scan(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let (t, p) = tab(c, w, it.len());
    let mut ex = vec![];
    let mut acc = 1;
    for x in &it {
        acc = acc * 3 + x;
        if !t[*x as usize] && *x % 2 == 1 {
            break;
        }
        ex.push((*x, acc));
    }
    let w2 = w.clone();
    let s = s.scan(1, move |st, x| {
        let st = st * 3 + x;
        let r = if !t[x as usize] && x % 2 == 1 { None } else { Some((st, (x, st))) };
        SFut::new(&w2, format!("f{}", x), p[x as usize], r)
    });
    go(w, c, s, &ex);
}
// ---- prefix / suffix
fn s_take(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 5);
    let n = c.pick(5);
    w.note(format!("take {}", n));
    let ex: Vec<i32> = it.iter().take(n).cloned().collect();
    let polled = s.polls.clone();
    let done = s.done.clone();
    let s = s.take(n);
    go(w, c, s, &ex);
    if n == 0 && polled.get() > 0 {
        w.fault("core", "take(0) polled the source");
    }
    if it.len() > n && done.get() {
        w.fault("core", "take consumed beyond its limit");
    }
}
fn s_skip(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 5);
    let n = c.pick(5);
    w.note(format!("skip {}", n));
    let ex: Vec<i32> = it.iter().skip(n).cloned().collect();
    go(w, c, s.skip(n), &ex);
}
fn s_take_while(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let (t, p) = tab(c, w, it.len());
    let ex: Vec<i32> = it.iter().take_while(|x| t[**x as usize]).cloned().collect();
    let w2 = w.clone();
    let s = s.take_while(move |x| SFut::new(&w2, format!("f{}", x), p[*x as usize], t[*x as usize]));
    go(w, c, s, &ex);
}
fn s_skip_while(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let (t, p) = tab(c, w, it.len());
    let ex: Vec<i32> = it.iter().skip_while(|x| t[**x as usize]).cloned().collect();
    let w2 = w.clone();
    let s = s.skip_while(move |x| SFut::new(&w2, format!("f{}", x), p[*x as usize], t[*x as usize]));
    go(w, c, s, &ex);
}
fn s_fuse(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 6);
    drive(w, c, s.fuse(), &it, SOpts { term: Some(&tt()), size: true, again: true });
}
fn s_take_until(c: &mut Ch, w: &W) {
    // the stop future takes precedence: after it is complete no further item comes
    let (s, it) = src(c, w, 5);
    let p = c.pick(3);
    let fut = SFut::new(w, "stop", p, 77);
    let stopped = fut.done.clone();
    let sdone = s.done.clone();
    w.note(format!("stop pends {}", p));
    let mut t = Box::pin(s.take_until(fut));
    let mut got = vec![];
    loop {
        let before = stopped.get();
        let term = t.is_terminated();
        let hint = t.size_hint();
        let r = run_poll(w, c, 200, |cx| {
            if t.is_terminated() && !stopped.get() && !sdone.get() {
                w.fault("term", "is_terminated before the stop future or the stream finished");
            }
            t.as_mut().poll_next(cx)
        });
        match r {
            Out::Stuck => return,
            Out::Val(Some(x)) => {
                if before {
                    w.fault("core", format!("item {} yielded after the stop future completed", x));
                    return;
                }
                if term {
                    w.fault("term", "item after is_terminated()");
                }
                if hint.1 == Some(0) {
                    w.fault("size", format!("size_hint {:?} but item {}", hint, x));
                }
                if stopped.get() {
                    w.fault("core", format!("item {} yielded though the stop future had completed in this poll", x));
                }
                got.push(x);
            }
            Out::Val(None) => {
                if !stopped.get() && !sdone.get() {
                    w.fault("core", "ended although neither the stop future nor the stream finished");
                }
                if hint.0 > 0 {
                    w.fault("size", format!("size_hint {:?} but the stream ended", hint));
                }
                break;
            }
        }
    }
    if got[..] != it[..got.len()] || (!stopped.get() && got.len() != it.len()) {
        w.fault("core", format!("take_until yielded {:?} of {:?}", got, it));
    }
    if stopped.get() {
        let out = t.as_mut().get_mut().take_result();
        if out != Some(77) {
            w.fault("core", format!("take_result {:?} after the stop future completed", out));
        }
        if !t.is_terminated() {
            w.fault("term", "not terminated although the stop future completed");
        }
    }
    if !t.is_terminated() {
        let (_f, wk) = new_waker();
        let mut cx = std::task::Context::from_waker(&wk);
        if !matches!(t.as_mut().poll_next(&mut cx), Poll::Ready(None)) {
            w.fault("term", "claims to be live after its end but does not answer None");
        }
    }
}
// ---- grouping
fn s_chunks(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 7);
    let n = 1 + c.pick(3);
    w.note(format!("chunks {}", n));
    let ex: Vec<Vec<i32>> = it.chunks(n).map(|x| x.to_vec()).collect();
    go(w, c, s.chunks(n), &ex);
}
fn ready_groups(ev: &[Ev<i32>], n: usize) -> Vec<Vec<i32>> {
    // a group is closed by reaching the capacity, by a Pending source, or by the end
    let mut out: Vec<Vec<i32>> = vec![];
    let mut cur = vec![];
    for e in ev {
        match e {
            Ev::Item(x) => {
                cur.push(*x);
                if cur.len() == n {
                    out.push(std::mem::take(&mut cur));
                }
            }
            Ev::Pend => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
            }
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn s_ready_chunks(c: &mut Ch, w: &W) {
    let ev = script(c, 7, 0);
    let h = c.pick(5) as u8;
    let n = 1 + c.pick(3);
    w.note(format!("ready_chunks {}", n));
    let ex = ready_groups(&ev, n);
    let s = Src::new(w, "a", ev).hinted(h);
    go(w, c, s.ready_chunks(n), &ex);
}
// ---- combining
fn s_chain(c: &mut Ch, w: &W) {
    let (a, mut ia) = src(c, w, 3);
    let (b, ib) = src_at(c, w, 3, "b", 50);
    ia.extend(ib);
    go(w, c, a.chain(b), &ia);
}
fn s_zip(c: &mut Ch, w: &W) {
    let (a, ia) = src(c, w, 3);
    let (b, ib) = src_at(c, w, 3, "b", 50);
    let ex: Vec<(i32, i32)> = ia.into_iter().zip(ib).collect();
    go(w, c, a.zip(b), &ex);
}
fn nested(c: &mut Ch, w: &W) -> (Src<usize>, Vec<Vec<Ev<i32>>>, Vec<i32>) {
    let k = c.pick(4);
    let mut ev = vec![];
    let mut subs = vec![];
    let mut ex = vec![];
    for i in 0..k {
        if c.flag() {
            ev.push(Ev::Pend);
        }
        ev.push(Ev::Item(i));
        let e = script(c, 2, 10 * (i as i32 + 1));
        ex.extend(items(&e));
        subs.push(e);
    }
    (Src::new(w, "outer", ev), subs, ex)
}
fn s_flatten(c: &mut Ch, w: &W) {
    let (o, subs, ex) = nested(c, w);
    let w2 = w.clone();
    let h = c.pick(5) as u8;
    let s = o.map(move |i| Src::new(&w2, "inner", subs[i].clone()).hinted(h)).flatten();
    go(w, c, s, &ex);
}
fn s_flat_map(c: &mut Ch, w: &W) {
    let (o, subs, ex) = nested(c, w);
    let w2 = w.clone();
    let h = c.pick(5) as u8;
    let s = o.flat_map(move |i| Src::new(&w2, "inner", subs[i].clone()).hinted(h));
    go(w, c, s, &ex);
}
#[derive(Clone)]
struct Cyc {
    w: W,
    ev: Vec<Ev<i32>>,
}
impl Cyc {
    fn mk(&self) -> CSrc {
        CSrc { me: self.clone(), s: Src::new(&self.w, "cyc", self.ev.clone()) }
    }
}
struct CSrc {
    me: Cyc,
    s: Src<i32>,
}
impl Clone for CSrc {
    fn clone(&self) -> Self {
        let mut n = self.me.mk();
        n.s.ev = self.s.ev.clone();
        n
    }
}
impl Stream for CSrc {
    type Item = i32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<i32>> {
        Pin::new(&mut self.s).poll_next(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.s.size_hint()
    }
}
fn s_cycle(c: &mut Ch, w: &W) {
    let mut ev = script(c, 4, 0);
    let it = items(&ev);
    if it.is_empty() {
        ev.clear();
    }
    let s = Cyc { w: w.clone(), ev }.mk().cycle();
    if it.is_empty() {
        let h = s.size_hint();
        if h.0 > 0 {
            w.fault("size", format!("size_hint {:?} of an empty cycle", h));
        }
        go_nt(w, c, s, &[]);
    } else {
        let ex: Vec<i32> = it.iter().cycle().take(it.len() * 3).cloned().collect();
        if s.is_terminated() {
            w.fault("term", "a cycle is never terminated");
        }
        let h = s.size_hint();
        if h.1.is_some() {
            w.fault("size", format!("size_hint {:?} of an endless cycle", h));
        }
        let got = drive_fut(w, c, s.take(it.len() * 3).collect::<Vec<_>>());
        if got.is_some() && got.as_ref() != Some(&ex) {
            w.fault("core", format!("cycle yields {:?}, expected {:?}", got, ex));
        }
    }
}
// ---- peekable: random operation sequence against a reference queue
fn s_peekable(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let mut s = Box::pin(s.peekable());
    let mut pos = 0;
    for _ in 0..4 {
        if pos == it.len() && s.is_terminated() {
            break;
        }
        let front = it.get(pos).cloned();
        if s.is_terminated() && front.is_some() {
            w.fault("term", "is_terminated with items left");
        }
        let h = s.size_hint();
        let left = it.len() - pos;
        if h.0 > left || h.1.map(|x| x < left).unwrap_or(false) {
            w.fault("size", format!("size_hint {:?} with {} left", h, left));
        }
        match c.pick(5) {
            0 => {
                w.note("peek");
                match run_poll(w, c, 50, |cx| s.as_mut().poll_peek(cx).map(|x| x.cloned())) {
                    Out::Stuck => return,
                    Out::Val(x) if x != front => w.fault("core", format!("peek {:?}, expected {:?}", x, front)),
                    _ => {}
                }
            }
            1 => {
                w.note("next");
                match run_poll(w, c, 50, |cx| s.as_mut().poll_next(cx)) {
                    Out::Stuck => return,
                    Out::Val(x) => {
                        if x != front {
                            w.fault("core", format!("next {:?}, expected {:?}", x, front))
                        }
                        if x.is_none() {
                            return;
                        }
                        pos += 1;
                    }
                }
            }
            2 => {
                let yes = c.flag();
                w.note(format!("next_if({})", yes));
                let r = {
                    let mut f = Box::pin(s.as_mut().next_if(move |_| yes));
                    run_poll(w, c, 50, |cx| f.as_mut().poll(cx))
                };
                let want = if yes { front } else { None };
                match r {
                    Out::Stuck => return,
                    Out::Val(x) => {
                        if x != want {
                            w.fault("core", format!("next_if {:?}, expected {:?}", x, want))
                        }
                        if x.is_some() {
                            pos += 1;
                        }
                    }
                }
            }
            3 => {
                let v = c.pick(3) as i32;
                w.note(format!("next_if_eq({})", v));
                let r = {
                    let mut f = Box::pin(s.as_mut().next_if_eq(&v));
                    run_poll(w, c, 50, |cx| f.as_mut().poll(cx))
                };
                let want = if front == Some(v) { front } else { None };
                match r {
                    Out::Stuck => return,
                    Out::Val(x) => {
                        if x != want {
                            w.fault("core", format!("next_if_eq {:?}, expected {:?}", x, want))
                        }
                        if x.is_some() {
                            pos += 1;
                        }
                    }
                }
            }
            _ => {
                w.note("peek_mut");
                match run_poll(w, c, 50, |cx| s.as_mut().poll_peek_mut(cx).map(|x| x.map(|x| *x))) {
                    Out::Stuck => return,
                    Out::Val(x) if x != front => w.fault("core", format!("peek_mut {:?}, expected {:?}", x, front)),
                    _ => {}
                }
            }
        }
    }
    let rest = drive_fut(w, c, s.as_mut().get_mut().fuse_collect());
    if let Some(r) = rest {
        if r != it[pos..] && !(pos == it.len() && r.is_empty()) {
            w.fault("core", format!("remaining {:?}, expected {:?}", r, &it[pos..]));
        }
    }
}
use std::future::Future;
trait FuseCollect: FusedStream + Unpin + Sized {
    /// collect what is left, honouring is_terminated
    fn fuse_collect(&mut self) -> Pin<Box<dyn Future<Output = Vec<Self::Item>> + '_>> {
        Box::pin(async move {
            let mut v = vec![];
            loop {
                if self.is_terminated() {
                    return v;
                }
                match self.next().await {
                    Some(x) => v.push(x),
                    None => return v,
                }
            }
        })
    }
}
impl<S: FusedStream + Unpin> FuseCollect for S {}

// ---- sources
fn s_once(c: &mut Ch, w: &W) {
    let p = c.pick(3);
    let f = SFut::new(w, "f", p, 5);
    go(w, c, stream::once(f), &[5]);
}
fn s_iter(c: &mut Ch, w: &W) {
    let n = c.pick(5) as i32;
    let v: Vec<i32> = (0..n).collect();
    go_nt(w, c, stream::iter(v.clone()), &v);
    go(w, c, stream::empty::<i32>(), &[]);
}
fn s_repeat(c: &mut Ch, w: &W) {
    let n = c.pick(5);
    let r = stream::repeat(7);
    if r.size_hint().1.is_some() || FusedStream::is_terminated(&r) {
        w.fault("size", "repeat is endless");
    }
    go_nt(w, c, r.take(n), &vec![7; n]);
    let mut k = 0;
    let rw = stream::repeat_with(move || {
        k += 1;
        k
    });
    if rw.size_hint().1.is_some() || FusedStream::is_terminated(&rw) {
        w.fault("size", "repeat_with is endless");
    }
    go_nt(w, c, rw.take(n), &(1..=n as i32).collect::<Vec<_>>());
}
fn s_unfold(c: &mut Ch, w: &W) {
    let n = c.pick(4) as i32;
    let p = pends(c, n as usize + 1);
    w.note(format!("unfold {} pends {:?}", n, p));
    let w2 = w.clone();
    let s = stream::unfold(0, move |st: i32| SFut::new(&w2, format!("u{}", st), p[st as usize], if st < n { Some((st * 2, st + 1)) } else { None }));
    go(w, c, s, &(0..n).map(|x| x * 2).collect::<Vec<_>>());
}
fn s_poll_fn(c: &mut Ch, w: &W) {
    let (mut s, it) = src(c, w, 4);
    go_nt(w, c, stream::poll_fn(move |cx| Pin::new(&mut s).poll_next(cx)), &it);
}
fn s_poll_immediate(c: &mut Ch, w: &W) {
    // every poll answers: Ready(item) or Pending as items, None exactly once the source ended
    let ev = script(c, 5, 0);
    let ex: Vec<Poll<i32>> = ev.iter().map(|e| match e { Ev::Item(x) => Poll::Ready(*x), Ev::Pend => Poll::Pending }).collect();
    let h = c.pick(5) as u8;
    let s = Src::new(w, "a", ev).hinted(h);
    let mut s = Box::pin(stream::poll_immediate(s));
    for (i, e) in ex.iter().enumerate() {
        let (_f, wk) = new_waker();
        let mut cx = std::task::Context::from_waker(&wk);
        let hint = s.size_hint();
        let left = ex.len() - i;
        if hint.0 > left || hint.1.map(|x| x < left).unwrap_or(false) {
            w.fault("size", format!("size_hint {:?} with {} items left (counting Pending items)", hint, left));
        }
        if s.is_terminated() {
            w.fault("term", "terminated with items left");
        }
        let r = s.as_mut().poll_next(&mut cx);
        if r != Poll::Ready(Some(*e)) {
            w.fault("core", format!("poll_immediate {:?}, expected {:?}", r, e));
        }
        w.fire_all();
    }
    let (_f, wk) = new_waker();
    let mut cx = std::task::Context::from_waker(&wk);
    for _ in 0..2 {
        let r = s.as_mut().poll_next(&mut cx);
        if r != Poll::Ready(None) {
            w.fault("core", format!("poll_immediate end {:?}", r));
        }
    }
    if !s.is_terminated() {
        w.fault("term", "not terminated after the end");
    }
}
// ---- consumers
fn s_collect(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 6);
    expect_fut(w, c, s.collect::<Vec<_>>(), it);
}
fn s_unzip(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 5);
    expect_fut(w, c, s.map(|x| (x, x + 10)).unzip::<i32, i32, Vec<i32>, Vec<i32>>(), (it.clone(), it.iter().map(|x| x + 10).collect()));
}
fn s_concat(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 5);
    expect_fut(w, c, s.map(|x| vec![x, -x]).concat(), it.iter().flat_map(|x| vec![*x, -*x]).collect::<Vec<_>>());
}
fn s_count(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 6);
    expect_fut(w, c, s.count(), it.len());
}
fn s_fold(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let p = pends(c, it.len());
    let w2 = w.clone();
    expect_fut(w, c, s.fold(1i64, move |a, x| SFut::new(&w2, format!("f{}", x), p[x as usize], a * 31 + x as i64)), it.iter().fold(1i64, |a, x| a * 31 + *x as i64));
}
fn s_any(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let (t, p) = tab(c, w, it.len());
    let want = it.iter().position(|x| t[*x as usize]);
    let calls = Rc::new(RefCell::new(0));
    let (c2, w2, t2) = (calls.clone(), w.clone(), t.clone());
    let f = s.any(move |x| {
        *c2.borrow_mut() += 1;
        SFut::new(&w2, format!("f{}", x), p[x as usize], t2[x as usize])
    });
    expect_fut(w, c, f, want.is_some());
    let n = want.map(|x| x + 1).unwrap_or(it.len());
    if *calls.borrow() != n && w.faults.borrow().is_empty() {
        w.fault("core", format!("any called its predicate {} times, expected {}", calls.borrow(), n));
    }
}
fn s_all(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let (t, p) = tab(c, w, it.len());
    let want = it.iter().position(|x| !t[*x as usize]);
    let calls = Rc::new(RefCell::new(0));
    let (c2, w2, t2) = (calls.clone(), w.clone(), t.clone());
    let f = s.all(move |x| {
        *c2.borrow_mut() += 1;
        SFut::new(&w2, format!("f{}", x), p[x as usize], t2[x as usize])
    });
    expect_fut(w, c, f, want.is_none());
    let n = want.map(|x| x + 1).unwrap_or(it.len());
    if *calls.borrow() != n && w.faults.borrow().is_empty() {
        w.fault("core", format!("all called its predicate {} times, expected {}", calls.borrow(), n));
    }
}
fn s_for_each(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let p = pends(c, it.len());
    let seen = Rc::new(RefCell::new(vec![]));
    let (s2, w2) = (seen.clone(), w.clone());
    let f = s.for_each(move |x| {
        s2.borrow_mut().push(x);
        SFut::new(&w2, format!("f{}", x), p[x as usize], ())
    });
    expect_fut(w, c, f, ());
    if *seen.borrow() != it && w.faults.borrow().is_empty() {
        w.fault("core", format!("for_each saw {:?}, expected {:?}", seen.borrow(), it));
    }
}
fn s_next(c: &mut Ch, w: &W) {
    let (mut s, it) = src(c, w, 5);
    for i in 0..=it.len() {
        match drive_fut(w, c, s.next()) {
            Some(x) if x == it.get(i).cloned() => {}
            Some(x) => w.fault("core", format!("next() = {:?}, expected {:?}", x, it.get(i))),
            None => return,
        }
    }
}
fn s_into_future(c: &mut Ch, w: &W) {
    let (mut s, it) = src(c, w, 5);
    for i in 0..=it.len() {
        match drive_fut(w, c, StreamExt::into_future(s)) {
            Some((x, s2)) => {
                if x != it.get(i).cloned() {
                    w.fault("core", format!("into_future = {:?}, expected {:?}", x, it.get(i)));
                }
                s = s2;
            }
            None => return,
        }
    }
}
fn s_select_next_some(c: &mut Ch, w: &W) {
    let (mut s, it) = src(c, w, 5);
    for x in &it {
        match drive_fut(w, c, s.select_next_some()) {
            Some(y) if y == *x => {}
            Some(y) => w.fault("core", format!("select_next_some {} expected {}", y, x)),
            None => return,
        }
    }
    let left = s.left();
    let mut f = s.select_next_some();
    // no item is left: it must never complete
    for _ in 0..3 {
        let (_f, wk) = new_waker();
        let mut cx = std::task::Context::from_waker(&wk);
        use futures_core::FusedFuture;
        if f.is_terminated() {
            break;
        }
        if f.poll_unpin(&mut cx).is_ready() {
            w.fault("core", format!("select_next_some completed with no item left ({})", left));
        }
        w.fire_all();
    }
}

/// a panic of the source is yielded once, as the last item
fn s_catch_unwind(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 4);
    let at = c.pick(it.len() + 2);
    w.note(format!("panic when asked for item {}", at));
    let n = std::cell::Cell::new(0usize);
    let mut s = Box::pin(std::panic::AssertUnwindSafe(s.map(move |x| {
        n.set(n.get() + 1);
        if n.get() > at {
            std::panic::panic_any(41i32);
        }
        x
    })).catch_unwind());
    let mut got = vec![];
    loop {
        let r = run_poll(w, c, 100, |cx| s.as_mut().poll_next(cx));
        match r {
            Out::Stuck => return,
            Out::Val(Some(Ok(x))) => got.push(x),
            Out::Val(Some(Err(e))) => {
                if got.len() != at || e.downcast_ref::<i32>() != Some(&41) {
                    w.fault("core", format!("a panic after {} items", got.len()));
                }
                if s.size_hint().0 > 0 {
                    w.fault("size", format!("size_hint() = {:?} after the panic", s.size_hint()));
                }
                let (_f, wk) = new_waker();
                if !matches!(s.as_mut().poll_next(&mut std::task::Context::from_waker(&wk)), Poll::Ready(None)) {
                    w.fault("core", "something after the panic");
                    w.fault("term", "the source is polled after it panicked");
                }
                break;
            }
            Out::Val(None) => {
                if at < it.len() {
                    w.fault("core", "the panic was swallowed");
                }
                break;
            }
        }
    }
    if got != it[..at.min(it.len())] {
        w.fault("core", format!("items {:?} of {:?}", got, it));
    }
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("elem", vec![("map", s_map as _), ("inspect", s_inspect as _), ("enumerate", s_enumerate as _), ("filter", s_filter as _), ("filter_map", s_filter_map as _), ("then", s_then as _), ("scan", s_scan as _)]),
        ("prefix", vec![("take", s_take as _), ("skip", s_skip as _), ("take_while", s_take_while as _), ("skip_while", s_skip_while as _), ("fuse", s_fuse as _), ("take_until", s_take_until as _)]),
        ("group", vec![("chunks", s_chunks as _), ("ready_chunks", s_ready_chunks as _)]),
        ("seqcomb", vec![("chain", s_chain as _), ("zip", s_zip as _), ("flatten", s_flatten as _), ("flat_map", s_flat_map as _), ("cycle", s_cycle as _)]),
        ("peek", vec![("peekable", s_peekable as _)]),
        ("source", vec![("once", s_once as _), ("iter", s_iter as _), ("repeat", s_repeat as _), ("unfold", s_unfold as _), ("poll_fn", s_poll_fn as _), ("poll_immediate", s_poll_immediate as _), ("catch_unwind", s_catch_unwind as _)]),
        ("consume", vec![("collect", s_collect as _), ("unzip", s_unzip as _), ("concat", s_concat as _), ("count", s_count as _), ("fold", s_fold as _), ("any", s_any as _), ("all", s_all as _), ("for_each", s_for_each as _), ("next", s_next as _), ("into_future", s_into_future as _), ("select_next_some", s_select_next_some as _)]),
    ]
}
