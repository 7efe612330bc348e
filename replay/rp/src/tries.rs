//! TryStream adapters and consumers
use crate::core::*;
use crate::streams::*;
use futures_util::stream::{self, StreamExt, TryStreamExt};
use std::cell::RefCell;
use std::rc::Rc;

pub type R = Result<i32, i32>;
pub fn rscript(c: &mut Ch, max: usize, base: i32) -> Vec<Ev<R>> {
    let max = if c.is_random() { max + 4 } else { max };
    let n = c.pick(max + 1);
    let mut v = vec![];
    let mut k = 0;
    for _ in 0..n {
        match c.pick(3) {
            1 => v.push(Ev::Pend),
            2 => {
                v.push(Ev::Item(Err(base + k)));
                k += 1;
            }
            _ => {
                v.push(Ev::Item(Ok(base + k)));
                k += 1;
            }
        }
    }
    v
}
pub fn rsrc(c: &mut Ch, w: &W, n: usize) -> (Src<R>, Vec<R>) {
    let ev = rscript(c, n, 0);
    let it = items(&ev);
    let h = c.pick(5) as u8;
    (Src::new(w, "a", ev).hinted(h), it)
}
/// per-argument results 0..n and pending counts
fn rtab(c: &mut Ch, w: &W, len: usize, n: usize) -> (Vec<usize>, Vec<usize>) {
    let t: Vec<usize> = (0..len).map(|_| c.pick(n)).collect();
    let p = pends(c, len);
    w.note(format!("result={:?} fut_pend={:?}", t, p));
    (t, p)
}
fn t_maps(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 5);
    match c.pick(6) {
        0 => {
            let ex: Vec<R> = it.iter().map(|r| r.map(|x| x + 100)).collect();
            go(w, c, s.map_ok(|x| x + 100), &ex)
        }
        1 => {
            let ex: Vec<R> = it.iter().map(|r| r.map_err(|x| x + 100)).collect();
            go(w, c, s.map_err(|x| x + 100), &ex)
        }
        2 => {
            let ex: Vec<Result<i32, i64>> = it.iter().map(|r| r.map_err(|x| x as i64)).collect();
            go(w, c, s.err_into::<i64>(), &ex)
        }
        3 => {
            let seen = Rc::new(RefCell::new(vec![]));
            let s2 = seen.clone();
            go(w, c, s.inspect_ok(move |x| s2.borrow_mut().push(*x)), &it);
            let want: Vec<i32> = it.iter().filter_map(|r| r.ok()).collect();
            if *seen.borrow() != want {
                w.fault("core", format!("inspect_ok saw {:?}", seen.borrow()));
            }
        }
        4 => {
            let seen = Rc::new(RefCell::new(vec![]));
            let s2 = seen.clone();
            go(w, c, s.inspect_err(move |x| s2.borrow_mut().push(*x)), &it);
            let want: Vec<i32> = it.iter().filter_map(|r| r.err()).collect();
            if *seen.borrow() != want {
                w.fault("core", format!("inspect_err saw {:?}", seen.borrow()));
            }
        }
        _ => go(w, c, s.into_stream(), &it),
    }
}
fn t_and_then(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 4);
    let (t, p) = rtab(c, w, it.len(), 2);
    let f = move |x: i32| if t[x as usize] == 0 { Ok(x + 100) } else { Err(x + 200) };
    let ex: Vec<R> = it.iter().map(|r| r.and_then(&f)).collect();
    let w2 = w.clone();
    go(w, c, s.and_then(move |x| SFut::new(&w2, format!("f{}", x), p[x as usize], f(x))), &ex);
}
fn t_or_else(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 4);
    let (t, p) = rtab(c, w, it.len(), 2);
    let f = move |x: i32| if t[x as usize] == 0 { Ok(x + 100) } else { Err(x + 200) };
    let ex: Vec<R> = it.iter().map(|r| r.or_else(&f)).collect();
    let w2 = w.clone();
    go(w, c, s.or_else(move |x| SFut::new(&w2, format!("f{}", x), p[x as usize], f(x))), &ex);
}
fn t_filter(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 4);
    let (t, p) = rtab(c, w, it.len(), 2);
    let ex: Vec<R> = it.iter().filter(|r| match r { Ok(x) => t[*x as usize] == 0, Err(_) => true }).cloned().collect();
    let w2 = w.clone();
    go(w, c, s.try_filter(move |x| SFut::new(&w2, format!("f{}", x), p[*x as usize], t[*x as usize] == 0)), &ex);
}
fn t_filter_map(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 4);
    let (t, p) = rtab(c, w, it.len(), 3);
    let f = move |x: i32| match t[x as usize] { 0 => Ok(Some(x + 100)), 1 => Ok(None), _ => Err(x + 200) };
    let ex: Vec<R> = it.iter().filter_map(|r| match r.and_then(&f) { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) }).collect();
    // Ok(None) of the source's own type cannot occur; errors pass through
    let w2 = w.clone();
    go(w, c, s.try_filter_map(move |x| SFut::new(&w2, format!("f{}", x), p[x as usize], f(x))), &ex);
}
fn t_take_while(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 4);
    let (t, p) = rtab(c, w, it.len(), 3);
    let f = move |x: i32| match t[x as usize] { 0 => Ok(true), 1 => Ok(false), _ => Err(x + 200) };
    let mut ex: Vec<R> = vec![];
    for r in &it {
        match r {
            Ok(x) => match f(*x) {
                Ok(true) => ex.push(*r),
                Ok(false) => break,
                Err(e) => ex.push(Err(e)),
            },
            Err(_) => ex.push(*r),
        }
    }
    let w2 = w.clone();
    go(w, c, s.try_take_while(move |x| SFut::new(&w2, format!("f{}", x), p[*x as usize], f(*x))), &ex);
}
fn t_skip_while(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 4);
    let (t, p) = rtab(c, w, it.len(), 3);
    let f = move |x: i32| match t[x as usize] { 0 => Ok(true), 1 => Ok(false), _ => Err(x + 200) };
    let mut ex: Vec<R> = vec![];
    let mut skipping = true;
    for r in &it {
        match r {
            Ok(x) if skipping => match f(*x) {
                Ok(true) => {}
                Ok(false) => {
                    skipping = false;
                    ex.push(*r)
                }
                Err(e) => ex.push(Err(e)),
            },
            _ => ex.push(*r),
        }
    }
    let w2 = w.clone();
    go(w, c, s.try_skip_while(move |x| SFut::new(&w2, format!("f{}", x), p[*x as usize], f(*x))), &ex);
}
fn t_next(c: &mut Ch, w: &W) {
    let (mut s, it) = rsrc(c, w, 5);
    for i in 0..=it.len() {
        let want = match it.get(i) { None => Ok(None), Some(Ok(x)) => Ok(Some(*x)), Some(Err(e)) => Err(*e) };
        match drive_fut(w, c, s.try_next()) {
            Some(r) if r == want => {}
            Some(r) => w.fault("core", format!("try_next {:?}, expected {:?}", r, want)),
            None => return,
        }
    }
}
fn short(it: &[R]) -> Result<Vec<i32>, i32> {
    it.iter().cloned().collect()
}
fn t_collect(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 6);
    expect_fut(w, c, s.try_collect::<Vec<_>>(), short(&it));
}
fn t_concat(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 5);
    expect_fut(w, c, s.map_ok(|x| vec![x, -x]).try_concat(), short(&it).map(|v| v.iter().flat_map(|x| vec![*x, -*x]).collect::<Vec<_>>()));
}
fn t_fold(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 4);
    let (t, p) = rtab(c, w, it.len(), 2);
    let f = move |a: i64, x: i32| if t[x as usize] == 0 { Ok(a * 31 + x as i64) } else { Err(x + 200) };
    let mut want = Ok(1i64);
    for r in &it {
        want = match r { Ok(x) => f(want.unwrap(), *x), Err(e) => Err(*e) };
        if want.is_err() {
            break;
        }
    }
    let w2 = w.clone();
    expect_fut(w, c, s.try_fold2(move |a, x| SFut::new(&w2, format!("f{}", x), p[x as usize], f(a, x))), want);
}
trait TF: Stream<Item = R> + Sized {
    fn try_fold2<Fut, F>(self, f: F) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<i64, i32>>>>
    where
        F: FnMut(i64, i32) -> Fut + 'static,
        Fut: std::future::Future<Output = Result<i64, i32>> + 'static,
        Self: 'static,
    {
        let mut f = f;
        // StreamExt::try_fold passes the item itself
        Box::pin(StreamExt::try_fold(self, 1i64, move |a, x: R| {
            let y = match x {
                Ok(y) => Ok(f(a, y)),
                Err(e) => Err(e),
            };
            async move {
                match y {
                    Ok(g) => g.await,
                    Err(e) => Err(e),
                }
            }
        }))
    }
}
impl<S: Stream<Item = R>> TF for S {}
fn t_try_fold_plain(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 5);
    let (t, p) = rtab(c, w, it.len(), 2);
    let f = move |a: i64, x: i32| if t[x as usize] == 0 { Ok(a * 31 + x as i64) } else { Err(x + 200) };
    let mut want: Result<i64, i32> = Ok(1i64);
    for x in &it {
        want = f(want.unwrap(), *x);
        if want.is_err() {
            break;
        }
    }
    let w2 = w.clone();
    expect_fut(w, c, s.try_fold(1i64, move |a, x| SFut::new(&w2, format!("f{}", x), p[x as usize], f(a, x))), want);
}
fn t_try_for_each(c: &mut Ch, w: &W) {
    let (s, it) = src(c, w, 5);
    let (t, p) = rtab(c, w, it.len(), 2);
    let bad = it.iter().position(|x| t[*x as usize] == 1);
    let seen = Rc::new(RefCell::new(vec![]));
    let (s2, w2) = (seen.clone(), w.clone());
    let fut = s.try_for_each(move |x| {
        s2.borrow_mut().push(x);
        SFut::new(&w2, format!("f{}", x), p[x as usize], if t[x as usize] == 1 { Err(x + 200) } else { Ok(()) })
    });
    expect_fut(w, c, fut, match bad { Some(i) => Err(it[i] + 200), None => Ok(()) });
    let n = bad.map(|x| x + 1).unwrap_or(it.len());
    if w.faults.borrow().is_empty() && *seen.borrow() != it[..n] {
        w.fault("core", format!("try_for_each saw {:?}", seen.borrow()));
    }
}
fn t_any_all(c: &mut Ch, w: &W) {
    let (s, it) = rsrc(c, w, 4);
    let (t, p) = rtab(c, w, it.len(), 2);
    let any = c.flag();
    let mut want = Ok(!any);
    for r in &it {
        match r {
            Err(e) => {
                want = Err(*e);
                break;
            }
            Ok(x) => {
                if (t[*x as usize] == 0) == any {
                    want = Ok(any);
                    break;
                }
            }
        }
    }
    let w2 = w.clone();
    let f = move |x: i32| SFut::new(&w2, format!("f{}", x), p[x as usize], t[x as usize] == 0);
    if any {
        expect_fut(w, c, s.try_any(f), want);
    } else {
        expect_fut(w, c, s.try_all(f), want);
    }
}
fn t_chunks(c: &mut Ch, w: &W) {
    // on an error the elements gathered so far come with it
    let ev = rscript(c, 6, 0);
    let h = c.pick(5) as u8;
    let n = 1 + c.pick(3);
    let ready = c.flag();
    w.note(format!("chunks {} ready={}", n, ready));
    let mut ex: Vec<Result<Vec<i32>, (Vec<i32>, i32)>> = vec![];
    let mut cur = vec![];
    for e in &ev {
        match e {
            Ev::Item(Ok(x)) => {
                cur.push(*x);
                if cur.len() == n {
                    ex.push(Ok(std::mem::take(&mut cur)));
                }
            }
            Ev::Item(Err(e)) => ex.push(Err((std::mem::take(&mut cur), *e))),
            Ev::Pend => {
                if ready && !cur.is_empty() {
                    ex.push(Ok(std::mem::take(&mut cur)));
                }
            }
        }
    }
    if !cur.is_empty() {
        ex.push(Ok(cur));
    }
    let s = Src::new(w, "a", ev).hinted(h);
    if ready {
        let s = s.try_ready_chunks(n);
        let s2 = TermMap(Box::pin(s), |r: Result<Vec<i32>, stream::TryReadyChunksError<i32, i32>>| r.map_err(|e| (e.0, e.1)));
        go(w, c, s2, &ex);
    } else {
        let s = s.try_chunks(n);
        let s2 = TermMap(Box::pin(s), |r: Result<Vec<i32>, stream::TryChunksError<i32, i32>>| r.map_err(|e| (e.0, e.1)));
        go(w, c, s2, &ex);
    }
}
/// item-wise conversion that forwards everything else (written here, not taken from the code under test)
struct TermMap<S, F>(std::pin::Pin<Box<S>>, F);
impl<S, F> Unpin for TermMap<S, F> {}
impl<S: Stream, T, F: FnMut(S::Item) -> T> Stream for TermMap<S, F> {
    type Item = T;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<T>> {
        match self.0.as_mut().poll_next(cx) {
            std::task::Poll::Ready(Some(x)) => {
                let y = (self.1)(x);
                std::task::Poll::Ready(Some(y))
            }
            std::task::Poll::Ready(None) => std::task::Poll::Ready(None),
            std::task::Poll::Pending => std::task::Poll::Pending,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<S: futures_core::FusedStream, T, F: FnMut(S::Item) -> T> futures_core::FusedStream for TermMap<S, F> {
    fn is_terminated(&self) -> bool {
        self.0.is_terminated()
    }
}
fn t_flatten(c: &mut Ch, w: &W) {
    let k = c.pick(4);
    let mut ev = vec![];
    let mut subs = vec![];
    let mut ex: Vec<R> = vec![];
    for i in 0..k {
        match c.pick(3) {
            1 => ev.push(Ev::Pend),
            2 => {
                ev.push(Ev::Item(Err(i as i32)));
                subs.push(vec![]);
                ex.push(Err(i as i32));
                continue;
            }
            _ => {}
        }
        ev.push(Ev::Item(Ok(i)));
        let e = rscript(c, 2, 10 * (i as i32 + 1));
        ex.extend(items(&e));
        subs.push(e);
    }
    let w2 = w.clone();
    let h = c.pick(5) as u8;
    let o: Src<Result<usize, i32>> = Src::new(w, "outer", ev);
    let s = o.map_ok(move |i| Src::new(&w2, "inner", subs[i].clone()).hinted(h)).try_flatten();
    go(w, c, s, &ex);
}
fn t_unfold(c: &mut Ch, w: &W) {
    // after an error the stream is over
    let n = c.pick(4) as i32;
    let p = pends(c, n as usize + 1);
    let err = c.pick(n as usize + 2) as i32;
    w.note(format!("try_unfold {} err at {} pends {:?}", n, err, p));
    let mut ex: Vec<R> = vec![];
    for i in 0..=n {
        if i == err {
            ex.push(Err(i));
            break;
        }
        if i < n {
            ex.push(Ok(i * 2));
        }
    }
    let w2 = w.clone();
    let s = stream::try_unfold(0, move |st: i32| {
        SFut::new(&w2, format!("u{}", st), p[st as usize], if st == err { Err(st) } else if st < n { Ok(Some((st * 2, st + 1))) } else { Ok(None) })
    });
    go_nt(w, c, s, &ex);
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("trystream", vec![("maps", t_maps as _), ("and_then", t_and_then as _), ("or_else", t_or_else as _), ("try_filter", t_filter as _), ("try_filter_map", t_filter_map as _), ("try_take_while", t_take_while as _), ("try_skip_while", t_skip_while as _), ("try_flatten", t_flatten as _), ("try_unfold", t_unfold as _)]),
        ("trygroup", vec![("try_chunks", t_chunks as _)]),
        ("tryconsume", vec![("try_next", t_next as _), ("try_collect", t_collect as _), ("try_concat", t_concat as _), ("try_fold", t_try_fold_plain as _), ("try_fold_r", t_fold as _), ("try_for_each", t_try_for_each as _), ("try_any_all", t_any_all as _)]),
    ]
}
