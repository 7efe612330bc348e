//! future combinators, joins and selects
use crate::core::*;
use futures_core::{FusedFuture, FusedStream};
use futures_util::future::{self, Either, FutureExt, MaybeDone, TryFutureExt, TryMaybeDone};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type R = Result<i32, i32>;

fn fut(c: &mut Ch, w: &W, name: &str, out: i32) -> SFut<i32> {
    let p = c.pick(3);
    w.note(format!("{} pends {}", name, p));
    SFut::new(w, name, p, out)
}
fn rfut(c: &mut Ch, w: &W, name: &str, out: i32) -> (SFut<R>, R) {
    let p = c.pick(3);
    let r = if c.flag() { Err(out) } else { Ok(out) };
    w.note(format!("{} pends {} -> {:?}", name, p, r));
    (SFut::new(w, name, p, r), r)
}
/// drive, checking is_terminated before and after
fn expect_fused<F: FusedFuture>(w: &W, c: &mut Ch, f: F, want: F::Output)
where
    F::Output: PartialEq + std::fmt::Debug,
{
    let mut f = Box::pin(f);
    let r = run_poll(w, c, 100, |cx| {
        if f.is_terminated() {
            w.fault("term", "is_terminated() before completion");
        }
        f.as_mut().poll(cx)
    });
    if let Out::Val(x) = r {
        if x != want {
            w.fault("core", format!("completed with {:?}, expected {:?}", x, want));
        }
        if !f.is_terminated() {
            w.fault("term", "is_terminated() is false after completion");
        }
    }
}
fn f_map(c: &mut Ch, w: &W) {
    let f = fut(c, w, "f", 5);
    let calls = Rc::new(Cell::new(0));
    let k = calls.clone();
    match c.pick(5) {
        0 => expect_fused(w, c, f.map(move |x| { k.set(k.get() + 1); x + 1 }), 6),
        1 => expect_fused(w, c, f.inspect(move |x| { assert_eq!(*x, 5); k.set(k.get() + 1) }), 5),
        2 => { k.set(1); expect_fused(w, c, f.map_into::<i64>(), 5i64) }
        3 => { k.set(1); expect_fused(w, c, f.unit_error(), Ok(5)) }
        _ => { k.set(1); expect_fused(w, c, f.never_error(), Ok(5)) }
    }
    if calls.get() != 1 && w.faults.borrow().is_empty() {
        w.fault("core", format!("closure called {} times", calls.get()));
    }
}
fn f_then(c: &mut Ch, w: &W) {
    let f = fut(c, w, "f", 5);
    let p = c.pick(3);
    w.note(format!("g pends {}", p));
    let w2 = w.clone();
    if c.flag() {
        expect_fused(w, c, f.then(move |x| SFut::new(&w2, "g", p, x * 10)), 50);
    } else {
        expect_fused(w, c, f.map(move |x| SFut::new(&w2, "g", p, x * 10)).flatten(), 50);
    }
}
fn f_flatten_stream(c: &mut Ch, w: &W) {
    let f = fut(c, w, "f", 5);
    let ev = script(c, 3, 0);
    let it = items(&ev);
    let w2 = w.clone();
    let s = f.map(move |_| Src::new(&w2, "s", ev.clone())).flatten_stream();
    drive(w, c, s, &it, SOpts { term: Some(&|s| s.is_terminated()), ..Default::default() });
}
fn f_into_stream(c: &mut Ch, w: &W) {
    let f = fut(c, w, "f", 5);
    drive(w, c, f.into_stream(), &[5], SOpts { term: Some(&|s| s.is_terminated()), ..Default::default() });
}
fn f_fuse(c: &mut Ch, w: &W) {
    let f = fut(c, w, "f", 5);
    let mut f = Box::pin(f.fuse());
    if let Out::Val(x) = run_poll(w, c, 100, |cx| {
        if f.is_terminated() {
            w.fault("term", "terminated early");
        }
        f.as_mut().poll(cx)
    }) {
        if x != 5 {
            w.fault("core", format!("fuse gave {}", x));
        }
        if !f.is_terminated() {
            w.fault("term", "fuse not terminated after completion");
        }
        let (_a, wk) = new_waker();
        if f.as_mut().poll(&mut Context::from_waker(&wk)).is_ready() {
            w.fault("core", "fuse completed twice");
        }
    }
    let t: future::Fuse<SFut<i32>> = future::Fuse::terminated();
    if !t.is_terminated() {
        w.fault("term", "Fuse::terminated() is not terminated");
    }
}
fn f_try_maps(c: &mut Ch, w: &W) {
    let (f, r) = rfut(c, w, "f", 5);
    match c.pick(9) {
        0 => expect_fused(w, c, f.map_ok(|x| x + 1), r.map(|x| x + 1)),
        1 => expect_fused(w, c, f.map_err(|x| x + 1), r.map_err(|x| x + 1)),
        2 => expect_fused(w, c, f.map_ok_or_else(|e| e * 100, |x| x + 1), r.map_or_else(|e| e * 100, |x| x + 1)),
        3 => expect_fused(w, c, f.unwrap_or_else(|e| e * 100), r.unwrap_or_else(|e| e * 100)),
        4 => expect_fused(w, c, f.err_into::<i64>(), r.map_err(|x| x as i64)),
        5 => expect_fused(w, c, f.ok_into::<i64>(), r.map(|x| x as i64)),
        6 => {
            let n = Rc::new(Cell::new(0));
            let k = n.clone();
            expect_fused(w, c, f.inspect_ok(move |_| k.set(k.get() + 1)), r);
            if n.get() != r.is_ok() as i32 && w.faults.borrow().is_empty() {
                w.fault("core", "inspect_ok call count");
            }
        }
        7 => {
            let n = Rc::new(Cell::new(0));
            let k = n.clone();
            expect_fused(w, c, f.inspect_err(move |_| k.set(k.get() + 1)), r);
            if n.get() != r.is_err() as i32 && w.faults.borrow().is_empty() {
                w.fault("core", "inspect_err call count");
            }
        }
        _ => expect_fut(w, c, TryFutureExt::into_future(f), r),
    }
}
fn f_and_then(c: &mut Ch, w: &W) {
    let (f, r) = rfut(c, w, "f", 5);
    let p = c.pick(3);
    let ok = c.flag();
    let g = move |x: i32| if ok { Ok(x * 10) } else { Err(x * 20) };
    let w2 = w.clone();
    match c.pick(3) {
        0 => expect_fused(w, c, f.and_then(move |x| SFut::new(&w2, "g", p, g(x))), r.and_then(g)),
        1 => expect_fused(w, c, f.or_else(move |x| SFut::new(&w2, "g", p, g(x))), r.or_else(g)),
        _ => expect_fused(w, c, f.map_ok(move |x| SFut::new(&w2, "g", p, g(x))).try_flatten(), r.and_then(g)),
    }
}
fn f_try_flatten_stream(c: &mut Ch, w: &W) {
    let (f, r) = rfut(c, w, "f", 5);
    let ev: Vec<Ev<R>> = crate::tries::rscript(c, 3, 0);
    let it = match r { Ok(_) => items(&ev), Err(e) => vec![Err(e)] };
    let w2 = w.clone();
    let s = f.map_ok(move |_| Src::new(&w2, "s", ev.clone())).try_flatten_stream();
    drive(w, c, s, &it, SOpts { term: Some(&|s| s.is_terminated()), ..Default::default() });
}
fn f_misc(c: &mut Ch, w: &W) {
    match c.pick(8) {
        0 => {
            let some = c.flag();
            let f = fut(c, w, "f", 5);
            let o: future::OptionFuture<_> = if some { Some(f) } else { None }.into();
            if some {
                expect_fused(w, c, o, Some(5));
            } else {
                expect_fut(w, c, o, None);
            }
        }
        1 => {
            let mut n = 0;
            expect_fused(w, c, future::lazy(move |_| { n += 1; n }), 1);
        }
        2 => {
            let f = fut(c, w, "f", 5);
            let mut f = Box::pin(f);
            expect_fut(w, c, future::poll_fn(move |cx| f.as_mut().poll(cx)), 5);
        }
        3 => {
            let l = c.flag();
            let f = fut(c, w, "f", 5);
            let g = fut(c, w, "g", 6);
            let e = if l { f.left_future() } else { g.right_future() };
            expect_fused(w, c, e, if l { 5 } else { 6 });
        }
        4 => {
            let p = c.pick(3);
            let f = SFut::new(w, "f", p, 5);
            let r = f.now_or_never();
            if r != (if p == 0 { Some(5) } else { None }) {
                w.fault("core", format!("now_or_never {:?} with {} pends", r, p));
            }
        }
        5 => {
            let p = c.pick(3);
            let f = SFut::new(w, "f", p, 5);
            let mut pi = Box::pin(future::poll_immediate(f));
            for i in 0..=p {
                let (_f, wk) = new_waker();
                if FusedFuture::is_terminated(&*pi) {
                    w.fault("term", "poll_immediate terminated early");
                }
                let r = Future::poll(pi.as_mut(), &mut Context::from_waker(&wk));
                let want = if i == p { Some(5) } else { None };
                if r != Poll::Ready(want) {
                    w.fault("core", format!("poll_immediate {:?}, expected {:?}", r, want));
                }
                w.fire_all();
            }
            if !FusedFuture::is_terminated(&*pi) {
                w.fault("term", "poll_immediate not terminated after completion");
            }
        }
        6 => {
            expect_fused(w, c, future::ready(4), 4);
            expect_fused(w, c, future::ok::<i32, i32>(4), Ok(4));
            let mut a = future::always_ready(|| 3);
            for _ in 0..3 {
                let (_f, wk) = new_waker();
                if a.is_terminated() {
                    w.fault("term", "always_ready() never terminates");
                }
                if Pin::new(&mut a).poll(&mut Context::from_waker(&wk)) != Poll::Ready(3) {
                    w.fault("core", "always_ready() is always ready");
                }
            }
            let p = future::pending::<i32>();
            if !p.is_terminated() {
                w.fault("term", "pending() must be terminated");
            }
        }
        _ => {
            // maybe_done keeps its output until taken
            let f = fut(c, w, "f", 5);
            let mut m = Box::pin(future::maybe_done(f));
            if m.as_mut().take_output().is_some() {
                w.fault("core", "output before completion");
            }
            expect_ref(w, c, m.as_mut());
            if m.as_mut().output_mut().map(|x| *x) != Some(5) {
                w.fault("core", "maybe_done lost its output");
            }
            if !m.is_terminated() {
                w.fault("term", "maybe_done not terminated");
            }
            let o = m.as_mut().take_output();
            if o != Some(5) || m.as_mut().take_output().is_some() {
                w.fault("core", "take_output");
            }
            if !matches!(*m, MaybeDone::Gone) {
                w.fault("core", "not Gone after take_output");
            }
        }
    }
}
fn expect_ref<F: Future>(w: &W, c: &mut Ch, mut f: Pin<&mut F>) {
    let _ = run_poll(w, c, 100, |cx| f.as_mut().poll(cx));
}
fn f_try_maybe_done(c: &mut Ch, w: &W) {
    let (f, r) = rfut(c, w, "f", 5);
    let mut m = Box::pin(future::try_maybe_done(f));
    match run_poll(w, c, 100, |cx| m.as_mut().poll(cx)) {
        Out::Stuck => return,
        Out::Val(x) => {
            if x != r.map(|_| ()) {
                w.fault("core", format!("try_maybe_done {:?}, expected {:?}", x, r));
            }
        }
    }
    match r {
        Ok(v) => {
            if m.as_mut().take_output() != Some(v) {
                w.fault("core", "try_maybe_done lost its output");
            }
        }
        Err(_) => {
            if !matches!(*m, TryMaybeDone::Gone) {
                w.fault("core", "not Gone after an error");
            }
        }
    }
    if !m.is_terminated() {
        w.fault("term", "try_maybe_done not terminated");
    }
}

// ---- joins
fn all_dropped_or_done(w: &W, fs: &[(Rc<Cell<bool>>, Rc<Cell<usize>>)]) {
    for (i, (d, p)) in fs.iter().enumerate() {
        if !d.get() && p.get() == 0 {
            w.fault("core", format!("child {} was never polled", i));
        }
    }
}
/// after Pending every incomplete child must hold the current waker
fn armed(w: &W, cx: &Context<'_>, kids: &[(usize, Rc<Cell<bool>>)]) {
    for (i, (id, done)) in kids.iter().enumerate() {
        if !done.get() && !w.registered_with(*id, cx.waker()) {
            w.fault("wake", format!("Pending although child {} does not hold the current waker", i));
        }
    }
}
fn kid<T>(f: &SFut<T>) -> (usize, Rc<Cell<bool>>) {
    (f.id, f.done.clone())
}
fn expect_armed<F: Future>(w: &W, c: &mut Ch, f: F, kids: Vec<(usize, Rc<Cell<bool>>)>) -> Option<F::Output> {
    let mut f = Box::pin(f);
    match run_poll(w, c, 400, |cx| {
        let r = f.as_mut().poll(cx);
        if r.is_pending() {
            if kids.iter().all(|k| k.1.get()) {
                w.fault("core", "Pending although every child completed");
            }
            armed(w, cx, &kids);
        }
        r
    }) {
        Out::Val(x) => Some(x),
        Out::Stuck => None,
    }
}
fn j_join(c: &mut Ch, w: &W) {
    let a = fut(c, w, "a", 1);
    let b = fut(c, w, "b", 2);
    if c.flag() {
        let kids = vec![kid(&a), kid(&b)];
        if let Some(x) = expect_armed(w, c, future::join(a, b), kids) {
            if x != (1, 2) {
                w.fault("core", format!("join {:?}", x));
            }
        }
    } else {
        expect_fused(w, c, future::join(a, b), (1, 2));
    }
}
fn j_join_all(c: &mut Ch, w: &W) {
    let n = if c.is_random() { c.pick(45) } else { c.pick(5) };
    let fs: Vec<SFut<usize>> = (0..n)
        .map(|i| {
            let p = c.pick(3);
            SFut::new(w, format!("f{}", i), p, i * 10)
        })
        .collect();
    let obs: Vec<_> = fs.iter().map(|f| (f.dropped.clone(), f.polls.clone())).collect();
    let kids: Vec<_> = fs.iter().map(kid).collect();
    if n <= 30 && c.flag() {
        if let Some(v) = expect_armed(w, c, future::join_all(fs), kids) {
            if v != (0..n).map(|i| i * 10).collect::<Vec<_>>() {
                w.fault("core", format!("join_all {:?}", v));
            }
        }
        return;
    }
    let f = future::join_all(fs);
    let mut f = Box::pin(f);
    // concurrency: the first poll reaches every child
    if n > 0 {
        let (_fl, wk) = new_waker();
        let r = f.as_mut().poll(&mut Context::from_waker(&wk));
        all_dropped_or_done(w, &obs);
        if let Poll::Ready(v) = r {
            if v != (0..n).map(|i| i * 10).collect::<Vec<_>>() {
                w.fault("core", format!("join_all {:?}", v));
            }
            return;
        }
    }
    if let Out::Val(v) = run_poll(w, c, 400, |cx| f.as_mut().poll(cx)) {
        if v != (0..n).map(|i| i * 10).collect::<Vec<_>>() {
            w.fault("core", format!("join_all {:?} for {} futures", v, n));
        }
    }
}
/// which errors are acceptable for a try-join: any child that failed; a value only if none failed
fn j_try_join(c: &mut Ch, w: &W) {
    let (a, ra) = rfut(c, w, "a", 1);
    let (b, rb) = rfut(c, w, "b", 2);
    let (ad, bd) = (a.done.clone(), b.done.clone());
    let check = |w: &W, ok: bool, err: Option<i32>, rs: &[R], done: &[&Rc<Cell<bool>>]| {
        if ok && rs.iter().any(|r| r.is_err()) {
            w.fault("core", "Ok although a child failed");
        }
        if let Some(e) = err {
            let i = (e - 1) as usize;
            if i >= rs.len() || rs[i] != Err(e) || !done[i].get() {
                w.fault("core", format!("error {} is no child's error", e));
            }
        }
        if !ok && err.is_none() {
            w.fault("core", "wrong values");
        }
    };
    let kids = vec![kid(&a), kid(&b)];
    if let Some(r) = expect_armed(w, c, future::try_join(a, b), kids) {
        check(w, r == Ok((1, 2)), r.err(), &[ra, rb], &[&ad, &bd]);
    }
}
fn j_try_join_first(c: &mut Ch, w: &W) {
    // an error is reported in the poll in which the child fails, whatever the other children do
    let pa = c.pick(4);
    let pb = c.pick(4);
    let a: SFut<R> = SFut::new(w, "a", pa, Err(1));
    let b: SFut<R> = SFut::new(w, "b", pb, if c.flag() { Ok(2) } else { Err(2) });
    let swap = c.flag();
    let (ad, done) = (a.done.clone(), b.done.clone());
    let mut f: Pin<Box<dyn Future<Output = Result<(i32, i32), i32>>>> = if swap { Box::pin(future::try_join(b, a)) } else { Box::pin(future::try_join(a, b)) };
    if let Out::Val(r) = run_poll(w, c, 100, |cx| {
        let r = f.as_mut().poll(cx);
        if ad.get() && r.is_pending() {
            w.fault("core", "a child failed but the error was not reported at once");
        }
        r
    }) {
        let _ = done;
        if r.is_ok() {
            w.fault("core", "Ok although a child failed");
        }
    }
}
fn j_try_join_all(c: &mut Ch, w: &W) {
    let n = if c.is_random() { c.pick(45) } else { c.pick(4) };
    let mut rs: Vec<Result<usize, usize>> = vec![];
    let rare = c.is_random();
    let fs: Vec<SFut<Result<usize, usize>>> = (0..n)
        .map(|i| {
            let p = c.pick(3);
            let e = if rare { c.pick(40) == 1 } else { c.flag() };
            let r = if e { Err(i) } else { Ok(i * 10) };
            rs.push(r);
            SFut::new(w, format!("f{}", i), p, r)
        })
        .collect();
    let done: Vec<_> = fs.iter().map(|f| f.done.clone()).collect();
    let polls: Vec<_> = fs.iter().map(|f| f.polls.clone()).collect();
    w.note(format!("{:?}", rs));
    let kids: Vec<_> = fs.iter().map(kid).collect();
    if n <= 30 && c.flag() {
        if let Some(r) = expect_armed(w, c, future::try_join_all(fs), kids) {
            let want: Result<Vec<usize>, usize> = rs.iter().cloned().collect();
            if r.is_ok() != want.is_ok() || r.is_ok() && r != want || r.is_err() && rs[r.clone().unwrap_err()].is_ok() {
                w.fault("core", format!("try_join_all {:?}, expected {:?}", r, want));
            }
        }
        return;
    }
    let mut f = Box::pin(future::try_join_all(fs));
    if n > 0 {
        let (_fl, wk) = new_waker();
        let r = f.as_mut().poll(&mut Context::from_waker(&wk));
        if r.is_pending() {
            for (i, p) in polls.iter().enumerate() {
                if p.get() == 0 {
                    w.fault("core", format!("child {} not polled in the first poll", i));
                }
            }
        } else {
            return;
        }
    }
    if let Out::Val(r) = run_poll(w, c, 400, |cx| f.as_mut().poll(cx)) {
        match r {
            Ok(v) => {
                let want: Result<Vec<usize>, usize> = rs.iter().cloned().collect();
                if Ok(v.clone()) != want {
                    w.fault("core", format!("try_join_all {:?}, expected {:?}", v, want));
                }
            }
            Err(e) => {
                if rs.get(e) != Some(&Err(e)) || !done[e].get() {
                    w.fault("core", format!("error {} is no child's error", e));
                }
            }
        }
    }
}
// ---- selects
fn x_select(c: &mut Ch, w: &W) {
    let a = fut(c, w, "a", 1);
    let b = fut(c, w, "b", 2);
    let (ad, bd) = (a.done.clone(), b.done.clone());
    let kids = vec![kid(&a), kid(&b)];
    let f = future::select(a, b);
    let mut f = Box::pin(f);
    let r = run_poll(w, c, 100, |cx| {
        if f.is_terminated() {
            w.fault("term", "select terminated early");
        }
        let r = f.as_mut().poll(cx);
        if r.is_pending() {
            armed(w, cx, &kids);
        }
        if r.is_pending() && (ad.get() || bd.get()) {
            w.fault("core", "select pending although a child completed");
        }
        r
    });
    match r {
        Out::Stuck => {}
        Out::Val(e) => {
            if !f.is_terminated() {
                w.fault("term", "select not terminated after completion");
            }
            match e {
                Either::Left((x, rest)) => {
                    if x != 1 || bd.get() {
                        w.fault("core", "select left result");
                    }
                    expect_fut(w, c, rest, 2);
                }
                Either::Right((x, rest)) => {
                    if x != 2 || ad.get() {
                        w.fault("core", "select right result");
                    }
                    expect_fut(w, c, rest, 1);
                }
            }
        }
    }
}
fn x_try_select(c: &mut Ch, w: &W) {
    let (a, ra) = rfut(c, w, "a", 1);
    let (b, rb) = rfut(c, w, "b", 2);
    let (ad, bd) = (a.done.clone(), b.done.clone());
    match drive_fut(w, c, future::try_select(a, b)) {
        None => {}
        Some(r) => {
            let (left, v, rest) = match r {
                Ok(Either::Left((x, rest))) => (true, Ok(x), Either::Right(rest)),
                Ok(Either::Right((x, rest))) => (false, Ok(x), Either::Left(rest)),
                Err(Either::Left((x, rest))) => (true, Err(x), Either::Right(rest)),
                Err(Either::Right((x, rest))) => (false, Err(x), Either::Left(rest)),
            };
            if left && (v != ra || bd.get()) || !left && (v != rb || ad.get()) {
                w.fault("core", "try_select result");
            }
            match rest {
                Either::Right(b) => expect_fut(w, c, b, rb),
                Either::Left(a) => expect_fut(w, c, a, ra),
            }
        }
    }
}
fn x_select_all(c: &mut Ch, w: &W) {
    let n = 1 + c.pick(4);
    let fs: Vec<SFut<usize>> = (0..n)
        .map(|i| {
            let p = c.pick(3);
            SFut::new(w, format!("f{}", i), p, i)
        })
        .collect();
    let mut left: Vec<usize> = (0..n).collect();
    let mut fs = fs;
    while !fs.is_empty() {
        let dones: Vec<_> = fs.iter().map(|f| f.done.clone()).collect();
        match drive_fut(w, c, future::select_all(fs)) {
            None => return,
            Some((v, idx, rest)) => {
                if idx >= left.len() || left[idx] != v {
                    w.fault("core", format!("select_all returned value {} index {} of {:?}", v, idx, left));
                    return;
                }
                if dones.iter().enumerate().any(|(i, d)| d.get() != (i == idx)) {
                    w.fault("core", "select_all: a completed child was not the one returned");
                }
                left.swap_remove(idx);
                let names: Vec<usize> = rest.iter().map(|f| f.out.unwrap()).collect();
                let mut a = names.clone();
                let mut b = left.clone();
                a.sort();
                b.sort();
                if a != b {
                    w.fault("core", format!("select_all left {:?}, expected {:?}", names, left));
                    return;
                }
                left = names;
                fs = rest;
            }
        }
    }
}
fn x_select_ok(c: &mut Ch, w: &W) {
    let n = 1 + c.pick(4);
    let mut rs = vec![];
    let fs: Vec<SFut<Result<usize, usize>>> = (0..n)
        .map(|i| {
            let p = c.pick(3);
            let r = if c.flag() { Ok(i) } else { Err(i) };
            rs.push(r);
            SFut::new(w, format!("f{}", i), p, r)
        })
        .collect();
    w.note(format!("{:?}", rs));
    let done: Vec<_> = fs.iter().map(|f| f.done.clone()).collect();
    match drive_fut(w, c, future::select_ok(fs)) {
        None => {}
        Some(Ok((v, rest))) => {
            if rs[v] != Ok(v) || !done[v].get() {
                w.fault("core", format!("select_ok returned {}", v));
            }
            // every other future is either finished with an error or handed back
            let back: Vec<usize> = rest.iter().map(|f| match f.out { Some(Ok(x)) => x, Some(Err(x)) => x, None => usize::MAX }).collect();
            for i in 0..n {
                if i != v && !done[i].get() && !back.contains(&i) {
                    w.fault("core", format!("select_ok lost future {}", i));
                }
                if i != v && done[i].get() && rs[i].is_ok() {
                    w.fault("core", format!("select_ok ignored success of {}", i));
                }
            }
            if back.iter().any(|b| *b == usize::MAX || *b == v) {
                w.fault("core", "select_ok handed back a finished future");
            }
        }
        Some(Err(e)) => {
            if rs.iter().any(|r| r.is_ok()) {
                w.fault("core", "select_ok failed although a future succeeds");
            }
            if rs[e] != Err(e) || done.iter().any(|d| !d.get()) {
                w.fault("core", "select_ok error");
            }
        }
    }
}
fn m_join(c: &mut Ch, w: &W) {
    // join! and try_join!, two or three futures: every unfinished child is polled by every poll, the outputs are in place, an
    // error is reported in the poll in which the child fails
    let three = c.flag();
    if c.flag() {
        let a = fut(c, w, "a", 1);
        let b = fut(c, w, "b", 2);
        let mut kids = vec![kid(&a), kid(&b)];
        let x = if three {
            let d = fut(c, w, "d", 3);
            kids.push(kid(&d));
            expect_armed(w, c, async move { let (a, b, d) = futures::join!(a, b, d); vec![a, b, d] }, kids)
        } else {
            expect_armed(w, c, async move { let (a, b) = futures::join!(a, b); vec![a, b] }, kids)
        };
        if let Some(x) = x {
            if x[..] != [1, 2, 3][..x.len()] {
                w.fault("core", format!("join! gave {:?}", x));
            }
        }
        return;
    }
    let (a, ra) = rfut(c, w, "a", 1);
    let (b, rb) = rfut(c, w, "b", 2);
    let mut rs = vec![ra, rb];
    let mut kids = vec![kid(&a), kid(&b)];
    let mut f: Pin<Box<dyn Future<Output = Result<Vec<i32>, i32>>>> = if three {
        let (d, rd) = rfut(c, w, "d", 3);
        rs.push(rd);
        kids.push(kid(&d));
        Box::pin(async move { futures::try_join!(a, b, d).map(|(a, b, d)| vec![a, b, d]) })
    } else {
        Box::pin(async move { futures::try_join!(a, b).map(|(a, b)| vec![a, b]) })
    };
    let r = run_poll(w, c, 100, |cx| {
        let r = f.as_mut().poll(cx);
        if r.is_pending() {
            armed(w, cx, &kids);
            if kids.iter().zip(&rs).any(|(k, r)| k.1.get() && r.is_err()) {
                w.fault("core", "try_join!: a child failed but the error was not reported at once");
            }
            if kids.iter().all(|k| k.1.get()) {
                w.fault("core", "try_join!: Pending although every child completed");
            }
        }
        r
    });
    if let Out::Val(r) = r {
        match r {
            Ok(v) => if v[..] != [1, 2, 3][..rs.len()] || rs.iter().any(|r| r.is_err()) {
                w.fault("core", format!("try_join! gave {:?} for {:?}", v, rs));
            },
            Err(e) => {
                let i = (e - 1) as usize;
                if i >= rs.len() || rs[i] != Err(e) || !kids[i].1.get() {
                    w.fault("core", format!("try_join! failed with {}, which is no child's error", e));
                }
            }
        }
    }
}
fn m_select(c: &mut Ch, w: &W) {
    // select_biased! / select! over three futures used until complete: a ready future is handed out, the first in order with
    // select_biased!, exactly once, the others keep what they have; `complete` runs only when all are finished
    let fs: Vec<SFut<i32>> = (0..3).map(|i| fut(c, w, ["a", "b", "d"][i], i as i32)).collect();
    let kids: Vec<_> = fs.iter().map(kid).collect();
    let polls: Vec<_> = fs.iter().map(|f| f.polls.clone()).collect();
    let seen: Rc<RefCell<Vec<i32>>> = Rc::new(RefCell::new(vec![]));
    let rounds = Rc::new(Cell::new(0));
    let done: Vec<_> = fs.iter().map(|f| f.done.clone()).collect();
    let mut it = fs.into_iter().map(|f| f.fuse());
    let (mut a, mut b, mut d) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    let biased = c.flag();
    let (o, w2, rn, kd) = (seen.clone(), w.clone(), rounds.clone(), kids.clone());
    let mut f: Pin<Box<dyn Future<Output = ()>>> = Box::pin(async move {
        loop {
            let before: Vec<usize> = polls.iter().map(|p| p.get()).collect();
            let gone: Vec<bool> = done.iter().map(|d| d.get()).collect();
            let x = if biased {
                futures::select_biased! { x = a => Some(x), y = b => Some(y), z = d => Some(z), complete => None }
            } else {
                futures::select! { x = a => Some(x), y = b => Some(y), z = d => Some(z), complete => None }
            };
            rn.set(rn.get() + 1);
            match x {
                Some(x) => {
                    o.borrow_mut().push(x);
                    let x = x as usize;
                    if biased {
                        // everything before it was asked at least as often as it was, unless finished
                        for i in 0..x {
                            if !gone[i] && polls[i].get() - before[i] < polls[x].get() - before[x] {
                                w2.fault("core", format!("select_biased!: branch {} won although branch {} was not asked first", x, i));
                            }
                        }
                        for i in x + 1..3 {
                            if polls[i].get() - before[i] > polls[x].get() - before[x] - 1 {
                                w2.fault("core", format!("select_biased!: branch {} asked although branch {} was ready", i, x));
                            }
                        }
                    }
                    for i in 0..3 {
                        if i != x && !gone[i] && done[i].get() {
                            w2.fault("core", format!("select!: branch {} completed but branch {} was handed out", i, x));
                        }
                    }
                }
                None => {
                    if kd.iter().any(|k| !k.1.get()) {
                        w2.fault("core", "select!: complete although a future is unfinished");
                    }
                    break;
                }
            }
        }
    });
    let r = run_poll(w, c, 100, |cx| {
        let r = f.as_mut().poll(cx);
        if r.is_pending() {
            armed(w, cx, &kids);
        }
        r
    });
    if let Out::Val(()) = r {
        let mut v = seen.borrow().clone();
        v.sort();
        if v != [0, 1, 2] || rounds.get() != 4 {
            w.fault("core", format!("select! handed out {:?} in {} rounds", seen.borrow(), rounds.get()));
        }
    }
}
fn m_select_default(c: &mut Ch, w: &W) {
    // `default` runs exactly when nothing is ready and something is unfinished; futures given as expressions
    let mut a = fut(c, w, "a", 0).fuse();
    let evs = script(c, 2, 10);
    let want = items(&evs);
    let mut s = futures_util::StreamExt::fuse(Src::new(w, "s", evs));
    let got: Rc<RefCell<Vec<i32>>> = Rc::new(RefCell::new(vec![]));
    let g = got.clone();
    let w2 = w.clone();
    let biased = c.flag();
    let f = async move {
        for _ in 0..40 {
            use futures_util::StreamExt;
            let x = if biased {
                futures::select_biased! { x = a => Some(x), y = s.next() => y.or(Some(-3)), complete => Some(-2), default => None }
            } else {
                futures::select! { x = a => Some(x), y = s.next() => y.or(Some(-3)), complete => Some(-2), default => None }
            };
            match x {
                Some(-2) => {
                    if !a.is_terminated() || !s.is_terminated() {
                        w2.fault("core", "select!: complete although something is unfinished");
                    }
                    return true;
                }
                Some(-3) => {}
                Some(x) => g.borrow_mut().push(x),
                None => {
                    if a.is_terminated() && s.is_terminated() {
                        w2.fault("core", "select!: default although everything is finished");
                    }
                    w2.fire_all();
                }
            }
        }
        false
    };
    match drive_fut(w, c, f) {
        Some(true) => {
            let v = got.borrow();
            let items: Vec<i32> = v.iter().cloned().filter(|x| *x >= 10).collect();
            if items != want || v.iter().filter(|x| **x == 0).count() != 1 {
                w.fault("core", format!("select! with default handed out {:?}", v));
            }
        }
        Some(false) => w.fault("core", "select! with default never completed"),
        None => {}
    }
}
fn m_misc(c: &mut Ch, w: &W) {
    // select! with everything finished and no `complete` panics; poll! looks once; pending! gives way once
    match c.pick(3) {
        0 => {
            let f = async {
                let mut a = future::Fuse::<SFut<i32>>::terminated();
                futures::select_biased! { x = a => x }
            };
            let mut f = Box::pin(f);
            let (_fl, wk) = new_waker();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&wk))));
            if r.is_ok() {
                w.fault("core", "select! without complete returned with nothing left to wait for");
            }
        }
        1 => {
            let mut a = fut(c, w, "a", 5);
            let (d, p) = (a.done.clone(), a.polls.clone());
            let r = drive_fut(w, c, async move {
                let r = futures::poll!(&mut a);
                (r, a)
            });
            if let Some((r, _a)) = r {
                if p.get() != 1 || r.is_ready() != d.get() || r.is_ready() && r != Poll::Ready(5) {
                    w.fault("core", format!("poll! gave {:?} after {} polls", r, p.get()));
                }
            }
        }
        _ => {
            let mut f = Box::pin(async { futures::pending!(); 7 });
            let (_fl, wk) = new_waker();
            let mut cx = Context::from_waker(&wk);
            if f.as_mut().poll(&mut cx).is_ready() || f.as_mut().poll(&mut cx) != Poll::Ready(7) {
                w.fault("core", "pending! does not give way exactly once");
            }
        }
    }
}
fn f_shared(c: &mut Ch, w: &W) {
    // every clone obtains the output; the inner future completes once and is never polled again
    let p = c.pick(3);
    let f = SFut::new(w, "f", p, 7);
    let done = f.done.clone();
    let n = 1 + c.pick(3);
    let s = f.shared();
    let mut cl: Vec<Option<Pin<Box<future::Shared<SFut<i32>>>>>> = (0..n).map(|_| Some(Box::pin(s.clone()))).collect();
    drop(s);
    let mut flags: Vec<Option<std::sync::Arc<Flag>>> = vec![None; n];
    let mut got = 0;
    for _step in 0..12 {
        // a sleeping clone whose waker fired, or any clone, is polled; a clone may be dropped
        let live: Vec<usize> = (0..n).filter(|i| cl[*i].is_some()).collect();
        if live.is_empty() {
            break;
        }
        let i = live[c.pick(live.len())];
        match c.pick(4) {
            0 if live.len() > 1 => {
                w.note(format!("drop {}", i));
                cl[i] = None;
                flags[i] = None;
            }
            1 => {
                w.fire_all();
            }
            _ => {
                w.note(format!("poll {}", i));
                let (fl, wk) = new_waker();
                let r = cl[i].as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wk));
                match r {
                    Poll::Ready(v) => {
                        if v != 7 || !done.get() {
                            w.fault("core", "shared value");
                        }
                        if cl[i].as_ref().unwrap().peek().is_some() || !cl[i].as_ref().unwrap().is_terminated() {
                            w.fault("term", "shared: terminated state after completion");
                        }
                        got += 1;
                        cl[i] = None;
                        flags[i] = None;
                    }
                    Poll::Pending => {
                        if done.get() {
                            w.fault("core", "shared pending although complete");
                        }
                        flags[i] = Some(fl);
                    }
                }
            }
        }
        // whenever the inner future is complete, every waiting clone has been woken
        if done.get() {
            for j in 0..n {
                if let Some(f) = &flags[j] {
                    if !f.0.load(std::sync::atomic::Ordering::SeqCst) {
                        w.fault("wake", format!("clone {} sleeps although the shared future completed", j));
                    }
                }
            }
        } else if w.regs.borrow().is_empty() && flags.iter().any(|f| f.is_some()) && flags.iter().all(|f| f.as_ref().map(|f| !f.0.load(std::sync::atomic::Ordering::SeqCst)).unwrap_or(true)) {
            w.fault("wake", "every waiting clone sleeps and nothing will wake any of them");
        }
    }
    // finish: poll those that were woken until all are done
    for _ in 0..200 {
        let mut any = false;
        for j in 0..n {
            if cl[j].is_none() {
                continue;
            }
            let woken = flags[j].as_ref().map(|f| f.0.load(std::sync::atomic::Ordering::SeqCst)).unwrap_or(true);
            if woken {
                any = true;
                let (fl, wk) = new_waker();
                match cl[j].as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(v) => {
                        if v != 7 {
                            w.fault("core", "shared value");
                        }
                        got += 1;
                        cl[j] = None;
                        flags[j] = None;
                    }
                    Poll::Pending => flags[j] = Some(fl),
                }
            }
        }
        if cl.iter().all(|x| x.is_none()) {
            return;
        }
        if !any {
            if w.regs.borrow().is_empty() {
                w.fault("wake", format!("clones sleep forever ({} got the value)", got));
                return;
            }
            w.fire_all();
        }
    }
}
fn f_abortable(c: &mut Ch, w: &W) {
    let p = c.pick(3);
    let f = SFut::new(w, "f", p, 7);
    let done = f.done.clone();
    let polls = f.polls.clone();
    let (ab, h) = future::abortable(f);
    let mut ab = Box::pin(ab);
    let mut aborted = false;
    let mut flag: Option<std::sync::Arc<Flag>> = None;
    for _ in 0..10 {
        if !aborted && c.pick(3) == 1 {
            w.note("abort");
            h.abort();
            aborted = true;
            if !h.is_aborted() || !ab.is_aborted() {
                w.fault("core", "is_aborted() after abort()");
            }
            if let Some(f) = &flag {
                if !f.0.load(std::sync::atomic::Ordering::SeqCst) {
                    w.fault("wake", "abort() did not wake the waiting task");
                    return;
                }
            }
        }
        let (fl, wk) = new_waker();
        let before = polls.get();
        match ab.as_mut().poll(&mut Context::from_waker(&wk)) {
            Poll::Ready(Ok(v)) => {
                if v != 7 || aborted || !done.get() {
                    w.fault("core", format!("Abortable gave Ok({}) aborted={}", v, aborted));
                }
                return;
            }
            Poll::Ready(Err(_)) => {
                if !aborted {
                    w.fault("core", "Aborted without abort()");
                }
                if polls.get() != before {
                    w.fault("core", "the future was polled after abort()");
                }
                return;
            }
            Poll::Pending => {
                if aborted {
                    w.fault("core", "Pending although aborted");
                    return;
                }
                flag = Some(fl);
            }
        }
        if c.flag() {
            w.fire_all();
        }
    }
}
fn f_remote(c: &mut Ch, w: &W) {
    // the handle receives the output; dropping it cancels the remote, forget() does not
    let p = c.pick(3);
    let f = SFut::new(w, "f", p, 7);
    let done = f.done.clone();
    let (remote, handle) = f.remote_handle();
    let mut remote = Some(Box::pin(remote));
    let mut handle = Some(handle);
    let mut rflag: Option<std::sync::Arc<Flag>> = None;
    let mut hflag: Option<std::sync::Arc<Flag>> = None;
    let mut dropped_handle = false;
    let mut forgot = false;
    for _ in 0..14 {
        match c.pick(5) {
            0 if remote.is_some() => {
                w.note("poll remote");
                let (fl, wk) = new_waker();
                match remote.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(()) => {
                        remote = None;
                        if !done.get() && !dropped_handle {
                            w.fault("core", "remote finished without completing its future");
                        }
                        if let Some(h) = &hflag {
                            if !h.0.load(std::sync::atomic::Ordering::SeqCst) {
                                w.fault("wake", "the handle was not woken by completion");
                            }
                        }
                    }
                    Poll::Pending => {
                        if dropped_handle && !forgot {
                            w.fault("core", "remote still pending although its handle was dropped");
                        }
                        rflag = Some(fl);
                    }
                }
            }
            1 if handle.is_some() => {
                w.note("poll handle");
                let (fl, wk) = new_waker();
                match Pin::new(handle.as_mut().unwrap()).poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(v) => {
                        if v != 7 || !done.get() {
                            w.fault("core", "handle value");
                        }
                        return;
                    }
                    Poll::Pending => {
                        if remote.is_none() {
                            w.fault("core", "handle pending although the remote finished");
                        }
                        hflag = Some(fl)
                    }
                }
            }
            2 if handle.is_some() => {
                if c.flag() {
                    w.note("forget handle");
                    handle.take().unwrap().forget();
                    forgot = true;
                    hflag = None;
                } else {
                    w.note("drop handle");
                    handle = None;
                    hflag = None;
                    dropped_handle = true;
                    if let Some(r) = &rflag {
                        if remote.is_some() && !r.0.load(std::sync::atomic::Ordering::SeqCst) {
                            w.fault("wake", "dropping the handle did not wake the remote");
                        }
                    }
                }
            }
            3 => w.fire_all(),
            _ => {}
        }
    }
    if forgot {
        if let Some(r) = remote {
            let _ = drive_fut(w, c, r);
            if !done.get() && w.faults.borrow().is_empty() {
                w.fault("core", "a forgotten remote did not run its future to completion");
            }
        }
    }
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("futcomb", vec![("map", f_map as _), ("then", f_then as _), ("flatten_stream", f_flatten_stream as _), ("into_stream", f_into_stream as _), ("fuse", f_fuse as _), ("try_maps", f_try_maps as _), ("and_then", f_and_then as _), ("try_flatten_stream", f_try_flatten_stream as _), ("misc", f_misc as _), ("try_maybe_done", f_try_maybe_done as _)]),
        ("join", vec![("join", j_join as _), ("join_all", j_join_all as _), ("try_join", j_try_join as _), ("try_join_first", j_try_join_first as _), ("try_join_all", j_try_join_all as _), ("macros", m_join as _)]),
        ("select", vec![("select", x_select as _), ("try_select", x_try_select as _), ("select_all", x_select_all as _), ("select_ok", x_select_ok as _), ("macros", m_select as _), ("macro_default", m_select_default as _), ("macro_misc", m_misc as _)]),
        ("shared", vec![("shared", f_shared as _)]),
        ("abort", vec![("abortable", f_abortable as _), ("remote_handle", f_remote as _)]),
    ]
}
