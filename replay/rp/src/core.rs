//! Scenario explorer: exhaustive enumeration (odometer DFS over choices) up to a budget, then random sampling;
//! scripted children that record protocol violations; a poll driver with fresh wakers.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
pub use futures_core::Stream;

pub struct Ch {
    vec: Vec<(usize, usize)>, // (choice, arity)
    pos: usize,
    rng: Option<u64>,
}
impl Ch {
    /// one of 0..n
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        if let Some(s) = &mut self.rng {
            let mut x = *s;
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            *s = x;
            let c = (x >> 11) as usize % n;
            self.vec.push((c, n));
            self.pos += 1;
            return c;
        }
        if self.pos < self.vec.len() {
            let c = self.vec[self.pos].0;
            self.vec[self.pos].1 = n;
            self.pos += 1;
            c.min(n - 1)
        } else {
            self.vec.push((0, n));
            self.pos += 1;
            0
        }
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn is_random(&self) -> bool {
        self.rng.is_some()
    }
    pub fn choices(&self) -> Vec<usize> {
        self.vec[..self.pos.min(self.vec.len())].iter().map(|c| c.0).collect()
    }
    fn advance(&mut self) -> bool {
        self.vec.truncate(self.pos);
        self.pos = 0;
        while let Some(l) = self.vec.last_mut() {
            if l.0 + 1 < l.1 {
                l.0 += 1;
                return true;
            }
            self.vec.pop();
        }
        false
    }
}

pub struct Violation {
    pub tag: &'static str,
    pub key: String,
    pub what: String,
    pub input: String,
}
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub exhausted: Vec<String>,
    pub rules: Vec<String>,
}

#[derive(Clone)]
pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub budget: u64,
}

/// shared state of one execution
pub struct World {
    pub faults: RefCell<Vec<(&'static str, String)>>,
    pub regs: RefCell<Vec<Reg>>,
    pub desc: RefCell<String>,
    next: Cell<usize>,
    pub polls: Cell<usize>,
}
pub struct Reg {
    pub id: usize,
    pub name: String,
    pub waker: Waker,
    pub ready: Rc<Cell<bool>>,
}
pub type W = Rc<World>;
impl World {
    pub fn new() -> W {
        Rc::new(World { faults: RefCell::new(vec![]), regs: RefCell::new(vec![]), desc: RefCell::new(String::new()), next: Cell::new(0), polls: Cell::new(0) })
    }
    pub fn id(&self) -> usize {
        self.next.set(self.next.get() + 1);
        self.next.get()
    }
    pub fn fault(&self, tag: &'static str, s: impl Into<String>) {
        self.faults.borrow_mut().push((tag, s.into()));
    }
    pub fn note(&self, s: impl AsRef<str>) {
        let mut d = self.desc.borrow_mut();
        if d.len() < 4000 {
            d.push_str(s.as_ref());
            d.push_str("; ");
        }
    }
    pub fn register(&self, id: usize, name: &str, w: &Waker, ready: &Rc<Cell<bool>>) {
        let mut r = self.regs.borrow_mut();
        r.retain(|x| x.id != id);
        r.push(Reg { id, name: name.to_string(), waker: w.clone(), ready: ready.clone() });
    }
    pub fn unregister(&self, id: usize) {
        self.regs.borrow_mut().retain(|x| x.id != id);
    }
    /// fire registration k
    pub fn fire(&self, k: usize) {
        let r = self.regs.borrow_mut().remove(k);
        r.ready.set(true);
        self.note(format!("wake {}", r.name));
        r.waker.wake();
    }
    pub fn fire_all(&self) {
        while !self.regs.borrow().is_empty() {
            self.fire(0);
        }
    }
    pub fn registered_with(&self, id: usize, w: &Waker) -> bool {
        self.regs.borrow().iter().any(|r| r.id == id && r.waker.will_wake(w))
    }
}

pub struct Flag(pub AtomicBool, pub AtomicU64);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
        self.1.fetch_add(1, Ordering::SeqCst);
    }
}
pub fn new_waker() -> (Arc<Flag>, Waker) {
    let f = Arc::new(Flag(AtomicBool::new(false), AtomicU64::new(0)));
    let w = Waker::from(f.clone());
    (f, w)
}

// ---------------------------------------------------------------------------------------------
// scripted children
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev<T> {
    Item(T),
    Pend,
}

pub struct Src<T> {
    pub w: W,
    pub id: usize,
    pub name: String,
    pub ev: VecDeque<Ev<T>>,
    pub ended: bool,
    waiting: Option<Rc<Cell<bool>>>,
    pub hint: u8,
    pub poll_after_end_ok: bool,
    pub polls: Rc<Cell<usize>>,
    pub is_pending: Rc<Cell<bool>>,
    pub done: Rc<Cell<bool>>,
}
impl<T> Unpin for Src<T> {}
impl<T: Clone + Debug> Src<T> {
    pub fn new(w: &W, name: &str, ev: Vec<Ev<T>>) -> Self {
        w.note(format!("stream {}={:?}", name, ev));
        Src { id: w.id(), w: w.clone(), name: name.into(), ev: ev.into(), ended: false, waiting: None, hint: 0, poll_after_end_ok: false, polls: Rc::new(Cell::new(0)), is_pending: Rc::new(Cell::new(false)), done: Rc::new(Cell::new(false)) }
    }
    pub fn hinted(mut self, h: u8) -> Self {
        self.hint = h;
        self
    }
    pub fn lenient(mut self) -> Self {
        self.poll_after_end_ok = true;
        self
    }
    pub fn left(&self) -> usize {
        self.ev.iter().filter(|e| matches!(e, Ev::Item(_))).count()
    }
}
impl<T: Clone + Debug> Stream for Src<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        self.polls.set(self.polls.get() + 1);
        self.w.polls.set(self.w.polls.get() + 1);
        if self.ended {
            if !self.poll_after_end_ok {
                self.w.fault("term", format!("stream {} polled after it returned None", self.name));
            }
            return Poll::Ready(None);
        }
        if let Some(f) = &self.waiting {
            if !f.get() {
                let f = f.clone();
                self.w.register(self.id, &self.name, cx.waker(), &f);
                return Poll::Pending;
            }
            self.waiting = None;
            self.is_pending.set(false);
        }
        match self.ev.pop_front() {
            Some(Ev::Item(x)) => Poll::Ready(Some(x)),
            Some(Ev::Pend) => {
                let f = Rc::new(Cell::new(false));
                self.w.register(self.id, &self.name, cx.waker(), &f);
                self.waiting = Some(f);
                self.is_pending.set(true);
                Poll::Pending
            }
            None => {
                self.ended = true;
                self.done.set(true);
                Poll::Ready(None)
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n + 1)),
            3 => (n, None),
            _ => (0, Some(n)),
        }
    }
}
impl<T: Clone + Debug> futures_core::FusedStream for Src<T> {
    fn is_terminated(&self) -> bool {
        self.ended
    }
}
impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        self.w.unregister(self.id);
    }
}

pub struct SFut<T> {
    pub w: W,
    pub id: usize,
    pub name: String,
    pub pend: usize,
    pub out: Option<T>,
    waiting: Option<Rc<Cell<bool>>>,
    pub polls: Rc<Cell<usize>>,
    pub done: Rc<Cell<bool>>,
    pub dropped: Rc<Cell<bool>>,
}
impl<T> Unpin for SFut<T> {}
impl<T> SFut<T> {
    pub fn new(w: &W, name: impl Into<String>, pend: usize, out: T) -> Self {
        SFut { id: w.id(), w: w.clone(), name: name.into(), pend, out: Some(out), waiting: None, polls: Rc::new(Cell::new(0)), done: Rc::new(Cell::new(false)), dropped: Rc::new(Cell::new(false)) }
    }
}
impl<T> Future for SFut<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        self.polls.set(self.polls.get() + 1);
        if self.out.is_none() {
            self.w.fault("term", format!("future {} polled after completion", self.name));
            return Poll::Pending;
        }
        if let Some(f) = &self.waiting {
            if !f.get() {
                let f = f.clone();
                self.w.register(self.id, &self.name, cx.waker(), &f);
                return Poll::Pending;
            }
            self.waiting = None;
        }
        if self.pend > 0 {
            self.pend -= 1;
            let f = Rc::new(Cell::new(false));
            self.w.register(self.id, &self.name, cx.waker(), &f);
            self.waiting = Some(f);
            return Poll::Pending;
        }
        self.done.set(true);
        Poll::Ready(self.out.take().unwrap())
    }
}
impl<T> futures_core::FusedFuture for SFut<T> {
    fn is_terminated(&self) -> bool {
        self.out.is_none()
    }
}
impl<T> Drop for SFut<T> {
    fn drop(&mut self) {
        self.dropped.set(true);
        self.w.unregister(self.id);
    }
}

// ---------------------------------------------------------------------------------------------
// script generation
// ---------------------------------------------------------------------------------------------
/// a script of up to `max` events; items are numbered base, base+1, ... and may be mapped
pub fn script(c: &mut Ch, max: usize, base: i32) -> Vec<Ev<i32>> {
    let max = if c.is_random() { max + 5 } else { max };
    let n = c.pick(max + 1);
    let mut v = vec![];
    let mut k = 0;
    for _ in 0..n {
        if c.flag() {
            v.push(Ev::Pend);
        } else {
            v.push(Ev::Item(base + k));
            k += 1;
        }
    }
    v
}
pub fn items<T: Clone>(v: &[Ev<T>]) -> Vec<T> {
    v.iter().filter_map(|e| if let Ev::Item(x) = e { Some(x.clone()) } else { None }).collect()
}
/// per-value boolean table
pub fn table(c: &mut Ch, n: usize) -> Vec<bool> {
    (0..n).map(|_| c.flag()).collect()
}
pub fn pends(c: &mut Ch, n: usize) -> Vec<usize> {
    (0..n).map(|_| c.pick(2)).collect()
}

// ---------------------------------------------------------------------------------------------
// drivers
// ---------------------------------------------------------------------------------------------
pub enum Out<T> {
    Val(T),
    Stuck,
}

/// poll a closure to completion under the world's schedule. `order` picks which registration fires next
pub fn run_poll<T>(w: &W, c: &mut Ch, limit: usize, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Out<T> {
    let mut n = 0;
    loop {
        n += 1;
        if n > limit {
            w.fault("core", format!("no progress after {} polls", limit));
            return Out::Stuck;
        }
        let (flag, waker) = new_waker();
        let mut cx = Context::from_waker(&waker);
        match f(&mut cx) {
            Poll::Ready(x) => return Out::Val(x),
            Poll::Pending => {
                // maybe a spurious poll with another waker first
                let mut flag = flag;
                if c.flag() {
                    let (f2, w2) = new_waker();
                    let mut cx = Context::from_waker(&w2);
                    w.note("spurious poll");
                    match f(&mut cx) {
                        Poll::Ready(x) => return Out::Val(x),
                        Poll::Pending => {}
                    }
                    if flag.0.load(Ordering::SeqCst) {
                        f2.0.store(true, Ordering::SeqCst);
                    }
                    flag = f2;
                }
                loop {
                    if flag.0.load(Ordering::SeqCst) {
                        break;
                    }
                    let k = w.regs.borrow().len();
                    if k == 0 {
                        w.fault("wake", "Pending returned but no event of any child wakes the current task: the task sleeps forever");
                        return Out::Stuck;
                    }
                    let i = c.pick(k);
                    w.fire(i);
                }
            }
        }
    }
}

pub struct SOpts<'a, S> {
    pub term: Option<&'a dyn Fn(&S) -> bool>,
    pub size: bool,
    pub again: bool, // poll again after None if not reported terminated
}
impl<'a, S> Default for SOpts<'a, S> {
    fn default() -> Self {
        SOpts { term: None, size: true, again: false }
    }
}

/// drive a stream to the end, comparing with the expected items; checks size_hint and is_terminated at each step
pub fn drive<S: Stream>(w: &W, c: &mut Ch, s: S, expect: &[S::Item], o: SOpts<'_, S>)
where
    S::Item: PartialEq + Debug,
{
    let mut s = Box::pin(s);
    let mut got = 0usize;
    let mut sizes: Vec<(usize, (usize, Option<usize>))> = vec![];
    loop {
        if o.size {
            sizes.push((got, s.size_hint()));
        }
        let mut sz = vec![];
        let r = {
            let sref = &mut s;
            let o2 = &o;
            let want_done = got >= expect.len();
            run_poll(w, c, 400, |cx| {
                if let Some(t) = o2.term {
                    if t(&*sref) && !want_done {
                        w.fault("term", format!("is_terminated() is true although item #{} is still to come", got));
                    }
                }
                let r = sref.as_mut().poll_next(cx);
                if r.is_pending() && o2.size {
                    sz.push(sref.size_hint());
                }
                r
            })
        };
        for x in sz {
            sizes.push((got, x));
        }
        match r {
            Out::Stuck => return,
            Out::Val(Some(x)) => {
                if got >= expect.len() {
                    w.fault("core", format!("unexpected extra item {:?} after {} items", x, got));
                    return;
                }
                if x != expect[got] {
                    w.fault("core", format!("item #{} is {:?}, expected {:?}", got, x, expect[got]));
                    return;
                }
                got += 1;
            }
            Out::Val(None) => {
                if got != expect.len() {
                    w.fault("core", format!("stream ended after {} items, expected {:?}", got, expect));
                    return;
                }
                break;
            }
        }
    }
    if o.size {
        sizes.push((got, s.size_hint()));
        for (g, (lo, hi)) in sizes {
            let left = expect.len() - g;
            if lo > left || hi.map(|h| h < left).unwrap_or(false) {
                w.fault("size", format!("size_hint() = ({}, {:?}) with {} items left", lo, hi, left));
                break;
            }
        }
    }
    if let Some(t) = o.term {
        if !t(&s) || o.again {
            // claims to be pollable: polling must be harmless
            let (_f, wk) = new_waker();
            let mut cx = Context::from_waker(&wk);
            w.note("poll again after None");
            match s.as_mut().poll_next(&mut cx) {
                Poll::Ready(None) => {}
                Poll::Ready(Some(x)) => w.fault("term", format!("item {:?} after the end", x)),
                Poll::Pending => w.fault("term", "Pending after the end although the stream claims not to be terminated"),
            }
        }
    }
}

/// drive a future to completion
pub fn drive_fut<F: Future>(w: &W, c: &mut Ch, f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    match run_poll(w, c, 400, |cx| f.as_mut().poll(cx)) {
        Out::Val(x) => Some(x),
        Out::Stuck => None,
    }
}
pub fn expect_fut<F: Future>(w: &W, c: &mut Ch, f: F, want: F::Output)
where
    F::Output: PartialEq + Debug,
{
    if let Some(x) = drive_fut(w, c, f) {
        if x != want {
            w.fault("core", format!("future completed with {:?}, expected {:?}", x, want));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// explorer
// ---------------------------------------------------------------------------------------------
pub type Scenario = (&'static str, fn(&mut Ch, &W));

static STAMP: AtomicU64 = AtomicU64::new(0);
static CURRENT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn watchdog(out: String) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = STAMP.load(Ordering::Relaxed);
            if s == last && s != 0 {
                same += 1;
            } else {
                same = 0;
                last = s;
            }
            if same > 120 {
                let cur = CURRENT.lock().unwrap().clone();
                let j = format!(
                    "{{\"evaluations\":{},\"distinct_nontrivial\":0,\"rule\":\"watchdog\",\"samples\":[],\"violations\":[{{\"tag\":\"core\",\"key\":{},\"what\":\"the real code did not return within 60 s (endless loop or deadlock)\",\"input\":{}}}]}}",
                    s, js(&format!("{}#hang", cur)), js(&cur)
                );
                let _ = std::fs::write(&out, j);
                std::process::exit(1);
            }
        }
    });
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn explore(rep: &mut Report, o: &Opts, family: &str, scs: &[Scenario]) {
    for (name, f) in scs {
        let key = format!("{}/{}", family, name);
        *CURRENT.lock().unwrap() = key.clone();
        let mut ch = Ch { vec: vec![], pos: 0, rng: None };
        let mut n = 0u64;
        let mut found: Vec<&'static str> = vec![];
        let mut exhausted = false;
        let t0 = std::time::Instant::now();
        let limit = if o.thorough { 240.0 } else { 12.0 };
        while n < o.budget && t0.elapsed().as_secs_f64() < limit {
            n += 1;
            one(rep, &key, *f, &mut ch, &mut found, n);
            if found.len() >= 3 {
                break;
            }
            if !ch.advance() {
                exhausted = true;
                break;
            }
        }
        if exhausted {
            rep.exhausted.push(key.clone());
        }
        let mut seed = o.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
        for b in key.bytes() {
            seed = seed.wrapping_mul(31).wrapping_add(b as u64);
        }
        let mut k = 0;
        while k < o.budget && found.len() < 3 && t0.elapsed().as_secs_f64() < 2.0 * limit {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let mut ch = Ch { vec: vec![], pos: 0, rng: Some(seed | 1) };
            one(rep, &key, *f, &mut ch, &mut found, n + k);
            k += 1;
        }
    }
}

fn one(rep: &mut Report, key: &str, f: fn(&mut Ch, &W), ch: &mut Ch, found: &mut Vec<&'static str>, n: u64) {
    STAMP.fetch_add(1, Ordering::Relaxed);
    ch.pos = 0;
    let w = World::new();
    let w2 = w.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ch, &w2)));
    if let Err(e) = r {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
        w.fault("core", format!("panic: {}", m));
    }
    rep.evaluations += 1;
    let choices = ch.choices();
    if choices.iter().any(|c| *c != 0) {
        rep.nontrivial += 1;
    }
    if n == 3 || n == 1000 {
        rep.samples.push(format!("{} choices={:?}: {}", key, choices, w.desc.borrow()));
    }
    for (tag, what) in w.faults.borrow().iter() {
        if !found.contains(tag) {
            found.push(tag);
            rep.violations.push(Violation { tag, key: format!("{}#{}", key, tag), what: what.clone(), input: format!("choices={:?}: {}", choices, w.desc.borrow()) });
        }
    }
}
