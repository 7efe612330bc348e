//! Executors: LocalPool, block_on, enter on this thread (with a helper thread that wakes), ThreadPool on real threads.
use crate::core::*;
use futures::executor::{self, LocalPool, LocalSpawner, ThreadPoolBuilder};
use futures::task::{LocalSpawn, LocalSpawnExt, Spawn, SpawnExt};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex, OnceLock};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

fn waker_thread() -> mpsc::Sender<(Waker, u32)> {
    static S: OnceLock<Mutex<mpsc::Sender<(Waker, u32)>>> = OnceLock::new();
    S.get_or_init(|| {
        let (tx, rx) = mpsc::channel::<(Waker, u32)>();
        std::thread::spawn(move || {
            for (w, spin) in rx {
                for _ in 0..spin {
                    std::hint::spin_loop();
                }
                w.wake();
            }
        });
        Mutex::new(tx)
    })
    .lock()
    .unwrap()
    .clone()
}
#[derive(Default)]
struct Env {
    started: Cell<usize>,
    completed: Cell<usize>,
    spawned: Cell<usize>,
    stash: RefCell<Vec<(usize, Waker)>>, // blocked tasks: the test decides when they go on
    runnable: Cell<usize>,               // tasks that are not blocked
}
#[derive(Clone, Copy, Debug)]
enum Act {
    Yield,       // wakes itself
    Remote(u32), // woken by another thread
    Block,       // woken by the test
    Foreign,     // parks and unparks this thread itself, then yields
}
struct Task {
    acts: Vec<Act>,
    i: usize,
    kids: Vec<Vec<Act>>, // spawned when it completes
    kids_at: usize,
    env: Rc<Env>,
    sp: LocalSpawner,
    id: usize,
    w: W,
    done: bool,
    woken: Arc<AtomicBool>,
    wait: bool,
}
impl Future for Task {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.done {
            self.w.fault("term", "a completed task was polled again");
            return Poll::Ready(());
        }
        if self.wait && !self.woken.load(Ordering::SeqCst) {
            // spurious poll while blocked: keep waiting
            let mut st = self.env.stash.borrow_mut();
            let id = self.id;
            st.retain(|x| x.0 != id);
            st.push((id, cx.waker().clone()));
            return Poll::Pending;
        }
        if self.wait {
            self.wait = false;
        }
        if self.i == self.kids_at {
            for k in std::mem::take(&mut self.kids) {
                spawn(&self.sp, &self.env, &self.w, k, vec![], 0, None);
            }
        }
        if self.i < self.acts.len() {
            let a = self.acts[self.i];
            self.i += 1;
            match a {
                Act::Yield => cx.waker().wake_by_ref(),
                Act::Foreign => {
                    std::thread::current().unpark();
                    cx.waker().wake_by_ref();
                    std::thread::park();
                }
                Act::Remote(s) => {
                    let _ = waker_thread().send((cx.waker().clone(), s));
                }
                Act::Block => {
                    self.wait = true;
                    self.woken.store(false, Ordering::SeqCst);
                    let id = self.id;
                    self.env.runnable.set(self.env.runnable.get() - 1);
                    self.env.stash.borrow_mut().push((id, cx.waker().clone()));
                }
            }
            return Poll::Pending;
        }
        self.done = true;
        self.env.completed.set(self.env.completed.get() + 1);
        self.env.runnable.set(self.env.runnable.get() - 1);
        Poll::Ready(())
    }
}
thread_local!(static FLAGS: RefCell<Vec<(usize, Arc<AtomicBool>)>> = const { RefCell::new(vec![]) });
fn spawn(sp: &LocalSpawner, env: &Rc<Env>, w: &W, acts: Vec<Act>, kids: Vec<Vec<Act>>, kids_at: usize, how: Option<bool>) {
    let id = env.spawned.get();
    env.spawned.set(id + 1);
    env.runnable.set(env.runnable.get() + 1);
    let woken = Arc::new(AtomicBool::new(false));
    FLAGS.with(|f| f.borrow_mut().push((id, woken.clone())));
    let t = Task { acts, i: 0, kids, kids_at, env: env.clone(), sp: sp.clone(), id, w: w.clone(), done: false, woken, wait: false };
    let r = if how == Some(true) { sp.spawn_local_obj(Box::new(t).into()) } else { sp.spawn_local(t) };
    if r.is_err() {
        w.fault("core", "spawning on a live pool failed");
    }
}
fn acts(c: &mut Ch, blocking: bool) -> Vec<Act> {
    let n = c.pick(if c.is_random() { 5 } else { 3 });
    (0..n)
        .map(|_| match c.pick(if blocking { 3 } else { 4 }) {
            0 => Act::Yield,
            1 if blocking => Act::Block,
            1 => Act::Remote(c.pick(2) as u32 * 150),
            2 => Act::Foreign,
            _ => Act::Remote(0),
        })
        .collect()
}
fn fill(c: &mut Ch, w: &W, sp: &LocalSpawner, env: &Rc<Env>, blocking: bool) {
    let n = c.pick(if c.is_random() { 5 } else { 3 });
    for _ in 0..n {
        let a = acts(c, blocking);
        let k = (0..c.pick(3)).map(|_| acts(c, blocking)).collect::<Vec<_>>();
        let at = if k.is_empty() { 0 } else { a.len() - c.pick(a.len() + 1) };
        w.note(format!("spawn {:?}, at {} spawning {:?}", a, at, k));
        spawn(sp, env, w, a, k, at, Some(c.flag()));
    }
}
fn release(env: &Env, all: bool, c: &mut Ch) {
    let v: Vec<(usize, Waker)> = if all {
        env.stash.borrow_mut().drain(..).collect()
    } else {
        let n = env.stash.borrow().len();
        if n == 0 {
            return;
        }
        let i = c.pick(n);
        vec![env.stash.borrow_mut().remove(i)]
    };
    for (id, wk) in v {
        FLAGS.with(|f| {
            for x in f.borrow().iter() {
                if x.0 == id {
                    x.1.store(true, Ordering::SeqCst);
                }
            }
        });
        env.runnable.set(env.runnable.get() + 1);
        wk.wake();
    }
}
fn fresh() -> (LocalPool, LocalSpawner, Rc<Env>) {
    FLAGS.with(|f| f.borrow_mut().clear());
    let p = LocalPool::new();
    let s = p.spawner();
    (p, s, Rc::new(Env::default()))
}
fn e_run(c: &mut Ch, w: &W) {
    let (mut p, s, env) = fresh();
    fill(c, w, &s, &env, false);
    p.run();
    if env.completed.get() != env.spawned.get() {
        w.fault("core", format!("run() returned with {} of {} tasks complete", env.completed.get(), env.spawned.get()));
    }
    if executor::enter().is_err() {
        w.fault("core", "enter() refused after run() returned");
    }
}
struct MainF {
    acts: Vec<Act>,
    i: usize,
    spawn_at: Option<(usize, LocalSpawner, Rc<Env>)>,
    w: W,
    done: bool,
}
impl Future for MainF {
    type Output = i32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<i32> {
        if self.done {
            self.w.fault("term", "the main future was polled after it completed");
        }
        let i = self.i;
        if let Some((at, s, e)) = &self.spawn_at {
            if *at == i {
                spawn(s, e, &self.w, vec![Act::Yield], vec![], 0, None);
            }
        }
        self.i += 1;
        if i < self.acts.len() {
            match self.acts[i] {
                Act::Yield | Act::Block => cx.waker().wake_by_ref(),
                Act::Foreign => {
                    std::thread::current().unpark();
                    cx.waker().wake_by_ref();
                    std::thread::park();
                }
                Act::Remote(s) => {
                    let _ = waker_thread().send((cx.waker().clone(), s));
                }
            }
            return Poll::Pending;
        }
        self.done = true;
        Poll::Ready(4711)
    }
}
fn e_run_until(c: &mut Ch, w: &W) {
    let (mut p, s, env) = fresh();
    fill(c, w, &s, &env, false);
    let a = acts(c, false);
    let k = a.len();
    let spawn_at = if c.flag() { Some((c.pick(k + 1), s.clone(), env.clone())) } else { None };
    w.note(format!("run_until {:?}", a));
    let r = p.run_until(MainF { acts: a, i: 0, spawn_at, w: w.clone(), done: false });
    if r != 4711 {
        w.fault("core", "run_until returned another value");
    }
    let before = env.completed.get();
    p.run();
    if env.completed.get() != env.spawned.get() || before > env.spawned.get() {
        w.fault("core", format!("after run_until and run: {} of {} tasks complete", env.completed.get(), env.spawned.get()));
    }
}
/// run_until drives the tasks: the main future waits for a task of the pool
fn e_run_until_task(c: &mut Ch, w: &W) {
    let (mut p, s, env) = fresh();
    let n = 1 + c.pick(3);
    let a: Vec<Act> = (0..n).map(|_| if c.flag() { Act::Yield } else { Act::Remote(0) }).collect();
    let via = c.flag();
    w.note(format!("run_until(handle of {:?})", a));
    let (tx, rx) = futures::channel::oneshot::channel::<i32>();
    let inner = MainF { acts: a, i: 0, spawn_at: None, w: w.clone(), done: false };
    let f = async move {
        let v = inner.await;
        let _ = tx.send(v);
    };
    let r = if via {
        // spawned by the main future itself
        let s2 = s.clone();
        p.run_until(async move {
            s2.spawn_local(f).unwrap();
            rx.await
        })
    } else {
        s.spawn_local(f).unwrap();
        p.run_until(rx)
    };
    if r != Ok(4711) {
        w.fault("core", "a task's result did not reach the main future");
    }
    let _ = env;
}
fn settle(c: &mut Ch, w: &W, p: &mut LocalPool, s: &LocalSpawner, env: &Rc<Env>) {
    let steps = 1 + c.pick(if c.is_random() { 12 } else { 5 });
    for _ in 0..steps {
        match c.pick(4) {
            0 => fill(c, w, s, env, true),
            1 => {
                w.note("wake a blocked task");
                release(env, false, c);
            }
            2 => {
                w.note("try_run_one");
                let b = env.completed.get();
                let r = p.try_run_one();
                let d = env.completed.get() - b;
                if r && d != 1 || !r && d != 0 {
                    w.fault("core", format!("try_run_one returned {} after completing {} tasks", r, d));
                }
                if !r && env.runnable.get() > 0 {
                    w.fault("wake", format!("try_run_one returned false although {} tasks can make progress", env.runnable.get()));
                }
            }
            _ => {
                w.note("run_until_stalled");
                p.run_until_stalled();
                if env.runnable.get() > 0 {
                    w.fault("wake", format!("run_until_stalled returned although {} tasks can make progress", env.runnable.get()));
                }
            }
        }
    }
}
fn e_stalled(c: &mut Ch, w: &W) {
    let (mut p, s, env) = fresh();
    settle(c, w, &mut p, &s, &env);
    for _ in 0..60 {
        release(&env, true, c);
        p.run_until_stalled();
    }
    if env.completed.get() != env.spawned.get() {
        w.fault("core", format!("{} of {} tasks complete at the end", env.completed.get(), env.spawned.get()));
    }
}
fn e_block_on(c: &mut Ch, w: &W) {
    let a = acts(c, false);
    w.note(format!("block_on {:?}", a));
    let k = a.len();
    let mut f = MainF { acts: a, i: 0, spawn_at: None, w: w.clone(), done: false };
    let r = executor::block_on(&mut f);
    if r != 4711 || f.i < k + 1 {
        w.fault("core", "block_on returned another value, or too early");
    }
    // polled again only after a wake-up (a stale one from an earlier run may add one turn)
    if f.i > k + 3 {
        w.fault("core", format!("{} polls for {} wake-ups", f.i, k));
    }
}
fn e_block_on_stream(c: &mut Ch, w: &W) {
    let n = c.pick(4) as i32;
    let y = c.flag();
    let s = futures::stream::unfold(0, move |i| async move {
        if y {
            let mut first = true;
            futures::future::poll_fn(|cx| {
                if first {
                    first = false;
                    let _ = waker_thread().send((cx.waker().clone(), 0));
                    Poll::Pending
                } else {
                    Poll::Ready(())
                }
            })
            .await;
        }
        if i < n { Some((i, i + 1)) } else { None }
    });
    let v: Vec<i32> = executor::block_on_stream(Box::pin(s)).collect();
    if v != (0..n).collect::<Vec<_>>() {
        w.fault("core", format!("block_on_stream yields {:?}", v));
    }
}
fn e_enter(c: &mut Ch, w: &W) {
    match c.pick(4) {
        0 => {
            let e = executor::enter();
            if e.is_err() || executor::enter().is_ok() {
                w.fault("core", "enter() nests or refuses");
            }
            drop(e);
            if executor::enter().is_err() {
                w.fault("core", "enter() refused although no executor is running");
            }
        }
        1 => {
            let r = executor::block_on(async { catch_unwind(AssertUnwindSafe(|| executor::block_on(async {}))).is_err() });
            if !r {
                w.fault("core", "a nested executor was allowed");
            }
        }
        2 => {
            let r = catch_unwind(AssertUnwindSafe(|| executor::block_on(async { panic!("x") })));
            if r.is_ok() {
                w.fault("core", "panic lost");
            }
        }
        _ => {
            let s = { let p = LocalPool::new(); p.spawner() };
            if s.spawn_local(async {}).is_ok() || s.spawn(async {}).is_ok() || s.status().is_ok() || s.status_local().is_ok() {
                w.fault("core", "spawning on a pool that is gone succeeded");
            }
            let p = LocalPool::new();
            let s = p.spawner();
            if s.status().is_err() || s.status_local().is_err() || s.spawn(async {}).is_err() {
                w.fault("core", "a live pool refuses tasks");
            }
        }
    }
    if executor::enter().is_err() {
        w.fault("core", "the thread is still marked as executing");
    }
}
// ---- ThreadPool
struct PT {
    acts: Vec<(u8, u32)>,
    i: usize,
    busy: Arc<AtomicBool>,
    faults: Arc<Mutex<Vec<String>>>,
    done: Arc<AtomicUsize>,
    fin: bool,
}
impl Future for PT {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.busy.swap(true, Ordering::SeqCst) {
            self.faults.lock().unwrap().push("a task was polled by two threads at once".into());
        }
        if self.fin {
            self.faults.lock().unwrap().push("a completed task was polled again".into());
        }
        let i = self.i;
        self.i += 1;
        let r = if i < self.acts.len() {
            match self.acts[i] {
                (0, _) => cx.waker().wake_by_ref(),
                (1, s) => {
                    let _ = waker_thread().send((cx.waker().clone(), s));
                }
                (_, s) => {
                    // two wake-ups: one during the poll, one later
                    cx.waker().wake_by_ref();
                    let _ = waker_thread().send((cx.waker().clone(), s));
                }
            }
            Poll::Pending
        } else {
            self.fin = true;
            self.done.fetch_add(1, Ordering::SeqCst);
            Poll::Ready(())
        };
        self.busy.store(false, Ordering::SeqCst);
        r
    }
}
fn e_pool(c: &mut Ch, w: &W) {
    if !c.is_random() || c.pick(100) != 0 {
        return;
    }
    let size = 1 + c.pick(4);
    let hooks: Arc<Mutex<Vec<(bool, usize)>>> = Arc::default();
    let (h1, h2) = (hooks.clone(), hooks.clone());
    let p = ThreadPoolBuilder::new()
        .pool_size(size)
        .after_start(move |i| h1.lock().unwrap().push((true, i)))
        .before_stop(move |i| h2.lock().unwrap().push((false, i)))
        .create()
        .unwrap();
    let n = 1 + c.pick(20);
    w.note(format!("{} workers, {} tasks", size, n));
    let faults: Arc<Mutex<Vec<String>>> = Arc::default();
    let done = Arc::new(AtomicUsize::new(0));
    let (dtx, drx) = mpsc::channel::<()>();
    for _ in 0..n {
        let k = c.pick(6);
        let t = PT { acts: (0..k).map(|_| (c.pick(3) as u8, c.pick(60) as u32)).collect(), i: 0, busy: Arc::default(), faults: faults.clone(), done: done.clone(), fin: false };
        let d = dtx.clone();
        let f = async move {
            t.await;
            let _ = d.send(());
        };
        match c.pick(3) {
            0 => p.spawn_ok(f),
            1 => p.spawn_obj_ok(Box::pin(f).into()),
            _ => {
                if (&p).spawn(f).is_err() {
                    w.fault("core", "spawning on a live pool failed");
                }
            }
        }
    }
    let p2 = if c.flag() { Some(p.clone()) } else { None };
    let early = c.flag();
    if early && p2.is_none() {
        // every handle is gone: the tasks that were spawned still run
        drop(p);
    } else if early {
        drop(p); // the clone keeps the pool going
        for _ in 0..n {
            if drx.recv_timeout(Duration::from_secs(20)).is_err() {
                break;
            }
        }
        let (tx, rx) = mpsc::channel();
        p2.as_ref().unwrap().spawn_ok(async move {
            let _ = tx.send(());
        });
        if rx.recv_timeout(Duration::from_secs(20)).is_err() {
            w.fault("core", "the pool stopped although a handle is alive");
        }
    } else {
        for _ in 0..n {
            if drx.recv_timeout(Duration::from_secs(20)).is_err() {
                w.fault("wake", format!("{} of {} tasks complete within 20 s", done.load(Ordering::SeqCst), n));
                break;
            }
        }
        drop(p);
    }
    drop(p2);
    let t0 = std::time::Instant::now();
    loop {
        let d = done.load(Ordering::SeqCst);
        let stops = hooks.lock().unwrap().iter().filter(|x| !x.0).count();
        if d == n && stops == size {
            break;
        }
        if t0.elapsed() > Duration::from_secs(20) {
            w.fault("wake", format!("{} of {} tasks complete, {} of {} workers stopped 20 s after the last handle was dropped", d, n, stops, size));
            break;
        }
        std::thread::yield_now();
    }
    for f in faults.lock().unwrap().drain(..) {
        w.fault("core", f);
    }
    let mut h = hooks.lock().unwrap().clone();
    h.sort();
    let want: Vec<(bool, usize)> = (0..size).map(|i| (false, i)).chain((0..size).map(|i| (true, i))).collect();
    if h != want && w.faults.borrow().is_empty() {
        w.fault("core", format!("hooks ran {:?}", h));
    }
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        (
            "local_pool",
            vec![
                ("run", e_run as fn(&mut Ch, &W)),
                ("run_until", e_run_until),
                ("run_until_task", e_run_until_task),
                ("stalled", e_stalled),
                ("block_on", e_block_on),
                ("block_on_stream", e_block_on_stream),
                ("enter", e_enter),
            ],
        ),
        ("thread_pool", vec![("pool", e_pool as fn(&mut Ch, &W))]),
    ]
}
