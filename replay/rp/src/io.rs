//! asynchronous I/O adapters over scripted readers and writers
use crate::core::*;
use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, IoSlice, IoSliceMut, SeekFrom};
use futures_util::io::{self as fio, AsyncBufReadExt, AsyncReadExt, AsyncSeekExt, AsyncWriteExt, BufReader, BufWriter, LineWriter};
use futures_util::{SinkExt, StreamExt, TryStreamExt};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Debug)]
enum REv {
    Data(Vec<u8>),
    Pend,
    Err,
}
pub struct Gate {
    pub w: W,
    id: usize,
    name: String,
    waiting: Option<Rc<Cell<bool>>>,
}
impl Gate {
    pub fn new(w: &W, name: &str) -> Self {
        Gate { w: w.clone(), id: w.id(), name: name.into(), waiting: None }
    }
    /// still waiting for the event?
    pub fn blocked(&mut self, cx: &mut Context<'_>) -> bool {
        if let Some(f) = &self.waiting {
            if !f.get() {
                self.w.register(self.id, &self.name, cx.waker(), &f.clone());
                return true;
            }
            self.waiting = None;
        }
        false
    }
    pub fn block(&mut self, cx: &mut Context<'_>) {
        let f = Rc::new(Cell::new(false));
        self.w.register(self.id, &self.name, cx.waker(), &f);
        self.waiting = Some(f);
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        self.w.unregister(self.id);
    }
}
fn oerr() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "scripted")
}
struct Rd {
    g: Gate,
    ev: VecDeque<REv>,
    zero_reads: Rc<Cell<usize>>,
}
impl Rd {
    fn new(w: &W, name: &str, ev: Vec<REv>) -> Self {
        w.note(format!("reader {}={:?}", name, ev));
        Rd { g: Gate::new(w, name), ev: ev.into(), zero_reads: Rc::new(Cell::new(0)) }
    }
}
impl AsyncRead for Rd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut b = match self.as_mut().poll_fill_buf(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r?,
        };
        let n = io::Read::read(&mut b, buf)?;
        self.consume(n);
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Rd {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.g.blocked(cx) {
            return Poll::Pending;
        }
        match this.ev.front() {
            Some(REv::Pend) => {
                this.ev.pop_front();
                this.g.block(cx);
                Poll::Pending
            }
            Some(REv::Err) => {
                this.ev.pop_front();
                Poll::Ready(Err(oerr()))
            }
            None => Poll::Ready(Ok(&[])),
            Some(REv::Data(_)) => match this.ev.front() {
                Some(REv::Data(d)) => Poll::Ready(Ok(d)),
                _ => unreachable!(),
            },
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        if amt == 0 {
            return;
        }
        let done = match self.ev.front_mut() {
            Some(REv::Data(d)) => {
                if amt > d.len() {
                    let l = d.len();
                    self.g.w.fault("core", format!("consume({}) with {} bytes exposed", amt, l));
                    return;
                }
                d.drain(..amt);
                d.is_empty()
            }
            _ => {
                self.g.w.fault("core", format!("consume({}) with no bytes exposed", amt));
                return;
            }
        };
        if done {
            self.ev.pop_front();
        }
    }
}
/// a writer whose behaviour per call is decided by a script
#[derive(Clone, Debug)]
enum WEv {
    Take(usize),
    Pend,
    Err,
}
struct Wr {
    g: Gate,
    ev: VecDeque<WEv>,
    got: Rc<RefCell<Vec<u8>>>,
    flushed: Rc<Cell<usize>>, // bytes covered by the last successful flush
    closed: Rc<Cell<bool>>,
    max: usize,
}
#[derive(Clone)]
struct WH {
    got: Rc<RefCell<Vec<u8>>>,
    flushed: Rc<Cell<usize>>,
    closed: Rc<Cell<bool>>,
}
impl Wr {
    fn new(w: &W, name: &str, ev: Vec<WEv>) -> (Self, WH) {
        w.note(format!("writer {}={:?}", name, ev));
        let x = Wr { g: Gate::new(w, name), ev: ev.into(), got: Default::default(), flushed: Rc::new(Cell::new(0)), closed: Rc::new(Cell::new(false)), max: usize::MAX };
        let h = WH { got: x.got.clone(), flushed: x.flushed.clone(), closed: x.closed.clone() };
        (x, h)
    }
    fn ctl(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.g.blocked(cx) {
            return Poll::Pending;
        }
        match self.ev.pop_front() {
            Some(WEv::Pend) => {
                self.g.block(cx);
                Poll::Pending
            }
            Some(WEv::Err) => Poll::Ready(Err(oerr())),
            _ => Poll::Ready(Ok(())),
        }
    }
}
impl AsyncWrite for Wr {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.g.blocked(cx) {
            return Poll::Pending;
        }
        if self.closed.get() {
            self.g.w.fault("core", "write after close");
        }
        let n = match self.ev.pop_front() {
            Some(WEv::Pend) => {
                self.g.block(cx);
                return Poll::Pending;
            }
            Some(WEv::Err) => return Poll::Ready(Err(oerr())),
            Some(WEv::Take(n)) => n.min(buf.len()),
            None => buf.len().min(self.max),
        };
        self.got.borrow_mut().extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.ctl(cx) {
            Poll::Ready(Ok(())) => {
                self.flushed.set(self.got.borrow().len());
                Poll::Ready(Ok(()))
            }
            r => r,
        }
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.ctl(cx) {
            Poll::Ready(Ok(())) => {
                self.closed.set(true);
                self.flushed.set(self.got.borrow().len());
                Poll::Ready(Ok(()))
            }
            r => r,
        }
    }
}
fn rscript(c: &mut Ch, max: usize, errs: bool, alpha: &[u8]) -> (Vec<REv>, Vec<u8>) {
    let max = if c.is_random() { max + 5 } else { max };
    let n = c.pick(max + 1);
    let mut all = vec![];
    let mut v = vec![];
    for _ in 0..n {
        match c.pick(if errs { 5 } else { 4 }) {
            3 => v.push(REv::Pend),
            4 => v.push(REv::Err),
            k => {
                let d: Vec<u8> = (0..k + 1).map(|_| if alpha.is_empty() { (all.len() as u8).wrapping_add(1) } else { alpha[c.pick(alpha.len())] }).collect();
                // sequential bytes
                let d: Vec<u8> = if alpha.is_empty() { (0..d.len()).map(|i| (all.len() + i + 1) as u8).collect() } else { d };
                all.extend(&d);
                v.push(REv::Data(d));
            }
        }
    }
    (v, all)
}
fn wscript(c: &mut Ch, max: usize, errs: bool, zero: bool) -> Vec<WEv> {
    let max = if c.is_random() { max + 6 } else { max };
    let n = c.pick(max + 1);
    let mut v = vec![];
    for _ in 0..n {
        match c.pick(4 + errs as usize) {
            0 => v.push(WEv::Pend),
            1 => v.push(WEv::Take(1)),
            2 => v.push(WEv::Take(3)),
            3 => v.push(WEv::Take(if zero { 0 } else { 2 })),
            _ => v.push(WEv::Err),
        }
    }
    v
}
/// read everything through the adapter with buffers of chosen sizes; errors are retried
fn slurp<R: AsyncRead + Unpin>(w: &W, c: &mut Ch, r: &mut R, want: &[u8], sizes: &[usize]) {
    let mut got = vec![];
    let mut empty = 0; // reads into an empty buffer, at most two
    for _ in 0..200 {
        let n = if empty == 2 { sizes.iter().filter(|x| **x > 0).count() } else { sizes.len() };
        let k = sizes[c.pick(n)];
        empty += usize::from(k == 0);
        let mut buf = vec![0u8; k];
        let x = match run_poll(w, c, 200, |cx| Pin::new(&mut *r).poll_read(cx, &mut buf)) {
            Out::Stuck => return,
            Out::Val(x) => x,
        };
        match x {
            Ok(n) => {
                if n > k {
                    w.fault("core", format!("read returned {} for a buffer of {}", n, k));
                    return;
                }
                got.extend_from_slice(&buf[..n]);
                if !want.starts_with(&got) {
                    w.fault("core", format!("read bytes {:?}, expected {:?}", got, want));
                    return;
                }
                if n == 0 && k > 0 {
                    if got != want {
                        w.fault("core", format!("end of data after {:?}, expected {:?}", got, want));
                    }
                    return;
                }
            }
            Err(e) => {
                if e.to_string() != "scripted" {
                    w.fault("core", format!("unexpected error {}", e));
                    return;
                }
            }
        }
    }
    w.fault("core", "no end of data after 200 reads");
}
/// the same through poll_fill_buf/consume
fn slurp_buf<R: AsyncBufRead + Unpin>(w: &W, c: &mut Ch, r: &mut R, want: &[u8]) {
    let mut got = vec![];
    for _ in 0..200 {
        let x = match run_poll(w, c, 200, |cx| match Pin::new(&mut *r).poll_fill_buf(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(b)) => Poll::Ready(Ok(b.to_vec())),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        }) {
            Out::Stuck => return,
            Out::Val(x) => x,
        };
        match x {
            Ok(b) => {
                let mut e = got.clone();
                e.extend_from_slice(&b);
                if !want.starts_with(&e) {
                    w.fault("core", format!("exposed bytes {:?}, expected {:?}", e, want));
                    return;
                }
                if b.is_empty() {
                    if got != want {
                        w.fault("core", format!("end of data after {:?}, expected {:?}", got, want));
                    }
                    return;
                }
                let n = c.pick(b.len() + 1);
                let n = if n == 0 { b.len() } else { n };
                Pin::new(&mut *r).consume(n);
                got.extend_from_slice(&b[..n]);
            }
            Err(_) => {}
        }
    }
    w.fault("core", "no end of data after 200 reads");
}
fn slurp_vec<R: AsyncRead + Unpin>(w: &W, c: &mut Ch, r: &mut R, want: &[u8]) {
    let mut got: Vec<u8> = vec![];
    let mut empty = 0;
    for _ in 0..200 {
        let (a, b) = ([0usize, 1, 3][c.pick(3)], [2usize, 1, 5, 0][c.pick(if empty == 2 { 3 } else { 4 })]);
        empty += usize::from(a + b == 0);
        let (mut x, mut y) = (vec![0u8; a], vec![0u8; b]);
        let res = {
            let mut bufs = [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)];
            match run_poll(w, c, 200, |cx| Pin::new(&mut *r).poll_read_vectored(cx, &mut bufs)) {
                Out::Stuck => return,
                Out::Val(x) => x,
            }
        };
        if let Ok(n) = res {
            if n > a + b {
                w.fault("core", format!("vectored read returned {} for buffers of {}+{}", n, a, b));
                return;
            }
            let mut all = x;
            all.extend(y);
            got.extend_from_slice(&all[..n]);
            if !want.starts_with(&got) {
                w.fault("core", format!("vectored read bytes {:?}, expected {:?}", got, want));
                return;
            }
            if n == 0 && a + b > 0 {
                if got != want {
                    w.fault("core", format!("end of data after {:?}, expected {:?}", got, want));
                }
                return;
            }
        }
    }
    w.fault("core", "no end of data after 200 reads");
}
fn any_slurp<R: AsyncBufRead + Unpin>(w: &W, c: &mut Ch, r: &mut R, want: &[u8]) {
    match c.pick(3) {
        0 => slurp(w, c, r, want, &[1, 2, 4, 0]),
        1 => slurp_buf(w, c, r, want),
        _ => slurp_vec(w, c, r, want),
    }
}
fn i_chain(c: &mut Ch, w: &W) {
    let (a, ab) = rscript(c, 2, true, &[]);
    let (b, bb) = rscript(c, 2, true, &[]);
    let mut all = ab;
    all.extend(bb);
    let mut r = Rd::new(w, "a", a).chain(Rd::new(w, "b", b));
    any_slurp(w, c, &mut r, &all);
}
fn i_take(c: &mut Ch, w: &W) {
    let (a, ab) = rscript(c, 3, true, &[]);
    let n = c.pick(6);
    w.note(format!("take {}", n));
    let mut r = Rd::new(w, "a", a).take(n as u64);
    any_slurp(w, c, &mut r, &ab[..n.min(ab.len())]);
    let left = (n - n.min(ab.len())) as u64;
    if w.faults.borrow().is_empty() {
        if r.limit() != left {
            w.fault("core", format!("limit() = {} with {} bytes left to deliver", r.limit(), left));
        }
        // raising the limit continues where it stopped
        r.set_limit(100);
        slurp(w, c, &mut r, &ab[n.min(ab.len())..], &[1, 3]);
    }
}
fn i_bufreader(c: &mut Ch, w: &W) {
    let (a, ab) = rscript(c, 3, true, &[]);
    let cap = 1 + c.pick(4);
    w.note(format!("capacity {}", cap));
    let mut r = BufReader::with_capacity(cap, Rd::new(w, "a", a));
    if c.flag() {
        any_slurp(w, c, &mut r, &ab);
    } else {
        // a mixture of operations
        let mut pos = 0;
        for _ in 0..6 {
            let k = c.pick(4);
            if k == 0 {
                let x = match run_poll(w, c, 100, |cx| Pin::new(&mut r).poll_fill_buf(cx).map(|x| x.map(|b| b.to_vec()))) {
                    Out::Stuck => return,
                    Out::Val(x) => x,
                };
                if let Ok(b) = x {
                    if !ab[pos..].starts_with(&b) || (b.is_empty() && pos < ab.len()) || b.len() > cap {
                        w.fault("core", format!("fill_buf at {} gave {:?} of {:?}", pos, b, ab));
                        return;
                    }
                    if r.buffer() != &b[..] {
                        w.fault("core", "buffer() differs from what poll_fill_buf returned");
                    }
                    let n = c.pick(b.len() + 1);
                    Pin::new(&mut r).consume(n);
                    pos += n;
                }
            } else {
                let mut buf = vec![0u8; [0, 1, 2, 6][k]];
                let x = match run_poll(w, c, 100, |cx| Pin::new(&mut r).poll_read(cx, &mut buf)) {
                    Out::Stuck => return,
                    Out::Val(x) => x,
                };
                if let Ok(n) = x {
                    if !ab[pos..].starts_with(&buf[..n]) || (n == 0 && pos < ab.len()) {
                        w.fault("core", format!("read at {} gave {:?} of {:?}", pos, &buf[..n], ab));
                        return;
                    }
                    pos += n;
                }
            }
        }
    }
}
/// a seekable in-memory source with scripted Pending
struct SeekRd {
    g: Gate,
    data: Vec<u8>,
    pos: u64,
    pend: VecDeque<bool>,
}
impl SeekRd {
    fn gate(&mut self, cx: &mut Context<'_>) -> bool {
        if self.g.blocked(cx) {
            return true;
        }
        if self.pend.pop_front() == Some(true) {
            self.g.block(cx);
            return true;
        }
        false
    }
}
impl AsyncRead for SeekRd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.gate(cx) {
            return Poll::Pending;
        }
        let p = (self.pos as usize).min(self.data.len());
        let n = buf.len().min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Poll::Ready(Ok(n))
    }
}
impl AsyncSeek for SeekRd {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<io::Result<u64>> {
        if self.gate(cx) {
            return Poll::Pending;
        }
        let p = match pos {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.data.len() as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidInput, "seek")));
        }
        self.pos = p as u64;
        Poll::Ready(Ok(self.pos))
    }
}
fn i_seek(c: &mut Ch, w: &W) {
    let data: Vec<u8> = (1..=8).collect();
    let pend: VecDeque<bool> = (0..3).map(|_| c.flag()).collect();
    w.note(format!("pend {:?}", pend));
    let cap = [1, 3, 5][c.pick(3)];
    let mut r = BufReader::with_capacity(cap, SeekRd { g: Gate::new(w, "r"), data: data.clone(), pos: 0, pend });
    let mut pos: i64 = 0;
    if c.flag() {
        w.note("fill the buffer and consume all of it");
        let Some(x) = drive_fut(w, c, r.fill_buf()) else { return };
        let n = x.unwrap().len();
        r.consume_unpin(n);
        pos += n as i64;
    }
    for _ in 0..3 {
        match c.pick(4) {
            0 => {
                let mut buf = [0u8; 6];
                let k = [2, 6][c.pick(2)];
                let vec = c.flag();
                w.note(format!("read {} {}", k, if vec { "vectored" } else { "" }));
                let Some(x) = (if vec {
                    let (x, y) = buf[..k].split_at_mut(1);
                    drive_fut(w, c, r.read_vectored(&mut [io::IoSliceMut::new(x), io::IoSliceMut::new(y)]))
                } else {
                    drive_fut(w, c, r.read(&mut buf[..k]))
                }) else {
                    return;
                };
                let n = x.unwrap();
                let p = (pos as usize).min(8);
                if data[p..].starts_with(&buf[..n]) == false || (n == 0 && p < 8) {
                    w.fault("core", format!("read at {} gave {:?}", pos, &buf[..n]));
                    return;
                }
                pos += n as i64;
            }
            1 => {
                let off = [0i64, 1, -1, 4, -3, i64::MIN, -8][c.pick(7)];
                w.note(format!("seek_relative {}", off));
                let Some(x) = drive_fut(w, c, Pin::new(&mut r).seek_relative(off)) else { return };
                match x {
                    Ok(()) => {
                        if pos + off < 0 {
                            w.fault("core", "seek_relative before the start succeeded");
                            return;
                        }
                        pos += off
                    }
                    Err(_) => {
                        if pos + off >= 0 {
                            w.fault("core", format!("seek_relative({}) at {} failed", off, pos));
                            return;
                        }
                    }
                }
            }
            2 => {
                let off = [0i64, 2, -2, i64::MIN][c.pick(4)];
                w.note(format!("seek current {}", off));
                let Some(x) = drive_fut(w, c, r.seek(SeekFrom::Current(off))) else { return };
                match x {
                    Ok(n) => {
                        if pos + off < 0 {
                            w.fault("core", "seek before the start succeeded");
                            return;
                        }
                        pos += off;
                        if n as i64 != pos {
                            w.fault("core", format!("seek returned {} instead of {}", n, pos));
                            return;
                        }
                    }
                    Err(_) => {
                        if pos + off >= 0 {
                            w.fault("core", "seek failed");
                            return;
                        }
                    }
                }
            }
            _ => {
                let s = c.pick(9) as u64;
                w.note(format!("seek start {}", s));
                let Some(x) = drive_fut(w, c, r.seek(SeekFrom::Start(s))) else { return };
                if x.unwrap() != s {
                    w.fault("core", "seek from start reports another position");
                }
                pos = s as i64;
            }
        }
    }
    if c.flag() {
        let Some(_) = drive_fut(w, c, r.seek(SeekFrom::Current(0))) else { return };
    }
    let mut v = vec![];
    if let Some(x) = drive_fut(w, c, r.read_to_end(&mut v)) {
        x.unwrap();
        let p = (pos as usize).min(8);
        if v != data[p..] {
            w.fault("core", format!("after seeking to {} read {:?}", pos, v));
        }
    }
}
fn i_read_exact(c: &mut Ch, w: &W) {
    let (a, ab) = rscript(c, 3, false, &[]);
    let n = c.pick(6);
    let mut buf = vec![0u8; n];
    let mut r = Rd::new(w, "a", a);
    let res = drive_fut(w, c, r.read_exact(&mut buf));
    match res {
        None => {}
        Some(Ok(())) => {
            if ab.len() < n || buf != ab[..n] {
                w.fault("core", format!("read_exact({}) gave {:?} of {:?}", n, buf, ab));
            } else {
                slurp(w, c, &mut r, &ab[n..], &[2]); // nothing beyond n was taken
            }
        }
        Some(Err(e)) => {
            if e.kind() != io::ErrorKind::UnexpectedEof || ab.len() >= n {
                w.fault("core", format!("read_exact({}) of {:?} failed with {}", n, ab, e));
            }
        }
    }
}
fn first_err(ev: &[REv]) -> Option<Vec<u8>> {
    let mut v = vec![];
    for e in ev {
        match e {
            REv::Data(d) => v.extend(d),
            REv::Pend => {}
            REv::Err => return Some(v),
        }
    }
    None
}
fn i_read_to_end(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (a, ab) = rscript(c, 3, errs, &[]);
    let fe = first_err(&a);
    let mut v = vec![99u8, 98];
    if c.flag() {
        v.reserve(1);
    } else {
        v.shrink_to_fit();
    }
    let mut r = Rd::new(w, "a", a);
    if let Some(x) = drive_fut(w, c, r.read_to_end(&mut v)) {
        match (x, &fe) {
            (Ok(n), None) => {
                if v[..2] != [99, 98] || v[2..] != ab[..] || n != ab.len() {
                    w.fault("core", format!("read_to_end gave {:?} ({})", v, n));
                }
            }
            (Err(_), Some(p)) => {
                if v[..2] != [99, 98] || v[2..] != p[..] {
                    w.fault("core", format!("read_to_end before an error gave {:?}, expected {:?}", v, p));
                }
            }
            (x, _) => w.fault("core", format!("read_to_end returned {:?}", x)),
        }
    }
}
fn i_read_to_end_big(c: &mut Ch, w: &W) {
    // larger than the adaptive buffer
    let n = [31usize, 32, 33, 64, 100, 5000][c.pick(6)];
    let chunk = [1usize, 7, 32, 4096][c.pick(4)];
    let all: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    let mut ev = vec![];
    for (i, d) in all.chunks(chunk).enumerate() {
        if i % 3 == 1 {
            ev.push(REv::Pend);
        }
        ev.push(REv::Data(d.to_vec()));
    }
    w.note(format!("{} bytes in chunks of {}", n, chunk));
    let mut r = Rd { g: Gate::new(w, "big"), ev: ev.into(), zero_reads: Rc::new(Cell::new(0)) };
    let mut v = vec![];
    let mut f = r.read_to_end(&mut v);
    let out = loop {
        let (_f, wk) = new_waker();
        match std::future::Future::poll(Pin::new(&mut f), &mut Context::from_waker(&wk)) {
            Poll::Ready(x) => break x,
            Poll::Pending => {
                if w.regs.borrow().is_empty() {
                    w.fault("wake", "pending without registration");
                    return;
                }
                w.regs.borrow()[0].ready.set(true)
            }
        }
    };
    if out.unwrap() != n || v != all {
        w.fault("core", format!("read_to_end of {} bytes gave {} bytes", n, v.len()));
    }
}
fn i_read_until(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (a, ab) = rscript(c, 3, errs, &[7, 8]);
    let mut r = Rd::new(w, "a", a);
    let mut rest = &ab[..];
    let mut v = vec![1u8];
    for _ in 0..12 {
        let before = v.len();
        let Some(x) = drive_fut(w, c, r.read_until(8, &mut v)) else { return };
        let n = rest.iter().position(|b| *b == 8).map(|i| i + 1).unwrap_or(rest.len());
        match x {
            Ok(k) => {
                if k != n && before == 1 || !rest.starts_with(&v[before..]) || v[0] != 1 || (v.len() - before) != k || k != n {
                    w.fault("core", format!("read_until gave {:?} ({}), rest {:?}", &v[before..], k, rest));
                    return;
                }
                rest = &rest[n..];
                if k == 0 {
                    if !rest.is_empty() {
                        w.fault("core", "read_until reported the end too early");
                    }
                    return;
                }
            }
            Err(_) => {
                // what was read before the error is in v
                let k = v.len() - before;
                if !rest.starts_with(&v[before..]) || k > n {
                    w.fault("core", format!("read_until before an error gave {:?}, rest {:?}", &v[before..], rest));
                    return;
                }
                rest = &rest[k..];
            }
        }
    }
}
const UTF: [u8; 5] = [b'a', b'\n', 0xc3, 0xa9, b'\r'];
/// errors make the position of the reader unspecified only for the failed call: the line in progress is lost, later ones are intact
fn i_lines(c: &mut Ch, w: &W) {
    let (a, ab) = rscript(c, 4, false, &UTF);
    let mut r = Rd::new(w, "a", a).lines();
    let mut rest = &ab[..];
    for _ in 0..40 {
        let x = match run_poll(w, c, 200, |cx| r.poll_next_unpin(cx)) {
            Out::Stuck => return,
            Out::Val(x) => x,
        };
        if rest.is_empty() {
            if x.is_some() {
                w.fault("core", format!("extra line {:?}", x));
            }
            return;
        }
        let n = rest.iter().position(|b| *b == b'\n').map(|i| i + 1).unwrap_or(rest.len());
        let mut line = &rest[..n];
        rest = &rest[n..];
        let ok = std::str::from_utf8(line).is_ok();
        if line.ends_with(b"\n") {
            line = &line[..line.len() - 1];
            if line.ends_with(b"\r") {
                line = &line[..line.len() - 1];
            }
        }
        match x {
            Some(Ok(s)) if ok && s.as_bytes() == line => {}
            Some(Err(e)) if !ok && e.kind() == io::ErrorKind::InvalidData => {}
            x => {
                w.fault("core", format!("line {:?}: got {:?}", line, x));
                return;
            }
        }
    }
}
fn i_lines_err(c: &mut Ch, w: &W) {
    // a failing read drops the line in progress; no byte of it may appear in a later line
    let (a, _) = rscript(c, 4, true, b"ab\n");
    let mut want: Vec<Result<Vec<u8>, ()>> = vec![];
    let mut cur = vec![];
    for e in &a {
        match e {
            REv::Pend => {}
            REv::Err => {
                want.push(Err(()));
                cur.clear();
            }
            REv::Data(d) => {
                for b in d {
                    if *b == b'\n' {
                        want.push(Ok(std::mem::take(&mut cur)));
                    } else {
                        cur.push(*b);
                    }
                }
            }
        }
    }
    if !cur.is_empty() {
        want.push(Ok(cur));
    }
    let mut r = Rd::new(w, "a", a).lines();
    let mut i = 0;
    loop {
        let x = match run_poll(w, c, 200, |cx| r.poll_next_unpin(cx)) {
            Out::Stuck => return,
            Out::Val(x) => x,
        };
        let x = x.map(|r| r.map(|s| s.into_bytes()).map_err(|_| ()));
        if x.as_ref() != want.get(i) {
            w.fault("core", format!("lines item #{} is {:?}, expected {:?}", i, x, want.get(i)));
            return;
        }
        if x.is_none() {
            return;
        }
        i += 1;
    }
}
fn i_read_line(c: &mut Ch, w: &W) {
    let (a, ab) = rscript(c, 4, false, &UTF);
    let mut r = Rd::new(w, "a", a);
    let mut rest = &ab[..];
    let mut s = String::from("x");
    let mut want = s.clone();
    for _ in 0..40 {
        let Some(x) = drive_fut(w, c, r.read_line(&mut s)) else { return };
        let n = rest.iter().position(|b| *b == b'\n').map(|i| i + 1).unwrap_or(rest.len());
        let line = &rest[..n];
        rest = &rest[n..];
        match (x, std::str::from_utf8(line)) {
            (Ok(k), Ok(l)) if k == n => want.push_str(l),
            (Err(e), Err(_)) if e.kind() == io::ErrorKind::InvalidData => {}
            (x, _) => {
                w.fault("core", format!("read_line of {:?}: {:?}", line, x));
                return;
            }
        }
        if s != want {
            w.fault("core", format!("buffer {:?}, expected {:?}", s, want));
            return;
        }
        if n == 0 {
            return;
        }
    }
}
fn i_read_to_string(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (a, ab) = rscript(c, 3, errs, &UTF);
    let fe = first_err(&a);
    let mut r = Rd::new(w, "a", a);
    let mut s = String::from("x");
    let Some(x) = drive_fut(w, c, r.read_to_string(&mut s)) else { return };
    // (on an error the buffer's content is documented as discarded)
    if std::str::from_utf8(s.as_bytes()).is_err() || (x.is_ok() && !s.starts_with('x')) {
        w.fault("core", "read_to_string left invalid UTF-8 or lost what was there");
        return;
    }
    match (x, std::str::from_utf8(&ab), fe) {
        (Ok(n), Ok(t), None) if n == ab.len() && &s[1..] == t => {}
        (Err(e), Err(_), None) if e.kind() == io::ErrorKind::InvalidData => {}
        (Err(_), _, Some(_)) => {}
        (x, _, _) => w.fault("core", format!("read_to_string of {:?}: {:?} {:?}", ab, x, s)),
    }
}
fn i_copy(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let (a, ab) = rscript(c, 3, errs, &[]);
    let ev = wscript(c, 2, errs, errs);
    let trouble = a.iter().any(|e| matches!(e, REv::Err)) || ev.iter().any(|e| matches!(e, WEv::Err | WEv::Take(0)));
    let (mut wr, h) = Wr::new(w, "w", ev);
    let rd = Rd::new(w, "a", a);
    let k = c.pick(3);
    let x = match k {
        0 => drive_fut(w, c, fio::copy_buf(rd, &mut wr)),
        1 => drive_fut(w, c, fio::copy(rd, &mut wr)),
        _ => {
            let (f, _hd) = fio::copy_buf_abortable(rd, &mut wr);
            drive_fut(w, c, f).map(|x| x.map(|y| y.unwrap()))
        }
    };
    let Some(x) = x else { return };
    let got = h.got.borrow();
    match x {
        Ok(n) => {
            if *got != ab || n != ab.len() as u64 {
                w.fault("core", format!("copy moved {:?} ({}), expected {:?}", got, n, ab));
            } else if h.flushed.get() != ab.len() {
                w.fault("core", "copy completed without flushing");
            }
        }
        Err(e) => {
            if !trouble {
                w.fault("core", format!("copy failed with {}", e));
            } else if !ab.starts_with(&got) {
                w.fault("core", format!("copy wrote {:?} of {:?}", got, ab));
            }
        }
    }
}
/// nothing is accepted: write_all fails and does not ask for ever; a sink accepts what it is given
fn i_write_nothing(c: &mut Ch, w: &W) {
    struct Full(usize);
    impl AsyncWrite for Full {
        fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> {
            self.0 += 1;
            if self.0 > 50 {
                return Poll::Ready(Err(oerr()));
            }
            Poll::Ready(Ok(0))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
    let lens: Vec<usize> = (0..c.pick(4)).map(|_| c.pick(3)).collect();
    let bufs: Vec<Vec<u8>> = lens.iter().map(|n| vec![1; *n]).collect();
    let total: usize = lens.iter().sum();
    w.note(format!("buffers {:?}", lens));
    let mut ios: Vec<IoSlice<'_>> = bufs.iter().map(|b| IoSlice::new(b)).collect();
    let mut k = fio::sink();
    let x = drive_fut(w, c, async { k.write_vectored(&ios).await });
    if !matches!(x, Some(Ok(n)) if n <= total && (n > 0 || total == 0)) {
        w.fault("core", format!("sink accepted {:?} of {} bytes", x.map(|r| r.ok()), total));
    }
    let mut f = Full(0);
    let all: Vec<u8> = bufs.concat();
    let (x, asked) = if c.flag() {
        (drive_fut(w, c, f.write_all_vectored(&mut ios)), f.0)
    } else {
        (drive_fut(w, c, f.write_all(&all)), f.0)
    };
    match x {
        Some(Ok(())) if total == 0 => {}
        Some(Err(e)) if total > 0 && e.kind() == io::ErrorKind::WriteZero && asked == 1 => {}
        x => w.fault("core", format!("write_all of {:?} to a full writer: {:?}, asked {} times", lens, x.map(|r| r.map_err(|e| e.kind())), asked)),
    }
}
fn i_write_all(c: &mut Ch, w: &W) {
    let n = c.pick(6);
    let data: Vec<u8> = (1..=n as u8).collect();
    let errs = c.flag();
    let ev = wscript(c, 3, errs, errs);
    let trouble = ev.iter().any(|e| matches!(e, WEv::Err | WEv::Take(0)));
    let (mut wr, h) = Wr::new(w, "w", ev);
    let x = if c.flag() {
        drive_fut(w, c, wr.write_all(&data))
    } else {
        let k = c.pick(n + 1);
        let mut bufs = [IoSlice::new(&data[..k]), IoSlice::new(&[]), IoSlice::new(&data[k..])];
        drive_fut(w, c, wr.write_all_vectored(&mut bufs))
    };
    let Some(x) = x else { return };
    let got = h.got.borrow();
    match x {
        Ok(()) if *got == data => {}
        Err(_) if trouble && data.starts_with(&got) => {}
        x => w.fault("core", format!("write_all of {:?} wrote {:?}: {:?}", data, got, x)),
    }
}
/// drive a buffering writer through a sequence of writes, flushes and a close
fn wdrive<B: AsyncWrite + Unpin>(w: &W, c: &mut Ch, b: &mut B, h: &WH, line: bool) {
    let mut all: Vec<u8> = vec![];
    let steps = if c.is_random() { 6 } else { 3 };
    for _ in 0..steps {
        match c.pick(5) {
            0 => {
                let f0 = h.flushed.get();
                let Some(x) = drive_fut(w, c, b.flush()) else { return };
                if x.is_ok() && (*h.got.borrow() != all || h.flushed.get() != all.len()) {
                    w.fault("core", format!("flush completed: destination has {:?} (flushed {} -> {}), accepted {:?}", h.got.borrow(), f0, h.flushed.get(), all));
                    return;
                }
            }
            k => {
                let n = [0usize, 1, 2, 5, 3][k];
                let mut d: Vec<u8> = (0..n).map(|i| (all.len() + i + 1) as u8 + 20).collect();
                if line && n > 0 && c.flag() {
                    let i = c.pick(n);
                    d[i] = b'\n';
                }
                w.note(format!("write {:?}", d));
                let vec = c.flag();
                let x = if vec {
                    let j = c.pick(n + 1);
                    let bufs = [IoSlice::new(&d[..j]), IoSlice::new(&d[j..])];
                    match run_poll(w, c, 100, |cx| Pin::new(&mut *b).poll_write_vectored(cx, &bufs)) {
                        Out::Stuck => return,
                        Out::Val(x) => x,
                    }
                } else {
                    let Some(x) = drive_fut(w, c, b.write(&d)) else { return };
                    x
                };
                if let Ok(k) = x {
                    if k > n {
                        w.fault("core", format!("write of {} bytes reports {}", n, k));
                        return;
                    }
                    all.extend_from_slice(&d[..k]);
                }
                if !all.starts_with(&h.got.borrow()) {
                    w.fault("core", format!("destination has {:?}, accepted {:?}", h.got.borrow(), all));
                    return;
                }
                if line && !vec {
                    if let Ok(k) = x {
                        if let Some(p) = d[..k].iter().rposition(|b| *b == b'\n') {
                            let upto = all.len() - k + p + 1;
                            let _ = upto;
                        }
                    }
                }
            }
        }
    }
    for _ in 0..6 {
        let Some(x) = drive_fut(w, c, b.close()) else { return };
        if x.is_ok() {
            if *h.got.borrow() != all {
                w.fault("core", format!("closed with {:?} delivered of {:?} accepted", h.got.borrow(), all));
            }
            if !h.closed.get() {
                w.fault("core", "close completed without closing the destination");
            }
            return;
        }
    }
}
fn i_bufwriter(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let ev = wscript(c, 3, errs, false);
    let (wr, h) = Wr::new(w, "w", ev);
    let cap = [1, 3, 4][c.pick(3)];
    w.note(format!("capacity {}", cap));
    let mut b = BufWriter::with_capacity(cap, wr);
    wdrive(w, c, &mut b, &h, false);
}
fn i_linewriter(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let ev = wscript(c, 3, errs, false);
    let (wr, h) = Wr::new(w, "w", ev);
    let cap = [2, 4][c.pick(2)];
    w.note(format!("capacity {}", cap));
    let mut b = LineWriter::with_capacity(cap, wr);
    wdrive(w, c, &mut b, &h, true);
}
/// a complete line accepted in one write has reached the destination
struct SeekWr {
    g: Gate,
    data: Rc<RefCell<Vec<u8>>>,
    pos: usize,
    pend: VecDeque<bool>,
}
impl SeekWr {
    fn gate(&mut self, cx: &mut Context<'_>) -> bool {
        if self.g.blocked(cx) {
            return true;
        }
        if self.pend.pop_front() == Some(true) {
            self.g.block(cx);
            return true;
        }
        false
    }
}
impl AsyncWrite for SeekWr {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.gate(cx) {
            return Poll::Pending;
        }
        let n = buf.len().min(2);
        for x in &buf[..n] {
            let mut d = self.data.borrow_mut();
            if self.pos >= d.len() {
                d.resize(self.pos + 1, 0);
            }
            d[self.pos] = *x;
            drop(d);
            self.pos += 1;
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for SeekWr {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<io::Result<u64>> {
        if self.gate(cx) {
            return Poll::Pending;
        }
        let p = match pos {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.data.borrow().len() as i64 + n,
            SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if p < 0 {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidInput, "seek")));
        }
        self.pos = p as usize;
        Poll::Ready(Ok(p as u64))
    }
}
// BufWriter on a file: writes and seeks as on the file itself
fn i_bufwriter_seek(c: &mut Ch, w: &W) {
    let pend: VecDeque<bool> = (0..4).map(|_| c.flag()).collect();
    w.note(format!("pend {:?}", pend));
    let cap = [1, 3, 5][c.pick(3)];
    let data = Rc::new(RefCell::new(vec![]));
    let mut b = BufWriter::with_capacity(cap, SeekWr { g: Gate::new(w, "w"), data: data.clone(), pos: 0, pend });
    let (mut want, mut pos, mut next) = (vec![], 0usize, 1u8);
    for _ in 0..4 {
        if c.flag() {
            let d: Vec<u8> = (0..1 + c.pick(4)).map(|i| next + i as u8).collect();
            next += d.len() as u8;
            w.note(format!("write {:?}", d));
            let Some(x) = drive_fut(w, c, b.write_all(&d)) else { return };
            x.unwrap();
            for x in d {
                if pos >= want.len() {
                    want.resize(pos + 1, 0);
                }
                want[pos] = x;
                pos += 1;
            }
        } else {
            let s = [SeekFrom::Current(0), SeekFrom::Current(-1), SeekFrom::Start(1), SeekFrom::End(0), SeekFrom::End(-2)][c.pick(5)];
            w.note(format!("seek {:?}", s));
            let to = match s {
                SeekFrom::Start(n) => n as i64,
                SeekFrom::End(n) => want.len() as i64 + n,
                SeekFrom::Current(n) => pos as i64 + n,
            };
            let Some(x) = drive_fut(w, c, b.seek(s)) else { return };
            match x {
                Ok(n) if n as i64 != to => {
                    w.fault("core", format!("seek returned {} instead of {}", n, to));
                    return;
                }
                Ok(_) => pos = to as usize,
                Err(_) if to >= 0 => {
                    w.fault("core", "seek failed");
                    return;
                }
                Err(_) => {}
            }
        }
    }
    let Some(_) = drive_fut(w, c, b.flush()) else { return };
    if *data.borrow() != want {
        w.fault("core", format!("the file holds {:?}, not {:?}", data.borrow(), want));
    }
}
fn i_linewriter_lines(c: &mut Ch, w: &W) {
    let (wr, h) = Wr::new(w, "w", vec![]);
    let mut b = LineWriter::with_capacity(64, wr);
    let mut all = vec![];
    for _ in 0..3 {
        let n = 1 + c.pick(4);
        let mut d: Vec<u8> = (0..n).map(|i| (all.len() + i + 1) as u8 + 20).collect();
        if c.flag() {
            let i = c.pick(n);
            d[i] = b'\n';
        }
        w.note(format!("write {:?}", d));
        if c.flag() {
            let k = c.pick(n + 1);
            w.note(format!("in two slices, {} first", k));
            let Some(x) = drive_fut(w, c, b.write_vectored(&[io::IoSlice::new(&d[..k]), io::IoSlice::new(&d[k..])])) else { return };
            all.extend(&d[..x.unwrap()]);
        } else {
            let Some(x) = drive_fut(w, c, b.write_all(&d)) else { return };
            x.unwrap();
            all.extend(&d);
        }
        let lines = all.iter().rposition(|b| *b == b'\n').map(|i| i + 1).unwrap_or(0);
        if h.got.borrow().len() < lines || !all.starts_with(&h.got.borrow()) {
            w.fault("core", format!("destination has {:?} after writing {:?}", h.got.borrow(), all));
            return;
        }
    }
}
fn i_into_sink(c: &mut Ch, w: &W) {
    let errs = c.flag();
    let ev = wscript(c, 3, errs, errs);
    let trouble = ev.iter().any(|e| matches!(e, WEv::Err | WEv::Take(0)));
    let (wr, h) = Wr::new(w, "w", ev);
    let mut s = Box::pin(wr.into_sink::<Vec<u8>>());
    let mut all = vec![];
    for i in 0..3u8 {
        let d: Vec<u8> = (0..c.pick(4) as u8).map(|k| i * 10 + k).collect();
        w.note(format!("send {:?}", d));
        let fed = c.flag();
        let x = if fed { drive_fut(w, c, s.feed(d.clone())) } else { drive_fut(w, c, s.send(d.clone())) };
        let Some(x) = x else { return };
        match x {
            Ok(()) => {
                all.extend(d);
                if !fed && (*h.got.borrow() != all || h.flushed.get() != all.len()) {
                    w.fault("core", format!("send completed, destination has {:?} of {:?}", h.got.borrow(), all));
                    return;
                }
            }
            Err(e) => {
                if !trouble {
                    w.fault("core", format!("send failed: {}", e));
                }
                return;
            }
        }
        if !all.starts_with(&h.got.borrow()) {
            w.fault("core", format!("destination has {:?} of {:?}", h.got.borrow(), all));
            return;
        }
    }
    let Some(x) = drive_fut(w, c, s.close()) else { return };
    match x {
        Ok(()) => {
            if *h.got.borrow() != all || !h.closed.get() {
                w.fault("core", format!("closed with {:?} of {:?}", h.got.borrow(), all));
            }
        }
        Err(e) => {
            if !trouble {
                w.fault("core", format!("close failed: {}", e));
            }
        }
    }
}
fn i_into_async_read(c: &mut Ch, w: &W) {
    let n = c.pick(4);
    let mut ev = vec![];
    let mut all = vec![];
    let mut failed = false;
    for _ in 0..n {
        match c.pick(5) {
            0 => ev.push(Ev::Pend),
            1 => {
                ev.push(Ev::Item(Err(1)));
                failed = true;
            }
            k => {
                let d: Vec<u8> = (0..k - 2).map(|i| (all.len() + i + 1) as u8).collect();
                if !failed {
                    all.extend(&d);
                }
                ev.push(Ev::Item(Ok(d)));
            }
        }
    }
    // slurp numbers bytes; after a failure the reader reports the end
    let mut r = Src::new(w, "s", ev).map_err(|_: i32| oerr()).into_async_read();
    any_slurp(w, c, &mut r, &all);
}
struct Both(Rd, Wr);
impl AsyncRead for Both {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}
impl AsyncWrite for Both {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.1).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.1).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.1).poll_close(cx)
    }
}
fn i_split(c: &mut Ch, w: &W) {
    let (a, ab) = rscript(c, 2, false, &[]);
    let ev = wscript(c, 2, false, false);
    let (wr, h) = Wr::new(w, "w", ev);
    let (mut rh, mut wh) = Both(Rd::new(w, "a", a), wr).split();
    if !rh.is_pair_of(&wh) || !wh.is_pair_of(&rh) {
        w.fault("core", "halves do not recognise each other");
    }
    let data = [1u8, 2, 3];
    let mut v = vec![];
    let res = {
        let f = futures_util::future::join(rh.read_to_end(&mut v), async {
            wh.write_all(&data).await?;
            wh.close().await
        });
        drive_fut(w, c, f)
    };
    if let Some((a, b)) = res {
        a.unwrap();
        b.unwrap();
        if v != ab || *h.got.borrow() != data || !h.closed.get() {
            w.fault("core", format!("split: read {:?}, wrote {:?}", v, h.got.borrow()));
        }
        match rh.reunite(wh) {
            Ok(_) => {}
            Err(_) => w.fault("core", "reunite of matching halves failed"),
        }
    }
}
/// std reader/writer with interruptions
struct Std {
    ev: VecDeque<u8>,
    data: Vec<u8>,
    got: Rc<RefCell<Vec<u8>>>,
}
impl Std {
    fn step(&mut self) -> io::Result<usize> {
        match self.ev.pop_front() {
            Some(0) => Err(io::Error::new(io::ErrorKind::Interrupted, "int")),
            Some(1) => Err(oerr()),
            Some(n) => Ok(n as usize),
            None => Ok(100),
        }
    }
}
impl io::Read for Std {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.step()?.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data.drain(..n);
        Ok(n)
    }
}
impl io::BufRead for Std {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.step()?;
        Ok(&self.data)
    }
    fn consume(&mut self, n: usize) {
        self.data.drain(..n);
    }
}
impl io::Write for Std {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step()?.min(buf.len());
        self.got.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.step()?;
        Ok(())
    }
}
fn std_io(c: &mut Ch, w: &W) -> (Std, Rc<RefCell<Vec<u8>>>, Vec<u8>) {
    let ev: VecDeque<u8> = (0..c.pick(4)).map(|_| c.pick(4) as u8).collect();
    let data: Vec<u8> = (1..=c.pick(5) as u8).collect();
    w.note(format!("std script {:?} data {:?}", ev, data));
    let g: Rc<RefCell<Vec<u8>>> = Default::default();
    (Std { ev, data: data.clone(), got: g.clone() }, g, data)
}
fn i_allow_std_r(c: &mut Ch, w: &W) {
    let (s, _, data) = std_io(c, w);
    let mut r = fio::AllowStdIo::new(s);
    any_slurp(w, c, &mut r, &data);
}
fn i_allow_std_w(c: &mut Ch, w: &W) {
    let (s, got, _) = std_io(c, w);
    let fails = s.ev.iter().any(|e| *e == 1);
    let mut wr = fio::AllowStdIo::new(s);
    let data = [1u8, 2, 3, 4];
    let Some(x) = drive_fut(w, c, async {
        wr.write_all(&data).await?;
        wr.flush().await
    }) else {
        return;
    };
    match x {
        Ok(()) if *got.borrow() == data => {}
        Err(_) if fails && data.starts_with(&got.borrow()) => {}
        x => w.fault("core", format!("AllowStdIo write: {:?}, got {:?}", x, got.borrow())),
    }
}
/// std writer that keeps what it accepted until it is flushed
struct Lazy {
    buf: Vec<u8>,
    out: Rc<RefCell<Vec<u8>>>,
    ev: Vec<usize>,
}
impl io::Write for Lazy {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(3);
        self.buf.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.ev.pop() {
            Some(1) => Err(io::ErrorKind::Interrupted.into()),
            Some(2) => Err(io::ErrorKind::Other.into()),
            _ => {
                self.out.borrow_mut().append(&mut self.buf);
                Ok(())
            }
        }
    }
}
fn i_allow_std_close(c: &mut Ch, w: &W) {
    let out = Rc::new(RefCell::new(vec![]));
    let ev: Vec<usize> = (0..c.pick(3)).map(|_| c.pick(3)).collect();
    let hard = ev.iter().rev().take_while(|x| **x != 0).any(|x| *x == 2);
    let mut wr = fio::AllowStdIo::new(Lazy { buf: vec![], out: out.clone(), ev });
    let data = [1u8, 2, 3, 4];
    let close = c.flag();
    let Some(x) = drive_fut(w, c, async {
        wr.write_all(&data).await?;
        if close { wr.close().await } else { wr.flush().await }
    }) else {
        return;
    };
    match x {
        Ok(()) if !hard && *out.borrow() == data => {}
        Err(_) if hard && out.borrow().is_empty() => {}
        x => w.fault("core", format!("AllowStdIo {}: {:?}, {:?} reached the destination", if close { "close" } else { "flush" }, x, out.borrow())),
    }
}
/// the asynchronous Cursor is the Cursor of the standard library
fn i_cursor(c: &mut Ch, w: &W) {
    use std::io::{BufRead, Read, Seek, Write};
    let d: Vec<u8> = (1..=c.pick(5) as u8).collect();
    let mut a = fio::Cursor::new(d.clone());
    let mut b = io::Cursor::new(d);
    let (_, wk) = new_waker();
    let mut cx = Context::from_waker(&wk);
    for _ in 0..4 {
        let op = c.pick(8);
        let (x, y) = match op {
            0 => {
                let (mut p, mut q) = ([0u8; 3], [0u8; 3]);
                let n = c.pick(4);
                (format!("{:?} {:?}", Pin::new(&mut a).poll_read(&mut cx, &mut p[..n]).map(|r| r.ok()), p), format!("{:?} {:?}", Poll::Ready(b.read(&mut q[..n]).ok()), q))
            }
            1 | 2 | 3 => {
                let k = c.pick(9) as i64 - 4;
                let p = match op {
                    1 => SeekFrom::Start(k.unsigned_abs()),
                    2 => SeekFrom::Current(k),
                    _ => SeekFrom::End(k),
                };
                (format!("{:?}", Pin::new(&mut a).poll_seek(&mut cx, p).map(|r| r.ok())), format!("{:?}", Poll::Ready(b.seek(p).ok())))
            }
            4 => (format!("{:?}", Pin::new(&mut a).poll_fill_buf(&mut cx).map(|r| r.unwrap().to_vec())), format!("{:?}", Poll::Ready(b.fill_buf().unwrap().to_vec()))),
            5 => {
                let n = c.pick(3);
                Pin::new(&mut a).consume(n);
                b.consume(n);
                (String::new(), String::new())
            }
            6 => {
                let v = vec![9u8; c.pick(3)];
                (format!("{:?}", Pin::new(&mut a).poll_write(&mut cx, &v).map(|r| r.ok())), format!("{:?}", Poll::Ready(b.write(&v).ok())))
            }
            _ => {
                let v = [IoSlice::new(&[7, 8]), IoSlice::new(&[]), IoSlice::new(&[6])];
                (format!("{:?}", Pin::new(&mut a).poll_write_vectored(&mut cx, &v).map(|r| r.ok())), format!("{:?}", Poll::Ready(b.write_vectored(&v).ok())))
            }
        };
        if x != y || a.position() != b.position() || a.get_ref() != b.get_ref() {
            w.fault("core", format!("Cursor operation {}: {} at {}, {:?}; std: {} at {}, {:?}", op, x, a.position(), a.get_ref(), y, b.position(), b.get_ref()));
            return;
        }
    }
}
fn i_memory(c: &mut Ch, w: &W) {
    match c.pick(6) {
        0 => slurp(w, c, &mut fio::empty(), &[], &[1, 3]),
        1 => {
            let mut buf = vec![0u8; c.pick(5)];
            let mut r = fio::repeat(7);
            let (mut b1, mut b2) = (vec![0u8; c.pick(3)], vec![0u8; c.pick(3)]);
            let n = b1.len() + b2.len();
            let x = drive_fut(w, c, async { r.read_vectored(&mut [IoSliceMut::new(&mut b1), IoSliceMut::new(&mut b2)]).await });
            // a vectored read fills a prefix of the buffers and counts it
            let k = match x {
                Some(Ok(k)) => k,
                _ => usize::MAX,
            };
            let all: Vec<u8> = b1.into_iter().chain(b2).collect();
            if k > n || (n > 0 && k == 0) || all[..k].iter().any(|b| *b != 7) || all[k..].iter().any(|b| *b != 0) {
                w.fault("core", format!("repeat, vectored: {} bytes reported, buffers {:?}", k, all));
            }
            let e = drive_fut(w, c, async { fio::empty().read_vectored(&mut [IoSliceMut::new(&mut [0; 2])]).await });
            if !matches!(e, Some(Ok(0))) {
                w.fault("core", "empty() delivered something");
            }
            if let Some(x) = drive_fut(w, c, r.read(&mut buf)) {
                if x.unwrap() != buf.len() || buf.iter().any(|b| *b != 7) {
                    w.fault("core", "repeat did not fill the buffer");
                }
            }
        }
        2 => {
            let d: Vec<u8> = (1..=c.pick(6) as u8).collect();
            let mut r = fio::Cursor::new(d.clone());
            any_slurp(w, c, &mut r, &d);
        }
        3 => {
            let d: Vec<u8> = (1..=c.pick(6) as u8).collect();
            let mut r = &d[..];
            any_slurp(w, c, &mut r, &d);
        }
        4 => {
            // Cursor over a fixed slice: a full cursor accepts nothing more
            let mut mem = [0u8; 4];
            let n = c.pick(7);
            let d: Vec<u8> = (1..=n as u8).collect();
            let x = {
                let mut cur = fio::Cursor::new(&mut mem[..]);
                drive_fut(w, c, cur.write_all(&d))
            };
            let Some(x) = x else { return };
            let k = n.min(4);
            if x.is_ok() != (n <= 4) || mem[..k] != d[..k] {
                w.fault("core", format!("cursor write: {:?} {:?}", x.is_ok(), mem));
            }
        }
        _ => {
            let d: Vec<u8> = (0..6).collect();
            let (a, b) = (c.pick(7), c.pick(7));
            if a <= b {
                let mut win = fio::Window::new(d.clone());
                win.set(a..b);
                if win.as_ref() != &d[a..b] || win.start() != a || win.end() != b {
                    w.fault("core", "Window shows the wrong range");
                }
            }
        }
    }
}
fn i_fill_buf(c: &mut Ch, w: &W) {
    let (a, ab) = rscript(c, 3, false, &[]);
    let mut r = Rd::new(w, "a", a);
    let mut got = vec![];
    for _ in 0..30 {
        let Some(x) = drive_fut(w, c, r.fill_buf()) else { return };
        let b = x.unwrap().to_vec();
        if b.is_empty() {
            break;
        }
        let n = 1 + c.pick(b.len());
        r.consume_unpin(n);
        got.extend_from_slice(&b[..n]);
    }
    if got != ab && w.faults.borrow().is_empty() {
        w.fault("core", format!("fill_buf gave {:?} of {:?}", got, ab));
    }
}
fn i_abort_copy(c: &mut Ch, w: &W) {
    // aborting wakes and stops a pending copy
    let (a, ab) = rscript(c, 2, false, &[]);
    let mut a = a;
    a.push(REv::Pend);
    let (mut wr, h) = Wr::new(w, "w", wscript(c, 1, false, false));
    let rd = Rd::new(w, "a", a);
    let (mut f, hd) = fio::copy_buf_abortable(rd, &mut wr);
    let at = c.pick(4);
    let mut f = unsafe { Pin::new_unchecked(&mut f) };
    for i in 0..20 {
        let (fl, wk) = new_waker();
        match std::future::Future::poll(f.as_mut(), &mut Context::from_waker(&wk)) {
            Poll::Ready(Ok(Err(_))) => {
                if i < at {
                    w.fault("core", "aborted without abort()");
                }
                if !ab.starts_with(&h.got.borrow()) {
                    w.fault("core", "aborted copy wrote something else");
                }
                return;
            }
            Poll::Ready(Ok(Ok(n))) => {
                if i > at && at > 0 {
                    // abort was requested before the last poll
                    w.fault("core", "completed although aborted before the poll");
                }
                if n != ab.len() as u64 {
                    w.fault("core", "wrong count");
                }
                return;
            }
            Poll::Ready(Err(e)) => {
                w.fault("core", e.to_string());
                return;
            }
            Poll::Pending => {
                if i == at {
                    w.note("abort");
                    hd.abort();
                    if !fl.0.load(std::sync::atomic::Ordering::SeqCst) {
                        w.fault("wake", "abort() did not wake the pending copy");
                        return;
                    }
                } else {
                    if w.regs.borrow().is_empty() {
                        w.fault("wake", "pending without registration");
                        return;
                    }
                    let k = w.regs.borrow().len();
                    let k = c.pick(k);
                    w.fire(k);
                }
            }
        }
    }
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("ioread", vec![
            ("chain", i_chain as fn(&mut Ch, &W)), ("take", i_take), ("buf_reader", i_bufreader), ("buf_reader_seek", i_seek), ("read_exact", i_read_exact),
            ("read_to_end", i_read_to_end), ("read_to_end_big", i_read_to_end_big), ("read_until", i_read_until), ("lines", i_lines), ("lines_err", i_lines_err),
            ("read_line", i_read_line), ("read_to_string", i_read_to_string), ("into_async_read", i_into_async_read), ("allow_std", i_allow_std_r), ("memory", i_memory), ("cursor", i_cursor), ("vectored", crate::ptr::p_vectored), ("fill_buf", i_fill_buf), ("split", i_split),
        ]),
        ("iowrite", vec![
            ("copy", i_copy as fn(&mut Ch, &W)), ("copy_abort", i_abort_copy), ("write_all", i_write_all), ("write_nothing", i_write_nothing), ("buf_writer", i_bufwriter), ("line_writer", i_linewriter), ("line_writer_lines", i_linewriter_lines), ("buf_writer_seek", i_bufwriter_seek),
            ("into_sink", i_into_sink), ("allow_std", i_allow_std_w), ("allow_std_close", i_allow_std_close), ("cursor", i_cursor), ("vectored", crate::ptr::p_vectored), ("split", i_split),
        ]),
    ]
}
