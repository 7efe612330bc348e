//! Streams, futures, sinks, readers and writers behind a pointer: each call reaches the object itself, once, with
//! its arguments, and its answer comes back.
use crate::core::*;
use futures_core::future::FusedFuture;
use futures_core::stream::FusedStream;
use futures_core::{Stream, TryFuture, TryStream};
use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, IoSlice, IoSliceMut, SeekFrom};
use futures_sink::Sink;
use futures_util::future::Either;
use futures_util::io::{BufReader, BufWriter};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// answers with `ans`, logs every call
struct Rec {
    log: Rc<RefCell<Vec<String>>>,
    ans: usize,
    wk: std::task::Waker,
    data: Vec<u8>,
}
impl Rec {
    fn call(&self, s: String) {
        self.log.borrow_mut().push(s);
    }
    fn cxs(&self, cx: &Context<'_>) -> &'static str {
        if cx.waker().will_wake(&self.wk) {
            "cx"
        } else {
            "other-cx"
        }
    }
    fn unit(&self) -> Poll<Result<(), i32>> {
        match self.ans % 3 {
            0 => Poll::Pending,
            1 => Poll::Ready(Ok(())),
            _ => Poll::Ready(Err(self.ans as i32)),
        }
    }
    fn num(&self, max: usize) -> Poll<io::Result<usize>> {
        match self.ans % 3 {
            0 => Poll::Pending,
            1 => Poll::Ready(Ok(max.min(self.ans))),
            _ => Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, format!("e{}", self.ans)))),
        }
    }
}
impl Stream for Rec {
    type Item = Result<i32, i32>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<i32, i32>>> {
        self.call(format!("poll_next {}", self.cxs(cx)));
        match self.ans % 4 {
            0 => Poll::Pending,
            1 => Poll::Ready(None),
            2 => Poll::Ready(Some(Ok(self.ans as i32))),
            _ => Poll::Ready(Some(Err(self.ans as i32))),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.call("size_hint".into());
        (self.ans, Some(self.ans + 3))
    }
}
impl FusedStream for Rec {
    fn is_terminated(&self) -> bool {
        self.call("s.is_terminated".into());
        self.ans % 2 == 0
    }
}
impl Future for Rec {
    type Output = Result<i32, i32>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<i32, i32>> {
        self.call(format!("poll {}", self.cxs(cx)));
        match self.ans % 3 {
            0 => Poll::Pending,
            1 => Poll::Ready(Ok(self.ans as i32)),
            _ => Poll::Ready(Err(self.ans as i32)),
        }
    }
}
impl FusedFuture for Rec {
    fn is_terminated(&self) -> bool {
        self.call("f.is_terminated".into());
        self.ans % 2 == 0
    }
}
impl Sink<i32> for Rec {
    type Error = i32;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), i32>> {
        self.call(format!("poll_ready {}", self.cxs(cx)));
        self.unit()
    }
    fn start_send(self: Pin<&mut Self>, item: i32) -> Result<(), i32> {
        self.call(format!("start_send {}", item));
        if self.ans % 2 == 0 {
            Ok(())
        } else {
            Err(self.ans as i32)
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), i32>> {
        self.call(format!("sink.poll_flush {}", self.cxs(cx)));
        self.unit()
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), i32>> {
        self.call(format!("sink.poll_close {}", self.cxs(cx)));
        self.unit()
    }
}
fn ioe(r: Poll<Result<(), i32>>) -> Poll<io::Result<()>> {
    r.map_err(|e| io::Error::new(io::ErrorKind::Other, format!("e{}", e)))
}
impl AsyncRead for Rec {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.call(format!("poll_read {} {}", self.cxs(cx), buf.len()));
        if !buf.is_empty() {
            buf[0] = self.ans as u8;
        }
        self.num(buf.len())
    }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        self.call(format!("poll_read_vectored {} {:?}", self.cxs(cx), bufs.iter().map(|b| b.len()).collect::<Vec<_>>()));
        self.num(bufs.iter().map(|b| b.len()).sum())
    }
}
impl AsyncBufRead for Rec {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        self.call(format!("poll_fill_buf {}", self.cxs(cx)));
        let this = self.get_mut();
        match this.ans % 3 {
            0 => Poll::Pending,
            1 => Poll::Ready(Ok(&this.data)),
            _ => Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, format!("e{}", this.ans)))),
        }
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        self.call(format!("consume {}", amt));
    }
}
impl AsyncSeek for Rec {
    fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<io::Result<u64>> {
        self.call(format!("poll_seek {} {:?}", self.cxs(cx), pos));
        self.num(1000).map_ok(|x| x as u64)
    }
}
impl AsyncWrite for Rec {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.call(format!("poll_write {} {:?}", self.cxs(cx), buf));
        self.num(buf.len())
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.call(format!("poll_write_vectored {} {:?}", self.cxs(cx), bufs.iter().map(|b| b.to_vec()).collect::<Vec<_>>()));
        self.num(bufs.iter().map(|b| b.len()).sum())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.call(format!("io.poll_flush {}", self.cxs(cx)));
        ioe(self.unit())
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.call(format!("io.poll_close {}", self.cxs(cx)));
        ioe(self.unit())
    }
}
trait All: Stream<Item = Result<i32, i32>> + FusedStream + Future<Output = Result<i32, i32>> + FusedFuture + Sink<i32, Error = i32> + AsyncRead + AsyncBufRead + AsyncSeek + AsyncWrite + Unpin {}
impl<T: Stream<Item = Result<i32, i32>> + FusedStream + Future<Output = Result<i32, i32>> + FusedFuture + Sink<i32, Error = i32> + AsyncRead + AsyncBufRead + AsyncSeek + AsyncWrite + Unpin> All for T {}

const OPS: usize = 20;
/// one call through `p`; what came back
fn op<P: All>(k: usize, p: &mut P, cx: &mut Context<'_>, arg: usize) -> String {
    let mut buf = vec![0u8; arg];
    let (mut b1, mut b2) = (vec![0u8; arg], vec![0u8; 2]);
    let pin = Pin::new(p);
    match k {
        0 => format!("{:?}", Stream::poll_next(pin, cx)),
        1 => format!("{:?}", Stream::size_hint(&*pin)),
        2 => format!("{:?}", FusedStream::is_terminated(&*pin)),
        3 => format!("{:?}", Future::poll(pin, cx)),
        4 => format!("{:?}", FusedFuture::is_terminated(&*pin)),
        5 => format!("{:?}", Sink::poll_ready(pin, cx)),
        6 => format!("{:?}", Sink::start_send(pin, arg as i32)),
        7 => format!("{:?}", Sink::poll_flush(pin, cx)),
        8 => format!("{:?}", Sink::poll_close(pin, cx)),
        9 => format!("{:?} {:?}", pin.poll_read(cx, &mut buf).map_err(|e| e.to_string()), buf),
        10 => format!("{:?}", pin.poll_read_vectored(cx, &mut [IoSliceMut::new(&mut b1), IoSliceMut::new(&mut b2)]).map_err(|e| e.to_string())),
        11 => format!("{:?}", pin.poll_fill_buf(cx).map_err(|e| e.to_string())),
        12 => format!("{:?}", pin.consume(arg)),
        13 => format!("{:?}", pin.poll_seek(cx, [SeekFrom::Current(-7), SeekFrom::End(-3), SeekFrom::Start(5)][arg]).map_err(|e| e.to_string())),
        14 => format!("{:?}", pin.poll_write(cx, &vec![arg as u8; arg]).map_err(|e| e.to_string())),
        15 => format!("{:?}", pin.poll_write_vectored(cx, &[IoSlice::new(&[1, 2]), IoSlice::new(&vec![5; arg])]).map_err(|e| e.to_string())),
        16 => format!("{:?}", AsyncWrite::poll_flush(pin, cx).map_err(|e| e.to_string())),
        17 => format!("{:?}", AsyncWrite::poll_close(pin, cx).map_err(|e| e.to_string())),
        18 => format!("{:?}", TryStream::try_poll_next(pin, cx)),
        _ => format!("{:?}", TryFuture::try_poll(pin, cx)),
    }
}
fn rec(ans: usize, wk: &std::task::Waker) -> (Rec, Rc<RefCell<Vec<String>>>) {
    let log: Rc<RefCell<Vec<String>>> = Default::default();
    (Rec { log: log.clone(), ans, wk: wk.clone(), data: vec![ans as u8; ans] }, log)
}
fn p_all(c: &mut Ch, w: &W) {
    let (_, wk) = new_waker();
    let ans = c.pick(12);
    let k = c.pick(OPS);
    let arg = c.pick(3);
    let kind = c.pick(7);
    w.note(format!("pointer {} call {} answer {} argument {}", kind, k, ans, arg));
    let (mut base, blog) = rec(ans, &wk);
    let want = op(k, &mut base, &mut Context::from_waker(&wk), arg);
    let (mut r, log) = rec(ans, &wk);
    let mut cx = Context::from_waker(&wk);
    let got = match kind {
        0 => op(k, &mut &mut r, &mut cx, arg),
        1 => op(k, &mut Box::new(r), &mut cx, arg),
        2 => op(k, &mut Box::pin(r), &mut cx, arg),
        3 => op(k, &mut Pin::new(&mut r), &mut cx, arg),
        4 => op(k, &mut Pin::new(&mut Box::new(&mut r)), &mut cx, arg),
        5 => op(k, &mut Either::<Rec, Rec>::Left(r), &mut cx, arg),
        _ => op(k, &mut Either::<Rec, Rec>::Right(r), &mut cx, arg),
    };
    if got != want {
        w.fault("core", format!("through the pointer: {}, directly: {}", got, want));
    }
    if *log.borrow() != *blog.borrow() {
        w.fault("core", format!("through the pointer the object saw {:?}, directly {:?}", log.borrow(), blog.borrow()));
    }
}
fn p_aus(c: &mut Ch, w: &W) {
    let (_, wk) = new_waker();
    let ans = c.pick(12);
    let k = c.pick(4);
    let (mut base, blog) = rec(ans, &wk);
    let mut cx = Context::from_waker(&wk);
    let kk = [0, 1, 3, 4][k];
    w.note(format!("AssertUnwindSafe call {} answer {}", kk, ans));
    let want = op(kk, &mut base, &mut cx, 0);
    let (r, log) = rec(ans, &wk);
    let mut a = AssertUnwindSafe(r);
    let got = match k {
        0 => format!("{:?}", Stream::poll_next(Pin::new(&mut a), &mut cx)),
        1 => format!("{:?}", Stream::size_hint(&a)),
        2 => format!("{:?}", Future::poll(Pin::new(&mut a), &mut cx)),
        _ => format!("{:?}", FusedFuture::is_terminated(&a)),
    };
    if got != want || *log.borrow() != *blog.borrow() {
        w.fault("core", format!("through AssertUnwindSafe: {} {:?}, directly: {} {:?}", got, log.borrow(), want, blog.borrow()));
    }
}
/// writing through a BufReader, reading through a BufWriter
fn p_past(c: &mut Ch, w: &W) {
    let (_, wk) = new_waker();
    let ans = c.pick(12);
    let k = [9, 10, 11, 12, 14, 15, 16, 17][c.pick(8)];
    let arg = c.pick(3);
    w.note(format!("past a buffer: call {} answer {} argument {}", k, ans, arg));
    let (mut base, blog) = rec(ans, &wk);
    let mut cx = Context::from_waker(&wk);
    let want = op(k, &mut base, &mut cx, arg);
    let (r, log) = rec(ans, &wk);
    let mut buf = vec![0u8; arg];
    let (mut b1, mut b2) = (vec![0u8; arg], vec![0u8; 2]);
    let got = if k < 14 {
        let mut b = BufWriter::new(r);
        let pin = Pin::new(&mut b);
        match k {
            9 => format!("{:?} {:?}", pin.poll_read(&mut cx, &mut buf).map_err(|e| e.to_string()), buf),
            10 => format!("{:?}", pin.poll_read_vectored(&mut cx, &mut [IoSliceMut::new(&mut b1), IoSliceMut::new(&mut b2)]).map_err(|e| e.to_string())),
            11 => format!("{:?}", pin.poll_fill_buf(&mut cx).map_err(|e| e.to_string())),
            _ => format!("{:?}", pin.consume(arg)),
        }
    } else {
        let mut b = BufReader::new(r);
        let pin = Pin::new(&mut b);
        match k {
            14 => format!("{:?}", pin.poll_write(&mut cx, &vec![arg as u8; arg]).map_err(|e| e.to_string())),
            15 => format!("{:?}", pin.poll_write_vectored(&mut cx, &[IoSlice::new(&[1, 2]), IoSlice::new(&vec![5; arg])]).map_err(|e| e.to_string())),
            16 => format!("{:?}", AsyncWrite::poll_flush(pin, &mut cx).map_err(|e| e.to_string())),
            _ => format!("{:?}", AsyncWrite::poll_close(pin, &mut cx).map_err(|e| e.to_string())),
        }
    };
    if got != want || *log.borrow() != *blog.borrow() {
        w.fault("core", format!("past the buffer: {} {:?}, directly: {} {:?}", got, log.borrow(), want, blog.borrow()));
    }
}
/// memory as sink, reader, writer
fn p_mem(c: &mut Ch, w: &W) {
    let (_, wk) = new_waker();
    let mut cx = Context::from_waker(&wk);
    let mut v: Vec<i32> = vec![7];
    let mut d: VecDeque<i32> = VecDeque::from(vec![7]);
    let mut want = vec![7];
    let mut wr: Vec<u8> = vec![9];
    let mut wwant = vec![9u8];
    let src: Vec<u8> = (0..c.pick(5) as u8).collect();
    let mut rd: &[u8] = &src;
    let mut read = 0;
    for i in 0..4 {
        match c.pick(6) {
            0 => {
                let ok = Pin::new(&mut v).poll_ready(&mut cx) == Poll::Ready(Ok(())) && Pin::new(&mut d).poll_ready(&mut cx) == Poll::Ready(Ok(()));
                let ok = ok && Pin::new(&mut v).start_send(i).is_ok() && Pin::new(&mut d).start_send(i).is_ok();
                want.push(i);
                if !ok {
                    w.fault("core", "an in-memory sink refused an item");
                }
            }
            1 => {
                let ok = Sink::<i32>::poll_flush(Pin::new(&mut v), &mut cx) == Poll::Ready(Ok(())) && Sink::<i32>::poll_close(Pin::new(&mut v), &mut cx) == Poll::Ready(Ok(()));
                let ok = ok && Pin::new(&mut d).poll_flush(&mut cx) == Poll::Ready(Ok(())) && Pin::new(&mut d).poll_close(&mut cx) == Poll::Ready(Ok(()));
                if !ok {
                    w.fault("core", "an in-memory sink did not flush");
                }
            }
            2 => {
                let n = c.pick(3);
                let data = vec![i as u8; n];
                let r = if c.flag() {
                    wwant.extend(&data);
                    wwant.push(77);
                    Pin::new(&mut wr).poll_write_vectored(&mut cx, &[IoSlice::new(&data), IoSlice::new(&[77])]).map_ok(|x| x == n + 1)
                } else {
                    wwant.extend(&data);
                    AsyncWrite::poll_write(Pin::new(&mut wr), &mut cx, &data).map_ok(|x| x == n)
                };
                if !matches!(r, Poll::Ready(Ok(true))) {
                    w.fault("core", format!("writing to a Vec: {:?}", r));
                }
            }
            3 => {
                let ok = matches!(AsyncWrite::poll_flush(Pin::new(&mut wr), &mut cx), Poll::Ready(Ok(()))) && matches!(AsyncWrite::poll_close(Pin::new(&mut wr), &mut cx), Poll::Ready(Ok(())));
                if !ok {
                    w.fault("core", "flushing a Vec");
                }
            }
            4 => {
                let n = c.pick(3);
                let mut b = vec![0; n];
                let left = src.len() - read;
                let r = Pin::new(&mut rd).poll_read(&mut cx, &mut b);
                let k = n.min(left);
                if !matches!(r, Poll::Ready(Ok(x)) if x == k) || b[..k] != src[read..read + k] {
                    w.fault("core", format!("reading {} of {:?}: {:?} {:?}", n, &src[read..], r, b));
                    return;
                }
                read += k;
            }
            _ => {
                let got = match Pin::new(&mut rd).poll_fill_buf(&mut cx) {
                    Poll::Ready(Ok(x)) => x.to_vec(),
                    _ => vec![255; 9],
                };
                if got != src[read..] {
                    w.fault("core", format!("fill_buf {:?}, not {:?}", got, &src[read..]));
                    return;
                }
                let k = c.pick(got.len() + 1);
                Pin::new(&mut rd).consume(k);
                read += k;
            }
        }
        if v != want || d != want || wr != wwant {
            w.fault("core", format!("memory holds {:?} {:?} {:?}, not {:?} {:?}", v, d, wr, want, wwant));
            return;
        }
    }
}
/// a reader and a writer that leave the vectored calls to the trait
struct Plain(Vec<u8>, Vec<usize>);
impl AsyncRead for Plain {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.1.push(buf.len());
        buf.fill(42);
        Poll::Ready(Ok(buf.len()))
    }
}
impl AsyncWrite for Plain {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.extend(buf);
        self.1.push(buf.len());
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
pub fn p_vectored(c: &mut Ch, w: &W) {
    let (_, wk) = new_waker();
    let mut cx = Context::from_waker(&wk);
    let lens: Vec<usize> = (0..c.pick(4)).map(|_| c.pick(3)).collect();
    let first = lens.iter().copied().find(|x| *x > 0).unwrap_or(0);
    let at = lens.iter().position(|x| *x > 0).unwrap_or(0);
    w.note(format!("buffers {:?}", lens));
    let mut p = Plain(vec![], vec![]);
    if c.flag() {
        let bufs: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, n)| vec![i as u8 + 1; *n]).collect();
        let ios: Vec<IoSlice<'_>> = bufs.iter().map(|b| IoSlice::new(b)).collect();
        let r = Pin::new(&mut p).poll_write_vectored(&mut cx, &ios);
        if !matches!(r, Poll::Ready(Ok(n)) if n == first) || p.0 != vec![at as u8 + 1; first] || p.1 != vec![first] {
            w.fault("core", format!("poll_write_vectored {:?}: {:?}, wrote {:?} in {:?}", lens, r, p.0, p.1));
        }
    } else {
        let mut bufs: Vec<Vec<u8>> = lens.iter().map(|n| vec![0u8; *n]).collect();
        let r = {
            let mut ios: Vec<IoSliceMut<'_>> = bufs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
            Pin::new(&mut p).poll_read_vectored(&mut cx, &mut ios)
        };
        let want: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, n)| vec![if i == at { 42 } else { 0 }; *n]).collect();
        if !matches!(r, Poll::Ready(Ok(n)) if n == first) || bufs != want || p.1 != vec![first] {
            w.fault("core", format!("poll_read_vectored {:?}: {:?}, filled {:?} in {:?}", lens, r, bufs, p.1));
        }
    }
}
pub fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![("ptr", vec![("all", p_all as fn(&mut Ch, &W)), ("aus", p_aus), ("past", p_past), ("mem", p_mem), ("vectored", p_vectored)])]
}
