//! A stream handle whose every operation is observed. Clones share the stream, so reading and writing
//! halves can live in different tasks.
use crate::prng::{fill, mix};
use crate::world::{key, Op, World};
use futures::io::{AsyncRead, AsyncWrite};
use futures::Stream as _;
use std::cell::RefCell;
use std::future::poll_fn;
use std::io::{self, IoSlice, IoSliceMut};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone)]
pub struct H {
    pub w: World,
    pub s: usize,
    pub id: u32,
    st: Rc<RefCell<Option<yamux::Stream>>>,
    key_out: u64,
}

impl H {
    pub fn new(w: &World, s: usize, stream: yamux::Stream, local: bool) -> H {
        let id = stream.id().val();
        if id % 16 == 1 {
            std::hint::black_box(format!("{stream} {stream:?} {:?}", stream.id()));
        }
        let st = Rc::new(RefCell::new(Some(stream)));
        w.on_stream(s, id, local, Rc::downgrade(&st));
        let k = key(w.b().seed, s, id);
        H { w: w.clone(), s, id, st, key_out: k }
    }
    pub fn alive(&self) -> bool {
        self.st.borrow().is_some()
    }
    pub fn query(&self) -> (bool, bool, bool) {
        let g = self.st.borrow();
        let x = g.as_ref().unwrap();
        (x.is_closed(), x.is_write_closed(), x.is_pending_ack())
    }
    /// Reads up to `n` bytes. `Ok(0)` is end-of-stream.
    pub fn poll_read(&self, cx: &mut Context<'_>, n: usize) -> Poll<io::Result<usize>> {
        self.poll_read_in(cx, n, 0)
    }
    /// `v`: how to scatter them, 0: not at all.
    fn poll_read_in(&self, cx: &mut Context<'_>, n: usize, v: u64) -> Poll<io::Result<usize>> {
        let mut buf = vec![0; n];
        let r = {
            let mut g = self.st.borrow_mut();
            let Some(x) = g.as_mut() else { return Poll::Ready(Ok(0)) };
            if v == 0 {
                Pin::new(x).poll_read(cx, &mut buf)
            } else {
                let [i, j] = cuts(n, v);
                let (a, r) = buf.split_at_mut(i);
                let (b, c) = r.split_at_mut(j - i);
                let mut bufs = [IoSliceMut::new(a), IoSliceMut::new(b), IoSliceMut::new(c)];
                self.w.hit("vectored", 1);
                Pin::new(x).poll_read_vectored(cx, &mut bufs)
            }
        };
        match r {
            Poll::Pending => {
                self.w.pend(self.s, self.id, Op::Read, true);
                Poll::Pending
            }
            Poll::Ready(r) => {
                let k = *r.as_ref().unwrap_or(&0);
                if k > n {
                    self.w.find(&["C01"], format!("side {} stream {}: read into {n} bytes returned {k}", self.s, self.id));
                    return Poll::Ready(Ok(0));
                }
                self.w.on_read(self.s, self.id, &r, &buf[..k], n, false);
                Poll::Ready(r)
            }
        }
    }
    /// Reads one packet; length 0 is end-of-stream.
    pub fn poll_packet(&self, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        let r = {
            let mut g = self.st.borrow_mut();
            let Some(x) = g.as_mut() else { return Poll::Ready(Ok(0)) };
            Pin::new(x).poll_next(cx)
        };
        match r {
            Poll::Pending => {
                self.w.pend(self.s, self.id, Op::Read, true);
                Poll::Pending
            }
            Poll::Ready(None) => {
                self.w.on_read(self.s, self.id, &Ok(0), &[], 1, true);
                Poll::Ready(Ok(0))
            }
            Poll::Ready(Some(Ok(p))) => {
                let b = p.as_ref();
                if b.is_empty() {
                    // Carries nothing; neither data nor end-of-stream.
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                self.w.on_read(self.s, self.id, &Ok(b.len()), b, b.len(), true);
                Poll::Ready(Ok(b.len()))
            }
            Poll::Ready(Some(Err(e))) => {
                let r = Err(e);
                self.w.on_read(self.s, self.id, &r, &[], 1, true);
                Poll::Ready(r)
            }
        }
    }
    /// Offers the next `n` bytes of this direction's payload.
    pub fn poll_write(&self, cx: &mut Context<'_>, n: usize) -> Poll<io::Result<usize>> {
        self.poll_write_in(cx, n, 0)
    }
    /// `v`: how to gather them, 0: from one piece.
    fn poll_write_in(&self, cx: &mut Context<'_>, n: usize, v: u64) -> Poll<io::Result<usize>> {
        let off = self.w.b().side[self.s].st.get(&self.id).map_or(0, |t| t.accepted);
        let mut buf = vec![0; n];
        fill(self.key_out, off, &mut buf);
        let r = {
            let mut g = self.st.borrow_mut();
            let Some(x) = g.as_mut() else { return Poll::Ready(Err(io::ErrorKind::NotConnected.into())) };
            if v == 0 {
                Pin::new(x).poll_write(cx, &buf)
            } else {
                let [i, j] = cuts(n, v);
                let bufs = [IoSlice::new(&buf[..i]), IoSlice::new(&buf[i..j]), IoSlice::new(&buf[j..])];
                self.w.hit("vectored", 1);
                Pin::new(x).poll_write_vectored(cx, &bufs)
            }
        };
        match r {
            Poll::Pending => {
                self.w.pend(self.s, self.id, Op::Write, true);
                Poll::Pending
            }
            Poll::Ready(r) => {
                self.w.on_write(self.s, self.id, n, &r);
                Poll::Ready(r)
            }
        }
    }
    pub fn poll_flush(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let r = {
            let mut g = self.st.borrow_mut();
            let Some(x) = g.as_mut() else { return Poll::Ready(Ok(())) };
            Pin::new(x).poll_flush(cx)
        };
        match r {
            Poll::Pending => {
                self.w.pend(self.s, self.id, Op::Flush, true);
                Poll::Pending
            }
            Poll::Ready(r) => {
                self.w.on_flush(self.s, self.id, &r);
                Poll::Ready(r)
            }
        }
    }
    pub fn poll_close(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let r = {
            let mut g = self.st.borrow_mut();
            let Some(x) = g.as_mut() else { return Poll::Ready(Ok(())) };
            self.w.on_close_call(self.s, self.id);
            Pin::new(x).poll_close(cx)
        };
        match r {
            Poll::Pending => {
                self.w.pend(self.s, self.id, Op::Close, true);
                Poll::Pending
            }
            Poll::Ready(r) => {
                self.w.on_close(self.s, self.id, &r);
                Poll::Ready(r)
            }
        }
    }
    fn vary(&self, n: usize, salt: u64) -> u64 {
        let at = self.w.b().side[self.s].st.get(&self.id).map_or(0, |t| t.accepted ^ t.read.rotate_left(32));
        let x = mix(mix(self.key_out ^ at) ^ salt ^ ((n as u64) << 8));
        if x % 8 == 0 { x | 1 } else { 0 }
    }
    pub async fn read(&self, n: usize) -> io::Result<usize> {
        let _g = Guard(self, Op::Read);
        let v = self.vary(n, 1);
        poll_fn(|cx| self.poll_read_in(cx, n, v)).await
    }
    pub async fn packet(&self) -> io::Result<usize> {
        let _g = Guard(self, Op::Read);
        poll_fn(|cx| self.poll_packet(cx)).await
    }
    pub async fn write(&self, n: usize) -> io::Result<usize> {
        let _g = Guard(self, Op::Write);
        let v = self.vary(n, 2);
        poll_fn(|cx| self.poll_write_in(cx, n, v)).await
    }
    pub async fn flush(&self) -> io::Result<()> {
        let _g = Guard(self, Op::Flush);
        poll_fn(|cx| self.poll_flush(cx)).await
    }
    pub async fn close(&self) -> io::Result<()> {
        let _g = Guard(self, Op::Close);
        poll_fn(|cx| self.poll_close(cx)).await
    }
    /// Drops the stream now (for all clones).
    pub fn drop_stream(&self) {
        let x = self.st.borrow_mut().take();
        if let Some(x) = x {
            self.w.on_drop(self.s, self.id);
            drop(x);
        }
    }
}

/// Two places to cut `n` bytes at, either end included.
fn cuts(n: usize, v: u64) -> [usize; 2] {
    let (a, b) = (((v >> 8) as u32 as usize) % (n + 1), ((v >> 40) as usize) % (n + 1));
    let a = if (v >> 4) & 7 == 0 { 0 } else { a };
    [a.min(b), a.max(b)]
}

struct Guard<'a>(&'a H, Op);

impl Drop for Guard<'_> {
    fn drop(&mut self) {
        self.0.w.pend(self.0.s, self.0.id, self.1, false);
    }
}

impl Drop for H {
    fn drop(&mut self) {
        if Rc::strong_count(&self.st) == 1 {
            self.drop_stream()
        }
    }
}
