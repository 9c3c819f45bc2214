//! An encrypted transport that records the plaintext that passes through the client's side
use crate::fix::enc::{Enc, EK};
use crate::fix::*;
use crate::rng::Rng;
use crate::sim::*;
use async_trait::async_trait;
use bromine::prelude::encrypted::*;
use bromine::prelude::*;
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{ready, Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Default)]
pub struct Plain2 {
    pub sent: Vec<u8>,
    pub got: Vec<u8>,
}
pub type Log = Arc<Mutex<Plain2>>;

/// One log per connection, in the order of the links
#[derive(Clone, Default)]
pub struct Logs {
    pub list: Arc<Mutex<Vec<Log>>>,
    order: Arc<tokio::sync::Mutex<()>>,
}

type ES = EncryptedStream<SimStream>;
pub struct TapStream {
    s: ES,
    log: Log,
}
pub struct TapRead<T>(T, Log);
pub struct TapWrite<T>(T, Log);

impl<T: AsyncRead + Unpin> AsyncRead for TapRead<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = buf.filled().len();
        ready!(Pin::new(&mut self.0).poll_read(cx, buf))?;
        self.1.lock().unwrap().got.extend_from_slice(&buf.filled()[n..]);
        Poll::Ready(Ok(()))
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for TapWrite<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let n = ready!(Pin::new(&mut self.0).poll_write(cx, buf))?;
        self.1.lock().unwrap().sent.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}
impl AsyncRead for TapStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = &mut *self;
        let n = buf.filled().len();
        ready!(Pin::new(&mut me.s).poll_read(cx, buf))?;
        me.log.lock().unwrap().got.extend_from_slice(&buf.filled()[n..]);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for TapStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let n = ready!(Pin::new(&mut self.s).poll_write(cx, buf))?;
        self.log.lock().unwrap().sent.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.s).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.s).poll_shutdown(cx)
    }
}
impl AsyncProtocolStreamSplit for TapStream {
    type OwnedSplitReadHalf = TapRead<EncryptedReadStream<SimRead>>;
    type OwnedSplitWriteHalf = TapWrite<EncryptedWriteStream<SimWrite>>;
    fn protocol_into_split(self) -> (Self::OwnedSplitReadHalf, Self::OwnedSplitWriteHalf) {
        let (r, w) = self.s.protocol_into_split();
        (TapRead(r, self.log.clone()), TapWrite(w, self.log))
    }
}

#[derive(Clone)]
pub struct TapOpts {
    o: EncryptionOptions<SimOpts>,
    logs: Logs,
}
impl Default for TapOpts {
    fn default() -> Self {
        TapOpts { o: Default::default(), logs: Default::default() }
    }
}

#[async_trait]
impl AsyncProtocolStream for TapStream {
    type AddressType = u64;
    type StreamOptions = TapOpts;
    async fn protocol_connect(address: u64, o: TapOpts) -> IPCResult<Self> {
        // one at a time, so that logs and links have the same order
        let _g = o.logs.order.lock().await;
        let log = Log::default();
        o.logs.list.lock().unwrap().push(log.clone());
        Ok(TapStream { s: ES::protocol_connect(address, o.o).await?, log })
    }
}

pub struct TapListener(EncryptedListener<SimListener>);
#[async_trait]
impl AsyncStreamProtocolListener for TapListener {
    type AddressType = u64;
    type RemoteAddressType = u64;
    type Stream = TapStream;
    type ListenerOptions = EncryptionOptions<SimLOpts>;
    async fn protocol_bind(address: u64, o: Self::ListenerOptions) -> IPCResult<Self> {
        Ok(TapListener(EncryptedListener::protocol_bind(address, o).await?))
    }
    async fn protocol_accept(&self) -> IPCResult<(TapStream, u64)> {
        let (s, a) = self.0.protocol_accept().await?;
        Ok((TapStream { s, log: Log::default() }, a))
    }
}

pub struct Tapped;
impl Tp for Tapped {
    type L = TapListener;
    type K = (EK, Logs);
    const NAME: &'static str = "encrypted";
    const ENC: bool = true;
    fn keys(r: &mut Rng) -> Self::K {
        (Enc::keys(r), Logs::default())
    }
    fn lopts(o: SimLOpts, k: &Self::K) -> EncryptionOptions<SimLOpts> {
        Enc::lopts(o, &k.0)
    }
    fn copts(o: SimOpts, k: &Self::K) -> TapOpts {
        TapOpts { o: Enc::copts(o, &k.0), logs: k.1.clone() }
    }
}
