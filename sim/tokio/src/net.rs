use simrt::net::{self as sn, EndId, ListenId};
use simrt::Sim;
use std::future::poll_fn;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

fn sim() -> Arc<Sim> {
    simrt::current().expect("must be called from within the simulator")
}

/// What can be turned into host and port.
pub trait ToSocketAddrs {
    fn host_port(&self) -> io::Result<(String, u16)>;
}
impl ToSocketAddrs for str {
    fn host_port(&self) -> io::Result<(String, u16)> {
        sn::split_host(self)
    }
}
impl ToSocketAddrs for String {
    fn host_port(&self) -> io::Result<(String, u16)> {
        sn::split_host(self)
    }
}
impl ToSocketAddrs for SocketAddr {
    fn host_port(&self) -> io::Result<(String, u16)> {
        Ok((self.ip().to_string(), self.port()))
    }
}
impl ToSocketAddrs for std::net::SocketAddrV4 {
    fn host_port(&self) -> io::Result<(String, u16)> {
        Ok((self.ip().to_string(), self.port()))
    }
}
impl ToSocketAddrs for (&str, u16) {
    fn host_port(&self) -> io::Result<(String, u16)> {
        Ok((self.0.to_string(), self.1))
    }
}
impl ToSocketAddrs for (String, u16) {
    fn host_port(&self) -> io::Result<(String, u16)> {
        Ok((self.0.clone(), self.1))
    }
}
impl ToSocketAddrs for (std::net::IpAddr, u16) {
    fn host_port(&self) -> io::Result<(String, u16)> {
        Ok((self.0.to_string(), self.1))
    }
}
impl ToSocketAddrs for (std::net::Ipv4Addr, u16) {
    fn host_port(&self) -> io::Result<(String, u16)> {
        Ok((self.0.to_string(), self.1))
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn host_port(&self) -> io::Result<(String, u16)> {
        (**self).host_port()
    }
}

#[derive(Debug)]
pub struct TcpListener(ListenId);

impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        let (h, p) = a.host_port()?;
        sn::bind(&sim(), &h, p).map(TcpListener)
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        let s = sim();
        let id = poll_fn(|cx| sn::poll_accept(&s, self.0, cx)).await?;
        sn::adopt(&s, id);
        let peer = sn::addrs(&s, id).1;
        Ok((TcpStream { end: Arc::new(End(id)) }, peer))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.0.addr())
    }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
}

impl Drop for TcpListener {
    fn drop(&mut self) {
        if let Some(s) = simrt::current() {
            sn::unbind(&s, self.0);
        }
    }
}

#[derive(Debug)]
struct End(EndId);

impl Drop for End {
    fn drop(&mut self) {
        if let Some(s) = simrt::current() {
            sn::close(&s, self.0);
        }
    }
}

#[derive(Debug)]
pub struct TcpStream {
    end: Arc<End>,
}

fn read_into(id: EndId, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    if simrt::coop_yield() {
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    let dst = buf.initialize_unfilled();
    match sn::poll_read(&sim(), id, cx, dst) {
        Poll::Ready(Ok(n)) => {
            buf.advance(n);
            Poll::Ready(Ok(()))
        }
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        Poll::Pending => Poll::Pending,
    }
}

fn write_from(id: EndId, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    if simrt::coop_yield() {
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    sn::poll_write(&sim(), id, cx, buf)
}

macro_rules! reader {
    ($t:ty) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                read_into(self.end.0, cx, buf)
            }
        }
    };
}
macro_rules! writer {
    ($t:ty) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                write_from(self.end.0, cx, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                sn::shutdown_write(&sim(), self.end.0);
                Poll::Ready(Ok(()))
            }
        }
    };
}

reader!(TcpStream);
writer!(TcpStream);

fn noop() -> std::task::Waker {
    struct W;
    impl std::task::Wake for W {
        fn wake(self: Arc<Self>) {}
    }
    Arc::new(W).into()
}

fn try_now<T>(p: Poll<io::Result<T>>) -> io::Result<T> {
    match p {
        Poll::Ready(r) => r,
        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
    }
}

macro_rules! ready_read {
    () => {
        pub async fn readable(&self) -> io::Result<()> {
            poll_fn(|cx| sn::poll_readable(&sim(), self.end.0, cx)).await;
            Ok(())
        }
        pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
            try_now(sn::poll_read(&sim(), self.end.0, &mut Context::from_waker(&noop()), buf))
        }
        pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
            poll_fn(|cx| sn::poll_peek(&sim(), self.end.0, cx, buf)).await
        }
    };
}
macro_rules! ready_write {
    () => {
        pub async fn writable(&self) -> io::Result<()> {
            poll_fn(|cx| sn::poll_writable(&sim(), self.end.0, cx)).await;
            Ok(())
        }
        pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
            try_now(sn::poll_write(&sim(), self.end.0, &mut Context::from_waker(&noop()), buf))
        }
    };
}

/// A socket before it listens or connects.
#[derive(Debug)]
pub struct TcpSocket(std::sync::Mutex<Option<SocketAddr>>);

impl TcpSocket {
    pub fn new_v4() -> io::Result<TcpSocket> {
        Ok(TcpSocket(Default::default()))
    }
    pub fn set_reuseaddr(&self, _v: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_reuseport(&self, _v: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nodelay(&self, _v: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_send_buffer_size(&self, _v: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_recv_buffer_size(&self, _v: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn bind(&self, a: SocketAddr) -> io::Result<()> {
        *self.0.lock().unwrap() = Some(a);
        Ok(())
    }
    pub fn listen(self, _backlog: u32) -> io::Result<TcpListener> {
        let a = self.0.into_inner().unwrap().unwrap_or_else(|| SocketAddr::from(([0, 0, 0, 0], 0)));
        sn::bind(&sim(), &a.ip().to_string(), a.port()).map(TcpListener)
    }
    pub async fn connect(self, a: SocketAddr) -> io::Result<TcpStream> {
        TcpStream::connect(a).await
    }
}

impl TcpStream {
    ready_read!();
    ready_write!();

    pub async fn connect<A: ToSocketAddrs>(a: A) -> io::Result<TcpStream> {
        let (h, p) = a.host_port()?;
        let c = sn::connect(&sim(), &h, p);
        let id = poll_fn(|cx| c.poll(cx)).await?;
        Ok(TcpStream { end: Arc::new(End(id)) })
    }
    pub fn set_nodelay(&self, _v: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_linger(&self, _d: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(sn::addrs(&sim(), self.end.0).1)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(sn::addrs(&sim(), self.end.0).0)
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        (
            tcp::OwnedReadHalf { end: self.end.clone() },
            tcp::OwnedWriteHalf { end: self.end, shut: true },
        )
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf { end: &self.end }, tcp::WriteHalf { end: &self.end })
    }
}

pub mod tcp {
    use super::*;

    #[derive(Debug)]
    pub struct OwnedReadHalf {
        pub(super) end: Arc<End>,
    }
    reader!(OwnedReadHalf);

    #[derive(Debug)]
    pub struct OwnedWriteHalf {
        pub(super) end: Arc<End>,
        pub(super) shut: bool,
    }
    writer!(OwnedWriteHalf);

    #[derive(Debug)]
    pub struct ReadHalf<'a> {
        pub(super) end: &'a Arc<End>,
    }
    reader!(ReadHalf<'_>);
    #[derive(Debug)]
    pub struct WriteHalf<'a> {
        pub(super) end: &'a Arc<End>,
    }
    writer!(WriteHalf<'_>);

    #[derive(Debug)]
    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);

    impl OwnedReadHalf {
        ready_read!();

        pub fn reunite(self, o: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
            if Arc::ptr_eq(&self.end, &o.end) {
                o.forget();
                Ok(TcpStream { end: self.end })
            } else {
                Err(ReuniteError(self, o))
            }
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(sn::addrs(&sim(), self.end.0).1)
        }
    }
    impl OwnedWriteHalf {
        ready_write!();

        pub fn forget(mut self) {
            self.shut = false;
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(sn::addrs(&sim(), self.end.0).1)
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            if self.shut {
                if let Some(s) = simrt::current() {
                    sn::shutdown_write(&s, self.end.0);
                }
            }
        }
    }
}
