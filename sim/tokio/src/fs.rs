//! File access of tokio: the same calls, made at once on the calling task.

use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio_real::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};

pub async fn read(p: impl AsRef<Path>) -> io::Result<Vec<u8>> {
    crate::task::yield_now().await;
    std::fs::read(p)
}
pub async fn read_to_string(p: impl AsRef<Path>) -> io::Result<String> {
    crate::task::yield_now().await;
    std::fs::read_to_string(p)
}
pub async fn write(p: impl AsRef<Path>, d: impl AsRef<[u8]>) -> io::Result<()> {
    crate::task::yield_now().await;
    std::fs::write(p, d)
}
pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
    crate::task::yield_now().await;
    std::fs::rename(a, b)
}
pub async fn remove_file(p: impl AsRef<Path>) -> io::Result<()> {
    crate::task::yield_now().await;
    std::fs::remove_file(p)
}
pub async fn create_dir_all(p: impl AsRef<Path>) -> io::Result<()> {
    crate::task::yield_now().await;
    std::fs::create_dir_all(p)
}
pub async fn metadata(p: impl AsRef<Path>) -> io::Result<std::fs::Metadata> {
    crate::task::yield_now().await;
    std::fs::metadata(p)
}
pub async fn canonicalize(p: impl AsRef<Path>) -> io::Result<PathBuf> {
    crate::task::yield_now().await;
    std::fs::canonicalize(p)
}

#[derive(Clone, Debug)]
pub struct OpenOptions(std::fs::OpenOptions);

macro_rules! options {
    ($($f:ident)*) => {
        $(pub fn $f(&mut self, v: bool) -> &mut Self {
            self.0.$f(v);
            self
        })*
    };
}

impl OpenOptions {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        OpenOptions(std::fs::OpenOptions::new())
    }
    options!(read write append truncate create create_new);
    pub async fn open(&self, p: impl AsRef<Path>) -> io::Result<File> {
        crate::task::yield_now().await;
        self.0.open(p).map(File)
    }
}

#[derive(Debug)]
pub struct File(std::fs::File);

impl File {
    pub async fn open(p: impl AsRef<Path>) -> io::Result<File> {
        crate::task::yield_now().await;
        std::fs::File::open(p).map(File)
    }
    pub async fn create(p: impl AsRef<Path>) -> io::Result<File> {
        crate::task::yield_now().await;
        std::fs::File::create(p).map(File)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn from_std(f: std::fs::File) -> File {
        File(f)
    }
    pub async fn into_std(self) -> std::fs::File {
        self.0
    }
    pub async fn sync_all(&self) -> io::Result<()> {
        self.0.sync_all()
    }
    pub async fn sync_data(&self) -> io::Result<()> {
        self.0.sync_data()
    }
    pub async fn set_len(&self, n: u64) -> io::Result<()> {
        self.0.set_len(n)
    }
    pub async fn metadata(&self) -> io::Result<std::fs::Metadata> {
        self.0.metadata()
    }
}

impl AsyncRead for File {
    fn poll_read(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = self.0.read(buf.initialize_unfilled())?;
        buf.advance(n);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for File {
    fn poll_write(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(self.0.write(buf))
    }
    fn poll_flush(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(self.0.flush())
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}
impl AsyncSeek for File {
    fn start_seek(mut self: Pin<&mut Self>, at: SeekFrom) -> io::Result<()> {
        self.0.seek(at).map(|_| ())
    }
    fn poll_complete(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        Poll::Ready(self.0.stream_position())
    }
}
