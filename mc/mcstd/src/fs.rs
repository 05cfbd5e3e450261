//! Stands in for `tokio::fs`: a file whose operations complete when they are polled, instead of on a helper
//! thread. A disk operation is one atomic step anyway, and this makes it about a hundred times cheaper.
pub use std::fs::{Metadata, Permissions};
use std::future::Future;
use std::io::{Read, Result, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};

/// What happens to the files opened on a thread while it is watched: which writes have not been synced, and
/// which operation fails.
#[derive(Default)]
pub struct Watch {
    state: std::sync::Mutex<Watched>,
    /// what somebody else does right before this operation
    meanwhile: std::sync::Mutex<Vec<(usize, Box<dyn FnOnce() + Send>)>>,
}
impl std::fmt::Debug for Watch {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.state.fmt(f)
    }
}
#[derive(Debug, Default)]
struct Watched {
    /// writes, syncs and size changes so far
    ops: usize,
    /// fail this operation; a write stores this many bytes first; do all later ones fail too?
    fail: Option<(usize, usize, bool)>,
    failed: usize,
    unsynced: std::collections::BTreeMap<PathBuf, usize>,
    /// length of a file when it was last synced
    synced: std::collections::BTreeMap<PathBuf, u64>,
}
impl Watch {
    pub fn ops(&self) -> usize {
        self.state.lock().unwrap().ops
    }
    pub fn meanwhile(&self, op: usize, f: impl FnOnce() + Send + 'static) {
        self.meanwhile.lock().unwrap().push((op, Box::new(f)));
    }
    pub fn failed(&self) -> usize {
        self.state.lock().unwrap().failed
    }
    pub fn fail(&self, f: Option<(usize, usize, bool)>) {
        self.state.lock().unwrap().fail = f;
    }
    /// How many writes to the file since it was last synced.
    pub fn unsynced(&self, p: impl AsRef<Path>) -> usize {
        self.state.lock().unwrap().unsynced.get(p.as_ref()).copied().unwrap_or(0)
    }
    /// How long the file was when it was last synced.
    pub fn synced(&self, p: impl AsRef<Path>) -> u64 {
        self.state.lock().unwrap().synced.get(p.as_ref()).copied().unwrap_or(0)
    }
    fn op(&self, p: &Path, sync: bool) -> Option<usize> {
        let i = {
            let mut s = self.state.lock().unwrap();
            s.ops += 1;
            s.ops - 1
        };
        loop {
            let f = {
                let mut m = self.meanwhile.lock().unwrap();
                let Some(k) = m.iter().position(|x| x.0 <= i) else { break };
                m.swap_remove(k).1
            };
            f();
        }
        let mut s = self.state.lock().unwrap();
        if let Some((n, bytes, sticky)) = s.fail {
            if i == n || sticky && i > n {
                s.failed += 1;
                if !sync && i == n && bytes > 0 {
                    *s.unsynced.entry(p.into()).or_default() += 1;
                }
                return Some(if i == n { bytes } else { 0 });
            }
        }
        if sync {
            s.unsynced.remove(p);
            let n = std::fs::metadata(p).map_or(0, |m| m.len());
            s.synced.insert(p.into(), n);
        } else {
            *s.unsynced.entry(p.into()).or_default() += 1;
        }
        None
    }
}
thread_local! {
    static WATCH: std::cell::RefCell<Option<Arc<Watch>>> = const { std::cell::RefCell::new(None) };
}
/// Files opened by this thread from now on are watched.
pub fn watch(w: Option<Arc<Watch>>) {
    WATCH.with(|x| *x.borrow_mut() = w);
}
fn watched(p: &Path) -> Option<(Arc<Watch>, PathBuf)> {
    WATCH.with(|x| x.borrow().clone()).map(|w| (w, p.to_path_buf()))
}
fn full() -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, "no space left on device (injected)")
}

#[derive(Debug)]
pub struct File(std::fs::File, Option<(Arc<Watch>, PathBuf)>);
/// Tokio's file copies what it reads and writes through a buffer of its own, which is not aligned as a file opened
/// for direct I/O wants it.
fn unaligned(b: &mut Vec<u8>, n: usize) -> &mut [u8] {
    b.resize(n + 1, 0);
    let odd = 1 - b.as_ptr() as usize % 2;
    &mut b[odd..odd + n]
}
impl File {
    fn direct(&self) -> bool {
        use std::os::fd::AsRawFd;
        extern "C" {
            fn fcntl(fd: i32, cmd: i32, ...) -> i32;
        }
        const F_GETFL: i32 = 3;
        const O_DIRECT: i32 = 0o40000;
        unsafe { fcntl(self.0.as_raw_fd(), F_GETFL) & O_DIRECT != 0 }
    }
    pub fn from_std(f: std::fs::File) -> Self {
        use std::os::fd::AsRawFd;
        if WATCH.with(|x| x.borrow().is_none()) {
            return File(f, None);
        }
        match std::fs::read_link(format!("/proc/self/fd/{}", f.as_raw_fd())) {
            Ok(p) => File::at(f, &p),
            Err(_) => File(f, None),
        }
    }
    fn at(f: std::fs::File, p: &Path) -> Self {
        File(f, watched(p))
    }
    /// None: go ahead; Some(n): fail after n bytes.
    fn op(&self, sync: bool) -> Option<usize> {
        self.1.as_ref().and_then(|(w, p)| w.op(p, sync))
    }
    pub async fn into_std(self) -> std::fs::File {
        self.0
    }
    pub fn try_into_std(self) -> std::result::Result<std::fs::File, Self> {
        Ok(self.0)
    }
    pub async fn open(p: impl AsRef<Path>) -> Result<File> {
        std::fs::File::open(&p).map(|f| File::at(f, p.as_ref()))
    }
    pub async fn create(p: impl AsRef<Path>) -> Result<File> {
        std::fs::File::create(&p).map(|f| File::at(f, p.as_ref()))
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub async fn sync_all(&self) -> Result<()> {
        match self.op(true) {
            Some(_) => Err(full()),
            None => self.0.sync_all(),
        }
    }
    pub async fn sync_data(&self) -> Result<()> {
        match self.op(true) {
            Some(_) => Err(full()),
            None => self.0.sync_data(),
        }
    }
    pub async fn set_len(&self, n: u64) -> Result<()> {
        match self.op(false) {
            Some(_) => Err(full()),
            None => self.0.set_len(n),
        }
    }
    pub async fn metadata(&self) -> Result<Metadata> {
        self.0.metadata()
    }
    pub async fn try_clone(&self) -> Result<File> {
        self.0.try_clone().map(|f| File(f, self.1.clone()))
    }
    pub async fn set_permissions(&self, p: Permissions) -> Result<()> {
        self.0.set_permissions(p)
    }
    pub fn set_max_buf_size(&mut self, _: usize) {}
}
impl From<std::fs::File> for File {
    fn from(f: std::fs::File) -> Self {
        File(f, None)
    }
}
#[cfg(unix)]
impl std::os::fd::AsRawFd for File {
    fn as_raw_fd(&self) -> std::os::fd::RawFd {
        self.0.as_raw_fd()
    }
}
#[cfg(unix)]
impl std::os::fd::AsFd for File {
    fn as_fd(&self) -> std::os::fd::BorrowedFd<'_> {
        self.0.as_fd()
    }
}
impl AsyncRead for File {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let n = match self.direct() {
            true => {
                let mut own = vec![];
                let own = unaligned(&mut own, b.remaining());
                let n = self.0.read(own)?;
                b.initialize_unfilled()[..n].copy_from_slice(&own[..n]);
                n
            },
            false => self.0.read(b.initialize_unfilled())?,
        };
        b.advance(n);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for File {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        Poll::Ready(match self.op(false) {
            Some(n) => {
                self.0.write_all(&b[..n.min(b.len())])?;
                Err(full())
            },
            None if self.direct() => {
                let mut own = vec![];
                let own = unaligned(&mut own, b.len());
                own.copy_from_slice(b);
                self.0.write(own)
            },
            None => self.0.write(b),
        })
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(self.0.flush())
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.poll_flush(cx)
    }
}
impl AsyncSeek for File {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> Result<()> {
        self.0.seek(p)?;
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<u64>> {
        Poll::Ready(self.0.stream_position())
    }
}

#[derive(Clone, Debug)]
pub struct OpenOptions(std::fs::OpenOptions);
impl Default for OpenOptions {
    fn default() -> Self {
        Self::new()
    }
}
macro_rules! option {
    ($($n:ident)*) => { $(pub fn $n(&mut self, b: bool) -> &mut Self { self.0.$n(b); self })* };
}
impl OpenOptions {
    pub fn new() -> Self {
        OpenOptions(std::fs::OpenOptions::new())
    }
    option!(read write append truncate create create_new);
    #[cfg(unix)]
    pub fn custom_flags(&mut self, flags: i32) -> &mut Self {
        std::os::unix::fs::OpenOptionsExt::custom_flags(&mut self.0, flags);
        self
    }
    pub async fn open(&self, p: impl AsRef<Path>) -> Result<File> {
        self.0.open(&p).map(|f| File::at(f, p.as_ref()))
    }
}
impl From<std::fs::OpenOptions> for OpenOptions {
    fn from(o: std::fs::OpenOptions) -> Self {
        OpenOptions(o)
    }
}
macro_rules! plain {
    ($($n:ident($($a:ident),*) -> $r:ty;)*) => { $(pub fn $n($($a: impl AsRef<Path>),*) -> impl Future<Output = Result<$r>> + Send { std::future::ready(std::fs::$n($($a),*)) })* };
}
plain! {
    remove_file(a) -> ();
    create_dir_all(a) -> ();
    create_dir(a) -> ();
    metadata(a) -> Metadata;
    read(a) -> Vec<u8>;
    read_to_string(a) -> String;
    rename(a, b) -> ();
    copy(a, b) -> u64;
}
pub async fn write(p: impl AsRef<Path>, c: impl AsRef<[u8]>) -> Result<()> {
    std::fs::write(p, c)
}
pub async fn try_exists(p: impl AsRef<Path>) -> Result<bool> {
    p.as_ref().try_exists()
}
