//! System-call faults for files below registered directories. The harness defines the C
//! library entry points the standard library uses; anything not registered goes straight on.

use std::collections::HashMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, RwLock};
use std::time::Duration;

use libc::{iovec, off64_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};

/// Faults for one file.
#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct FilePlan {
    pub fail_open: Option<i32>,
    /// the n-th write call (0-based) fails with errno; `sticky`: and all later ones
    pub fail_write: Option<(u64, i32, bool)>,
    /// bytes accepted before writes fail with errno (a partial write comes first)
    pub budget: Option<(u64, i32)>,
    /// writes (or reads) accept only a part, chosen from this seed
    pub short: Option<u64>,
    /// every n-th call is interrupted
    pub eintr_every: Option<u64>,
    /// writes from the n-th on (0-based) take this long
    pub slow_write: Option<(u64, u32)>,
    pub fail_sync: Option<i32>,
    pub slow_sync_ms: u32,
    /// report success without writing
    pub swallow: bool,
    /// reads touching start..end fail with errno
    pub bad: Vec<(u64, u64, i32)>,
    /// reads starting at a multiple of this take a little longer
    pub slow_read: Option<(u64, u32)>,
    /// the n-th call (0-based) of this kind gets no answer until `release`
    #[serde(default)]
    pub hold: Option<(Call, u64)>,
    /// note every change made to the file
    #[serde(default)]
    pub journal: bool,
}

/// A change of a file, as the operating system carried it out.
#[derive(Clone, Debug, PartialEq)]
pub enum Change {
    /// opened, with this content
    Opened(Vec<u8>),
    Wrote(u64, Vec<u8>),
    Resized(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call {
    Open,
    Write,
    Sync,
    Read,
}

/// How long a held call waits to be released before it goes on all the same.
pub const HOLD_LIMIT: Duration = Duration::from_secs(20);

#[derive(Default, Debug, Clone, Copy)]
pub struct Held {
    pub entered: bool,
    pub released: bool,
    pub timed_out: bool,
}

#[derive(Default, Debug)]
pub struct FileState {
    pub plan: FilePlan,
    pub opens: AtomicU64,
    pub writes: AtomicU64,
    /// bytes the kernel accepted
    pub written: AtomicU64,
    /// bytes accepted when the last successful sync started
    pub synced: AtomicU64,
    pub syncs: AtomicU64,
    pub failed: AtomicU64,
    /// the highest file position asked of a read
    pub read_hi: AtomicU64,
    pub changes: Mutex<Vec<Change>>,
    calls: AtomicU64,
    reads: AtomicU64,
    held: Mutex<Held>,
    answer: Condvar,
}

impl FileState {
    pub fn get(x: &AtomicU64) -> u64 {
        x.load(SeqCst)
    }
    pub fn held(&self) -> Held {
        *self.held.lock().unwrap()
    }
    pub fn release(&self) {
        self.held.lock().unwrap().released = true;
        self.answer.notify_all();
    }
    fn hold(&self, call: Call, nth: u64) {
        if self.plan.hold != Some((call, nth)) {
            return;
        }
        let mut h = self.held.lock().unwrap();
        h.entered = true;
        let start = std::time::Instant::now();
        while !h.released {
            let left = HOLD_LIMIT.saturating_sub(start.elapsed());
            if left.is_zero() {
                h.timed_out = true;
                return;
            }
            h = self.answer.wait_timeout(h, left).unwrap().0;
        }
    }
}

struct Dir {
    path: PathBuf,
    /// by extension
    files: HashMap<String, Arc<FileState>>,
}

static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static DIRS: Mutex<Vec<Arc<Dir>>> = Mutex::new(Vec::new());
static FDS: RwLock<Option<HashMap<c_int, Arc<FileState>>>> = RwLock::new(None);

/// Applies plans to files of `dir`, by extension, until dropped.
pub struct Guard {
    dir: Arc<Dir>,
}

impl Guard {
    pub fn new(dir: &Path, plans: Vec<(&str, FilePlan)>) -> Guard {
        let dir = Arc::new(Dir {
            path: dir.to_path_buf(),
            files: plans
                .into_iter()
                .map(|(ext, plan)| {
                    (
                        ext.to_string(),
                        Arc::new(FileState {
                            plan,
                            ..FileState::default()
                        }),
                    )
                })
                .collect(),
        });
        DIRS.lock().unwrap().push(dir.clone());
        ACTIVE.fetch_add(1, SeqCst);
        Guard { dir }
    }
    pub fn file(&self, ext: &str) -> &FileState {
        &self.dir.files[ext]
    }
}

impl Drop for Guard {
    fn drop(&mut self) {
        DIRS.lock().unwrap().retain(|d| !Arc::ptr_eq(d, &self.dir));
        if let Some(m) = FDS.write().unwrap().as_mut() {
            m.retain(|_, f| !self.dir.files.values().any(|x| Arc::ptr_eq(x, f)));
        }
        ACTIVE.fetch_sub(1, SeqCst);
    }
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn of_path(path: &[u8]) -> Option<Arc<FileState>> {
    let p = Path::new(std::ffi::OsStr::from_bytes(path));
    let ext = p.extension()?.to_str()?;
    let dirs = DIRS.lock().unwrap();
    let d = dirs.iter().find(|d| p.starts_with(&d.path))?;
    d.files.get(ext).cloned()
}

fn of_fd(fd: c_int) -> Option<Arc<FileState>> {
    if ACTIVE.load(SeqCst) == 0 {
        return None;
    }
    FDS.read().unwrap().as_ref()?.get(&fd).cloned()
}

unsafe fn open_at(dirfd: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let state = if ACTIVE.load(SeqCst) > 0 {
        of_path(CStr::from_ptr(path).to_bytes())
    } else {
        None
    };
    if let Some(s) = &state {
        let nth = s.opens.fetch_add(1, SeqCst);
        s.hold(Call::Open, nth);
        if let Some(e) = s.plan.fail_open {
            s.failed.fetch_add(1, SeqCst);
            set_errno(e);
            return -1;
        }
    }
    let fd = libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as libc::c_uint) as c_int;
    if let Some(s) = &state {
        if s.plan.journal && fd >= 0 && flags & libc::O_ACCMODE != libc::O_RDONLY {
            let mut content = vec![];
            let len = libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_END);
            libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_SET);
            if len > 0 {
                // a descriptor open for writing only cannot be read through
                let r = libc::syscall(libc::SYS_openat, dirfd, path, libc::O_RDONLY | libc::O_CLOEXEC, 0) as c_int;
                content.resize(len as usize, 0);
                libc::syscall(libc::SYS_pread64, r, content.as_mut_ptr(), content.len(), 0i64);
                libc::syscall(libc::SYS_close, r);
            }
            s.changes.lock().unwrap().push(Change::Opened(content));
        }
    }
    if ACTIVE.load(SeqCst) > 0 && fd >= 0 {
        let mut m = FDS.write().unwrap();
        let m = m.get_or_insert_with(HashMap::new);
        match state {
            Some(s) => m.insert(fd, s),
            None => m.remove(&fd),
        };
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(
    dirfd: c_int,
    path: *const c_char,
    flags: c_int,
    mode: libc::mode_t,
) -> c_int {
    open_at(dirfd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ACTIVE.load(SeqCst) > 0 {
        if let Some(m) = FDS.write().unwrap().as_mut() {
            m.remove(&fd);
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Decides about a write of `n` bytes: how many to pass on, or errno.
fn admit(s: &FileState, n: usize) -> Result<usize, c_int> {
    let p = &s.plan;
    let call = s.calls.fetch_add(1, SeqCst);
    if let Some(k) = p.eintr_every {
        if k > 0 && call % (k + 1) == k {
            return Err(libc::EINTR);
        }
    }
    let nth = s.writes.fetch_add(1, SeqCst);
    s.hold(Call::Write, nth);
    if let Some((from, ms)) = p.slow_write {
        if nth >= from {
            std::thread::sleep(Duration::from_millis(ms as u64));
        }
    }
    if let Some((k, e, sticky)) = p.fail_write {
        if nth == k || (sticky && nth > k) {
            s.failed.fetch_add(1, SeqCst);
            return Err(e);
        }
    }
    let mut take = n;
    if let Some(seed) = p.short {
        if n > 1 {
            let z = mix(seed.wrapping_add(nth.wrapping_mul(0x9e3779b97f4a7c15)));
            take = 1 + (z as usize >> 8) % match z & 3 {
                0 => n.min(7),
                1 => n,
                _ => n.min(4000),
            };
        }
    }
    if let Some((limit, e)) = p.budget {
        let left = limit.saturating_sub(s.written.load(SeqCst)) as usize;
        if left == 0 && n > 0 {
            s.failed.fetch_add(1, SeqCst);
            return Err(e);
        }
        take = take.min(left);
    }
    Ok(take)
}

/// The plan of a descriptor, also of one made by duplicating another.
fn of_fd_or_link(fd: c_int) -> Option<Arc<FileState>> {
    if ACTIVE.load(SeqCst) == 0 {
        return None;
    }
    of_fd(fd).or_else(|| {
        let link = format!("/proc/self/fd/{}\0", fd);
        let mut buf = [0u8; 512];
        let n = unsafe {
            libc::syscall(
                libc::SYS_readlinkat,
                libc::AT_FDCWD,
                link.as_ptr(),
                buf.as_mut_ptr(),
                buf.len(),
            )
        };
        if n <= 0 || buf[0] != b'/' {
            return None;
        }
        of_path(&buf[..n as usize])
    })
}

unsafe fn do_write(
    fd: c_int,
    buf: *const c_void,
    off: Option<i64>,
    n: usize,
    real: impl FnOnce(usize) -> ssize_t,
) -> ssize_t {
    let Some(s) = of_fd_or_link(fd) else { return real(n) };
    match admit(&s, n) {
        Err(e) => {
            set_errno(e);
            -1
        }
        Ok(take) => {
            let r = if s.plan.swallow { take as ssize_t } else { real(take) };
            if r > 0 {
                s.written.fetch_add(r as u64, SeqCst);
                if s.plan.journal {
                    let at = off.unwrap_or_else(|| {
                        libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_CUR) as i64 - r as i64
                    });
                    let bytes = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
                    s.changes.lock().unwrap().push(Change::Wrote(at as u64, bytes));
                }
            }
            r
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, None, n, |k| libc::syscall(libc::SYS_write, fd, buf, k) as ssize_t)
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(
    fd: c_int,
    buf: *const c_void,
    n: size_t,
    off: off64_t,
) -> ssize_t {
    do_write(fd, buf, Some(off), n, |k| {
        libc::syscall(libc::SYS_pwrite64, fd, buf, k, off) as ssize_t
    })
}

unsafe fn resized(fd: c_int, r: c_int) -> c_int {
    if r == 0 {
        if let Some(s) = of_fd_or_link(fd).filter(|s| s.plan.journal) {
            let mut st: libc::stat64 = std::mem::zeroed();
            if libc::fstat64(fd, &mut st) == 0 {
                s.changes.lock().unwrap().push(Change::Resized(st.st_size as u64));
            }
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    resized(fd, libc::syscall(libc::SYS_ftruncate, fd, len) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    resized(fd, libc::syscall(libc::SYS_fallocate, fd, mode, off, len) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    fallocate64(fd, mode, off, len)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if of_fd_or_link(fd).is_none() {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    // a legal partial write of the first non-empty vector
    for v in std::slice::from_raw_parts(iov, cnt.max(0) as usize) {
        if v.iov_len > 0 {
            return write(fd, v.iov_base, v.iov_len);
        }
    }
    0
}

unsafe fn do_read(
    fd: c_int,
    n: usize,
    off: Option<i64>,
    real: impl FnOnce(usize) -> ssize_t,
) -> ssize_t {
    let Some(s) = of_fd(fd) else { return real(n) };
    let p = &s.plan;
    let call = s.calls.fetch_add(1, SeqCst);
    if let Some(k) = p.eintr_every {
        if k > 0 && call % (k + 1) == k {
            set_errno(libc::EINTR);
            return -1;
        }
    }
    let at = match off {
        Some(o) => o as u64,
        None => libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_CUR) as u64,
    };
    if let Some((every, us)) = p.slow_read {
        if every > 0 && at % every == 0 {
            std::thread::sleep(Duration::from_micros(us as u64));
        }
    }
    let mut take = n;
    let nth = s.reads.fetch_add(1, SeqCst);
    s.read_hi.fetch_max(at.saturating_add(n as u64), SeqCst);
    s.hold(Call::Read, nth);
    if let Some(seed) = p.short {
        if n > 1 {
            let z = mix(seed.wrapping_add(nth.wrapping_mul(0x9e3779b97f4a7c15)));
            take = 1 + (z as usize >> 8) % match z & 3 {
                0 => n.min(7),
                1 => n,
                _ => n.min(4000),
            };
        }
    }
    for (a, b, e) in &p.bad {
        if at < *b && at.saturating_add(take as u64) > *a {
            if at < *a {
                // the good part first, as a device would
                take = (*a - at) as usize;
            } else {
                s.failed.fetch_add(1, SeqCst);
                set_errno(*e);
                return -1;
            }
        }
    }
    real(take)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    do_read(fd, n, None, |k| libc::syscall(libc::SYS_read, fd, buf, k) as ssize_t)
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_read(fd, n, Some(off), |k| {
        libc::syscall(libc::SYS_pread64, fd, buf, k, off) as ssize_t
    })
}

unsafe fn do_sync(fd: c_int, nr: libc::c_long) -> c_int {
    if let Some(s) = of_fd_or_link(fd) {
        let upto = s.written.load(SeqCst);
        if s.plan.slow_sync_ms > 0 {
            std::thread::sleep(Duration::from_millis(s.plan.slow_sync_ms as u64));
        }
        let nth = s.syncs.fetch_add(1, SeqCst);
        s.hold(Call::Sync, nth);
        if let Some(e) = s.plan.fail_sync {
            s.failed.fetch_add(1, SeqCst);
            set_errno(e);
            return -1;
        }
        // scratch files need no real sync; success is what the caller learns
        s.synced.fetch_max(upto, SeqCst);
        return 0;
    }
    libc::syscall(nr, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}
