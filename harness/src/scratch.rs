//! Scratch directories and the per-thread runtime.

use std::future::Future;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);

pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let shm = Path::new("/dev/shm");
        let base = if shm.is_dir() && std::fs::metadata(shm).map_or(false, |m| !m.permissions().readonly()) {
            shm.to_path_buf()
        } else {
            std::env::temp_dir()
        };
        let name = format!(
            "mkverif-{}-{}",
            std::process::id(),
            NEXT.fetch_add(1, Ordering::SeqCst)
        );
        let mut dir = base.join(&name);
        if std::fs::create_dir(&dir).is_err() {
            dir = std::env::temp_dir().join(&name);
            std::fs::create_dir(&dir).expect("scratch directory");
        }
        Scratch(dir)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs a future on a fresh single-threaded runtime and waits for all its blocking work.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .max_blocking_threads(8)
        .build()
        .expect("runtime");
    rt.block_on(f)
    // dropping the runtime waits for running blocking tasks
}
