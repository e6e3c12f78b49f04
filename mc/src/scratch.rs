//! Scratch directories, one root per process, removed at exit.
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

static ROOT: OnceLock<PathBuf> = OnceLock::new();
static N: AtomicU64 = AtomicU64::new(0);

fn root() -> &'static PathBuf {
    ROOT.get_or_init(|| {
        for base in ["/dev/shm".into(), std::env::temp_dir()] {
            let p: PathBuf = PathBuf::from(base).join(format!("verif-mc-{}", std::process::id()));
            if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("probe"), b"x").is_ok()
            {
                return p;
            }
        }
        panic!("no scratch directory");
    })
}

/// A fresh empty directory.
pub fn fresh(tag: &str) -> PathBuf {
    let p = root().join(format!("{tag}-{}", N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

/// A directory private to a worker thread of a space.
pub fn worker(tag: &str, worker: usize) -> PathBuf {
    let p = root().join(format!("{tag}-w{worker}"));
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

pub fn remove(p: &PathBuf) {
    if p.starts_with(root()) {
        let _ = std::fs::remove_dir_all(p);
    }
}

pub fn cleanup() {
    if let Some(p) = ROOT.get() {
        let _ = std::fs::remove_dir_all(p);
    }
}
