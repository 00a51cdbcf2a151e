//! Supervision: the exploring worker records the case it is about to run in shared memory. If the
//! worker dies or stops making progress, the supervisor re-runs that one case in a fresh process to
//! confirm, and only then reports it.
use std::cell::Cell;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub const SLOTS: usize = 64;
const SLOT: usize = 1 << 19;
const CTX: usize = 1 << 18;

// slot layout: 0 seq:u64 | 8 busy:u64 | 16 ctxlen:u64 | 24 inlen:u64 | 32.. ctx | CTX.. input
static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static NEXT: AtomicUsize = AtomicUsize::new(0);
static FREE: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
/// The slot of a thread: a thread that ends works on nothing any more.
struct Mine(Cell<usize>);
impl Drop for Mine {
    fn drop(&mut self) {
        let b = BASE.load(Ordering::Relaxed);
        if !b.is_null() && self.0.get() != usize::MAX {
            unsafe { word(b.add(self.0.get() * SLOT), 1).store(0, Ordering::SeqCst) };
            FREE.lock().unwrap().push(self.0.get());
        }
    }
}
thread_local! { static MINE: Mine = const { Mine(Cell::new(usize::MAX)) }; }

fn map(path: &Path) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .unwrap();
    f.set_len((SLOTS * SLOT) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    std::mem::forget(f);
    p
}

pub fn attach(path: &Path) {
    BASE.store(map(path), Ordering::SeqCst);
}

fn slot() -> Option<*mut u8> {
    let b = BASE.load(Ordering::Relaxed);
    if b.is_null() {
        return None;
    }
    let i = MINE.with(|m| {
        if m.0.get() == usize::MAX {
            let again = FREE.lock().unwrap().pop();
            m.0.set(again.unwrap_or_else(|| NEXT.fetch_add(1, Ordering::SeqCst)));
            assert!(m.0.get() < SLOTS, "too many threads");
        }
        m.0.get()
    });
    Some(unsafe { b.add(i * SLOT) })
}
unsafe fn word(p: *mut u8, i: usize) -> &'static AtomicU64 {
    unsafe { &*(p.add(i * 8) as *const AtomicU64) }
}

/// What the current thread works on from now on (kind and type).
pub fn context(s: &str) {
    let Some(p) = slot() else { return };
    let b = &s.as_bytes()[..s.len().min(CTX - 64)];
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(32), b.len());
        word(p, 2).store(b.len() as u64, Ordering::SeqCst);
    }
}
/// The input about to be run.
#[inline]
pub fn input(b: &[u8]) {
    let Some(p) = slot() else { return };
    let n = b.len().min(SLOT - CTX);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(CTX), n);
        word(p, 3).store(n as u64, Ordering::Relaxed);
        word(p, 1).store(1, Ordering::Relaxed);
        let s = word(p, 0);
        s.store(s.load(Ordering::Relaxed) + 1, Ordering::Release);
    }
}
#[inline]
pub fn idle() {
    let Some(p) = slot() else { return };
    unsafe { word(p, 1).store(0, Ordering::Release) };
}

#[derive(Clone, Debug)]
pub struct Stuck {
    pub context: String,
    pub input: Vec<u8>,
}

fn read_slots(b: *mut u8) -> Vec<Stuck> {
    let mut v = vec![];
    for i in 0..SLOTS {
        let p = unsafe { b.add(i * SLOT) };
        unsafe {
            if word(p, 1).load(Ordering::SeqCst) == 1 {
                let n = word(p, 2).load(Ordering::SeqCst) as usize;
                let c = std::slice::from_raw_parts(p.add(32), n.min(CTX));
                let n = word(p, 3).load(Ordering::SeqCst) as usize;
                let d = std::slice::from_raw_parts(p.add(CTX), n.min(SLOT - CTX));
                v.push(Stuck {
                    context: String::from_utf8_lossy(c).into_owned(),
                    input: d.to_vec(),
                });
            }
        }
    }
    v
}

pub enum End {
    /// the worker finished by itself with this status
    Exit(i32),
    /// it died or hung; the busy cases at that moment
    Crash(String, Vec<Stuck>),
}

fn wait(child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = child.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// Runs `me worker args…` and watches it. A case that runs longer than `hang` counts as stuck.
pub fn supervise(work: &Path, args: &[String], hang: Duration) -> End {
    std::fs::create_dir_all(work).unwrap();
    let file: PathBuf = work.join(format!("slots-{}", std::process::id()));
    let base = map(&file);
    let me = std::env::current_exe().unwrap();
    let mut child = Command::new(me)
        .args(args)
        .env("MC_SLOTS", &file)
        .stdin(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    let end = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break match s.code() {
                Some(c @ (0 | 1 | 2)) => End::Exit(c),
                _ => End::Crash(format!("worker ended with {s}"), read_slots(base)),
            };
        }
        let mut stuck = false;
        for (i, l) in last.iter_mut().enumerate() {
            let p = unsafe { base.add(i * SLOT) };
            let (seq, busy) = unsafe {
                (
                    word(p, 0).load(Ordering::SeqCst),
                    word(p, 1).load(Ordering::SeqCst),
                )
            };
            if seq != l.0 || busy == 0 {
                *l = (seq, Instant::now());
            } else if l.1.elapsed() > hang {
                stuck = true;
            }
        }
        if stuck {
            let v = read_slots(base);
            let _ = child.kill();
            let _ = child.wait();
            break End::Crash("a case did not finish".into(), v);
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = std::fs::remove_file(&file);
    end
}

/// Runs a single case alone in a fresh process: Some(how it ended) unless it exits 0 or 1 in time.
pub fn confirm(args: &[String], limit: Duration) -> Option<String> {
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new(me)
        .args(args)
        .env_remove("MC_SLOTS")
        .env("MC_CONFIRM", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    match wait(&mut c, limit) {
        None => Some(format!("does not finish within {} s", limit.as_secs())),
        Some(s) => match s.code() {
            // 2: the case could not be read back (it is longer than a slot)
            Some(0 | 1 | 2) => None,
            _ => Some(format!("ends the process: {s}")),
        },
    }
}

pub fn attach_from_env() {
    if let Ok(p) = std::env::var("MC_SLOTS") {
        attach(Path::new(&p));
    }
}
