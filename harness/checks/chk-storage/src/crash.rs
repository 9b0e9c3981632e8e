//! Records every file-system change the database makes below a directory, so that the state at any
//! point between two changes can be rebuilt; and can make the n-th change of a thread fail.
//! The libc entry points the Rust standard library calls are defined here and forward to the kernel.
use std::cell::Cell as StdCell;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_WRITEV: c_long = 20;
const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_MKDIR: c_long = 83;
const SYS_UNLINK: c_long = 87;
const SYS_READLINK: c_long = 89;
const SYS_OPENAT: c_long = 257;
const SYS_LINKAT: c_long = 265;
const AT_FDCWD: c_int = -100;

#[derive(Clone, Debug)]
pub enum Op {
    /// open with O_CREAT or O_TRUNC
    Create { path: PathBuf, trunc: bool },
    Write { path: PathBuf, at: u64, data: Vec<u8> },
    Truncate { path: PathBuf, len: u64 },
    Unlink(PathBuf),
    Rename(PathBuf, PathBuf),
    Link(PathBuf, PathBuf),
    Mkdir(PathBuf),
    /// what the test did: started / finished step i
    Begin(usize),
    Done(usize),
}

#[derive(Default)]
pub struct Rec {
    pub ops: Mutex<Vec<Op>>,
}

static ARMED: AtomicUsize = AtomicUsize::new(0);
static RECS: Mutex<Vec<(PathBuf, Arc<Rec>)>> = Mutex::new(Vec::new());
thread_local! {
    static BUSY: StdCell<bool> = const { StdCell::new(false) };
    /// changes left before one fails, and its errno
    static FAULT: StdCell<(i64, c_int)> = const { StdCell::new((-1, 0)) };
    static FAULT_DIR: std::cell::RefCell<Option<PathBuf>> = const { std::cell::RefCell::new(None) };
}

pub fn arm(dir: &Path) -> Arc<Rec> {
    let r = Arc::new(Rec::default());
    RECS.lock().unwrap().push((dir.to_path_buf(), r.clone()));
    ARMED.fetch_add(1, Ordering::SeqCst);
    r
}
pub fn disarm(r: &Arc<Rec>) {
    RECS.lock().unwrap().retain(|x| !Arc::ptr_eq(&x.1, r));
    ARMED.fetch_sub(1, Ordering::SeqCst);
}
impl Rec {
    pub fn mark(&self, o: Op) {
        self.ops.lock().unwrap().push(o)
    }
}
/// The `n`-th change (from 0) this thread makes below `dir` fails with `errno`.
pub fn fail_nth(dir: &Path, n: i64, errno: c_int) {
    ARMED.fetch_add(1, Ordering::SeqCst);
    FAULT_DIR.with(|d| *d.borrow_mut() = Some(dir.to_path_buf()));
    FAULT.with(|f| f.set((n, errno)));
}
/// Ends fault injection; true if the fault happened.
pub fn fail_off() -> bool {
    ARMED.fetch_sub(1, Ordering::SeqCst);
    FAULT_DIR.with(|d| *d.borrow_mut() = None);
    FAULT.with(|f| f.replace((-1, 0)).0 == -1)
}

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    if ARMED.load(Ordering::Relaxed) == 0 {
        return None;
    }
    BUSY.try_with(|b| {
        if b.get() {
            return None;
        }
        b.set(true);
        let r = f();
        b.set(false);
        Some(r)
    })
    .ok()
    .flatten()
}
fn rec_of(p: &Path) -> Option<Arc<Rec>> {
    RECS.lock().unwrap().iter().find(|x| p.starts_with(&x.0)).map(|x| x.1.clone())
}
/// Some(-1) when the change has to fail.
fn fault(p: &Path) -> bool {
    if !FAULT_DIR.with(|d| d.borrow().as_ref().is_some_and(|d| p.starts_with(d))) {
        return false;
    }
    FAULT.with(|f| {
        let (n, e) = f.get();
        if n < 0 {
            return false;
        }
        f.set((n - 1, e));
        if n == 0 {
            unsafe { *__errno_location() = e };
            return true;
        }
        false
    })
}
fn path_of(p: *const c_char) -> PathBuf {
    PathBuf::from(unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned())
}
fn fd_path(fd: c_int) -> Option<PathBuf> {
    if fd <= 2 {
        return None;
    }
    let mut b = [0u8; 512];
    let l = format!("/proc/self/fd/{fd}\0");
    let n = unsafe { syscall(SYS_READLINK, l.as_ptr(), b.as_mut_ptr(), b.len()) };
    if n <= 0 || b[0] != b'/' {
        return None;
    }
    let s = String::from_utf8_lossy(&b[..n as usize]).into_owned();
    (!s.ends_with(" (deleted)")).then(|| PathBuf::from(s))
}
/// Perform `call`; if it succeeds record `op`, atomically with respect to other recorded changes.
fn change(p: Option<PathBuf>, call: impl Fn() -> c_long, op: impl Fn(PathBuf, c_long) -> Op) -> c_long {
    guarded(|| {
        let p = p.as_ref()?;
        if fault(p) {
            return Some(-1);
        }
        let r = rec_of(p)?;
        let mut ops = r.ops.lock().unwrap();
        let res = call();
        if res >= 0 {
            let o = op(p.clone(), res);
            let e = unsafe { *__errno_location() };
            ops.push(o);
            unsafe { *__errno_location() = e };
        }
        Some(res)
    })
    .flatten()
    .unwrap_or_else(call)
}
fn interesting() -> bool {
    ARMED.load(Ordering::Relaxed) > 0 && !BUSY.try_with(|b| b.get()).unwrap_or(true)
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let call = || syscall(SYS_OPENAT, AT_FDCWD, p, flags, mode);
    if flags & (0o100 | 0o1000) == 0 || !interesting() {
        return call() as c_int;
    }
    let path = path_of(p);
    if flags & 0o1000 == 0 && std::fs::symlink_metadata(&path).is_ok() {
        return call() as c_int;
    }
    change(Some(path), call, |path, _| Op::Create { path, trunc: flags & 0o1000 != 0 }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let call = || syscall(SYS_WRITE, fd, b, n);
    if !interesting() {
        return call() as isize;
    }
    change(fd_path(fd), call, |path, res| {
        let at = syscall(SYS_LSEEK, fd, 0i64, 1) as u64 - res as u64;
        Op::Write { path, at, data: std::slice::from_raw_parts(b as *const u8, res as usize).to_vec() }
    }) as isize
}
#[repr(C)]
struct IoVec {
    base: *const u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
    let call = || syscall(SYS_WRITEV, fd, v, n);
    if !interesting() {
        return call() as isize;
    }
    change(fd_path(fd), call, |path, res| {
        let at = syscall(SYS_LSEEK, fd, 0i64, 1) as u64 - res as u64;
        let mut data = vec![];
        for x in std::slice::from_raw_parts(v as *const IoVec, n as usize) {
            data.extend_from_slice(std::slice::from_raw_parts(x.base, x.len));
        }
        data.truncate(res as usize);
        Op::Write { path, at, data }
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let call = || syscall(SYS_FTRUNCATE, fd, len);
    if !interesting() {
        return call() as c_int;
    }
    change(fd_path(fd), call, |path, _| Op::Truncate { path, len: len as u64 }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let call = || syscall(SYS_UNLINK, p);
    if !interesting() {
        return call() as c_int;
    }
    change(Some(path_of(p)), call, |path, _| Op::Unlink(path)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let call = || syscall(SYS_RENAME, a, b);
    if !interesting() {
        return call() as c_int;
    }
    change(Some(path_of(a)), call, |path, _| Op::Rename(path, path_of(b))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_int) -> c_int {
    let call = || syscall(SYS_LINKAT, d1, a, d2, b, flags);
    if !interesting() {
        return call() as c_int;
    }
    change(Some(path_of(a)), call, |path, _| Op::Link(path, path_of(b))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    let call = || syscall(SYS_MKDIR, p, mode);
    if !interesting() {
        return call() as c_int;
    }
    change(Some(path_of(p)), call, |path, _| Op::Mkdir(path)) as c_int
}

/// Rebuild in `to` what `from` contained after the first `n` recorded operations (of which the last,
/// if it is a write, only reached its first `torn` bytes).
pub fn materialize(ops: &[Op], n: usize, from: &Path, to: &Path, torn: Option<usize>) -> std::io::Result<()> {
    #[derive(Clone)]
    enum Node {
        Dir,
        File(usize),
    }
    let mut names: HashMap<PathBuf, Node> = HashMap::new();
    let mut files: Vec<Vec<u8>> = vec![];
    for (i, o) in ops[..n].iter().enumerate() {
        match o {
            Op::Create { path, trunc } => match names.get(path) {
                Some(Node::File(f)) => {
                    if *trunc {
                        files[*f].clear();
                    }
                }
                _ => {
                    files.push(vec![]);
                    names.insert(path.clone(), Node::File(files.len() - 1));
                }
            },
            Op::Write { path, at, data } => {
                let data = match torn {
                    Some(k) if i + 1 == n => &data[..k.min(data.len())],
                    _ => &data[..],
                };
                if let Some(Node::File(f)) = names.get(path) {
                    let f = &mut files[*f];
                    let end = *at as usize + data.len();
                    if f.len() < end {
                        f.resize(end, 0);
                    }
                    f[*at as usize..end].copy_from_slice(data);
                }
            }
            Op::Truncate { path, len } => {
                if let Some(Node::File(f)) = names.get(path) {
                    files[*f].resize(*len as usize, 0);
                }
            }
            Op::Unlink(p) => {
                names.remove(p);
            }
            Op::Rename(a, b) => {
                if let Some(x) = names.remove(a) {
                    names.insert(b.clone(), x);
                }
            }
            Op::Link(a, b) => {
                if let Some(x) = names.get(a).cloned() {
                    names.insert(b.clone(), x);
                }
            }
            Op::Mkdir(p) => {
                names.insert(p.clone(), Node::Dir);
            }
            Op::Begin(_) | Op::Done(_) => {}
        }
    }
    std::fs::create_dir_all(to)?;
    let place = |p: &Path| to.join(p.strip_prefix(from).unwrap_or(Path::new("outside")));
    for (p, x) in &names {
        if let Node::Dir = x {
            std::fs::create_dir_all(place(p))?;
        }
    }
    for (p, x) in &names {
        if let Node::File(f) = x {
            std::fs::write(place(p), &files[*f])?;
        }
    }
    Ok(())
}
