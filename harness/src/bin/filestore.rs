//! Storages in files of one directory; the process writing a value is cut off at every point.
use fl_harness::*;
use flarch::data_storage::{DataStorage, DataStorageFile};
use serde_json::{json, Value};
use std::{
    path::{Path, PathBuf},
    sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst},
    time::Duration,
};

const BASES: [&str; 5] = ["one", "a_b", "a", "", "fledger"];
const KEYS: [&str; 15] = ["two", "DHTStorage", "c", "b_c", "Two é😀", "x", "x.tmp", "tmp", "two.a", "two-a", "two_a", "Two", "two.yaml", "two ", "two\u{e9}"];

/// The system calls of the process which is cut off: only those about files which it opened for writing, and names.
mod cut {
    use super::*;
    use libc::*;
    /// The call at which it happens (-1: never), after how many bytes if it is a write, and whether the process dies or the disk is full.
    pub static AT: AtomicI64 = AtomicI64::new(-1);
    pub static BYTES: AtomicUsize = AtomicUsize::new(0);
    pub static FULL: AtomicUsize = AtomicUsize::new(0);
    static COUNT: AtomicI64 = AtomicI64::new(0);
    static FDS: AtomicUsize = AtomicUsize::new(0);
    pub static ARMED: AtomicUsize = AtomicUsize::new(0);

    /// True if this call is to fail.
    fn here() -> bool {
        if ARMED.load(SeqCst) == 0 || AT.load(SeqCst) < 0 {
            return false;
        }
        let n = COUNT.fetch_add(1, SeqCst);
        if FULL.load(SeqCst) == 1 {
            return n >= AT.load(SeqCst);
        }
        if n == AT.load(SeqCst) && BYTES.load(SeqCst) == 0 {
            unsafe { _exit(9) };
        }
        n == AT.load(SeqCst)
    }
    fn full() -> c_int {
        unsafe { *__errno_location() = ENOSPC };
        -1
    }
    unsafe fn opened(fd: c_int, flags: c_int) -> c_int {
        if fd >= 0 && fd < 64 && flags & O_ACCMODE != O_RDONLY && ARMED.load(SeqCst) == 1 {
            FDS.fetch_or(1 << fd, SeqCst);
        }
        fd
    }
    unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        if flags & O_ACCMODE != O_RDONLY && here() && FULL.load(SeqCst) == 1 && flags & O_CREAT != 0 {
            // on a full disk an existing file can still be opened
            if syscall(SYS_faccessat, dir, p, 0) != 0 {
                return full();
            }
        }
        opened(syscall(SYS_openat, dir, p, flags, mode) as c_int, flags)
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(AT_FDCWD, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(dir, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
        if fd >= 0 && fd < 64 && FDS.load(SeqCst) >> fd & 1 == 1 && here() {
            let b = BYTES.swap(0, SeqCst).min(n);
            if b > 0 {
                let r = syscall(SYS_write, fd, buf, b) as ssize_t;
                if FULL.load(SeqCst) == 0 {
                    _exit(9);
                }
                return r;
            }
            if FULL.load(SeqCst) == 0 {
                _exit(9);
            }
            return full() as ssize_t;
        }
        syscall(SYS_write, fd, buf, n) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: c_int) -> c_int {
        if fd >= 0 && fd < 64 && FDS.fetch_and(!(1 << fd), SeqCst) >> fd & 1 == 1 {
            here();
        }
        syscall(SYS_close, fd) as c_int
    }
    macro_rules! name_call {
        ($name:ident, $no:expr, $($a:ident : $t:ty),*) => {
            #[no_mangle]
            pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
                here();
                syscall($no, $($a),*) as c_int
            }
        };
    }
    name_call!(rename, SYS_rename, a: *const c_char, b: *const c_char);
    name_call!(unlink, SYS_unlink, a: *const c_char);
    name_call!(link, SYS_link, a: *const c_char, b: *const c_char);
    name_call!(ftruncate64, SYS_ftruncate, fd: c_int, n: off64_t);
    name_call!(truncate64, SYS_truncate, p: *const c_char, n: off64_t);
    name_call!(fsync, SYS_fsync, fd: c_int);
    name_call!(fdatasync, SYS_fdatasync, fd: c_int);
}

fn value(v: usize, len: usize) -> String {
    let head = format!("{v}: é\n😀\"");
    if v == 0 {
        return String::new();
    }
    let mut s = head;
    while s.len() < len {
        s.push_str(&format!("{v}.{}\n", s.len()));
    }
    s
}

/// All values which are there, and whether another look finds the same.
fn look(dir: &Path, written: &[String], mut own: impl FnMut(usize, usize) -> Option<String>) -> (Value, bool) {
    let mut all = vec![];
    let mut same = true;
    for b in 1..=BASES.len() {
        let fresh = DataStorageFile::new(dir.to_str().unwrap().into(), BASES[b - 1].into());
        for k in 1..=KEYS.len() {
            let s = fresh.get(KEYS[k - 1]).unwrap_or("unreadable".into());
            same &= own(b, k).map(|o| o == s).unwrap_or(true);
            if !s.is_empty() {
                all.push(json!({"b": b, "k": k, "v": written.iter().position(|w| *w == s).unwrap_or(999999)}));
            }
        }
    }
    (json!(all), same)
}

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for f in std::fs::read_dir(from).unwrap() {
        let f = f.unwrap();
        std::fs::copy(f.path(), to.join(f.file_name())).unwrap();
    }
}

/// Writes one value in another process, cut off at one point. The exit code is 0 if it returned without, 3 with an error.
fn cut_off(dir: &Path, b: usize, k: usize, v: usize, len: usize, at: i64, bytes: usize, full: usize) -> i32 {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--cut", dir.to_str().unwrap()])
        .args([b, k, v, len, bytes, full].map(|n| n.to_string()))
        .arg(at.to_string())
        .stderr(std::process::Stdio::null())
        .status()
        .unwrap()
        .code()
        .unwrap_or(99)
}
fn child(a: &[String]) {
    let n: Vec<usize> = a[1..7].iter().map(|s| s.parse().unwrap()).collect();
    let mut ds = DataStorageFile::new(a[0].clone(), BASES[n[0] - 1].into());
    let val = value(n[2], n[3]);
    cut::AT.store(a[7].parse().unwrap(), SeqCst);
    cut::BYTES.store(n[4], SeqCst);
    cut::FULL.store(n[5], SeqCst);
    cut::ARMED.store(1, SeqCst);
    let r = ds.set(KEYS[n[1] - 1], &val);
    cut::ARMED.store(0, SeqCst);
    std::process::exit(if r.is_ok() { 0 } else { 3 });
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

fn one(b: &Value, rec: &Rec, root: &Path) {
    let top = root.join(format!("{}", NEXT.fetch_add(1, SeqCst)));
    let mut dir: PathBuf = top.join("0");
    let open = |dir: &Path| -> Vec<DataStorageFile> { BASES.iter().map(|b| DataStorageFile::new(dir.to_str().unwrap().into(), (*b).into())).collect() };
    let mut ds = open(&dir);
    let mut written: Vec<String> = vec![String::new()];
    rec.cfg(json!({}));
    for (i, op) in arr(&b["ops"]).iter().enumerate() {
        let v = i + 1;
        let mut step = op.clone();
        let (bn, kn) = (op.get("b").map(us).unwrap_or(1), op.get("k").map(us).unwrap_or(1));
        let len = op.get("len").map(us).unwrap_or(0);
        // an empty value is the same as none
        let val = if len == 0 { 0 } else { v };
        written.push(value(v, len));
        step["v"] = json!(val);
        match op["op"].as_str().unwrap() {
            "set" => step["ok"] = json!(ds[bn - 1].set(KEYS[kn - 1], &value(val, len)).is_ok()),
            "remove" => step["ok"] = json!(ds[bn - 1].remove(KEYS[kn - 1]).is_ok()),
            "reopen" => ds = open(&dir),
            what => {
                let full = if what == "full" { 1 } else { 0 };
                let size = value(val, len).len();
                let mut points = vec![];
                let mut dirs = vec![];
                let mut at = 0;
                let mut complete = false;
                while at < 40 && !complete {
                    let mut cuts = vec![0, 1, size / 2, size.saturating_sub(1)];
                    cuts.dedup();
                    for bytes in cuts {
                        let d = top.join(format!("{v}-{at}-{bytes}"));
                        copy(&dir, &d);
                        let r = cut_off(&d, bn, kn, val, len, at, bytes, full);
                        complete |= r == 0;
                        let (all, same) = look(&d, &written, |_, _| None);
                        points.push(json!({"at": at, "bytes": bytes, "ok": r == 0, "all": all, "same": same && (r == 0 || r == 9 || r == 3)}));
                        dirs.push(d);
                    }
                    at += 1;
                }
                step["points"] = json!(points);
                step["complete"] = json!(complete);
                dir = dirs[us(&op["c"]) % dirs.len()].clone();
                ds = open(&dir);
            }
        }
        let (all, same) = look(&dir, &written, |b, k| ds[b - 1].get(KEYS[k - 1]).ok());
        step["all"] = all;
        step["same"] = json!(same);
        rec.step(step);
    }
    let _ = std::fs::remove_dir_all(&top);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--cut" {
        return child(&a[2..]);
    }
    let root = PathBuf::from(&a[3]);
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(120), move |b, rec| one(b, rec, &root));
}
