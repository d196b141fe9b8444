//! What all drivers share: reading behaviours, running each of them in its own (paused-time) runtime,
//! recording traces, and noticing panics and hangs of the code under test.
pub mod access;
pub mod flos;

use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::HashMap,
    io::Write,
    sync::{
        atomic::{AtomicUsize, Ordering},
        mpsc, Arc, Mutex,
    },
    time::Duration,
};

use flarch::{
    data_storage::{DataStorage, StorageError},
    nodeids::U256,
};

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub struct Stop;

/// Panics of the code under test are data, not output.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Stop>() {
            return;
        }
        let s = format!("{info}");
        if std::env::var("SHOW_PANIC").is_ok() {
            eprintln!("{s}");
        }
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(s)
            }
        });
    }));
}

pub fn take_panic() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}

#[derive(Clone, Default)]
pub struct Rec {
    inner: Arc<Mutex<(Value, Vec<Value>)>>,
}

impl Rec {
    pub fn cfg(&self, v: Value) {
        self.inner.lock().unwrap().0 = v;
    }
    /// Record one step; if the code under test panicked meanwhile, record this and end the behaviour.
    pub fn step(&self, v: Value) {
        if let Some(p) = take_panic() {
            self.inner.lock().unwrap().1.push(json!({"op": "panic", "msg": p, "during": v}));
            std::panic::panic_any(Stop);
        }
        self.inner.lock().unwrap().1.push(v);
    }
    pub fn len(&self) -> usize {
        self.inner.lock().unwrap().1.len()
    }
    fn value(&self) -> Value {
        let i = self.inner.lock().unwrap();
        json!({"cfg": i.0, "steps": i.1})
    }
}

pub fn read_lines(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .expect("reading behaviours")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).expect("behaviour is JSON"))
        .collect()
}

/// A runtime whose clock only advances when nothing can run anymore.
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap()
}

/// In a paused runtime this returns when all tasks wait for something from outside.
pub async fn quiesce() {
    tokio::time::sleep(Duration::from_micros(10)).await;
}

/// Replays all behaviours, several at a time; a behaviour running longer than `limit` (real time) is recorded as hanging.
pub fn parallel<F>(inputs: Vec<Value>, out: &str, limit: Duration, f: F)
where
    F: Fn(&Value, &Rec) + Send + Sync + 'static,
{
    install_hook();
    let n = inputs.len();
    let inputs = Arc::new(inputs);
    let f = Arc::new(f);
    let next = Arc::new(AtomicUsize::new(0));
    let hangs = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<Vec<Option<Value>>>> = Arc::new(Mutex::new(vec![None; n]));
    let workers = std::env::var("WORKERS").ok().and_then(|w| w.parse().ok()).unwrap_or(8usize);
    let hs: Vec<_> = (0..workers)
        .map(|_| {
            let (inputs, f, next, hangs, results) =
                (inputs.clone(), f.clone(), next.clone(), hangs.clone(), results.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= inputs.len() || hangs.load(Ordering::SeqCst) >= 4 {
                    return;
                }
                let rec = Rec::default();
                let (tx, rx) = mpsc::channel();
                let (rec2, inputs2, f2) = (rec.clone(), inputs.clone(), f.clone());
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f2(&inputs2[i], &rec2)));
                        if let Err(e) = r {
                            if !e.is::<Stop>() {
                                let p = take_panic().unwrap_or("panic".into());
                                rec2.inner.lock().unwrap().1.push(json!({"op": "panic", "msg": p}));
                            }
                        }
                        let _ = tx.send(());
                    })
                    .unwrap();
                if rx.recv_timeout(limit).is_err() {
                    hangs.fetch_add(1, Ordering::SeqCst);
                    let mut v = rec.value();
                    v["steps"].as_array_mut().unwrap().push(json!({"op": "hang"}));
                    results.lock().unwrap()[i] = Some(v);
                } else {
                    results.lock().unwrap()[i] = Some(rec.value());
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let mut fh = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for r in results.lock().unwrap().iter().flatten() {
        writeln!(fh, "{}", r).unwrap();
    }
    fh.flush().unwrap();
    drop(fh);
    // Do not wait for hanging threads.
    std::process::exit(0);
}

/// Number of leading bits two ids have in common - computed without the code under test. 255 if equal, as the code has it.
pub fn common_bits(a: &U256, b: &U256) -> usize {
    let (a, b) = (a.to_bytes(), b.to_bytes());
    let mut n = 0;
    for i in 0..32 {
        let x = a[i] ^ b[i];
        if x == 0 {
            n += 8;
        } else {
            return n + x.leading_zeros() as usize;
        }
    }
    n.min(255)
}

/// A storage in memory which can be copied as it is at one moment.
#[derive(Clone, Default)]
pub struct MemStorage {
    pub kvs: Arc<Mutex<HashMap<String, String>>>,
}

impl MemStorage {
    pub fn snapshot(&self) -> MemStorage {
        MemStorage { kvs: Arc::new(Mutex::new(self.kvs.lock().unwrap().clone())) }
    }
}

#[async_trait::async_trait]
impl DataStorage for MemStorage {
    fn get(&self, key: &str) -> Result<String, StorageError> {
        Ok(self.kvs.lock().unwrap().get(key).cloned().unwrap_or_default())
    }
    fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
        self.kvs.lock().unwrap().insert(key.into(), value.into());
        Ok(())
    }
    fn remove(&mut self, key: &str) -> Result<(), StorageError> {
        self.kvs.lock().unwrap().remove(key);
        Ok(())
    }
    fn clone_box(&self) -> Box<dyn DataStorage + Send> {
        Box::new(self.clone())
    }
}

pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("number expected: {v}")) as usize
}
pub fn arr(v: &Value) -> &Vec<Value> {
    static EMPTY: Vec<Value> = vec![];
    v.as_array().unwrap_or(&EMPTY)
}
pub fn uss(v: &Value) -> Vec<usize> {
    arr(v).iter().map(us).collect()
}
pub fn drain<T>(rx: &mut tokio::sync::mpsc::UnboundedReceiver<T>) -> Vec<T> {
    let mut out = vec![];
    while let Ok(m) = rx.try_recv() {
        out.push(m);
    }
    out
}
/// Positions are 1-based in the specifications; 0 means "none of the known ones".
pub fn pos<T: PartialEq>(l: &[T], x: &T) -> usize {
    l.iter().position(|y| y == x).map_or(0, |p| p + 1)
}
