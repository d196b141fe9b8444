//! Timers, intervals and waiting, on a clock which only moves when told to.
use fl_harness::*;
use flarch::{
    broker::Broker,
    tasks::{now, wait, wait_ms, Interval},
};
use flmodules::timer::{Timer, TimerMessage};
use futures::{future::join_all, StreamExt};
use serde_json::{json, Value};
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};
use tokio::{sync::mpsc::UnboundedReceiver, time::Instant};

type B = Broker<usize, usize>;
type Log = Arc<Mutex<Vec<i64>>>;

/// Somebody who asked for ticks.
enum Sub {
    Broker(B, UnboundedReceiver<usize>),
    Raw(UnboundedReceiver<TimerMessage>),
    Gone,
}

struct Ctx {
    base: Instant,
    timers: Vec<Option<Timer>>,
    starts: Vec<u64>,
    subs: Vec<Sub>,
    /// what an interval gave, or whether somebody waiting has ended
    logs: Vec<Log>,
}

impl Ctx {
    fn at(&self) -> u64 {
        (Instant::now() - self.base).as_millis() as u64
    }

    async fn sub(&mut self, t: usize, kind: &str) -> bool {
        let Some(timer) = self.timers[t].as_mut() else {
            return false;
        };
        if kind == "raw" {
            self.subs.push(Sub::Raw(timer.broker.get_tap_out().await.unwrap().0));
            return true;
        }
        let mut b = B::new();
        let tap = b.get_tap_in().await.unwrap().0;
        match kind {
            "second" => Timer::second(timer.broker.clone(), b.clone(), 1).await.unwrap(),
            "minute" => Timer::minute(timer.broker.clone(), b.clone(), 2).await.unwrap(),
            "tick_second" => timer.tick_second(b.clone(), 1).await.unwrap(),
            "tick_minute" => timer.tick_minute(b.clone(), 2).await.unwrap(),
            _ => {
                // both, one from a copy
                timer.clone().tick_second(b.clone(), 1).await.unwrap();
                Timer::minute(timer.broker.clone(), b.clone(), 2).await.unwrap();
            }
        }
        self.subs.push(Sub::Broker(b, tap));
        true
    }

    fn sees(&mut self) -> Value {
        let got: Vec<Value> = self
            .subs
            .iter_mut()
            .map(|s| {
                let mut l = vec![];
                match s {
                    Sub::Broker(_, r) => {
                        while let Ok(m) = r.try_recv() {
                            l.push(m)
                        }
                    }
                    Sub::Raw(r) => {
                        while let Ok(m) = r.try_recv() {
                            l.push(if m == TimerMessage::Second { 1 } else { 2 })
                        }
                    }
                    Sub::Gone => {}
                }
                // a run of seconds as one number
                let mut out: Vec<Value> = vec![];
                let mut run = 0;
                for m in l {
                    if m == 1 {
                        run += 1;
                    } else {
                        out.push(json!(run));
                        run = 0;
                    }
                }
                out.push(json!(run));
                json!(out)
            })
            .collect();
        let logs: Vec<Value> = self.logs.iter().map(|l| json!(std::mem::take(&mut *l.lock().unwrap()))).collect();
        json!({"at": self.at(), "got": got, "logs": logs})
    }
}

/// An interval made in the middle of nowhere, i.e., while the clock on the wall stands still.
fn interval(off: i64, dur: Duration) -> (i64, Interval) {
    loop {
        let t = now();
        let i = Interval::new(t + off, dur);
        if now() == t {
            return (t + off, i);
        }
    }
}

fn one(b: &Value, rec: &Rec) {
    rec.cfg(json!({}));
    let rt = rt();
    rt.block_on(async {
        let mut c = Ctx { base: Instant::now(), timers: vec![], starts: vec![], subs: vec![], logs: vec![] };
        for op in arr(&b["ops"]) {
            let mut step = op.clone();
            step["from"] = json!(c.at());
            let ms = op.get("ms").map(us).unwrap_or(0) as u64;
            match op["op"].as_str().unwrap() {
                "timer" => {
                    c.starts.push(c.at());
                    let t = Timer::start().await.unwrap();
                    c.timers.push(Some(t));
                    // nobody but who asks at once can get the first
                    step["ok"] = json!(c.sub(c.timers.len() - 1, op["kind"].as_str().unwrap()).await);
                }
                "sub" => step["ok"] = json!(c.sub(us(&op["t"]) - 1, op["kind"].as_str().unwrap()).await),
                "forget" => c.timers[us(&op["t"]) - 1] = None,
                "leave" => {
                    if let Some(s) = c.subs.get_mut(us(&op["s"]) - 1) {
                        *s = Sub::Gone
                    }
                }
                "pass" => tokio::time::sleep(Duration::from_millis(ms)).await,
                "stall" => tokio::time::advance(Duration::from_millis(ms)).await,
                "freeze" => {
                    std::thread::sleep(Duration::from_millis(ms));
                    tokio::time::advance(Duration::from_millis(ms)).await
                }
                "interval" => {
                    let dur = Duration::from_millis(us(&op["dur"]) as u64);
                    let (start, mut i) = if op["new"] == 1 {
                        let t = now();
                        let i = Interval::new_interval(dur);
                        (t, i)
                    } else {
                        interval(op["off"].as_i64().unwrap(), dur)
                    };
                    let end = if op["new"] == 1 { now() } else { start };
                    let log: Log = Default::default();
                    c.logs.push(log.clone());
                    tokio::spawn(async move {
                        let mut first = None;
                        while let Some(v) = i.next().await {
                            let s = *first.get_or_insert(if start <= v && v <= end { v } else { start - 1_000_000 });
                            log.lock().unwrap().push(v - s);
                        }
                    });
                }
                "many" => {
                    // they are due at once, at whatever moment they are made
                    let n = us(&op["n"]);
                    let mut all: Vec<Interval> = (0..n).map(|_| Interval::new_interval(Duration::from_secs(1))).collect();
                    let fired = Arc::new(Mutex::new(0));
                    let f = join_all(all.iter_mut().map(|i| {
                        let fired = fired.clone();
                        async move {
                            i.next().await;
                            *fired.lock().unwrap() += 1;
                        }
                    }));
                    let _ = tokio::time::timeout(Duration::from_millis(5), f).await;
                    step["fired"] = json!(*fired.lock().unwrap());
                }
                "wait" => {
                    let log: Log = Default::default();
                    c.logs.push(log.clone());
                    let kind = op["new"] == 1;
                    tokio::spawn(async move {
                        if kind {
                            wait(Duration::from_millis(ms)).await
                        } else {
                            wait_ms(ms).await
                        }
                        log.lock().unwrap().push(0);
                    });
                }
                o => panic!("unknown op {o}"),
            }
            quiesce().await;
            // not in the moment of a tick
            while c.starts.iter().any(|s| !(5..995).contains(&((c.at() - s) % 1000))) {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            step["sees"] = c.sees();
            rec.step(step);
        }
    });
    rt.shutdown_background();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(120), one);
}
