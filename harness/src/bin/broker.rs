//! Real brokers, linked, with subscribers coming and going and several tasks emitting.
use fl_harness::*;
use flarch::broker::{Broker, Destination, Subsystem, SubsystemHandler, Translate, TranslateFrom, TranslateInto};
use futures::future::join_all;
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashMap},
    future::Future,
    sync::{Arc, Mutex},
    time::Duration,
};

#[derive(Debug, Clone, PartialEq)]
struct MI(usize, Vec<usize>);
#[derive(Debug, Clone, PartialEq)]
struct MO(usize, Vec<usize>);
type B = Broker<MI, MO>;
type Msg = (usize, Vec<usize>);

fn with(v: &[usize], lab: usize) -> Vec<usize> {
    [v, &[lab]].concat()
}
impl TranslateInto<MI> for MO {
    fn translate(self) -> Option<MI> {
        Some(MI(self.0, with(&self.1, 90)))
    }
}
impl TranslateFrom<MO> for MI {
    fn translate(msg: MO) -> Option<Self> {
        Some(MI(msg.0, with(&msg.1, 91)))
    }
}
impl TranslateInto<MO> for MO {
    fn translate(self) -> Option<MO> {
        Some(MO(self.0, with(&self.1, 92)))
    }
}
impl TranslateFrom<MI> for MI {
    fn translate(msg: MI) -> Option<Self> {
        Some(MI(msg.0, with(&msg.1, 93)))
    }
}
trait M: 'static {
    fn new(id: usize, via: Vec<usize>) -> Self;
    fn get(&self) -> (usize, &Vec<usize>);
}
impl M for MI {
    fn new(id: usize, via: Vec<usize>) -> Self {
        MI(id, via)
    }
    fn get(&self) -> (usize, &Vec<usize>) {
        (self.0, &self.1)
    }
}
impl M for MO {
    fn new(id: usize, via: Vec<usize>) -> Self {
        MO(id, via)
    }
    fn get(&self) -> (usize, &Vec<usize>) {
        (self.0, &self.1)
    }
}
fn tr<X: M, Y: M>(lab: usize, flt: usize) -> Translate<X, Y> {
    Box::new(move |m| {
        let (id, via) = m.get();
        assert!(via.len() < 60, "endless forwarding");
        (flt == 0 || (flt == 1) == (id % 2 == 1)).then(|| Y::new(id, with(via, lab)))
    })
}

struct Hand {
    n: usize,
    outs: usize,
    lim: usize,
    slow: bool,
    log: Arc<Mutex<Vec<Msg>>>,
}
#[async_trait::async_trait]
impl SubsystemHandler<MI, MO> for Hand {
    async fn messages(&mut self, msgs: Vec<MI>) -> Vec<MO> {
        let mut out = vec![];
        for MI(id, via) in msgs {
            if self.slow {
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
            }
            self.log.lock().unwrap().push((id, via.clone()));
            if via.iter().filter(|v| **v >= 100).count() < self.lim {
                for i in 1..=self.outs {
                    out.push(MO(id, with(&via, 100 * i + self.n)));
                }
            }
        }
        out
    }
}

/// Gets what arrived, and whether the other side is gone.
type Poll = Box<dyn FnMut() -> (Vec<Msg>, bool) + Send>;
struct Sub {
    b: usize,
    ss: usize,
    poll: Poll,
    log: Vec<Msg>,
    closed: bool,
}
#[derive(Clone, Default)]
struct Subs(Arc<Mutex<BTreeMap<usize, Sub>>>);
impl Subs {
    fn poll(&self) -> usize {
        let mut n = 0;
        for s in self.0.lock().unwrap().values_mut() {
            let (l, c) = (s.poll)();
            n += l.len();
            s.log.extend(l);
            s.closed |= c;
        }
        n
    }
    fn lens(&self) -> Value {
        self.poll();
        json!(self.0.lock().unwrap().iter().map(|(n, s)| json!([n, s.log.len()])).collect::<Vec<_>>())
    }
    fn logs(&self) -> Value {
        self.poll();
        json!(self
            .0
            .lock()
            .unwrap()
            .iter_mut()
            .map(|(n, s)| json!({"n": n, "l": std::mem::take(&mut s.log).into_iter().map(|(id, via)| json!({"id": id, "via": via})).collect::<Vec<_>>()}))
            .collect::<Vec<_>>())
    }
    async fn tap(&self, b: &mut B, v: &Value) -> bool {
        macro_rules! asy {
            ($rx:expr) => {{
                let Ok((mut rx, ss)) = $rx.await else { return false };
                let f: Poll = Box::new(move || {
                    let mut out = vec![];
                    loop {
                        match rx.try_recv() {
                            Ok(m) => out.push((m.0, m.1)),
                            Err(tokio::sync::mpsc::error::TryRecvError::Empty) => return (out, false),
                            Err(_) => return (out, true),
                        }
                    }
                });
                (f, ss)
            }};
        }
        macro_rules! syn {
            ($rx:expr) => {{
                let Ok((rx, ss)) = $rx.await else { return false };
                let f: Poll = Box::new(move || {
                    let mut out = vec![];
                    loop {
                        match rx.try_recv() {
                            Ok(m) => out.push((m.0, m.1)),
                            Err(std::sync::mpsc::TryRecvError::Empty) => return (out, false),
                            Err(_) => return (out, true),
                        }
                    }
                });
                (f, ss)
            }};
        }
        let inp = v["d"] == "i";
        let (poll, ss) = match (inp, v["sync"] == true) {
            (true, false) => asy!(b.get_tap_in()),
            (false, false) => asy!(b.get_tap_out()),
            (true, true) => syn!(b.get_tap_in_sync()),
            (false, true) => syn!(b.get_tap_out_sync()),
        };
        self.0.lock().unwrap().insert(us(&v["n"]), Sub { b: us(&v["b"]), ss, poll, log: vec![], closed: false });
        true
    }
}

async fn soon<T>(mt: bool, f: impl Future<Output = anyhow::Result<T>>) -> bool {
    matches!(tokio::time::timeout(Duration::from_secs(if mt { 10 } else { 3600 }), f).await, Ok(Ok(_)))
}

fn emit(b: &mut B, v: &Value) {
    let dst = match v["dst"].as_str().unwrap_or("all") {
        "notap" => Destination::NoTap,
        "handled" => Destination::Handled(us(&v["ss"])),
        _ => Destination::All,
    };
    let id = us(&v["id"]);
    if v["d"] == "i" {
        if dst == Destination::All {
            b.emit_msg_in(MI(id, vec![])).unwrap();
        } else {
            b.emit_msg_in_dest(dst, MI(id, vec![])).unwrap();
        }
    } else if dst == Destination::All {
        b.emit_msg_out(MO(id, vec![])).unwrap();
    } else {
        b.emit_msg_out_dest(dst, MO(id, vec![])).unwrap();
    }
}

/// All messages have been treated: in a paused runtime once nothing can run. With several threads, every settling of all
/// brokers moves every message under way by at least one broker, and all brokers have taps on both sides.
async fn quiet(mt: bool, brs: &HashMap<usize, B>, subs: &Subs) {
    if !mt {
        return quiesce().await;
    }
    let mut still = 0;
    while still < 2 {
        let mut ok = true;
        for b in brs.values() {
            let mut b = b.clone();
            ok &= matches!(tokio::time::timeout(Duration::from_secs(2), b.settle(vec![])).await, Ok(Ok(())));
        }
        if !ok {
            tokio::time::sleep(Duration::from_millis(50)).await;
        }
        still = if subs.poll() > 0 { 0 } else { still + 1 };
    }
}

async fn run(beh: &Value, rec: &Rec) {
    let sh = &beh["shape"];
    let mt = sh["mt"] == true;
    rec.cfg(sh.clone());
    let mut brs: HashMap<usize, B> = (1..=us(&sh["nb"])).map(|i| (i, B::new())).collect();
    let subs = Subs::default();
    let mut hands: HashMap<usize, usize> = HashMap::new();
    let mut links: HashMap<usize, usize> = HashMap::new();
    for op in arr(&beh["ops"]) {
        let mut o = op.clone();
        match op["op"].as_str().unwrap() {
            "sub" => {
                let r = subs.tap(brs.get_mut(&us(&op["b"])).unwrap(), op).await;
                o["ret"] = json!(r);
            }
            "hand" => {
                let log = Arc::new(Mutex::new(vec![]));
                let h = Hand { n: us(&op["n"]), outs: us(&op["outs"]), lim: us(&sh["lim"]), slow: op["slow"] == true, log: log.clone() };
                let b = us(&op["b"]);
                let r = if h.slow {
                    brs.get_mut(&b).unwrap().add_subsystem(Subsystem::Handler(Box::new(h))).await
                } else {
                    brs.get_mut(&b).unwrap().add_handler(Box::new(h)).await
                };
                o["ret"] = json!(r.is_ok());
                if let Ok(ss) = r {
                    hands.insert(us(&op["n"]), ss);
                    let poll: Poll = Box::new(move || (std::mem::take(&mut *log.lock().unwrap()), false));
                    subs.0.lock().unwrap().insert(us(&op["n"]), Sub { b, ss, poll, log: vec![], closed: false });
                }
            }
            "link" => {
                let other = brs[&us(&op["t"])].clone();
                let b = brs.get_mut(&us(&op["f"])).unwrap();
                let (lab, flt) = (us(&op["lab"]), us(&op["flt"]));
                let r = match op["api"].as_str().unwrap() {
                    "ii" => b.add_translator_i_ti(other, tr(lab, flt)).await,
                    "io" => b.add_translator_i_to(other, tr(lab, flt)).await,
                    "oi" => b.add_translator_o_ti(other, tr(lab, flt)).await,
                    "oo" => b.add_translator_o_to(other, tr(lab, flt)).await,
                    "link" => b.add_translator_link(other, tr(lab, flt), tr(lab + 1, flt)).await,
                    "direct" => b.add_translator_direct(other, tr(lab, flt), tr(lab + 1, flt)).await,
                    "bi" => b.link_bi(other).await.map(|_| 0),
                    _ => b.link_direct(other).await.map(|_| 0),
                };
                o["ret"] = json!(r.is_ok());
                links.insert(lab, r.unwrap_or(0));
            }
            "unlink" => {
                let r = soon(mt, brs.get_mut(&us(&op["b"])).unwrap().remove_subsystem(links[&us(&op["n"])])).await;
                o["ret"] = json!(r);
            }
            "rm" => {
                let ss = subs.0.lock().unwrap()[&us(&op["n"])].ss;
                let r = soon(mt, brs.get_mut(&us(&op["b"])).unwrap().remove_subsystem(ss)).await;
                o["ret"] = json!(r);
            }
            "close" => {
                subs.0.lock().unwrap().remove(&us(&op["n"]));
                o["ret"] = json!(true);
            }
            "end" => {
                let i = us(&op["b"]);
                let mut b = brs.remove(&i).unwrap();
                for id in uss(&op["ids"]) {
                    emit(&mut b, &json!({"id": id, "d": op["d"]}));
                }
                drop(b);
                if mt {
                    // the broker can't be asked anymore
                    for _ in 0..1000 {
                        subs.poll();
                        if subs.0.lock().unwrap().iter().all(|(n, s)| s.b != i || s.closed || hands.contains_key(n)) {
                            break;
                        }
                        tokio::time::sleep(Duration::from_millis(2)).await;
                    }
                }
                quiet(mt, &brs, &subs).await;
                o["logs"] = subs.logs();
                o["closed"] = json!(subs.0.lock().unwrap().iter().filter(|(_, s)| s.b == i && s.closed).map(|(n, _)| *n).collect::<Vec<_>>());
                subs.0.lock().unwrap().retain(|_, s| s.b != i);
            }
            "burst" => {
                let mut js = vec![];
                for task in arr(&op["tasks"]) {
                    let mut acts = arr(task).clone();
                    for a in &mut acts {
                        if a["a"] == "emit" && a["dst"] == "handled" {
                            a["ss"] = json!(hands[&us(&a["h"])]);
                        }
                    }
                    let mut brs: HashMap<usize, B> = brs.iter().map(|(i, b)| (*i, b.clone())).collect();
                    let subs = subs.clone();
                    js.push(tokio::spawn(async move {
                        let mut ret = true;
                        for a in &acts {
                            let i = a["b"].as_u64().unwrap_or(0) as usize;
                            match a["a"].as_str().unwrap() {
                                "emit" => emit(brs.get_mut(&i).unwrap(), a),
                                "sub" => ret &= subs.tap(brs.get_mut(&i).unwrap(), a).await,
                                "settle" => ret &= soon(mt, brs.get_mut(&i).unwrap().settle(vec![])).await,
                                "rm" => {
                                    let (b, ss) = subs.0.lock().unwrap().get(&us(&a["n"])).map(|s| (s.b, s.ss)).unwrap();
                                    ret &= soon(mt, brs.get_mut(&b).unwrap().remove_subsystem(ss)).await;
                                }
                                _ => tokio::task::yield_now().await,
                            }
                        }
                        ret
                    }));
                }
                let mut ret = true;
                for r in join_all(js).await {
                    ret &= r.unwrap_or(false);
                }
                let mut js = vec![];
                for s in arr(&op["settles"]) {
                    let (mut b, s, subs) = (brs[&us(&s["b"])].clone(), s.clone(), subs.clone());
                    js.push(tokio::spawn(async move {
                        let id = us(&s["id"]);
                        let r = match s["k"].as_str().unwrap() {
                            "in" => soon(mt, b.settle_msg_in(MI(id, vec![]))).await,
                            "out" => soon(mt, b.settle_msg_out(MO(id, vec![]))).await,
                            _ => soon(mt, b.settle(vec![])).await,
                        };
                        (r, subs.lens())
                    }));
                }
                let mut lens = vec![];
                for r in join_all(js).await {
                    let (r, l) = r.unwrap_or((false, json!([])));
                    ret &= r;
                    lens.push(l);
                }
                quiet(mt, &brs, &subs).await;
                o["ret"] = json!(ret);
                o["lens"] = json!(lens);
                o["logs"] = subs.logs();
            }
            x => panic!("op {x}"),
        }
        quiet(mt, &brs, &subs).await;
        rec.step(o);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(30), |b, rec| {
        if b["shape"]["mt"] == true {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
            rt.block_on(run(b, rec));
            rt.shutdown_background();
        } else {
            rt().block_on(run(b, rec));
        }
    });
}
