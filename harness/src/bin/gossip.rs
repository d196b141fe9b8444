//! Gossip nodes: one with everything around it simulated (mode "one"), or several connected by the driver ("many").
use fl_harness::*;
use flarch::{
    broker::Broker,
    nodeids::{NodeID, NodeIDs, U256},
};
use flmodules::{
    gossip_events::{
        broker::{Gossip, GossipIn, GossipOut},
        core::{Category, Event, EventsStorage},
        intern::ModuleMessage,
    },
    nodeconfig::NodeConfig,
    random_connections::broker::{BrokerRandom, RandomIn, RandomOut},
    router::messages::NetworkWrapper,
    timer::{BrokerTimer, TimerMessage},
};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::time::Duration;
use tokio::sync::mpsc::UnboundedReceiver;

const MODULE: &str = "Gossip";

/// All events which appear in a behaviour, numbered.
struct Events {
    evs: Vec<Event>,
    idx: HashMap<U256, usize>,
    srcs: Vec<NodeID>,
}

impl Events {
    fn new(shape: &Value, nodes: &[NodeID]) -> Self {
        let mut srcs = nodes.to_vec();
        let mut s = Events { evs: vec![], idx: HashMap::new(), srcs: vec![] };
        let now = flarch::tasks::now();
        for (i, e) in arr(&shape["events"]).iter().enumerate() {
            while srcs.len() < us(&e["src"]) {
                srcs.push(U256::rnd());
            }
            let t = us(&e["t"]) as i64;
            let mut ev = Event {
                category: if us(&e["cat"]) == 1 { Category::TextMessage } else { Category::NodeInfo },
                src: srcs[us(&e["src"]) - 1],
                created: if t <= 500 { t - 3 } else { now + 1_000_000_000 + t },
                msg: format!("event {}", i % 2),
            };
            if s.idx.contains_key(&ev.get_id()) {
                ev.msg = format!("event {i}");
            }
            s.add(ev);
        }
        s.srcs = srcs;
        s
    }
    fn add(&mut self, e: Event) -> usize {
        self.evs.push(e.clone());
        self.idx.insert(e.get_id(), self.evs.len());
        self.evs.len()
    }
    fn of(&self, e: &Event) -> usize {
        self.idx.get(&e.get_id()).copied().filter(|i| &self.evs[i - 1] == e).unwrap_or(0)
    }
    fn ids(&self, l: &[U256]) -> Vec<usize> {
        l.iter().map(|i| self.idx.get(i).copied().unwrap_or(0)).collect()
    }
    fn held(&self, s: &EventsStorage) -> Vec<usize> {
        let mut v: Vec<usize> = [Category::TextMessage, Category::NodeInfo].iter().flat_map(|c| s.events(*c)).map(|e| self.of(&e)).collect();
        v.sort();
        v
    }
    /// Node infos the nodes made up themselves
    fn own(&mut self, s: &EventsStorage, id: &NodeID) -> Vec<usize> {
        let l: Vec<Event> = s.events(Category::NodeInfo).into_iter().filter(|e| &e.src == id && self.of(e) == 0).collect();
        l.into_iter().map(|e| self.add(e)).collect()
    }
    fn cfg(&self, limits: (usize, usize)) -> Value {
        let mut times: Vec<i64> = self.evs.iter().map(|e| e.created).collect();
        times.sort();
        times.dedup();
        let evs: Vec<Value> = self
            .evs
            .iter()
            .map(|e| {
                json!({"cat": if e.category == Category::TextMessage {1} else {2},
                       "src": pos(&self.srcs, &e.src), "t": pos(&times, &e.created)})
            })
            .collect();
        json!({"events": evs, "max": [limits.0, limits.1]})
    }
}

/// An empty storage with other limits than 50 and 100.
fn limited(shape: &Value) -> (MemStorage, (usize, usize)) {
    let ds = MemStorage::default();
    let lim = uss(&shape["max"]);
    if lim == [50, 100] {
        return (ds, (50, 100));
    }
    let s = EventsStorage::new().get().unwrap();
    let s = s.replace("max_events: 50", &format!("max_events: {}", lim[0])).replace("max_events: 100", &format!("max_events: {}", lim[1]));
    ds.kvs.lock().unwrap().insert(MODULE.into(), s);
    (ds, (lim[0], lim[1]))
}

struct Node {
    g: Gossip,
    rnd: BrokerRandom,
    timer: BrokerTimer,
    out: UnboundedReceiver<GossipOut>,
    net: UnboundedReceiver<RandomIn>,
}

impl Node {
    async fn start(ds: MemStorage, nc: &NodeConfig) -> Node {
        let mut rnd: BrokerRandom = Broker::new();
        let timer: BrokerTimer = Broker::new();
        let mut g = Gossip::start(Box::new(ds), nc.info.clone(), timer.clone(), rnd.clone()).await.unwrap();
        let net = rnd.get_tap_in().await.unwrap().0;
        quiesce().await;
        let out = g.broker.get_tap_out().await.unwrap().0;
        quiesce().await;
        Node { g, rnd, timer, out, net }
    }
    fn mess(&mut self, from: NodeID, m: &ModuleMessage) {
        self.raw(from, NetworkWrapper::wrap_yaml(MODULE, m).unwrap())
    }
    fn raw(&mut self, from: NodeID, w: NetworkWrapper) {
        self.rnd.emit_msg_out(RandomOut::NetworkWrapperFromNetwork(from, w)).unwrap();
    }
    fn tick(&mut self) {
        self.timer.emit_msg_out(TimerMessage::Second).unwrap();
        self.timer.emit_msg_out(TimerMessage::Minute).unwrap();
    }
    fn held(&self) -> EventsStorage {
        self.g.storage.borrow().clone()
    }
}

fn kind(m: &ModuleMessage) -> &'static str {
    match m {
        ModuleMessage::KnownEventIDs(_) => "known",
        ModuleMessage::Events(_) => "events",
        ModuleMessage::RequestEventIDs => "reqIds",
        ModuleMessage::RequestEvents(_) => "req",
    }
}

fn one(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let shape = &b["shape"];
        let nc = NodeConfig::new();
        let id = nc.info.get_id();
        let nodes = vec![id, U256::rnd(), U256::rnd(), U256::rnd()];
        let mut evs = Events::new(shape, &nodes);
        let (mut ds, limits) = limited(shape);
        let (empty, _) = limited(shape);
        let mut n = Node::start(ds.clone(), &nc).await;
        let ops = arr(&b["ops"]);
        let mut offered: Vec<usize> = vec![];
        for i in 0..=ops.len() {
            let start = json!({"op": "start"});
            let op = if i == 0 { &start } else { &ops[i - 1] };
            let mut step = op.clone();
            if i > 0 {
                drain(&mut n.out);
                drain(&mut n.net);
            }
            let from = op.get("f").map(|f| nodes[us(f) - 1]).unwrap_or(nodes[1]);
            let list = uss(&op["l"]);
            let ids = || list.iter().map(|i| evs.evs[i - 1].get_id()).collect::<Vec<_>>();
            match op["op"].as_str().unwrap() {
                "start" => {}
                "add" => {
                    offered.push(us(&op["e"]));
                    n.g.broker.emit_msg_in(GossipIn::AddEvent(evs.evs[us(&op["e"]) - 1].clone())).unwrap()
                }
                "events" => {
                    offered.extend(&list);
                    n.mess(from, &ModuleMessage::Events(list.iter().map(|i| evs.evs[i - 1].clone()).collect()))
                }
                "known" => n.mess(from, &ModuleMessage::KnownEventIDs(ids())),
                "req" => n.mess(from, &ModuleMessage::RequestEvents(ids())),
                "reqIds" => n.mess(from, &ModuleMessage::RequestEventIDs),
                "nodes" => n.rnd.emit_msg_out(RandomOut::NodeIDsConnected(NodeIDs(list.iter().map(|i| nodes[i - 1]).collect()))).unwrap(),
                "tick" => n.tick(),
                "junk" => n.raw(
                    from,
                    match i % 3 {
                        0 => NetworkWrapper { module: MODULE.into(), msg: "- : ]".into() },
                        1 => NetworkWrapper { module: "Other".into(), msg: serde_yaml::to_string(&ModuleMessage::RequestEventIDs).unwrap() },
                        _ => NetworkWrapper { module: MODULE.into(), msg: "Unknown".into() },
                    },
                ),
                "restart" => {
                    ds = ds.snapshot();
                    n = Node::start(ds.clone(), &nc).await;
                }
                o => panic!("unknown op {o}"),
            }
            quiesce().await;
            let held = n.held();
            let own = evs.own(&held, &id);
            offered.extend(&own);
            let mut outs = vec![];
            for m in drain(&mut n.net) {
                if let RandomIn::NetworkWrapperToNetwork(dst, w) = m {
                    let t = pos(&nodes, &dst);
                    outs.push(match w.unwrap_yaml::<ModuleMessage>(MODULE) {
                        Some(m) => {
                            let l = match &m {
                                ModuleMessage::KnownEventIDs(l) | ModuleMessage::RequestEvents(l) => evs.ids(l),
                                ModuleMessage::Events(l) => l.iter().map(|e| evs.of(e)).collect(),
                                _ => vec![],
                            };
                            json!({"t": t, "k": kind(&m), "l": l})
                        }
                        None => json!({"t": t, "k": "unknown", "l": []}),
                    });
                }
            }
            let new: Vec<usize> = drain(&mut n.out).iter().map(|GossipOut::NewEvent(e)| evs.of(e)).collect();
            let mut disk = EventsStorage::new();
            disk.set(&ds.snapshot().kvs.lock().unwrap().get(MODULE).cloned().unwrap_or_default()).unwrap();
            let mut perm = vec![];
            if i % 8 == 7 || i == ops.len() {
                for p in 0..3usize {
                    let mut es = EventsStorage::new();
                    if let Some(s) = empty.kvs.lock().unwrap().get(MODULE) {
                        es.set(s).unwrap();
                    }
                    let len = offered.len();
                    for j in 0..len {
                        // backwards, odd and even, rotated and repeated
                        let q = match p {
                            0 => len - 1 - j,
                            1 => (if j < (len + 1) / 2 { 2 * j } else { 2 * (j - (len + 1) / 2) + 1 }) % len,
                            _ => (j + us(&b["order"])) % len,
                        };
                        es.add_event(evs.evs[offered[q] - 1].clone());
                        if p == 2 {
                            es.add_event(evs.evs[offered[(q + j) % len] - 1].clone());
                        }
                    }
                    perm.push(evs.held(&es));
                }
            }
            step["own"] = json!(own);
            step["held"] = json!(evs.held(&held));
            step["new"] = json!(new);
            step["outs"] = json!(outs);
            step["disk"] = json!(evs.held(&disk));
            step["perm"] = json!(perm);
            rec.cfg(evs.cfg(limits));
            rec.step(step);
        }
    });
}

struct Msg {
    f: usize,
    t: usize,
    m: ModuleMessage,
}

struct Sys {
    ids: Vec<NodeID>,
    nodes: Vec<Node>,
    nb: Vec<Vec<usize>>,
    net: Vec<Msg>,
}

impl Sys {
    fn collect(&mut self) {
        for i in 0..self.nodes.len() {
            for m in drain(&mut self.nodes[i].net) {
                if let RandomIn::NetworkWrapperToNetwork(dst, w) = m {
                    let t = pos(&self.ids, &dst);
                    if t > 0 && self.nb[i].contains(&(t - 1)) {
                        if let Some(m) = w.unwrap_yaml(MODULE) {
                            self.net.push(Msg { f: i, t: t - 1, m });
                        }
                    }
                }
            }
        }
    }
    async fn deliver(&mut self, f: usize, t: usize, m: &ModuleMessage) {
        let from = self.ids[f];
        self.nodes[t].mess(from, m);
        quiesce().await;
        self.collect();
    }
    async fn tick(&mut self, i: usize) {
        for _ in 0..3 {
            self.nodes[i].tick();
        }
        quiesce().await;
        self.collect();
    }
}

fn many(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let shape = &b["shape"];
        let n = us(&shape["n"]);
        let ncs: Vec<NodeConfig> = (0..n).map(|_| NodeConfig::new()).collect();
        let ids: Vec<NodeID> = ncs.iter().map(|nc| nc.info.get_id()).collect();
        let mut evs = Events::new(shape, &ids);
        let (_, limits) = limited(shape);
        let mut nodes = vec![];
        for nc in &ncs {
            nodes.push(Node::start(limited(shape).0, nc).await);
        }
        let mut nb = vec![vec![]; n];
        for e in arr(&shape["edges"]) {
            nb[us(&e[0]) - 1].push(us(&e[1]) - 1);
            nb[us(&e[1]) - 1].push(us(&e[0]) - 1);
        }
        let mut sys = Sys { ids: ids.clone(), nodes, nb: nb.clone(), net: vec![] };
        let mut own = vec![];
        for i in 0..n {
            let l = NodeIDs(nb[i].iter().map(|j| ids[*j]).collect());
            sys.nodes[i].rnd.emit_msg_out(RandomOut::NodeIDsConnected(l)).unwrap();
            own.extend(evs.own(&sys.nodes[i].held(), &ids[i]));
        }
        quiesce().await;
        sys.collect();
        rec.cfg(evs.cfg(limits));
        let held = |sys: &Sys| json!(sys.nodes.iter().map(|n| evs.held(&n.held())).collect::<Vec<_>>());
        rec.step(json!({"op": "start", "own": own, "held": held(&sys)}));
        let mut x = us(&b["order"]) as u64;
        let mut rnd = |k: usize| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 33) as usize % k
        };
        for op in arr(&b["ops"]) {
            let mut step = op.clone();
            match op["op"].as_str().unwrap() {
                "add" => {
                    let e = evs.evs[us(&op["e"]) - 1].clone();
                    sys.nodes[us(&op["n"]) - 1].g.broker.emit_msg_in(GossipIn::AddEvent(e)).unwrap();
                    quiesce().await;
                    sys.collect();
                }
                "tick" => sys.tick(us(&op["n"]) - 1).await,
                k => {
                    let p = sys.net.iter().position(|m| m.f + 1 == us(&op["f"]) && m.t + 1 == us(&op["t"]) && op["k"] == kind(&m.m));
                    match p {
                        None => step["op"] = json!("skip"),
                        Some(p) => {
                            let m = sys.net.remove(p);
                            if k != "lose" {
                                sys.deliver(m.f, m.t, &m.m).await;
                            }
                            if k == "dup" {
                                sys.deliver(m.f, m.t, &m.m).await;
                            }
                        }
                    }
                }
            }
            step["held"] = held(&sys);
            rec.step(step);
        }
        sys.net.clear();
        for round in 1..=20 {
            let (mut events, mut msgs) = (0, 0);
            for i in 0..n {
                sys.tick(i).await;
            }
            while !sys.net.is_empty() && msgs < 20_000 {
                let p = if round % 3 == 0 { 0 } else { rnd(sys.net.len()) };
                let m = sys.net.remove(p);
                if let ModuleMessage::Events(l) = &m.m {
                    events += l.len();
                }
                msgs += 1;
                sys.deliver(m.f, m.t, &m.m).await;
            }
            rec.step(json!({"op": "round", "events": events + (if msgs >= 20_000 { 1 } else { 0 }), "msgs": msgs, "held": held(&sys)}));
            if events == 0 {
                break;
            }
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), |b, rec| {
        if b["shape"]["mode"] == "one" {
            one(b, rec)
        } else {
            many(b, rec)
        }
    });
}
