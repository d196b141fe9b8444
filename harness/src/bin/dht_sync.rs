//! Several DHT-storage nodes, whose messages to neighbours are carried by the driver as the behaviour says.
use fl_harness::{flos::Universe, *};
use flarch::broker::Broker;
use flarch::nodeids::{NodeID, U256};
use flmodules::{
    dht_router::broker::{BrokerDHTRouter, DHTRouterIn, DHTRouterOut},
    dht_storage::{
        broker::{DHTStorage, DHTStorageIn, DHTStorageOut},
        core::DHTConfig,
        intern::{MessageDest, MessageNeighbour},
    },
    router::messages::NetworkWrapper,
    timer::BrokerTimer,
};
use serde_json::{json, Value};
use std::time::Duration;
use tokio::sync::mpsc::UnboundedReceiver;

const MODULE: &str = "DHTStorage";
const ROUNDS: usize = 24;

struct Node {
    st: DHTStorage,
    router: BrokerDHTRouter,
    _timer: BrokerTimer,
    out: UnboundedReceiver<DHTStorageOut>,
    net: UnboundedReceiver<DHTRouterIn>,
}

async fn held(n: &mut Node, u: &Universe) -> Value {
    drain(&mut n.out);
    n.st.broker.emit_msg_in(DHTStorageIn::GetRealms).unwrap();
    n.st.broker.emit_msg_in(DHTStorageIn::GetFlos).unwrap();
    quiesce().await;
    let (mut rs, mut fs) = (vec![], vec![]);
    for m in drain(&mut n.out) {
        match m {
            DHTStorageOut::RealmIDs(r) => rs = r,
            DHTStorageOut::FloValues(f) => fs = f,
            _ => {}
        }
    }
    let mut out: Vec<Value> = rs
        .iter()
        .map(|rid| {
            let mut flos: Vec<Value> = fs.iter().filter(|f| f.0.realm_id() == *rid).map(|f| u.fc(f)).collect();
            flos.sort_by_key(|f| us(&f["id"]));
            json!({"r": u.realm(rid), "flos": flos})
        })
        .collect();
    out.sort_by_key(|r| us(&r["r"]));
    json!(out)
}

#[derive(Clone)]
struct Msg {
    f: usize,
    t: usize,
    w: NetworkWrapper,
}

impl Msg {
    fn m(&self) -> Option<MessageNeighbour> {
        self.w.unwrap_yaml(MODULE)
    }
    fn kind(&self) -> &'static str {
        match self.m() {
            Some(MessageNeighbour::RequestRealmIDs) => "reqRealms",
            Some(MessageNeighbour::AvailableRealmIDs(_)) => "realms",
            Some(MessageNeighbour::RequestFloMetas(_)) => "reqMetas",
            Some(MessageNeighbour::AvailableFlos(_, _)) => "metas",
            Some(MessageNeighbour::RequestFlos(_, _)) => "reqFlos",
            Some(MessageNeighbour::Flos(_)) => "flos",
            None => "unknown",
        }
    }
    fn flos(&self) -> usize {
        match self.m() {
            Some(MessageNeighbour::Flos(l)) => l.len(),
            _ => 0,
        }
    }
}

struct Sys<'a> {
    u: &'a Universe,
    ids: Vec<NodeID>,
    nodes: Vec<Node>,
    nb: Vec<Vec<usize>>,
    net: Vec<Msg>,
}

impl Sys<'_> {
    fn collect(&mut self) {
        for i in 0..self.nodes.len() {
            for m in drain(&mut self.nodes[i].net) {
                match m {
                    DHTRouterIn::MessageBroadcast(w) => {
                        for &t in &self.nb[i] {
                            self.net.push(Msg { f: i, t, w: w.clone() });
                        }
                    }
                    DHTRouterIn::MessageNeighbour(dst, w) => {
                        let t = pos(&self.ids, &dst);
                        if t > 0 && self.nb[i].contains(&(t - 1)) {
                            self.net.push(Msg { f: i, t: t - 1, w });
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    async fn deliver(&mut self, m: Msg) {
        self.nodes[m.t].router.emit_msg_out(DHTRouterOut::MessageNeighbour(self.ids[m.f], m.w)).unwrap();
        quiesce().await;
        self.collect();
    }
    async fn post(&mut self) -> Value {
        let mut v = vec![];
        for n in &mut self.nodes {
            v.push(held(n, self.u).await);
        }
        json!(v)
    }
}

fn replay(b: &Value, rec: &Rec) {
    let u = Universe::new(&b["shape"]);
    rt().block_on(async {
        let n = us(&b["n"]);
        let mut cfg = u.cfg.clone();
        cfg["nodes"] = json!(n);
        rec.cfg(cfg);
        // The distances of the Flos do not matter here, there is enough space.
        let ids: Vec<NodeID> = (0..n).map(|_| U256::rnd()).collect();
        let mut nb = vec![vec![]; n];
        for e in arr(&b["edges"]) {
            let (a, b) = (us(&e[0]) - 1, us(&e[1]) - 1);
            nb[a].push(b);
            nb[b].push(a);
        }
        let mut nodes = vec![];
        for id in &ids {
            let mut router = Broker::new();
            let timer: BrokerTimer = Broker::new();
            let mut st = DHTStorage::start(
                Box::new(MemStorage::default()),
                DHTConfig {
                    our_id: *id,
                    realms: uss(&b["shape"]["accept"]).iter().map(|r| u.rids[r - 1].clone()).collect(),
                    owned: vec![],
                    timeout: 1000,
                },
                timer.clone(),
                router.clone(),
            )
            .await
            .unwrap();
            let out = st.broker.get_tap_out().await.unwrap().0;
            let net = router.get_tap_in().await.unwrap().0;
            nodes.push(Node { st, router, _timer: timer, out, net });
        }
        quiesce().await;
        let mut sys = Sys { u: &u, ids, nodes, nb, net: vec![] };
        let mut x = us(&b["order"]) as u64;
        let mut rnd = |k: usize| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 33) as usize % k
        };
        for op in arr(&b["ops"]) {
            let mut step = op.clone();
            match op["op"].as_str().unwrap() {
                "put" => {
                    let m = MessageDest::FloValue((
                        u.flos[us(&op["id"]) - 1][us(&op["v"])].clone(),
                        uss(&op["c"]).iter().map(|i| u.ids[i - 1].clone()).collect(),
                    ));
                    let i = us(&op["n"]) - 1;
                    let id = sys.ids[i];
                    sys.nodes[i].router.emit_msg_out(DHTRouterOut::MessageDest(id, id, NetworkWrapper::wrap_yaml(MODULE, &m).unwrap())).unwrap();
                    quiesce().await;
                    sys.collect();
                }
                k @ ("sync" | "prop") => {
                    let m = if k == "sync" { DHTStorageIn::SyncFromNeighbors } else { DHTStorageIn::PropagateFlos };
                    sys.nodes[us(&op["n"]) - 1].st.broker.emit_msg_in(m).unwrap();
                    quiesce().await;
                    sys.collect();
                }
                k => {
                    let p = sys.net.iter().position(|m| m.f + 1 == us(&op["f"]) && m.t + 1 == us(&op["t"]) && op["k"] == m.kind());
                    match p {
                        None => step["op"] = json!("skip"),
                        Some(p) => {
                            let m = if k == "dup" { sys.net[p].clone() } else { sys.net.remove(p) };
                            if k != "lose" {
                                sys.deliver(m).await;
                            }
                        }
                    }
                }
            }
            step["post"] = sys.post().await;
            rec.step(step);
        }
        // Whatever is still under way is lost, from now on everything arrives.
        sys.net.clear();
        for round in 1..=ROUNDS {
            let (mut flos, mut msgs) = (0, 0);
            for i in 0..n {
                sys.nodes[i].st.broker.emit_msg_in(DHTStorageIn::SyncFromNeighbors).unwrap();
                quiesce().await;
                sys.collect();
            }
            while !sys.net.is_empty() && msgs < 5000 {
                let p = if round % 3 == 0 { 0 } else { rnd(sys.net.len()) };
                let m = sys.net.remove(p);
                flos += m.flos();
                msgs += 1;
                sys.deliver(m).await;
            }
            rec.step(json!({"op": "round", "round": round, "flos": flos, "msgs": msgs, "post": sys.post().await}));
            if flos == 0 && msgs < 5000 {
                break;
            }
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), replay);
}
