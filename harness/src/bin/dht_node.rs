//! One DHT-storage node with a simulated DHT router: replays histories of messages, records outputs, contents and disk.
use fl_harness::{flos::Universe, *};
use flarch::broker::Broker;
use flarch::nodeids::{NodeID, U256};
use flmodules::{
    dht_router::broker::{BrokerDHTRouter, DHTRouterIn, DHTRouterOut},
    dht_storage::{
        broker::{DHTStorage, DHTStorageIn, DHTStorageOut},
        core::{DHTConfig, FloMeta},
        intern::{MessageClosest, MessageDest, MessageNeighbour},
    },
    flo::{flo::FloID, realm::RealmID},
    router::messages::NetworkWrapper,
    timer::{BrokerTimer, TimerMessage},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::time::Duration;
use tokio::sync::mpsc::UnboundedReceiver;

const MODULE: &str = "DHTStorage";

fn wrap<T: Serialize>(m: &T) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml(MODULE, m).unwrap()
}
fn unwrap<T: DeserializeOwned>(m: &NetworkWrapper) -> Option<T> {
    m.unwrap_yaml(MODULE)
}

struct Node {
    st: DHTStorage,
    router: BrokerDHTRouter,
    timer: BrokerTimer,
    out: UnboundedReceiver<DHTStorageOut>,
    net: UnboundedReceiver<DHTRouterIn>,
}

impl Node {
    async fn start(ds: MemStorage, cfg: DHTConfig) -> Node {
        let mut router = Broker::new();
        let timer: BrokerTimer = Broker::new();
        let mut st = DHTStorage::start(Box::new(ds), cfg, timer.clone(), router.clone()).await.unwrap();
        let out = st.broker.get_tap_out().await.unwrap().0;
        let net = router.get_tap_in().await.unwrap().0;
        quiesce().await;
        Node { st, router, timer, out, net }
    }

    /// Everything held: [{r, size, flos: [{id, v, c}]}]
    async fn held(&mut self, u: &Universe) -> Value {
        drain(&mut self.out);
        self.st.broker.emit_msg_in(DHTStorageIn::GetRealms).unwrap();
        self.st.broker.emit_msg_in(DHTStorageIn::GetFlos).unwrap();
        quiesce().await;
        let (mut rs, mut fs) = (vec![], vec![]);
        for m in drain(&mut self.out) {
            match m {
                DHTStorageOut::RealmIDs(r) => rs = r,
                DHTStorageOut::FloValues(f) => fs = f,
                _ => {}
            }
        }
        let stats = self.st.stats.borrow().clone();
        let mut out: Vec<Value> = rs
            .iter()
            .map(|rid| {
                let mut flos: Vec<Value> = fs.iter().filter(|f| f.0.realm_id() == *rid).map(|f| u.fc(f)).collect();
                flos.sort_by_key(|f| us(&f["id"]));
                let (n, near) = stats.realm_stats.get(rid).map_or((0, vec![]), |s| (s.flos, s.distribution.iter().filter(|n| **n > 0).cloned().collect()));
                json!({"r": u.realm(rid), "size": stats.realm_stats.get(rid).map_or(0, |s| s.size), "n": n, "near": near, "flos": flos})
            })
            .collect();
        out.sort_by_key(|r| us(&r["r"]));
        let stray = fs.iter().filter(|f| !rs.contains(&f.0.realm_id())).count();
        let stray = stray + stats.realm_stats.keys().filter(|r| !rs.contains(r)).count();
        if stray > 0 {
            out.push(json!({"r": 0, "size": stray, "n": 0, "near": [], "flos": []}));
        }
        json!(out)
    }
}

struct Run<'a> {
    u: &'a Universe,
    peers: Vec<NodeID>,
}

impl Run<'_> {
    fn sorted(&self, mut v: Vec<usize>) -> Vec<usize> {
        v.sort();
        v
    }
    fn neighbour(&self, m: &NetworkWrapper) -> Value {
        let u = self.u;
        match unwrap::<MessageNeighbour>(m) {
            Some(MessageNeighbour::RequestRealmIDs) => json!({"k": "reqRealms"}),
            Some(MessageNeighbour::AvailableRealmIDs(rs)) => {
                json!({"k": "realms", "rs": self.sorted(rs.iter().map(|r| u.realm(r)).collect())})
            }
            Some(MessageNeighbour::RequestFloMetas(r)) => json!({"k": "reqMetas", "r": u.realm(&r)}),
            Some(MessageNeighbour::AvailableFlos(r, l)) => {
                json!({"k": "metas", "r": u.realm(&r), "l": l.iter().map(|m| json!({"id": u.id_of(&m.id), "ver": m.version, "n": m.cuckoos})).collect::<Vec<_>>()})
            }
            Some(MessageNeighbour::RequestFlos(r, ids)) => json!({"k": "reqFlos", "r": u.realm(&r), "ids": self.sorted(u.cids(&ids))}),
            Some(MessageNeighbour::Flos(l)) => json!({"k": "flos", "l": l.iter().map(|fc| u.fc(fc)).collect::<Vec<_>>()}),
            None => json!({"k": "unknown"}),
        }
    }
    fn outputs(&self, n: &mut Node) -> Vec<Value> {
        let u = self.u;
        let mut outs = vec![];
        for m in drain(&mut n.out) {
            outs.push(match m {
                DHTStorageOut::FloValue(fc) => json!({"to": 0, "k": "value", "fc": u.fc(&fc)}),
                DHTStorageOut::FloValues(_) => json!({"to": 0, "k": "values"}),
                DHTStorageOut::RealmIDs(rs) => json!({"to": 0, "k": "realmIDs", "rs": self.sorted(rs.iter().map(|r| u.realm(r)).collect())}),
                DHTStorageOut::CuckooIDs(gid, c) => json!({"to": 0, "k": "cuckoos", "id": u.id_of(gid.flo_id()), "c": u.cids(&c)}),
                DHTStorageOut::ValueMissing(gid) => json!({"to": 0, "k": "missing", "id": u.id_of(gid.flo_id())}),
            });
        }
        for m in drain(&mut n.net) {
            outs.push(match m {
                DHTRouterIn::MessageBroadcast(m) => {
                    let mut v = self.neighbour(&m);
                    v["to"] = json!(-1);
                    v
                }
                DHTRouterIn::MessageNeighbour(dst, m) => {
                    let mut v = self.neighbour(&m);
                    v["to"] = json!(pos(&self.peers, &dst));
                    v
                }
                DHTRouterIn::MessageClosest(key, m) => {
                    let key = u.id_of(&FloID::from(key));
                    let mut v = match unwrap::<MessageClosest>(&m) {
                        Some(MessageClosest::StoreFlo(f)) => {
                            let (id, v) = u.content(&f);
                            json!({"k": "store", "id": id, "v": v})
                        }
                        Some(MessageClosest::ReadFlo(r)) => json!({"k": "read", "r": u.realm(&r)}),
                        Some(MessageClosest::GetCuckooIDs(r)) => json!({"k": "getCuckoos", "r": u.realm(&r)}),
                        Some(MessageClosest::StoreCuckooID(gid)) => {
                            json!({"k": "storeCuckoo", "r": u.realm(gid.realm_id()), "x": u.id_of(gid.flo_id())})
                        }
                        None => json!({"k": "unknown"}),
                    };
                    v["key"] = json!(key);
                    v["to"] = json!(-2);
                    v
                }
                DHTRouterIn::MessageDirect(dst, m) => {
                    let mut v = match unwrap::<MessageDest>(&m) {
                        Some(MessageDest::FloValue(fc)) => json!({"k": "dvalue", "fc": u.fc(&fc)}),
                        Some(MessageDest::UnknownFlo(g)) => json!({"k": "dmissing", "id": u.id_of(g.flo_id())}),
                        Some(MessageDest::CookooIDs(g, c)) => json!({"k": "dcuckoos", "id": u.id_of(g.flo_id()), "c": u.cids(&c)}),
                        None => json!({"k": "unknown"}),
                    };
                    v["to"] = json!(pos(&self.peers, &dst));
                    v
                }
            });
        }
        outs
    }
}

fn replay(b: &Value, rec: &Rec, disk: bool) {
    let u = Universe::new(&b["shape"]);
    rt().block_on(async {
        let rid = |r: &Value| -> RealmID { u.rids[us(r) - 1].clone() };
        let fid = |i: &Value| -> FloID { u.ids[us(i) - 1].clone() };
        let flo = |o: &Value| u.flos[us(&o["id"]) - 1][us(&o["v"])].clone();
        let gid = |i: &Value| u.rids[u.realm_of[us(i) - 1] - 1].global_id(fid(i));
        let fc = |o: &Value| (flo(o), uss(&o["c"]).iter().map(|i| u.ids[i - 1].clone()).collect::<Vec<_>>());
        rec.cfg(u.cfg.clone());
        let run = Run { u: &u, peers: (0..3).map(|_| U256::rnd()).collect() };
        let cfg = DHTConfig {
            our_id: u.our_id,
            realms: uss(&b["shape"]["accept"]).iter().map(|r| u.rids[r - 1].clone()).collect(),
            owned: vec![],
            timeout: 1000,
        };
        let mut ds = MemStorage::default();
        let mut n = Node::start(ds.clone(), cfg.clone()).await;
        for (i, op) in arr(&b["ops"]).iter().enumerate() {
            drain(&mut n.out);
            drain(&mut n.net);
            let from = run.peers[i % 2];
            let hop = run.peers[2];
            let routed = |key: U256, m: MessageClosest| {
                if i % 3 == 0 {
                    DHTRouterOut::MessageRouting(from, hop, hop, key, wrap(&m))
                } else {
                    DHTRouterOut::MessageClosest(from, hop, key, wrap(&m))
                }
            };
            let dest = |m: MessageDest| DHTRouterOut::MessageDest(from, hop, wrap(&m));
            let neigh = |m: MessageNeighbour| DHTRouterOut::MessageNeighbour(from, wrap(&m));
            let mut local = None;
            let mut remote = None;
            match op["op"].as_str().unwrap() {
                "store" => local = Some(DHTStorageIn::StoreFlo(flo(op))),
                "cstore" => remote = Some(routed(*fid(&op["id"]), MessageClosest::StoreFlo(flo(op)))),
                "value" => remote = Some(dest(MessageDest::FloValue(fc(op)))),
                "flos" => remote = Some(neigh(MessageNeighbour::Flos(arr(&op["l"]).iter().map(|o| fc(o)).collect()))),
                "cuck" => remote = Some(routed(*fid(&op["id"]), MessageClosest::StoreCuckooID(rid(&op["r"]).global_id(fid(&op["x"]))))),
                "read" => local = Some(DHTStorageIn::ReadFlo(gid(&op["id"]))),
                "rcuck" => local = Some(DHTStorageIn::ReadCuckooIDs(gid(&op["id"]))),
                "cread" => remote = Some(routed(*fid(&op["id"]), MessageClosest::ReadFlo(rid(&op["r"])))),
                "ccuck" => remote = Some(routed(*fid(&op["id"]), MessageClosest::GetCuckooIDs(rid(&op["r"])))),
                "dcuck" => {
                    remote = Some(dest(MessageDest::CookooIDs(gid(&op["id"]), uss(&op["c"]).iter().map(|i| u.ids[i - 1].clone()).collect())))
                }
                "dmissing" => remote = Some(dest(MessageDest::UnknownFlo(gid(&op["id"])))),
                "nreqRealms" => remote = Some(neigh(MessageNeighbour::RequestRealmIDs)),
                "nrealms" => {
                    remote = Some(neigh(MessageNeighbour::AvailableRealmIDs(uss(&op["rs"]).iter().map(|r| u.rids[r - 1].clone()).collect())))
                }
                "nreqMetas" => remote = Some(neigh(MessageNeighbour::RequestFloMetas(rid(&op["r"])))),
                "nmetas" => {
                    remote = Some(neigh(MessageNeighbour::AvailableFlos(
                        rid(&op["r"]),
                        arr(&op["l"])
                            .iter()
                            .map(|m| FloMeta { id: fid(&m["id"]), cuckoos: us(&m["n"]) as u32, version: us(&m["ver"]) as u32 })
                            .collect(),
                    )))
                }
                "nreqFlos" => {
                    remote = Some(neigh(MessageNeighbour::RequestFlos(rid(&op["r"]), uss(&op["ids"]).iter().map(|i| u.ids[i - 1].clone()).collect())))
                }
                "sys" => remote = Some(DHTRouterOut::SystemRealm(rid(&op["r"]))),
                "nodes" => remote = Some(DHTRouterOut::NodeList(run.peers.clone())),
                "junk" => {
                    let m = match i % 3 {
                        0 => NetworkWrapper { module: MODULE.into(), msg: "- : ]".into() },
                        1 => NetworkWrapper { module: "Other".into(), msg: wrap(&MessageNeighbour::RequestRealmIDs).msg },
                        _ => NetworkWrapper { module: MODULE.into(), msg: "".into() },
                    };
                    remote = Some(match i % 4 {
                        0 => DHTRouterOut::MessageNeighbour(from, m),
                        1 => DHTRouterOut::MessageDest(from, hop, m),
                        2 => DHTRouterOut::MessageClosest(from, hop, U256::rnd(), m),
                        _ => DHTRouterOut::MessageRouting(from, hop, hop, U256::rnd(), m),
                    })
                }
                "sync" => local = Some(DHTStorageIn::SyncFromNeighbors),
                "prop" => local = Some(DHTStorageIn::PropagateFlos),
                "realms" => local = Some(DHTStorageIn::GetRealms),
                "minute" => n.timer.emit_msg_out(TimerMessage::Minute).unwrap(),
                "second" => n.timer.emit_msg_out(TimerMessage::Second).unwrap(),
                "restart" => {
                    ds = ds.snapshot();
                    n = Node::start(ds.clone(), cfg.clone()).await;
                }
                o => panic!("unknown op {o}"),
            }
            if let Some(m) = local {
                n.st.broker.emit_msg_in(m).unwrap();
            }
            if let Some(m) = remote {
                n.router.emit_msg_out(m).unwrap();
            }
            quiesce().await;
            let outs = run.outputs(&mut n);
            let mut step = op.clone();
            step["from"] = json!(i % 2 + 1);
            step["outs"] = json!(outs);
            step["post"] = n.held(&u).await;
            if disk {
                let mut copy = Node::start(ds.snapshot(), cfg.clone()).await;
                step["disk"] = copy.held(&u).await;
            }
            rec.step(step);
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let disk = a.get(3).map(|s| s == "disk").unwrap_or(false);
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(20), move |b, rec| replay(b, rec, disk));
}
