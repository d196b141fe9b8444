//! DHT routers: one with everything around it simulated (mode "one"), or several between which the driver carries messages.
use fl_harness::*;
use flarch::{
    broker::Broker,
    nodeids::{NodeID, NodeIDs, U256},
};
use flmodules::{
    dht_router::{
        broker::{DHTRouter, DHTRouterIn, DHTRouterOut},
        intern::ModuleMessage,
        kademlia::Config,
    },
    nodeconfig::NodeInfo,
    router::{
        broker::BrokerRouter,
        messages::{NetworkWrapper, RouterIn, RouterOut},
    },
    timer::{BrokerTimer, TimerMessage},
};
use serde_json::{json, Value};
use std::str::FromStr;
use std::time::Duration;
use tokio::sync::mpsc::UnboundedReceiver;

const MODULE: &str = "DHTRouter";

struct Node {
    dht: DHTRouter,
    router: BrokerRouter,
    timer: BrokerTimer,
    out: UnboundedReceiver<DHTRouterOut>,
    net: UnboundedReceiver<RouterIn>,
    con: Vec<usize>,
}

fn payload(m: usize) -> NetworkWrapper {
    NetworkWrapper { module: "Upper".into(), msg: format!("{m}") }
}
fn unpay(w: &NetworkWrapper) -> usize {
    if w.module == "Upper" {
        w.msg.parse().unwrap_or(0)
    } else {
        0
    }
}

struct Ids(Vec<NodeID>);
impl Ids {
    fn of(&self, l: &[usize]) -> Vec<NodeID> {
        l.iter().map(|i| self.0[i - 1]).collect()
    }
    fn pos(&self, l: &[NodeID]) -> Vec<usize> {
        l.iter().map(|i| pos(&self.0, i)).collect()
    }
    fn p(&self, i: &NodeID) -> usize {
        pos(&self.0, i)
    }
    fn cfg(&self, shape: &Value) -> Value {
        let cb: Vec<Vec<usize>> = (0..self.0.len())
            .map(|i| (0..self.0.len()).map(|j| if i == j { 256 } else { common_bits(&self.0[i], &self.0[j]) }).collect())
            .collect();
        json!({"k": shape["k"], "pi": shape["pi"], "pt": shape["pt"], "n": shape["n"],
            "depth": cb[0].iter().map(|d| d.min(&255)).collect::<Vec<_>>(), "cb": cb})
    }
}

impl Node {
    async fn start(shape: &Value, root: NodeID) -> Node {
        let cfg = Config { root, k: us(&shape["k"]), ping_interval: us(&shape["pi"]) as u32, ping_timeout: us(&shape["pt"]) as u32 };
        let mut router: BrokerRouter = Broker::new();
        let timer: BrokerTimer = Broker::new();
        let mut dht = DHTRouter::start(cfg, timer.clone(), router.clone()).await.unwrap();
        let net = router.get_tap_in().await.unwrap().0;
        let out = dht.broker.get_tap_out().await.unwrap().0;
        quiesce().await;
        Node { dht, router, timer, out, net, con: vec![] }
    }
    fn r(&mut self, m: RouterOut) {
        self.router.emit_msg_out(m).unwrap();
    }
    fn mess(&mut self, from: NodeID, m: ModuleMessage) {
        self.r(RouterOut::NetworkWrapperFromNetwork(from, NetworkWrapper::wrap_yaml(MODULE, &m).unwrap()))
    }
    fn up(&mut self, m: DHTRouterIn) {
        self.dht.broker.emit_msg_in(m).unwrap();
    }
    /// What the node sent since the last time
    fn outs(&mut self, ids: &Ids) -> Vec<Value> {
        drain(&mut self.net)
            .into_iter()
            .filter_map(|m| match m {
                RouterIn::NetworkWrapperToNetwork(dst, w) => {
                    let t = ids.p(&dst);
                    Some(match w.unwrap_yaml::<ModuleMessage>(MODULE) {
                        Some(ModuleMessage::Ping) => json!({"t": t, "k": "ping"}),
                        Some(ModuleMessage::Pong) => json!({"t": t, "k": "pong"}),
                        Some(ModuleMessage::ConnectedIDsRequest) => json!({"t": t, "k": "idsReq"}),
                        Some(ModuleMessage::ConnectedIDsReply(l)) => json!({"t": t, "k": "ids", "l": ids.pos(&l)}),
                        Some(ModuleMessage::Neighbour(w)) => json!({"t": t, "k": "nb", "m": unpay(&w)}),
                        Some(ModuleMessage::Closest(o, key, w)) => json!({"t": t, "k": "closest", "g": ids.p(&o), "key": ids.p(&key), "m": unpay(&w)}),
                        Some(ModuleMessage::Direct(o, key, w)) => json!({"t": t, "k": "direct", "g": ids.p(&o), "key": ids.p(&key), "m": unpay(&w)}),
                        None => json!({"t": t, "k": "unknown"}),
                    })
                }
                _ => None,
            })
            .collect()
    }
    /// What it told the upper layer
    fn ups(&mut self, ids: &Ids) -> Vec<Value> {
        drain(&mut self.out)
            .into_iter()
            .map(|m| match m {
                DHTRouterOut::MessageNeighbour(f, w) => json!({"k": "nb", "f": ids.p(&f), "m": unpay(&w)}),
                DHTRouterOut::MessageRouting(o, last, next, key, w) => {
                    json!({"k": "routing", "g": ids.p(&o), "f": ids.p(&last), "t": ids.p(&next), "key": ids.p(&key), "m": unpay(&w)})
                }
                DHTRouterOut::MessageClosest(o, last, key, w) => json!({"k": "closest", "g": ids.p(&o), "f": ids.p(&last), "key": ids.p(&key), "m": unpay(&w)}),
                DHTRouterOut::MessageDest(o, last, w) => json!({"k": "dest", "g": ids.p(&o), "f": ids.p(&last), "m": unpay(&w)}),
                DHTRouterOut::NodeList(l) => json!({"k": "list", "l": ids.pos(&l)}),
                DHTRouterOut::SystemRealm(_) => json!({"k": "realm"}),
            })
            .collect()
    }
    fn table(&self, ids: &Ids) -> Value {
        let s = self.dht.stats.borrow().clone();
        json!({"all": ids.pos(&s.all_nodes), "act": s.active, "b": s.bucket_nodes.iter().map(|b| ids.pos(b)).collect::<Vec<_>>(), "con": self.con})
    }
}

fn one(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let shape = &b["shape"];
        let ids = Ids(arr(&shape["ids"]).iter().map(|s| U256::from_str(s.as_str().unwrap()).unwrap()).collect());
        let mut n = Node::start(shape, ids.0[0]).await;
        rec.cfg(ids.cfg(shape));
        for (i, op) in arr(&b["ops"]).iter().enumerate() {
            let m = i + 1;
            let id = |x: &str| ids.0[us(&op[x]) - 1];
            let f = op.get("f").map(|_| id("f")).unwrap_or(ids.0[0]);
            let l = uss(&op["l"]);
            match op["op"].as_str().unwrap() {
                "conlist" => {
                    n.con = l.clone();
                    n.r(RouterOut::NodeIDsConnected(NodeIDs(ids.of(&l))))
                }
                "con" => {
                    if !n.con.contains(&us(&op["f"])) {
                        n.con.push(us(&op["f"]));
                    }
                    n.r(RouterOut::NodeIDsConnected(NodeIDs(ids.of(&n.con.clone()))));
                    n.r(RouterOut::Connected(f))
                }
                "disc" => {
                    n.con = l.clone();
                    n.r(RouterOut::NodeIDsConnected(NodeIDs(ids.of(&l))));
                    n.r(RouterOut::Disconnected(f))
                }
                "avail" => n.r(RouterOut::NodeInfoAvailable(ids.of(&l).into_iter().map(NodeInfo::new_from_id).collect())),
                "pong" => n.mess(f, ModuleMessage::Pong),
                "ping" => n.mess(f, ModuleMessage::Ping),
                "idsReq" => n.mess(f, ModuleMessage::ConnectedIDsRequest),
                "ids" => n.mess(f, ModuleMessage::ConnectedIDsReply(ids.of(&l))),
                "nb" => n.mess(f, ModuleMessage::Neighbour(payload(m))),
                "junk" => n.r(RouterOut::NetworkWrapperFromNetwork(
                    f,
                    NetworkWrapper { module: if i % 2 == 0 { MODULE.into() } else { "Other".into() }, msg: "- : ]".into() },
                )),
                "closest" => n.mess(f, ModuleMessage::Closest(id("g"), id("key"), payload(m))),
                "direct" => n.mess(f, ModuleMessage::Direct(id("g"), id("key"), payload(m))),
                "upBcast" => n.up(DHTRouterIn::MessageBroadcast(payload(m))),
                "upNb" => n.up(DHTRouterIn::MessageNeighbour(f, payload(m))),
                "upClosest" => n.up(DHTRouterIn::MessageClosest(id("key"), payload(m))),
                "upDirect" => n.up(DHTRouterIn::MessageDirect(id("key"), payload(m))),
                "tick" => {
                    n.timer.emit_msg_out(TimerMessage::Second).unwrap();
                    n.timer.emit_msg_out(TimerMessage::Minute).unwrap();
                }
                o => panic!("unknown op {o}"),
            }
            quiesce().await;
            let mut step = op.clone();
            step["m"] = json!(m);
            step["outs"] = json!(n.outs(&ids));
            step["ups"] = json!(n.ups(&ids));
            step["tab"] = n.table(&ids);
            rec.step(step);
        }
    });
}

fn many(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let shape = &b["shape"];
        let ids = Ids(arr(&shape["ids"]).iter().map(|s| U256::from_str(s.as_str().unwrap()).unwrap()).collect());
        rec.cfg(ids.cfg(shape));
        let num = us(&shape["n"]);
        let mut nodes = vec![];
        for i in 0..num {
            let mut n = Node::start(shape, ids.0[i]).await;
            let t = &b["tables"][i];
            n.con = uss(&t["con"]);
            n.r(RouterOut::NodeInfoAvailable(ids.of(&uss(&t["a"])).into_iter().map(NodeInfo::new_from_id).collect()));
            for j in uss(&t["a"]) {
                n.mess(ids.0[j - 1], ModuleMessage::Pong);
            }
            let con = ids.of(&n.con);
            n.r(RouterOut::NodeIDsConnected(NodeIDs(con)));
            quiesce().await;
            n.outs(&ids);
            n.ups(&ids);
            nodes.push(n);
        }
        for (i, op) in arr(&b["ops"]).iter().enumerate() {
            let m = i + 1;
            let g = us(&op["g"]) - 1;
            let key = ids.0[us(&op["key"]) - 1];
            let before = nodes[g].table(&ids);
            nodes[g].up(if op["op"] == "direct" { DHTRouterIn::MessageDirect(key, payload(m)) } else { DHTRouterIn::MessageClosest(key, payload(m)) });
            quiesce().await;
            let mut hops = vec![];
            let mut queue = nodes[g].outs(&ids);
            hops.push(json!({"at": g + 1, "f": 0, "tab": before, "outs": queue, "ups": nodes[g].ups(&ids)}));
            while !queue.is_empty() && hops.len() < 40 {
                let o = queue.remove(0);
                let (t, f) = (us(&o["t"]), us(&hops.last().unwrap()["at"]));
                if t == 0 || t > num {
                    continue;
                }
                let (orig, k) = (ids.0[us(&o["g"]) - 1], ids.0[us(&o["key"]) - 1]);
                let w = payload(us(&o["m"]));
                let before = nodes[t - 1].table(&ids);
                nodes[t - 1].mess(ids.0[f - 1], if o["k"] == "direct" { ModuleMessage::Direct(orig, k, w) } else { ModuleMessage::Closest(orig, k, w) });
                quiesce().await;
                let outs = nodes[t - 1].outs(&ids);
                queue.extend(outs.clone());
                hops.push(json!({"at": t, "f": f, "tab": before, "outs": outs, "ups": nodes[t - 1].ups(&ids)}));
            }
            rec.step(json!({"op": op["op"], "g": op["g"], "key": op["key"], "m": m, "hops": hops}));
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), |b, rec| {
        if b["shape"]["mode"] == "one" {
            one(b, rec)
        } else {
            many(b, rec)
        }
    });
}
