//! Several whole nodes; the network between them and the signalling server are simulated.
use fl_harness::*;
use flarch::{
    broker::Broker,
    data_storage::DataStorage,
    nodeids::NodeID,
};
use flcrypto::{access::Condition, signer::SignerTrait, signer_ed25519::SignerEd25519};
use flmodules::{
    dht_storage::{
        broker::{DHTStorageIn, DHTStorageOut},
        core::{Cuckoo, FloConfig, RealmConfig},
    },
    flo::{flo::Flo, realm::FloRealm},
    gossip_events::core::Category,
    network::broker::{BrokerNetwork, NetworkIn, NetworkOut},
    nodeconfig::{NodeConfig, NodeInfo},
    timer::{BrokerTimer, TimerMessage},
    Modules,
};
use flnode::node::Node;
use serde_json::{json, Value};
use std::{collections::HashSet, sync::OnceLock, time::Duration};
use tokio::sync::mpsc::UnboundedReceiver;

const VERSIONS: usize = 4;

/// Flos 1 and 4 are the realms' own ones; the others have several versions.
fn world() -> &'static Vec<Vec<Flo>> {
    static W: OnceLock<Vec<Vec<Flo>>> = OnceLock::new();
    W.get_or_init(|| {
        let mut flos = vec![];
        for r in 1..=2 {
            let signer = SignerEd25519::new();
            let cond = Condition::Verifier(signer.verifier());
            let root = FloRealm::new(&format!("realm{r}"), cond.clone(), RealmConfig { max_space: 1_000_000, max_flo_size: 100_000 }, &[&signer]).unwrap();
            let parent = root.flo().flo_id();
            flos.push(vec![root.flo().clone()]);
            for p in 1..=2 {
                let cuckoo = if p == 1 { Cuckoo::Duration(100_000) } else { Cuckoo::Parent(parent.clone()) };
                let first = Flo::new_signer(root.realm_id(), cond.clone(), &format!("page{r}{p}"), FloConfig { cuckoo, force_id: None }, &[&signer]).unwrap();
                let mut vers = vec![first];
                for v in 1..VERSIONS {
                    vers.push(vers[v - 1].clone().update_data_signers(cond.clone(), format!("page{r}{p}-{v}"), &[&signer]).unwrap());
                }
                flos.push(vers);
            }
        }
        flos
    })
}
/// [id, version], [0, 0] for something else
fn known(f: &Flo) -> Value {
    for (i, vers) in world().iter().enumerate() {
        if let Some(v) = vers.iter().position(|g| f == g) {
            return json!([i + 1, v]);
        }
    }
    json!([0, 0])
}
fn text(m: usize) -> String {
    format!("chat {m}: é\n- {{}} \"'#")
}
fn un_text(s: &str) -> usize {
    let m = s.split([' ', ':']).nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    if text(m) == s {
        m
    } else {
        0
    }
}

struct Run {
    node: Node,
    net: BrokerNetwork,
    tap: UnboundedReceiver<NetworkIn>,
    timer: BrokerTimer,
    dht: Option<UnboundedReceiver<DHTStorageOut>>,
}
struct Part {
    cfg: NodeConfig,
    ds: MemStorage,
    run: Option<Run>,
}
impl Part {
    async fn start(&mut self) -> bool {
        let cfg = Node::get_config(self.ds.clone_box()).unwrap();
        let same = cfg == self.cfg;
        let mut net: BrokerNetwork = Broker::new();
        let timer: BrokerTimer = Broker::new();
        let mut node = Node::start(self.ds.clone_box(), cfg, net.clone(), timer.clone()).await.unwrap();
        let tap = net.get_tap_in().await.unwrap().0;
        let dht = match &mut node.dht_storage {
            Some(d) => Some(d.broker.get_tap_out().await.unwrap().0),
            None => None,
        };
        self.run = Some(Run { node, net, tap, timer, dht });
        same
    }
    fn hears(&mut self, o: NetworkOut) {
        if let Some(r) = &mut self.run {
            r.net.emit_msg_out(o).unwrap();
        }
    }
}
struct Net {
    nodes: Vec<Part>,
    ids: Vec<NodeID>,
    con: HashSet<(usize, usize)>,
    cut: HashSet<(usize, usize)>,
    /// Every so many messages are lost, and how many have been sent
    loss: usize,
    sent: usize,
    rng: u64,
}
fn pair(i: usize, j: usize) -> (usize, usize) {
    (i.min(j), i.max(j))
}
impl Net {
    fn up(&self, i: usize) -> bool {
        self.nodes[i].run.is_some()
    }
    fn infos(&self) -> Vec<NodeInfo> {
        (0..self.nodes.len()).filter(|i| self.up(*i)).map(|i| self.nodes[i].cfg.info.clone()).collect()
    }
    /// Whether they are connected in the end
    fn connect(&mut self, i: usize, j: usize) -> bool {
        if i == j || !self.up(j) || self.cut.contains(&pair(i, j)) {
            return false;
        }
        if self.con.insert(pair(i, j)) {
            let (a, b) = (self.ids[i], self.ids[j]);
            self.nodes[i].hears(NetworkOut::Connected(b));
            self.nodes[j].hears(NetworkOut::Connected(a));
        }
        true
    }
    fn disconnect(&mut self, i: usize, j: usize) {
        if self.con.remove(&pair(i, j)) {
            let (a, b) = (self.ids[i], self.ids[j]);
            self.nodes[i].hears(NetworkOut::Disconnected(b));
            self.nodes[j].hears(NetworkOut::Disconnected(a));
        }
    }
    fn lost(&mut self) -> bool {
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.loss > 0 && (self.rng >> 33) as usize % self.loss == 0
    }
    /// Until nobody has anything to say.
    async fn pump(&mut self) {
        loop {
            quiesce().await;
            let mut any = false;
            for i in 0..self.nodes.len() {
                let Some(r) = &mut self.nodes[i].run else { continue };
                for m in drain(&mut r.tap) {
                    any = true;
                    let n = |id: &NodeID| self.ids.iter().position(|x| x == id);
                    match m {
                        NetworkIn::MessageToNode(to, w) => {
                            let Some(j) = n(&to) else { continue };
                            if self.connect(i, j) {
                                self.sent += 1;
                                if !self.lost() {
                                    let from = self.ids[i];
                                    self.nodes[j].hears(NetworkOut::MessageFromNode(from, w));
                                }
                            }
                        }
                        NetworkIn::Connect(to) => {
                            n(&to).map(|j| self.connect(i, j));
                        }
                        NetworkIn::Disconnect(to) => {
                            n(&to).map(|j| self.disconnect(i, j));
                        }
                        NetworkIn::WSUpdateListRequest => {
                            let l = self.infos();
                            self.nodes[i].hears(NetworkOut::NodeListFromWS(l));
                        }
                        NetworkIn::StatsToWS(_) => {}
                    }
                }
            }
            if !any {
                return;
            }
        }
    }
    async fn tick(&mut self, m: TimerMessage) {
        for i in 0..self.nodes.len() {
            if let Some(r) = &mut self.nodes[i].run {
                r.timer.emit_msg_out(m.clone()).unwrap();
            }
        }
        self.pump().await;
    }
    async fn list(&mut self) {
        for i in 0..self.nodes.len() {
            if let Some(r) = &mut self.nodes[i].run {
                r.node.request_list().await.unwrap();
            }
        }
        self.pump().await;
    }
    /// What each of the nodes shows.
    async fn seen(&mut self) -> Vec<Value> {
        let mut out = vec![];
        for i in 0..self.nodes.len() {
            let ids = self.ids.clone();
            let infos: Vec<NodeInfo> = self.nodes.iter().map(|n| n.cfg.info.clone()).collect();
            let p = |id: &NodeID| pos(&ids, id);
            let inf = |l: anyhow::Result<Vec<NodeInfo>>| match l {
                Ok(l) => json!({"ok": true, "l": l.iter().map(|x| pos(&infos, x)).collect::<Vec<_>>()}),
                Err(_) => json!({"ok": false, "l": []}),
            };
            let Some(r) = &mut self.nodes[i].run else {
                out.push(json!({"up": false}));
                continue;
            };
            let chats: Vec<Value> = match &r.node.gossip {
                Some(g) => g.events(Category::TextMessage).iter().map(|e| json!([un_text(&e.msg), p(&e.src)])).collect(),
                None => vec![],
            };
            let flos = match &mut r.node.dht_storage {
                Some(d) => d.get_flos().await.unwrap().iter().map(known).collect(),
                None => vec![],
            };
            let stat = match &r.node.stat {
                Some(s) => json!({"ok": true, "l": s.borrow().connected.iter().map(p).collect::<Vec<_>>()}),
                None => json!({"ok": false, "l": []}),
            };
            let all = r.node.nodes_info_all().map(|m| m.into_iter().map(|(id, x)| if id == x.get_id() { x } else { NodeConfig::new().info }).collect());
            out.push(json!({"up": true, "chats": chats, "flos": flos, "stat": stat, "infos": inf(all),
                "con": inf(r.node.nodes_connected()), "online": inf(r.node.nodes_online())}));
            if let Some(d) = &mut r.dht {
                drain(d);
            }
        }
        out
    }
}

fn modules(l: &Value) -> Modules {
    let mut m = Modules::stable();
    for x in arr(l) {
        m.remove(match x.as_str().unwrap() {
            "rand" => Modules::RAND,
            "gossip" => Modules::GOSSIP,
            "router" => Modules::DHT_ROUTER,
            "storage" => Modules::DHT_STORAGE,
            _ => Modules::STAT,
        })
    }
    m
}

fn one(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let n = us(&b["n"]);
        let mut net = Net { nodes: vec![], ids: vec![], con: HashSet::new(), cut: HashSet::new(), loss: 0, sent: 0, rng: us(&b["rng"]) as u64 };
        for i in 0..n {
            let ds = MemStorage::default();
            let mut cfg = Node::get_config(ds.clone_box()).unwrap();
            cfg.info.name = format!("node {i}");
            cfg.info.modules = modules(&b["without"][i]);
            Node::set_config(ds.clone_box(), &cfg.encode()).unwrap();
            net.ids.push(cfg.info.get_id());
            net.nodes.push(Part { cfg, ds, run: None });
        }
        rec.cfg(json!({"n": n, "without": b["without"]}));
        for op in arr(&b["ops"]) {
            let mut step = op.clone();
            let i = op.get("i").map(|i| us(i) - 1).unwrap_or(0);
            let j = op.get("j").map(|j| us(j) - 1).unwrap_or(0);
            step["ok"] = json!(true);
            step["ans"] = json!([]);
            match op["op"].as_str().unwrap() {
                "start" => {
                    step["ok"] = json!(net.nodes[i].start().await);
                }
                "stop" => {
                    for x in 0..n {
                        net.disconnect(i, x);
                    }
                    net.nodes[i].run = None;
                }
                "cut" => {
                    net.cut.insert(pair(i, j));
                    net.disconnect(i, j);
                }
                "mend" => {
                    net.cut.remove(&pair(i, j));
                }
                "list" => net.list().await,
                "say" => {
                    let r = net.nodes[i].run.as_mut().unwrap();
                    step["ok"] = json!(r.node.add_chat_message(text(us(&op["m"]))).await.is_ok());
                }
                "put" => {
                    let flo = world()[us(&op["f"]) - 1][us(&op["v"])].clone();
                    if let Some(d) = &mut net.nodes[i].run.as_mut().unwrap().node.dht_storage {
                        d.store_flo(flo).unwrap();
                    }
                }
                "prop" => {
                    if let Some(d) = &mut net.nodes[i].run.as_mut().unwrap().node.dht_storage {
                        d.propagate().unwrap();
                    }
                }
                "sync" => {
                    if let Some(d) = &mut net.nodes[i].run.as_mut().unwrap().node.dht_storage {
                        d.sync().unwrap();
                    }
                }
                "read" => {
                    let id = world()[us(&op["f"]) - 1][0].global_id();
                    if let Some(d) = &mut net.nodes[i].run.as_mut().unwrap().node.dht_storage {
                        d.broker.emit_msg_in(DHTStorageIn::ReadFlo(id.clone())).unwrap();
                        net.pump().await;
                        let got = drain(net.nodes[i].run.as_mut().unwrap().dht.as_mut().unwrap());
                        step["ans"] = got
                            .iter()
                            .map(|o| match o {
                                DHTStorageOut::FloValue((f, _)) => known(f),
                                DHTStorageOut::ValueMissing(g) if *g == id => json!([us(&op["f"]), -1]),
                                _ => json!([0, 0]),
                            })
                            .collect();
                    }
                }
                "ticks" => {
                    for _ in 0..us(&op["m"]) {
                        net.tick(TimerMessage::Second).await;
                    }
                }
                "minutes" => {
                    for _ in 0..us(&op["m"]) {
                        net.tick(TimerMessage::Minute).await;
                    }
                }
                "loss" => net.loss = us(&op["m"]),
                "calm" => {
                    net.loss = 0;
                    // Until no new connections appear for longer than it takes to give up one which
                    // was cut (10 seconds or 30 minutes), to ask for a sign of life (10 minutes), and to pass on everything.
                    let (mut same, mut rounds) = (0, 0);
                    while same < 3 && rounds < 100 {
                        let before = net.con.clone();
                        net.list().await;
                        for _ in 0..12 {
                            net.tick(TimerMessage::Second).await;
                        }
                        for _ in 0..15 {
                            net.tick(TimerMessage::Minute).await;
                        }
                        same = if net.con == before { same + 1 } else { 0 };
                        rounds += 1;
                    }
                    net.list().await;
                    net.tick(TimerMessage::Second).await;
                }
                o => panic!("unknown op {o}"),
            }
            net.pump().await;
            step["net"] = net.con.iter().map(|(a, b)| json!([a + 1, b + 1])).collect();
            step["seen"] = json!(net.seen().await);
            rec.step(step);
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    world();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), one);
}
