//! A whole node which gets well-formed, spoiled and nonsensical messages from other nodes; after each of them all its parts are asked for a sign of life.
use fl_harness::*;
use flarch::{
    broker::Broker,
    data_storage::DataStorage,
    nodeids::{NodeID, U256},
};
use flcrypto::{
    access::Condition,
    signer::SignerTrait,
    signer_ed25519::SignerEd25519,
};
use flmodules::{
    dht_router::intern::ModuleMessage as RouterMsg,
    dht_storage::{
        broker::DHTStorageIn,
        core::{Cuckoo, FloConfig, FloMeta, RealmConfig},
        intern::{MessageClosest, MessageDest, MessageNeighbour},
    },
    flo::{
        flo::{Flo, FloID},
        realm::{FloRealm, RealmID},
    },
    gossip_events::{
        core::{Category, Event},
        intern::ModuleMessage as GossipMsg,
    },
    network::broker::{BrokerNetwork, NetworkIn, NetworkOut, MODULE_NAME as RANDOM},
    nodeconfig::{NodeConfig, NodeInfo},
    random_connections::intern::ModuleMessage as RandomMsg,
    router::messages::NetworkWrapper,
    timer::{BrokerTimer, TimerMessage},
};
use flnode::node::Node;
use serde::Serialize;
use serde_json::{json, Value};
use serde_yaml::Value as Y;
use std::{
    collections::HashMap,
    sync::OnceLock,
    time::Duration,
};
use tokio::sync::mpsc::UnboundedReceiver;

const CHATS: usize = 5;

/// Two realms, with a root and two pages each.
struct World {
    realms: Vec<RealmID>,
    flos: Vec<Flo>,
}
fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let (mut realms, mut flos) = (vec![], vec![]);
        for r in 1..=2 {
            let signer = SignerEd25519::new();
            let cond = Condition::Verifier(signer.verifier());
            let root = FloRealm::new(&format!("realm{r}"), cond.clone(), RealmConfig { max_space: 1_000_000, max_flo_size: 100_000 }, &[&signer]).unwrap();
            let rid = root.realm_id();
            let parent: FloID = root.flo().flo_id();
            flos.push(root.flo().clone());
            for p in 1..=2 {
                let cuckoo = if p == 1 { Cuckoo::Duration(1000) } else { Cuckoo::Parent(parent.clone()) };
                flos.push(Flo::new_signer(rid.clone(), cond.clone(), &format!("page{r}{p}"), FloConfig { cuckoo, force_id: None }, &[&signer]).unwrap());
            }
            realms.push(rid);
        }
        World { realms, flos }
    })
}

fn peer(i: usize) -> NodeID {
    U256::from([(i * 31) as u8; 32])
}

/// A message: what is inside, and how it is put into what is around.
struct Msg {
    outer: &'static str,
    around: Option<Y>, // with a Y::Null in place of the wrapper of the inner message
    module: &'static str,
    inner: Y,
}
fn y<T: Serialize>(t: &T) -> Y {
    serde_yaml::to_value(t).unwrap()
}
fn wrapper() -> NetworkWrapper {
    NetworkWrapper { module: "@".into(), msg: "".into() }
}
fn replace(v: &Y, w: &Y) -> Y {
    match v {
        Y::Mapping(m) if m.get(&Y::String("module".into())) == Some(&Y::String("@".into())) => w.clone(),
        Y::Mapping(m) => Y::Mapping(m.iter().map(|(k, v)| (k.clone(), replace(v, w))).collect()),
        Y::Sequence(s) => Y::Sequence(s.iter().map(|v| replace(v, w)).collect()),
        v => v.clone(),
    }
}
fn rnd(inner: Y, module: &'static str) -> Msg {
    Msg { outer: RANDOM, around: Some(y(&RandomMsg::Module(wrapper()))), module, inner }
}
fn gossip(m: GossipMsg) -> Msg {
    rnd(y(&m), "Gossip")
}
fn router(m: RouterMsg) -> Msg {
    Msg { outer: "DHTRouter", around: None, module: "", inner: y(&m) }
}
fn in_router<T: Serialize>(m: RouterMsg, t: &T) -> Msg {
    Msg { outer: "DHTRouter", around: Some(y(&m)), module: "DHTStorage", inner: y(t) }
}
fn neighbour(m: MessageNeighbour) -> Msg {
    in_router(RouterMsg::Neighbour(wrapper()), &m)
}
fn closest(from: NodeID, key: U256, m: MessageClosest) -> Msg {
    in_router(RouterMsg::Closest(from, key, wrapper()), &m)
}
/// Wherever this is cut, it is likely inside of a character.
fn long(n: usize) -> String {
    format!("{}{}", "x".repeat(n % 3), "€".repeat(500))
}
fn chat(n: usize, from: NodeID) -> Event {
    Event { category: Category::TextMessage, src: from, created: n as i64 * 1000, msg: format!("chat {n}: é\n- {{}}{}", if n > 1 { long(n) } else { "".into() }) }
}
fn proxy(kind: &str, nonce: U256, v: Value) -> Msg {
    rnd(y(&HashMap::from([(kind, json!([nonce, v]))])), "WebProxy")
}

/// Message number t with parameter n from this peer to the node `us`.
fn message(t: usize, n: usize, from: NodeID, us: NodeID) -> Msg {
    let w = world();
    let flo = w.flos[n].clone();
    let rid = flo.realm_id();
    let cuckoos = vec![FloID::from(peer(20)), FloID::from(peer(21))];
    match t {
        1 => gossip(GossipMsg::Events(vec![chat(n % CHATS + 1, peer(1))])),
        2 => gossip(GossipMsg::RequestEventIDs),
        3 => gossip(GossipMsg::RequestEvents(vec![chat(1, peer(1)).get_id(), chat(2, peer(1)).get_id()])),
        4 => gossip(GossipMsg::KnownEventIDs(vec![chat(1, peer(1)).get_id(), U256::rnd()])),
        5 => gossip(GossipMsg::Events(vec![Event { category: Category::NodeInfo, src: peer(30), created: 5, msg: NodeInfo::new_from_id(peer(30)).encode() }])),
        6 => proxy("Request", U256::rnd(), json!(if n % 2 == 0 { "nourl".into() } else { long(n) })),
        7 => proxy("Response", U256::rnd(), json!({"Header": {"status": "OK", "headers": {"a": ["b"]}}})),
        8 => proxy("Response", U256::rnd(), if n % 2 == 0 { json!({"Body": "616263"}) } else { json!("Done") }),
        9 => Msg { outer: RANDOM, around: None, module: "", inner: y(&RandomMsg::DropConnection) },
        10 => router(RouterMsg::Ping),
        11 => router(RouterMsg::Pong),
        12 => router(RouterMsg::ConnectedIDsRequest),
        13 => router(RouterMsg::ConnectedIDsReply(vec![peer(22), U256::rnd(), us])),
        14 => neighbour(MessageNeighbour::RequestRealmIDs),
        15 => neighbour(MessageNeighbour::AvailableRealmIDs(w.realms.clone())),
        16 => neighbour(MessageNeighbour::RequestFloMetas(rid)),
        17 => neighbour(MessageNeighbour::AvailableFlos(rid, vec![FloMeta { id: flo.flo_id(), cuckoos: 3, version: 7 }])),
        18 => neighbour(MessageNeighbour::RequestFlos(rid, vec![flo.flo_id(), w.flos[0].flo_id()])),
        19 => neighbour(MessageNeighbour::Flos(vec![(flo, cuckoos)])),
        20 => neighbour(MessageNeighbour::Flos(w.flos.iter().map(|f| (f.clone(), vec![])).collect())),
        21 => closest(from, *flo.flo_id(), MessageClosest::StoreFlo(flo)),
        22 => closest(from, *flo.flo_id(), MessageClosest::ReadFlo(rid)),
        23 => closest(from, *flo.flo_id(), MessageClosest::GetCuckooIDs(rid)),
        24 => closest(from, *flo.flo_id(), MessageClosest::StoreCuckooID(w.flos[2].global_id())),
        25 => in_router(RouterMsg::Direct(from, us, wrapper()), &MessageDest::FloValue((flo, cuckoos))),
        26 => in_router(RouterMsg::Direct(from, us, wrapper()), &MessageDest::UnknownFlo(flo.global_id())),
        27 => in_router(RouterMsg::Direct(from, us, wrapper()), &MessageDest::CookooIDs(flo.global_id(), cuckoos)),
        28 => in_router(RouterMsg::Direct(from, peer(23), wrapper()), &MessageDest::UnknownFlo(flo.global_id())),
        t => panic!("no template {t}"),
    }
}

/// Number of nodes of a YAML value, in pre-order.
fn count(v: &Y) -> usize {
    1 + match v {
        Y::Mapping(m) => m.iter().map(|(_, v)| count(v)).sum(),
        Y::Sequence(s) => s.iter().map(count).sum(),
        _ => 0,
    }
}
/// The value with node number p replaced; None if it has to be removed.
fn change(v: &Y, p: &mut i64, f: &dyn Fn(&Y) -> Vec<Y>) -> Vec<Y> {
    *p -= 1;
    if *p == -1 {
        return f(v);
    }
    vec![match v {
        Y::Mapping(m) => Y::Mapping(m.iter().filter_map(|(k, v)| change(v, p, f).first().map(|v| (k.clone(), v.clone()))).collect()),
        Y::Sequence(s) => Y::Sequence(s.iter().flat_map(|v| change(v, p, f)).collect()),
        v => v.clone(),
    }]
}
fn map(l: Vec<(Y, Y)>) -> Y {
    Y::Mapping(l.into_iter().collect())
}
fn s(t: &str) -> Y {
    Y::String(t.into())
}
/// Text tricks YAML values can't express.
const PLAIN: usize = 30;
fn kind(k: usize, v: &Y) -> Vec<Y> {
    let text = |f: &dyn Fn(&str) -> String| match v {
        Y::String(t) => s(&f(t)),
        v => s(&f(&serde_yaml::to_string(v).unwrap_or_default())),
    };
    vec![match k {
        1 => map(vec![]),
        2 => Y::Sequence(vec![]),
        3 => Y::Null,
        4 => s(""),
        5 => s("abc"),
        6 => (-1).into(),
        7 => u64::MAX.into(),
        8 => true.into(),
        9 => 1.5.into(),
        10 => f64::NAN.into(),
        11 => s("\u{0}\u{7f}é\n'\""),
        12 => s("{}"),
        13 => Y::Sequence(vec![v.clone()]),
        14 => map(vec![(s("x"), v.clone())]),
        15 => map(vec![(v.clone(), v.clone())]),
        16 => return vec![],
        17 => return vec![v.clone(), v.clone()],
        18 => s(&"x".repeat(20_000)),
        19 => text(&|t| t.chars().skip(1).collect()),
        20 => text(&|t| format!("é{}", t.chars().skip(1).collect::<String>())),
        21 => text(&|t| format!("{t}00")),
        22 => (0..60).fold(v.clone(), |v, _| Y::Sequence(vec![v])),
        23 => (0..60).fold(v.clone(), |v, _| map(vec![(s("Module"), v)])),
        24 => Y::Sequence(vec![v.clone(); 200]),
        25 => match v {
            Y::Mapping(m) => Y::Mapping(m.iter().map(|(k, v)| (if let Y::String(k) = k { s(&format!("{k}X")) } else { k.clone() }, v.clone())).collect()),
            Y::Number(n) => n.as_i64().map(|n| (n ^ 1).into()).unwrap_or(0.into()),
            v => v.clone(),
        },
        26 => match v {
            Y::Number(_) => u32::MAX.into(),
            _ => i64::MIN.into(),
        },
        27 => match v {
            Y::Mapping(m) => Y::Mapping(m.iter().take(1).map(|(k, v)| (k.clone(), v.clone())).chain(vec![(s("more"), Y::Null)]).collect()),
            Y::Sequence(l) => Y::Sequence(l.iter().rev().cloned().collect()),
            _ => 0.into(),
        },
        28 => match v {
            Y::Sequence(l) => Y::Sequence(l.iter().take(l.len().max(1) - 1).cloned().collect()),
            _ => s(&"0".repeat(64)),
        },
        29 => match v {
            Y::String(t) if t.len() == 64 => s(&"f".repeat(63)),
            _ => text(&|t| long(t.len())),
        },
        30 => s("0x"),
        _ => panic!("no kind {k}"),
    }]
}
/// The text of the value, with a trick at a place depending on p.
fn text(v: &Y, k: usize, p: usize) -> String {
    let t = serde_yaml::to_string(v).unwrap();
    let chars: Vec<char> = t.chars().collect();
    let at = p * 7 % (chars.len() + 1);
    let (a, b): (String, String) = (chars[..at].iter().collect(), chars[at..].iter().collect());
    match k - PLAIN {
        1 => a,
        2 => b,
        3 => format!("{t}\n---\n{t}"),
        4 => format!("{a}{}{b}", ["{", "}", "[", "]", ": ", "&a ", "*a", "!x ", "\"", "\t", "\u{0}", "- "][p % 12]),
        5 => "a: &a [x,x]\nb: &b [*a,*a]\nc: [*b,*b]".into(),
        6 => "".into(),
        7 => "{".repeat(p * 20),
        8 => format!("{}{}", a, b.chars().skip(1).collect::<String>()),
        9 => "!!binary |".into(),
        10 => "\u{feff}%YAML 1.2\n---".into(),
        k => panic!("no trick {k}"),
    }
}
fn spoil(v: &Y, k: usize, p: usize) -> String {
    if k == 0 {
        return serde_yaml::to_string(v).unwrap();
    }
    if k > PLAIN {
        return text(v, k, p);
    }
    let mut at = (p % count(v)) as i64;
    match change(v, &mut at, &|v| kind(k, v)).as_slice() {
        [] => String::new(),
        [v] => serde_yaml::to_string(v).unwrap(),
        l => serde_yaml::to_string(l).unwrap(),
    }
}

struct Run {
    cfg: NodeConfig,
    node: Node,
    net: BrokerNetwork,
    tap: UnboundedReceiver<NetworkIn>,
    timer: BrokerTimer,
    ds: MemStorage,
}
impl Run {
    async fn start(cfg: NodeConfig, ds: MemStorage) -> Run {
        let mut net: BrokerNetwork = Broker::new();
        let timer: BrokerTimer = Broker::new();
        let node = Node::start(ds.clone_box(), cfg.clone(), net.clone(), timer.clone()).await.unwrap();
        let tap = net.get_tap_in().await.unwrap().0;
        quiesce().await;
        Run { cfg, node, net, tap, timer, ds }
    }
    async fn net(&mut self, o: NetworkOut) -> Vec<NetworkIn> {
        drain(&mut self.tap);
        self.net.emit_msg_out(o).unwrap();
        quiesce().await;
        drain(&mut self.tap)
    }
    async fn ask(&mut self, m: &Msg) -> Vec<(NodeID, String, String)> {
        let w = wrap(m, None);
        self.net(NetworkOut::MessageFromNode(peer(9), w)).await.into_iter().filter_map(answer).collect()
    }
    /// What all the parts answer.
    async fn probe(&mut self) -> Value {
        let us = self.cfg.info.get_id();
        self.net(NetworkOut::Disconnected(peer(9))).await;
        self.net(NetworkOut::Connected(peer(9))).await;
        let mine = |l: Vec<(NodeID, String, String)>, module: &str| -> Vec<String> {
            l.into_iter().filter(|(id, m, _)| *id == peer(9) && m == module).map(|(_, _, t)| t).collect()
        };
        let ids: Vec<U256> = mine(self.ask(&message(2, 0, peer(9), us)).await, "Gossip")
            .iter()
            .filter_map(|t| match serde_yaml::from_str(t) {
                Ok(GossipMsg::KnownEventIDs(l)) => Some(l),
                _ => None,
            })
            .next()
            .unwrap_or(vec![]);
        let events = self.node.gossip.as_ref().map(|g| g.events(Category::NodeInfo)).unwrap_or_default();
        let own = events.iter().any(|e| e.src == us && ids.contains(&e.get_id())) && self.node.nodes_info_all().unwrap().contains_key(&us);
        let said: Vec<Event> = self.node.gossip.as_ref().map(|g| g.events(Category::TextMessage)).unwrap_or_default();
        let chats: Vec<usize> = (1..=CHATS).filter(|n| ids.contains(&chat(*n, peer(1)).get_id())).collect();
        let shown: Vec<usize> = (1..=CHATS).filter(|n| said.contains(&chat(*n, peer(1)))).collect();
        let pong = mine(self.ask(&message(10, 0, peer(9), us)).await, "DHTRouter")
            .iter()
            .filter(|t| matches!(serde_yaml::from_str(t), Ok(RouterMsg::Pong)))
            .count();
        let proxy = mine(self.ask(&message(6, 0, peer(9), us)).await, "WebProxy").iter().filter(|t| t.contains("Error")).count();
        let realms: Vec<RealmID> = mine(self.ask(&message(14, 0, peer(9), us)).await, "DHTStorage")
            .iter()
            .filter_map(|t| match serde_yaml::from_str(t) {
                Ok(MessageNeighbour::AvailableRealmIDs(l)) => Some(l),
                _ => None,
            })
            .next()
            .unwrap_or(vec![]);
        let mut flos = vec![];
        for rid in &world().realms {
            let ask = neighbour(MessageNeighbour::RequestFlos(rid.clone(), world().flos.iter().map(|f| f.flo_id()).collect()));
            for t in mine(self.ask(&ask).await, "DHTStorage") {
                if let Ok(MessageNeighbour::Flos(l)) = serde_yaml::from_str(&t) {
                    flos.extend(l.iter().map(|f| world().flos.iter().position(|g| f.0.flo_id() == g.flo_id()).unwrap_or(98) + 1));
                }
            }
        }
        self.net(NetworkOut::Disconnected(peer(9))).await;
        json!({"own": own, "chats": chats, "shown": shown, "pong": pong, "proxy": proxy, "flos": flos,
            "realms": realms.iter().map(|r| pos(&world().realms, r)).filter(|r| *r > 0).collect::<Vec<_>>()})
    }
}

/// The real message; (level, kind, place) says how it is spoiled. Level 3 and 4: the names of the modules.
fn wrap(m: &Msg, mutation: Option<(usize, usize, usize)>) -> NetworkWrapper {
    let (l, k, p) = mutation.unwrap_or((0, 0, 0));
    let name = |n: &str| match k {
        1 => "".to_string(),
        2 => n.to_lowercase(),
        3 => "Nothing".into(),
        4 => format!("{n} "),
        _ => "é".repeat(1000),
    };
    let inner = if l == 2 || (l == 1 && m.around.is_none()) { spoil(&m.inner, k, p) } else { serde_yaml::to_string(&m.inner).unwrap() };
    let msg = match &m.around {
        None => inner,
        Some(a) => {
            let w = NetworkWrapper { module: if l == 4 { name(m.module) } else { m.module.into() }, msg: inner };
            let v = replace(a, &y(&w));
            if l == 1 {
                spoil(&v, k, p)
            } else {
                serde_yaml::to_string(&v).unwrap()
            }
        }
    };
    NetworkWrapper { module: if l == 3 || (l == 4 && m.around.is_none()) { name(m.outer) } else { m.outer.into() }, msg }
}

/// (to, module, text) of something sent by the node.
fn answer(m: NetworkIn) -> Option<(NodeID, String, String)> {
    let NetworkIn::MessageToNode(to, w) = m else { return None };
    let inner = |w: NetworkWrapper| Some((to, w.module, w.msg));
    if let Some(RandomMsg::Module(w)) = w.unwrap_yaml(RANDOM) {
        return inner(w);
    }
    match w.unwrap_yaml("DHTRouter") {
        Some(RouterMsg::Neighbour(w)) => inner(w),
        _ => inner(w),
    }
}

fn one(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let mut run = Run::start(NodeConfig::new(), MemStorage::default()).await;
        let us_id = run.cfg.info.get_id();
        rec.cfg(json!({"n": world().flos.len()}));
        let first = run.probe().await;
        rec.step(json!({"op": "first", "probe": first}));
        for op in arr(&b["ops"]) {
            let mut step = op.clone();
            match op["op"].as_str().unwrap() {
                "send" => {
                    let from = peer(us(&op["from"]));
                    let mut m = message(us(&op["t"]), us(&op["n"]) - 1, from, us_id);
                    let (l, k, p) = (us(&op["lvl"]), us(&op["kind"]), us(&op["pos"]));
                    let w = wrap(&m, (l > 0).then_some((l, k, p)));
                    step["same"] = json!(w == wrap(&m, None));
                    run.net(NetworkOut::Connected(from)).await;
                    let before = run.ds.kvs.lock().unwrap().clone();
                    let out = run.net(NetworkOut::MessageFromNode(from, w.clone())).await;
                    step["changed"] = json!(before != *run.ds.kvs.lock().unwrap());
                    m.around = None;
                    let text = w.msg;
                    // Passed on: the router doesn't look into the messages it only transports.
                    let fwd = |o: &NetworkIn| match o {
                        NetworkIn::MessageToNode(_, w) if w.module == "DHTRouter" => {
                            match (serde_yaml::from_str(&text), serde_yaml::from_str(&w.msg)) {
                                (Ok(RouterMsg::Closest(_, _, a)), Ok(RouterMsg::Closest(_, _, b))) => a == b,
                                (Ok(RouterMsg::Direct(_, _, a)), Ok(RouterMsg::Direct(_, _, b))) => a == b,
                                _ => false,
                            }
                        }
                        _ => false,
                    };
                    step["fwd"] = json!(out.iter().filter(|o| fwd(o)).count());
                    step["outs"] = json!(out.iter().filter(|o| !fwd(o)).count());
                    if std::env::var("SHOW_OUT").is_ok() {
                        step["text"] = json!(text);
                        step["out"] = json!(format!("{out:?}"));
                    }
                    for o in out {
                        if let NetworkIn::Disconnect(id) = o {
                            run.net(NetworkOut::Disconnected(id)).await;
                        }
                    }
                }
                "put" => {
                    let flo = world().flos[us(&op["n"]) - 1].clone();
                    run.node.dht_storage.as_mut().unwrap().broker.emit_msg_in(DHTStorageIn::StoreFlo(flo)).unwrap();
                    quiesce().await;
                }
                "say" => {
                    run.node.gossip.as_mut().unwrap().add_event(chat(us(&op["n"]), peer(1))).await.unwrap();
                    quiesce().await;
                }
                "tick" => {
                    for i in 0..us(&op["n"]) {
                        run.timer.emit_msg_out(TimerMessage::Second).unwrap();
                        if i % 60 == 59 {
                            run.timer.emit_msg_out(TimerMessage::Minute).unwrap();
                        }
                        quiesce().await;
                    }
                }
                "leave" => {
                    run.net(NetworkOut::Disconnected(peer(us(&op["from"])))).await;
                }
                "restart" => run = Run::start(run.cfg.clone(), run.ds.snapshot()).await,
                o => panic!("unknown op {o}"),
            }
            step["probe"] = run.probe().await;
            rec.step(step);
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    world();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), one);
}
