//! A node's configuration in all formats, and nodes started on it again and again.
use ed25519_compact::{KeyPair, Seed};
use fl_harness::*;
use flarch::{
    data_storage::DataStorage,
    broker::Broker,
    nodeids::U256,
};
use flmodules::{
    flo::{flo::FloID, storage::CryptoStorage},
    gossip_events::{
        broker::GossipIn,
        core::{Category, Event, EventsStorage},
    },
    nodeconfig::{NodeConfig, NodeInfo},
    network::broker::NetworkOut,
    timer::{Timer, TimerMessage},
    Modules,
};
use flcrypto::signer::{Signer, SignerTrait, Verifier, VerifierTrait};
use flnode::node::Node;
use serde_json::{json, Value};
use std::{str::FromStr, time::Duration};

fn names() -> Vec<String> {
    let mut n: Vec<String> = [
        "", "node", "null", "~", "true", "no", "12", "1e3", "0x1f", ".inf", "- a", "a: b", "#c", "a #c", "'q'", "\"q\"", "{a}", "[a, b]", "&x", "*x", "!NodeInfoV1",
        "two\nlines", "end\n", "\n\n start", " sp ", "tab\tx", "é😀漢", "---", "...",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    n.push("long ".repeat(60));
    n
}

fn key(i: usize) -> KeyPair {
    let mut s = [7u8; 32];
    s[0] = i as u8;
    KeyPair::from_seed(Seed::from_slice(&s).unwrap())
}

fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3)
        .map(|c| {
            let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
            (0..4).map(|i| if i <= c.len() { T[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' }).collect::<String>()
        })
        .collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

struct Ctx {
    keys: Vec<(usize, Vec<u8>)>,
    names: Vec<String>,
}
impl Ctx {
    fn new() -> Self {
        Self { keys: [1, 2, 3, 4, 11, 12, 13].iter().map(|k| (*k, key(*k).pk.to_vec())).collect(), names: names() }
    }
    fn key_of(&mut self, pk: &[u8]) -> usize {
        if let Some((i, _)) = self.keys.iter().find(|(_, k)| k == pk) {
            return *i;
        }
        let i = 100 + self.keys.len();
        self.keys.push((i, pk.to_vec()));
        i
    }
    fn name_of(&mut self, n: &str) -> usize {
        if !self.names.iter().any(|x| x == n) {
            self.names.push(n.into());
        }
        self.names.iter().position(|x| x == n).unwrap() + 1
    }
    fn name(&self, i: &Value) -> String {
        self.names[us(i) - 1].clone()
    }
    fn id(&self, k: usize) -> U256 {
        let pk = self.keys.iter().find(|(i, _)| *i == k).map(|(_, k)| k.clone()).unwrap_or(vec![k as u8; 32]);
        U256::from(<[u8; 32]>::try_from(pk).unwrap())
    }
    fn info(&self, o: &Value) -> NodeInfo {
        let mut i = NodeInfo::new(key(us(&o["key"])).pk);
        i.name = self.name(&o["name"]);
        if let Some(c) = o.get("client") {
            i.client = client(us(c));
        }
        if let Some(m) = o.get("mods") {
            i.modules = Modules::from_bits(uss(m).iter().map(|b| 1u32 << b).sum()).unwrap();
        }
        i
    }
    /// What was read, in terms of the model.
    fn seen(&mut self, i: &NodeInfo, keypair: Option<&[u8]>) -> Value {
        let pk = i.pubkey.clone();
        let idok = i.get_id().to_bytes().to_vec() == pk && keypair.map(|k| k.len() == 64 && k[32..] == pk[..]).unwrap_or(true);
        json!({"key": self.key_of(&pk), "name": self.name_of(&i.name), "client": if i.client == "libc" {1} else {self.name_of(&i.client)},
            "mods": (0..32).filter(|b| i.modules.bits() >> b & 1 == 1).collect::<Vec<_>>(), "idok": idok})
    }
}
fn client(c: usize) -> String {
    if c == 1 {
        "libc".into()
    } else {
        names()[c - 1].clone()
    }
}

/// The second version of an info; the first version of a configuration uses it.
fn info2(i: &NodeInfo, nomod: bool) -> Value {
    let m = ["ENABLE_STAT", "ENABLE_RAND", "ENABLE_GOSSIP", "ENABLE_PING", "ENABLE_WEBPROXY", "ENABLE_WEBPROXY_REQUESTS"];
    let m: Vec<&str> = m.iter().enumerate().filter(|(b, _)| i.modules.bits() >> b & 1 == 1).map(|(_, s)| *s).collect();
    let mut v = json!({"name": i.name, "client": i.client, "pubkey": b64(&i.pubkey)});
    if !nomod {
        v["modules"] = json!(m.join(" | "));
    }
    v
}
fn info_text(i: &NodeInfo, fmt: &str) -> String {
    match fmt {
        "cur" => i.encode(),
        "json" => serde_json::to_string(i).unwrap(),
        f => serde_yaml::to_string(&json!({"NodeInfoV2": info2(i, f == "v2nomod")})).unwrap(),
    }
}
fn config_text(i: NodeInfo, kp: &[u8], fmt: &str) -> String {
    match fmt {
        "cur" => NodeConfig { info: i, keypair: kp.to_vec() }.encode(),
        "json" => serde_json::to_string(&NodeConfig { info: i, keypair: kp.to_vec() }).unwrap(),
        "info2" => serde_yaml::to_string(&json!({"NodeConfigV2": {"info": {"NodeInfoV2": info2(&i, false)}, "keypair": hex(kp)}})).unwrap(),
        f => serde_yaml::to_string(&json!({"NodeConfigV1": {"info": info2(&i, f == "v1nomod"), "keypair": b64(kp)}})).unwrap(),
    }
}
/// No info at all.
fn bad_info(r: usize) -> String {
    let good = NodeInfo::new(key(1).pk).encode();
    match r {
        1 => "NodeInfoV1: {}".into(),
        2 => "{\"NodeInfoV1\":{}}".into(),
        3 => "".into(),
        4 => good[..good.len() / 2].to_string(),
        5 => "NodeInfoV4: {}".into(),
        6 => good.replace("pubkey: ", "pubkey: zz"),
        7 => "NodeInfoV1:\n  name: old\n  id: 12\n".into(),
        _ => "\u{1}\u{2}: [".into(),
    }
}
fn bad_config(r: usize) -> Option<String> {
    let good = NodeConfig::new().encode();
    Some(match r {
        1 => return None,
        2 => "".into(),
        3 => good[..good.len() / 2].to_string(),
        4 => serde_yaml::to_string(&json!({"NodeConfigV2": {"info": {"NodeInfoV1": {}}, "keypair": "00"}})).unwrap(),
        5 => "keypair: 1234".into(),
        6 => good.replace("NodeConfigV2", "NodeConfigV99"),
        8 => "\u{1}: [".into(),
        _ => format!("{good}{good}"),
    })
}
fn odd_info(len: usize, r: usize) -> String {
    let good = NodeInfo::new(key(1).pk).encode();
    let pk: Vec<u8> = (0..len).map(|i| (r + i * 37) as u8).collect();
    good.replace(&hex(&key(1).pk[..]), &if len == 0 { "\"\"".to_string() } else { format!("\"{}\"", hex(&pk)) })
}

fn parse_id(s: &str) -> Option<U256> {
    let a = U256::from_str(s).ok();
    let b = FloID::from_str(s).ok().map(|f| *f);
    assert_eq!(a, b, "different kinds of IDs");
    a
}
fn id(r: usize) -> &'static str {
    let x = U256::rnd();
    let full = format!("{x:x}");
    let same = |s: &str| if parse_id(s) == Some(x) { "same" } else { "other" };
    let refused = |s: &str| if parse_id(s).is_none() { "refused" } else { "accepted" };
    let short = |n: usize| {
        let mut b = [0u8; 32];
        b[..n].copy_from_slice(&x.to_bytes()[..n]);
        if parse_id(&full[..2 * n]) == Some(U256::from(b)) {
            "same"
        } else {
            "other"
        }
    };
    match r {
        1 => same(&full),
        2 => same(&full.to_uppercase()),
        3 => short(5),
        4 => short(0),
        5 => {
            let y: Option<U256> = serde_json::from_str(&serde_json::to_string(&x).unwrap()).ok();
            let z: Option<U256> = rmp_serde::to_vec(&x).ok().and_then(|v| rmp_serde::from_slice(&v).ok());
            if y == Some(x) && z == Some(x) && U256::from(x.to_bytes()) == x {
                "same"
            } else {
                "other"
            }
        }
        6 => refused(&full[..7]),
        7 => refused(&format!("{}g0", &full[..10])),
        8 => refused(&format!("{full}00")),
        9 => refused("+1"),
        10 => refused("é"),
        11 => refused("aé"),
        12 => refused(" 1"),
        13 => refused("0x12"),
        _ => refused(&format!("{}-", &full[..63])),
    }
}

/// The stored events as an earlier version stored them, or spoiled.
fn older(storage: &MemStorage, g: usize) {
    let mut st = storage.clone_box();
    let text = st.get("Gossip").unwrap();
    if text.is_empty() || g == 0 {
        return;
    }
    let (get, put) = (|v: &Value, k: &str| v.get(k).cloned().unwrap(), |m: Value| m);
    // it may be an earlier one already
    let mut events = EventsStorage::default();
    if events.set(&text).is_err() {
        return;
    }
    let cur: Value = serde_yaml::from_str(&events.get().unwrap()).unwrap();
    let mut cats = vec![];
    for (cat, evs) in get(&get(&cur, "V4"), "storage").as_object().unwrap() {
        let events: Vec<(String, Value)> = evs["events"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        cats.push((cat.clone(), put(evs["config"].clone()), events));
    }
    let bytes = |h: &str| (0..32).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
    let ym = |v: Vec<(serde_yaml::Value, serde_yaml::Value)>| serde_yaml::Value::Mapping(v.into_iter().collect());
    let ys = |s: &str| serde_yaml::Value::String(s.into());
    let y = |v: &Value| serde_yaml::to_value(v).unwrap();
    let storage_map = ym(cats
        .iter()
        .filter(|(cat, _, _)| !(g == 5 && cat == "TextMessage" || g == 6 && cat == "NodeInfo"))
        .map(|(cat, config, events)| {
            let evs = ym(events
                .iter()
                .enumerate()
                .map(|(n, (id, e))| {
                    let created = e["created"].as_i64().unwrap();
                    let (src, at) = match g {
                        1 | 2 => (y(&json!(bytes(e["src"].as_str().unwrap()))), y(&json!(created))),
                        3 => (y(&e["src"]), serde_yaml::to_value(created as f64).unwrap()),
                        _ => (y(&e["src"]), y(&json!(created))),
                    };
                    // in the second and the third version the events went by other IDs
                    let key = match g {
                        1 | 2 => y(&json!(bytes(id))),
                        3 | 4 => ys(&format!("{:x}", U256::hash_data(&[n as u8, 9]))),
                        _ => ys(id),
                    };
                    (key, ym(vec![(ys("category"), y(&e["category"])), (ys("src"), src), (ys("created"), at), (ys("msg"), y(&e["msg"]))]))
                })
                .collect());
            (ys(cat), ym(vec![(ys("config"), y(config)), (ys("events"), evs)]))
        })
        .collect());
    let body = ym(vec![(ys("storage"), storage_map)]);
    let out = match g {
        1 => serde_yaml::to_string(&body).unwrap(),
        2..=4 => serde_yaml::to_string(&ym(vec![(ys(&format!("V{}", g - 1)), body)])).unwrap(),
        // of a version which did not have one of the categories yet
        5 | 6 => serde_yaml::to_string(&ym(vec![(ys("V4"), body)])).unwrap(),
        7 => events.get().unwrap().replacen("V4:", "V44:", 1),
        8 => "\u{1}: [".into(),
        _ => return st.remove("Gossip").unwrap(),
    };
    st.set("Gossip", &out).unwrap();
}

async fn sees(node: &mut Option<Node>, c: &mut Ctx) -> Value {
    quiesce().await;
    // which nodes are there is only told once in a while
    if let Some(n) = node {
        n.timer.emit_msg_out(TimerMessage::Second).unwrap();
        quiesce().await;
    }
    let (mut up, mut ids, mut infos, mut ats, mut chat) = (false, true, vec![], vec![], vec![]);
    if let Some(n) = node {
        up = n.gossip.is_some();
        assert_eq!(n.nodes_info_all().is_ok(), up);
        if let Some(g) = &n.gossip {
            // every event under its own ID
            let all: Vec<Event> = [Category::NodeInfo, Category::TextMessage].into_iter().flat_map(|c| g.events(c)).collect();
            ids = g.event_ids().len() == all.len() && all.iter().all(|e| g.event_ids().contains(&e.get_id()) && g.event(&e.get_id()).as_ref() == Some(e));
            for e in g.events(Category::NodeInfo) {
                let k = c.key_of(&e.src.to_bytes());
                if (11..=13).contains(&k) {
                    ats.push(json!({"key": k, "at": e.created}));
                }
            }
        }
        for (id, i) in n.nodes_info_all().unwrap_or_default() {
            if id == i.get_id() && i.pubkey.len() == 32 {
                infos.push(json!({"key": c.key_of(&i.pubkey), "name": c.name_of(&i.name)}));
            } else if id != i.get_id() {
                infos.push(json!({"key": 0, "name": 0}));
            }
        }
        if let Some(g) = &n.gossip {
            for e in g.chat_events() {
                let v = e.msg.split(':').next().unwrap().parse::<usize>().unwrap_or(0);
                let n = e.msg.split_once(':').map(|x| x.1).unwrap_or("");
                chat.push(json!({"v": v, "key": c.key_of(&e.src.to_bytes()), "name": c.name_of(n)}));
            }
        }
    }
    let (mut rand, mut lists) = (false, [vec![], vec![]]);
    if let Some(n) = node {
        rand = n.random.is_some();
        let on = [n.nodes_online(), n.nodes_connected()];
        for (l, r) in lists.iter_mut().zip(on) {
            assert_eq!(r.is_ok(), up);
            *l = r.unwrap_or_default().iter().map(|i| json!({"key": c.key_of(&i.pubkey), "name": c.name_of(&i.name)})).collect();
        }
    }
    let [online, connected] = lists;
    json!({"up": up, "ids": ids, "infos": infos, "ats": ats, "chat": chat, "rand": rand, "online": online, "connected": connected})
}

fn one(b: &Value, rec: &Rec) {
    rec.cfg(json!({}));
    let rt = rt();
    rt.block_on(async {
        let storage = MemStorage::default();
        let mut c = Ctx::new();
        let mut node: Option<Node> = None;
        let mut signers: Vec<(Verifier, Signer)> = vec![];
        let t0 = flarch::tasks::now();
        for (j, op) in arr(&b["ops"]).iter().enumerate() {
            let v = j + 1;
            let mut step = op.clone();
            let r = op.get("r").map(us).unwrap_or(0);
            match op["op"].as_str().unwrap() {
                "write" => {
                    let kp = key(us(&op["key"]));
                    Node::set_config(storage.clone_box(), &config_text(c.info(op), &kp[..], op["fmt"].as_str().unwrap())).unwrap();
                }
                "spoil" => match bad_config(r) {
                    Some(s) => Node::set_config(storage.clone_box(), &s).unwrap(),
                    None => storage.clone_box().remove("nodeConfig").unwrap(),
                },
                "get" => {
                    let cfg = Node::get_config(storage.clone_box()).unwrap();
                    step["got"] = c.seen(&cfg.info, Some(&cfg.keypair));
                }
                "rename" => {
                    let mut cfg = Node::get_config(storage.clone_box()).unwrap();
                    step["got"] = c.seen(&cfg.info, Some(&cfg.keypair));
                    cfg.info.name = c.name(&op["name"]);
                    Node::set_config(storage.clone_box(), &cfg.encode()).unwrap();
                }
                "sign" => {
                    let (a, b) = (us(&op["a"]), us(&op["b"]));
                    let cfg = |k: usize| NodeConfig::decode(&config_text(NodeInfo::new(key(k).pk), &key(k)[..], ["cur", "v1", "info2"][(v + k) % 3]));
                    let (from, to) = (cfg(a), cfg(b));
                    let mut hash = U256::hash_data(&[r as u8]).to_bytes();
                    let mut sig = from.sign(hash);
                    match us(&op["t"]) {
                        1 => {
                            let n = r % sig.len();
                            sig[n] ^= 1 << (r % 8);
                        }
                        2 => sig.truncate(r % 64),
                        3 => hash[r % 32] ^= 1 << (r % 8),
                        4 => sig.push(0),
                        _ => {}
                    }
                    step["ok"] = json!(to.info.verify(&hash, &sig));
                }
                "info" => {
                    let i = c.info(op);
                    let i = match op["fmt"].as_str().unwrap() {
                        "rmp" => rmp_serde::from_slice(&rmp_serde::to_vec(&i).unwrap()).unwrap(),
                        f => NodeInfo::decode(&info_text(&i, f)).unwrap(),
                    };
                    step["got"] = c.seen(&i, None);
                }
                "badinfo" => step["ok"] = json!(NodeInfo::decode(&bad_info(r)).is_ok()),
                "odd" => {
                    let (a, b) = (NodeInfo::decode(&odd_info(us(&op["len"]), r)), NodeInfo::decode(&odd_info(us(&op["len"]), r)));
                    step["ok"] = json!(a.is_ok());
                    if let (Ok(a), Ok(b)) = (a, b) {
                        let others = [odd_info((us(&op["len"]) + 1) % 65, r), odd_info(us(&op["len"]) / 2 + 66, r)];
                        let all: Vec<U256> = others.iter().filter_map(|o| NodeInfo::decode(o).ok().map(|i| i.get_id())).chain([1, 2, 3, 4, 11, 12, 13].iter().map(|k| c.id(*k))).collect();
                        let hash = U256::hash_data(&[r as u8]).to_bytes();
                        let cfg = NodeConfig { info: a.clone(), keypair: key(1).to_vec() };
                        step["same"] = json!(a.get_id() == b.get_id() && a == b && a.get_id() == a.clone().get_id());
                        step["diff"] = json!(!all.contains(&a.get_id()));
                        step["ver"] = json!(a.verify(&hash, &cfg.sign(hash)));
                    }
                }
                "id" => step["res"] = json!(id(r)),
                "start" => {
                    std::thread::sleep(Duration::from_millis(2));
                    let cfg = Node::get_config(storage.clone_box()).unwrap();
                    step["got"] = c.seen(&cfg.info, Some(&cfg.keypair));
                    drop(node.take());
                    quiesce().await;
                    older(&storage, us(&op["g"]));
                    step["at"] = json!(flarch::tasks::now() - t0);
                    let n = Node::start(storage.clone_box(), cfg, Broker::new(), Timer::simul().broker).await.unwrap();
                    let parts = [
                        ("random", n.random.is_some()),
                        ("gossip", n.gossip.is_some()),
                        ("webproxy", n.webproxy.is_some()),
                        ("stat", n.stat.is_some()),
                        ("router", n.dht_router.is_some()),
                        ("storage", n.dht_storage.is_some()),
                    ];
                    step["parts"] = parts.iter().filter(|(_, p)| *p).map(|(n, _)| json!(n)).collect();
                    node = Some(n);
                    step["sees"] = sees(&mut node, &mut c).await;
                }
                "hear" | "hearbad" => {
                    let bad = op["op"] == "hearbad";
                    let at = 10 * v as i64 + 7 * op.get("dt").and_then(|d| d.as_i64()).unwrap_or(0);
                    if let Some(g) = node.as_mut().and_then(|n| n.gossip.as_mut()) {
                        // malformed ones come from nodes which are nobody
                        let (src, msg) = match bad {
                            true => (U256::hash_data(&[v as u8]), if r <= 5 { bad_info(r) } else { odd_info(us(&op["len"]), r) }),
                            false => (c.id(us(&op["key"])), info_text(&c.info(op), ["cur", "v2", "json"][v % 3])),
                        };
                        g.broker.emit_msg_in(GossipIn::AddEvent(Event { category: Category::NodeInfo, src, created: at, msg })).unwrap();
                    }
                    step["at"] = json!(at);
                    step["sees"] = sees(&mut node, &mut c).await;
                }
                "say" => {
                    step["ok"] = match node.as_mut() {
                        Some(n) => json!(n.add_chat_message(format!("{v}:{}", c.name(&op["name"]))).await.is_ok()),
                        None => json!(false),
                    };
                    step["sees"] = sees(&mut node, &mut c).await;
                }
                "list" => {
                    if let Some(n) = node.as_mut() {
                        let l = uss(&op["keys"]).iter().map(|k| NodeInfo::new(key(*k).pk)).collect();
                        n.broker_net.emit_msg_out(NetworkOut::NodeListFromWS(l)).unwrap();
                    }
                    step["sees"] = sees(&mut node, &mut c).await;
                }
                "link" => {
                    if let Some(n) = node.as_mut() {
                        let id = c.id(us(&op["key"]));
                        n.broker_net.emit_msg_out(if us(&op["up"]) == 1 { NetworkOut::Connected(id) } else { NetworkOut::Disconnected(id) }).unwrap();
                    }
                    step["sees"] = sees(&mut node, &mut c).await;
                }
                "infos" => {
                    let keys: Vec<usize> = uss(&op["keys"]);
                    let ids = keys.iter().map(|k| c.id(*k)).collect();
                    match node.as_ref().map(|n| n.nodes_info(ids)) {
                        Some(Ok(l)) => {
                            step["ok"] = json!(true);
                            step["infos"] = l.iter().map(|i| json!({"key": c.key_of(&i.pubkey), "name": c.name_of(&i.name)})).collect();
                        }
                        _ => step["ok"] = json!(false),
                    }
                }
                "signer" => {
                    if us(&op["spoil"]) > 0 {
                        let mut st = storage.clone_box();
                        match us(&op["spoil"]) {
                            1 => st.remove("CryptoStorage").unwrap(),
                            2 => st.set("CryptoStorage", "").unwrap(),
                            _ => {}
                        }
                    }
                    // the one of the running node, or another one
                    let mut own = CryptoStorage::new(storage.clone_box());
                    let running = us(&op["who"]) == 1 && node.is_some();
                    let cs = match node.as_mut() {
                        Some(n) if us(&op["who"]) == 1 => &mut n.crypto_storage,
                        _ => &mut own,
                    };
                    step["who"] = json!(if running { 1 } else { 0 });
                    let got = if op["act"] == "add" { cs.add_signer() } else { cs.get_signer() };
                    let mut which = |s: &Signer| match signers.iter().position(|(v, _)| v.get_id() == s.get_id()) {
                        Some(i) => i + 1,
                        None => {
                            signers.push((s.verifier(), s.clone()));
                            signers.len()
                        }
                    };
                    let list: Vec<usize> = cs.signers.iter().map(|s| which(s)).collect();
                    let g = which(&got);
                    step["list"] = json!(list);
                    step["got"] = json!(g);
                    // it signs as it always did
                    let msg = bytes::Bytes::from(vec![v as u8; v]);
                    let sig = got.sign(&msg).unwrap();
                    step["signs"] = signers.iter().enumerate().filter(|(_, (v, _))| v.verify(&msg, &sig).is_ok()).map(|(i, _)| json!(i + 1)).collect();
                    let stored = CryptoStorage::new(storage.clone_box());
                    step["stored"] = stored.signers.iter().map(|s| json!(signers.iter().position(|(v, _)| v.get_id() == s.get_id()).map(|i| i + 1).unwrap_or(0))).collect();
                }
                o => panic!("unknown op {o}"),
            }
            rec.step(step);
        }
    });
    rt.shutdown_background();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(120), one);
}
