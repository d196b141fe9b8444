//! A signalling server whose websocket connections are simulated.
use fl_harness::*;
use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
    web_rtc::{
        messages::{PeerInfo, PeerMessage},
        websocket::{BrokerWSServer, WSServerIn, WSServerOut},
    },
};
use flmodules::{
    network::signal::{
        FledgerConfig, MessageAnnounce, NodeStat, SignalConfig, SignalIn, SignalOut, SignalServer, WSSignalMessageFromNode, WSSignalMessageToNode, SIGNAL_VERSION,
    },
    nodeconfig::NodeConfig,
};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::time::Duration;

fn peer_message(r: usize, m: usize) -> PeerMessage {
    let s = format!("{m} v=0 'x' \"\n");
    match r {
        1 => PeerMessage::Init,
        2 => PeerMessage::Offer(s),
        3 => PeerMessage::Answer(s),
        _ => PeerMessage::IceCandidate(s),
    }
}

fn one(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let shape = &b["shape"];
        let n = us(&shape["n"]);
        let nodes: Vec<NodeConfig> = (0..n).map(|_| NodeConfig::new()).collect();
        let ids: Vec<NodeID> = nodes.iter().map(|c| c.info.get_id()).collect();
        let stranger = U256::rnd();
        let id = |v: &Value| if us(v) == 0 { stranger } else { ids[us(v) - 1] };
        let no = |i: &NodeID| pos(&ids, i);
        let realm = U256::rnd();
        let config = SignalConfig {
            ttl_minutes: us(&shape["ttl"]) as u16,
            system_realm: Some(realm.into()),
            max_list_len: (us(&shape["max"]) > 0).then(|| us(&shape["max"])),
        };
        let mut ws: BrokerWSServer = Broker::new();
        let mut sig = SignalServer::start(ws.clone(), config).await.unwrap();
        let mut tap = sig.get_tap_out().await.unwrap().0;
        let mut ws_tap = ws.get_tap_in().await.unwrap().0;
        quiesce().await;
        rec.cfg(shape.clone());
        let mut challenges: HashMap<usize, U256> = HashMap::new();
        for (i, op) in arr(&b["ops"]).iter().enumerate() {
            let m = i + 1;
            let c = op.get("c").map(us).unwrap_or(0);
            let stats = vec![NodeStat { id: stranger, version: format!("{m}"), ping_ms: 1, ping_rx: 2 }];
            let mut say = |x: WSSignalMessageFromNode| ws.emit_msg_out(WSServerOut::Message(c, serde_json::to_string(&x).unwrap())).unwrap();
            match op["op"].as_str().unwrap() {
                "new" => ws.emit_msg_out(WSServerOut::NewConnection(c)).unwrap(),
                "bye" => ws.emit_msg_out(WSServerOut::Disconnection(c)).unwrap(),
                "tick" => sig.emit_msg_in(SignalIn::Timer).unwrap(),
                "ann" => {
                    let g = us(&op["g"]);
                    let signed = challenges.get(&g).cloned().unwrap_or(stranger);
                    let mut signature = nodes[us(&op["s"]) - 1].sign(signed.to_bytes());
                    let mut node_info = nodes[us(&op["n"]) - 1].info.clone();
                    match us(&op["mal"]) {
                        1 => node_info.pubkey.truncate(5),
                        2 => signature.push(1),
                        3 => signature.clear(),
                        4 => signature[m % 64] ^= 1 << (m % 8),
                        _ => {}
                    }
                    say(WSSignalMessageFromNode::Announce(MessageAnnounce { version: SIGNAL_VERSION, challenge: signed, node_info, signature }))
                }
                "list" => say(WSSignalMessageFromNode::ListIDsRequest),
                "setup" => say(WSSignalMessageFromNode::PeerSetup(PeerInfo {
                    id_init: id(&op["i"]),
                    id_follow: id(&op["j"]),
                    message: peer_message(us(&op["r"]), m),
                })),
                "stats" => say(WSSignalMessageFromNode::NodeStats(stats.clone())),
                "junk" => {
                    let s = ["", "{\"Announce\":{}}", "[]", "\"ListIDs\""][us(&op["r"]) - 1];
                    ws.emit_msg_out(WSServerOut::Message(c, s.into())).unwrap()
                }
                o => panic!("unknown op {o}"),
            }
            quiesce().await;
            let mut outs: Vec<Value> = drain(&mut tap)
                .into_iter()
                .filter_map(|o| match o {
                    SignalOut::NewNode(i) => Some(json!({"k": "new", "n": no(&i)})),
                    SignalOut::NodeStats(s) => Some(json!({"k": "stats", "m": if s == stats {m} else {0}})),
                    SignalOut::WSServer(_) => None,
                    SignalOut::Stopped => Some(json!({"k": "other"})),
                })
                .collect();
            outs.extend(drain(&mut ws_tap).into_iter().map(|o| match o {
                WSServerIn::Message(c, s) => match serde_json::from_str::<WSSignalMessageToNode>(&s) {
                    Ok(WSSignalMessageToNode::Challenge(v, ch)) => {
                        let fresh = v == SIGNAL_VERSION && !challenges.values().any(|x| x == &ch) && ch != U256::zero();
                        challenges.insert(c, ch);
                        json!({"k": "challenge", "c": c, "fresh": fresh})
                    }
                    Ok(WSSignalMessageToNode::ListIDsReply(l)) => json!({"k": "list", "c": c, "l": l.iter().map(|i| no(&i.get_id())).collect::<Vec<_>>()}),
                    Ok(WSSignalMessageToNode::PeerSetup(pi)) => {
                        let r = (1..=4).find(|r| pi.message == peer_message(*r, m)).unwrap_or(0);
                        json!({"k": "setup", "c": c, "i": no(&pi.id_init), "j": no(&pi.id_follow), "r": r, "m": if r > 0 {m} else {0}})
                    }
                    Ok(WSSignalMessageToNode::SystemConfig(f)) => json!({"k": "config", "c": c, "ok": f == FledgerConfig { system_realm: Some(realm.into()) }}),
                    Ok(WSSignalMessageToNode::Error(_)) => json!({"k": "error", "c": c}),
                    Err(_) => json!({"k": "other"}),
                },
                WSServerIn::Close(c) => json!({"k": "close", "c": c}),
                WSServerIn::Stop => json!({"k": "other"}),
            }));
            let mut step = op.clone();
            step["m"] = json!(m);
            step["outs"] = json!(outs);
            rec.step(step);
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), one);
}
