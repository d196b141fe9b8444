//! The network layer of one node; the connections below it and the signalling server are simulated.
use fl_harness::*;
use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
    web_rtc::{
        messages::{ConnectionStateMap, PeerInfo, PeerMessage},
        node_connection::{Direction, NCInput, NCOutput},
        websocket::{BrokerWSClient, WSClientIn, WSClientOut},
        BrokerWebRTCConn, WebRTCConnIn, WebRTCConnOut,
    },
};
use flmodules::{
    network::{
        broker::{BrokerNetwork, Network, NetworkIn, NetworkOut},
        signal::{FledgerConfig, NodeStat, WSSignalMessageFromNode, WSSignalMessageToNode, SIGNAL_VERSION},
    },
    nodeconfig::{NodeConfig, NodeInfo},
    router::messages::NetworkWrapper,
    timer::{Timer, TimerMessage},
};
use serde_json::{json, Value};
use std::time::Duration;
use tokio::sync::mpsc::UnboundedReceiver;

fn payload(m: usize) -> NetworkWrapper {
    NetworkWrapper { module: ["Upper", "Network", ""][m % 3].into(), msg: format!("{m}: 'é' \"\n- {{}} #\n\n") }
}
fn unpay(w: &NetworkWrapper) -> usize {
    let m = w.msg.split(':').next().and_then(|s| s.parse().ok()).unwrap_or(0);
    if &payload(m) == w {
        m
    } else {
        0
    }
}
fn peer_message(r: usize, m: usize) -> PeerMessage {
    let s = format!("{m} v=0 'x' \"\n");
    match r {
        1 => PeerMessage::Init,
        2 => PeerMessage::Offer(s),
        3 => PeerMessage::Answer(s),
        _ => PeerMessage::IceCandidate(s),
    }
}
fn un_peer_message(p: &PeerMessage, m: usize) -> (usize, usize) {
    for r in 1..=4 {
        if p == &peer_message(r, m) {
            return (r, m);
        }
    }
    (0, 0)
}

struct Node {
    cfg: NodeConfig,
    net: BrokerNetwork,
    ws: BrokerWSClient,
    rtc: BrokerWebRTCConn,
    timer: Timer,
    net_tap: UnboundedReceiver<NetworkOut>,
    ws_tap: UnboundedReceiver<WSClientIn>,
    rtc_tap: UnboundedReceiver<WebRTCConnIn>,
    connections: tokio::sync::watch::Receiver<Vec<NodeID>>,
}
impl Node {
    async fn new() -> Node {
        let cfg = NodeConfig::new();
        let mut ws: BrokerWSClient = Broker::new();
        let mut rtc: BrokerWebRTCConn = Broker::new();
        let mut timer = Timer::simul();
        let Network { broker: mut net, connections } = Network::start(cfg.clone(), ws.clone(), rtc.clone(), &mut timer).await.unwrap();
        let net_tap = net.get_tap_out().await.unwrap().0;
        let ws_tap = ws.get_tap_in().await.unwrap().0;
        let rtc_tap = rtc.get_tap_in().await.unwrap().0;
        quiesce().await;
        Node { cfg, net, ws, rtc, timer, net_tap, ws_tap, rtc_tap, connections }
    }
}

fn one(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let n = us(&b["n"]);
        let mut me = Node::new().await;
        let mut peer = Node::new().await;
        let own = me.cfg.info.get_id();
        let mut ids: Vec<NodeID> = vec![own];
        ids.extend((1..n).map(|_| U256::rnd()));
        let p = |i: &NodeID| pos(&ids, i);
        rec.cfg(json!({"n": n}));
        for (i, op) in arr(&b["ops"]).iter().enumerate() {
            let m = i + 1;
            let f = op.get("f").map(|f| ids[us(f) - 1]).unwrap_or(own);
            let dir = if op.get("dir") == Some(&json!(1)) { Direction::Incoming } else { Direction::Outgoing };
            let r = op.get("r").map(us).unwrap_or(0);
            let cfg = FledgerConfig { system_realm: Some(U256::from([m as u8; 32]).into()) };
            let state = ConnectionStateMap { rx_bytes: m as u64, ..Default::default() };
            let stats = vec![NodeStat { id: ids[1], version: format!("{m}"), ping_ms: 1, ping_rx: 2 }];
            let challenge = U256::from([m as u8; 32]);
            let msg = |me: &mut Node, m: WSSignalMessageToNode| me.ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&m).unwrap())).unwrap();
            let nc = |me: &mut Node, m: NCOutput| me.rtc.emit_msg_out(WebRTCConnOut::Message(f, m)).unwrap();
            match op["op"].as_str().unwrap() {
                "connect" => me.net.emit_msg_in(NetworkIn::Connect(f)).unwrap(),
                "send" => me.net.emit_msg_in(NetworkIn::MessageToNode(f, payload(m))).unwrap(),
                "disconnect" => me.net.emit_msg_in(NetworkIn::Disconnect(f)).unwrap(),
                "stats" => me.net.emit_msg_in(NetworkIn::StatsToWS(stats.clone())).unwrap(),
                "update" => me.net.emit_msg_in(NetworkIn::WSUpdateListRequest).unwrap(),
                "wsSetup" => msg(
                    &mut me,
                    WSSignalMessageToNode::PeerSetup(PeerInfo {
                        id_init: ids[us(&op["i"]) - 1],
                        id_follow: ids[us(&op["j"]) - 1],
                        message: peer_message(r, m),
                    }),
                ),
                "wsList" => msg(
                    &mut me,
                    WSSignalMessageToNode::ListIDsReply(
                        // ids are not transmitted: number of the node as its key
                        uss(&op["l"]).iter().map(|i| node_info(*i)).collect(),
                    ),
                ),
                "wsConfig" => msg(&mut me, WSSignalMessageToNode::SystemConfig(cfg.clone())),
                "wsError" => msg(&mut me, WSSignalMessageToNode::Error(format!("{m}"))),
                "wsChallenge" => msg(&mut me, WSSignalMessageToNode::Challenge(SIGNAL_VERSION, challenge)),
                "wsJunk" => me.ws.emit_msg_out(if m % 3 == 0 { WSClientOut::Connected } else { WSClientOut::Message("{\"Peer".into()) }).unwrap(),
                "rtcUp" => nc(&mut me, NCOutput::Connected(dir)),
                "rtcDown" => nc(&mut me, NCOutput::Disconnected(dir)),
                "rtcSetup" => nc(&mut me, NCOutput::Setup(dir, peer_message(r, m))),
                "state" => nc(&mut me, NCOutput::State(dir, state)),
                "text" => {
                    peer.net.emit_msg_in(NetworkIn::MessageToNode(own, payload(m))).unwrap();
                    quiesce().await;
                    for o in drain(&mut peer.rtc_tap) {
                        if let WebRTCConnIn::Message(_, NCInput::Text(s)) = o {
                            nc(&mut me, NCOutput::Text(s))
                        }
                    }
                }
                "junkText" => {
                    let w = match r {
                        1 => None,
                        2 => Some("SignalIn: Connected"),
                        3 => Some("---\nSignalOut:\n  Message: x"),
                        _ => Some("SignalOut: Connect"),
                    };
                    if let Some(msg) = w {
                        let w = NetworkWrapper { module: "Network".into(), msg: msg.into() };
                        nc(&mut me, NCOutput::Text(serde_yaml::to_string(&w).unwrap()))
                    } else {
                        nc(&mut me, NCOutput::Text("- : ]".into()))
                    }
                }
                "ticks" => {
                    for _ in 0..r {
                        me.timer.broker.emit_msg_out(TimerMessage::Second).unwrap();
                    }
                }
                o => panic!("unknown op {o}"),
            }
            quiesce().await;
            let mut step = op.clone();
            step["m"] = json!(m);
            step["con"] = json!(me.connections.borrow().iter().map(p).collect::<Vec<_>>());
            step["up"] = drain(&mut me.net_tap)
                .into_iter()
                .map(|o| match o {
                    NetworkOut::MessageFromNode(f, w) => json!({"k": "msg", "f": p(&f), "m": unpay(&w)}),
                    NetworkOut::NodeListFromWS(l) => json!({"k": "list", "l": l.iter().map(un_node_info).collect::<Vec<_>>()}),
                    NetworkOut::ConnectionState(s) => json!({"k": "state", "f": p(&s.id), "dir": if s.dir == Direction::Incoming {1} else {2}, "m": s.s.rx_bytes}),
                    NetworkOut::Connected(f) => json!({"k": "con", "f": p(&f)}),
                    NetworkOut::Disconnected(f) => json!({"k": "disc", "f": p(&f)}),
                    NetworkOut::SystemConfig(c) => json!({"k": "config", "m": if c == cfg {m} else {0}}),
                    NetworkOut::Error(e) => json!({"k": "error", "m": e.parse().unwrap_or(0)}),
                })
                .collect();
            let mut rtc = vec![];
            for o in drain(&mut me.rtc_tap) {
                rtc.push(match o {
                    WebRTCConnIn::Connect(t) => json!({"k": "connect", "t": p(&t)}),
                    WebRTCConnIn::Disconnect(t) | WebRTCConnIn::Message(t, NCInput::Disconnect) => json!({"k": "disconnect", "t": p(&t)}),
                    WebRTCConnIn::Message(t, NCInput::Setup(d, pm)) => {
                        let (r, m) = un_peer_message(&pm, m);
                        json!({"k": "setup", "t": p(&t), "dir": if d == Direction::Incoming {1} else {2}, "r": r, "m": m})
                    }
                    WebRTCConnIn::Message(t, NCInput::Text(s)) => {
                        // only the other side has to understand it
                        drain(&mut peer.net_tap);
                        peer.rtc.emit_msg_out(WebRTCConnOut::Message(own, NCOutput::Text(s))).unwrap();
                        quiesce().await;
                        let got: Vec<_> = drain(&mut peer.net_tap)
                            .into_iter()
                            .map(|o| match o {
                                NetworkOut::MessageFromNode(_, w) => unpay(&w),
                                _ => 0,
                            })
                            .collect();
                        json!({"k": "text", "t": p(&t), "m": if got.len() == 1 {got[0]} else {0}})
                    }
                    WebRTCConnIn::Message(t, _) => json!({"k": "other", "t": p(&t)}),
                });
            }
            step["rtc"] = json!(rtc);
            step["ws"] = drain(&mut me.ws_tap)
                .into_iter()
                .map(|o| match o {
                    WSClientIn::Message(s) => match serde_json::from_str::<WSSignalMessageFromNode>(&s) {
                        Ok(WSSignalMessageFromNode::ListIDsRequest) => json!({"k": "listReq"}),
                        Ok(WSSignalMessageFromNode::PeerSetup(pi)) => {
                            let (r, m) = un_peer_message(&pi.message, m);
                            json!({"k": "setup", "i": p(&pi.id_init), "j": p(&pi.id_follow), "r": r, "m": m})
                        }
                        Ok(WSSignalMessageFromNode::NodeStats(s)) => json!({"k": "stats", "m": if s == stats {m} else {0}}),
                        Ok(WSSignalMessageFromNode::Announce(a)) => json!({"k": "announce",
                            "ok": a.challenge == challenge && a.node_info.get_id() == own && me.cfg.info.verify(&challenge.to_bytes(), &a.signature)}),
                        Err(_) => json!({"k": "unreadable"}),
                    },
                    _ => json!({"k": "other"}),
                })
                .collect();
            rec.step(step);
        }
    });
}

fn node_info(i: usize) -> NodeInfo {
    let mut ni = NodeConfig::new().info;
    ni.name = format!("{i}");
    ni
}
fn un_node_info(ni: &NodeInfo) -> usize {
    ni.name.parse().unwrap_or(0)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), one);
}
