//! Random connections with the router above them, and the router directly above a network; the network is simulated.
use fl_harness::*;
use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
};
use flmodules::{
    network::{
        broker::{BrokerNetwork, ConnStats, NetworkConnectionState, NetworkIn, NetworkOut, MODULE_NAME},
        signal::FledgerConfig,
    },
    nodeconfig::NodeInfo,
    random_connections::{
        broker::{RandomBroker, RandomIn, RandomOut},
        intern::ModuleMessage,
    },
    router::{
        broker::{RouterNetwork, RouterRandom},
        messages::{NetworkWrapper, RouterIn, RouterOut},
    },
    timer::{BrokerTimer, TimerMessage},
};
use flarch::web_rtc::{
    messages::{ConnType, SignalingState},
    node_connection::Direction,
};
use flnode::stat::NetworkStats;
use serde_json::{json, Value};
use std::time::Duration;

fn payload(m: usize) -> NetworkWrapper {
    NetworkWrapper { module: "Upper".into(), msg: format!("{m}: !é \n x") }
}
fn unpay(w: &NetworkWrapper) -> usize {
    if w.module != "Upper" {
        return 0;
    }
    let m = w.msg.split(':').next().and_then(|s| s.parse().ok()).unwrap_or(0);
    if &payload(m) == w {
        m
    } else {
        0
    }
}
struct Ids(Vec<NodeID>);
impl Ids {
    fn p(&self, i: &NodeID) -> usize {
        pos(&self.0, i)
    }
    fn l(&self, l: &[NodeID]) -> Vec<usize> {
        l.iter().map(|i| self.p(i)).collect()
    }
    fn infos(&self, l: &[NodeInfo]) -> Vec<(usize, usize)> {
        l.iter().map(|i| (self.p(&i.get_id()), i.name.parse().unwrap_or(0))).collect()
    }
    fn rnd(&self, m: RandomOut) -> Value {
        match m {
            RandomOut::NodeIDsConnected(l) => json!({"k": "ids", "l": self.l(&l.0)}),
            RandomOut::NodeInfosConnected(l) => json!({"k": "infos", "l": self.infos(&l)}),
            RandomOut::NetworkWrapperFromNetwork(f, w) => json!({"k": "msg", "f": self.p(&f), "m": unpay(&w)}),
        }
    }
    fn rtr(&self, m: RouterOut, cfgs: &[FledgerConfig]) -> Value {
        match m {
            RouterOut::NodeInfoAvailable(l) => json!({"k": "avail", "l": self.infos(&l)}),
            RouterOut::NodeIDsConnected(l) => json!({"k": "ids", "l": self.l(&l.0)}),
            RouterOut::NodeInfosConnected(l) => json!({"k": "infos", "l": self.infos(&l)}),
            RouterOut::NetworkWrapperFromNetwork(f, w) => {
                let m = if w.module == MODULE_NAME {
                    match w.unwrap_yaml::<ModuleMessage>(MODULE_NAME) {
                        Some(ModuleMessage::Module(w)) => unpay(&w),
                        _ => drops(&w),
                    }
                } else {
                    unpay(&w)
                };
                json!({"k": "msg", "f": self.p(&f), "m": m})
            }
            RouterOut::Disconnected(f) => json!({"k": "disc", "f": self.p(&f)}),
            RouterOut::Connected(f) => json!({"k": "con", "f": self.p(&f)}),
            RouterOut::SystemConfig(c) => json!({"k": "config", "m": pos(cfgs, &c)}),
        }
    }
    fn net(&self, m: NetworkIn, raw: bool) -> Option<Value> {
        Some(match m {
            NetworkIn::MessageToNode(t, w) => {
                let m = if raw {
                    unpay(&w)
                } else {
                    match w.unwrap_yaml::<ModuleMessage>(MODULE_NAME) {
                        Some(ModuleMessage::Module(w)) => unpay(&w),
                        _ => 0,
                    }
                };
                json!({"k": "send", "t": self.p(&t), "m": m})
            }
            NetworkIn::Connect(t) => json!({"k": "connect", "t": self.p(&t)}),
            NetworkIn::Disconnect(t) => json!({"k": "disconnect", "t": self.p(&t)}),
            _ => json!({"k": "other"}),
        })
    }
}
/// A request to drop the connection has no number: it is the text after the yaml
fn drop_msg(m: usize) -> NetworkWrapper {
    let mut w = NetworkWrapper::wrap_yaml(MODULE_NAME, &ModuleMessage::DropConnection).unwrap();
    w.msg = format!("{}\n# {m}", w.msg.trim_end());
    w
}
fn drops(w: &NetworkWrapper) -> usize {
    w.msg.rsplit("# ").next().and_then(|s| s.parse().ok()).unwrap_or(0)
}

fn one(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let shape = &b["shape"];
        let n = us(&shape["n"]);
        let ids = Ids((0..n).map(|i| U256::from([(i * 7 + 1) as u8; 32])).collect());
        let infos: Vec<Vec<NodeInfo>> = (0..n)
            .map(|i| {
                (0..3)
                    .map(|v| {
                        let mut ni = NodeInfo::new_from_id(ids.0[i]);
                        ni.name = format!("{v}");
                        ni
                    })
                    .collect()
            })
            .collect();
        rec.cfg(shape.clone());
        let timer: BrokerTimer = Broker::new();
        let mut net: BrokerNetwork = Broker::new();
        let mut rnd = RandomBroker::start(ids.0[0], timer.clone(), net.clone()).await.unwrap();
        let mut rr = RouterRandom::start(rnd.broker.clone()).await.unwrap();
        let mut net2: BrokerNetwork = Broker::new();
        let mut rn = RouterNetwork::start(net2.clone()).await.unwrap();
        let mut stat = NetworkStats::start(net2.clone()).await.unwrap();
        let mut net_tap = net.get_tap_in().await.unwrap().0;
        let mut net2_tap = net2.get_tap_in().await.unwrap().0;
        let mut rnd_tap = rnd.broker.get_tap_out().await.unwrap().0;
        let mut rr_tap = rr.get_tap_out().await.unwrap().0;
        let mut rn_tap = rn.get_tap_out().await.unwrap().0;
        quiesce().await;
        let mut timer = timer;
        let mut cfgs: Vec<FledgerConfig> = vec![];
        for (i, op) in arr(&b["ops"]).iter().enumerate() {
            let m = i + 1;
            let f = op.get("f").map(|f| ids.0[us(f) - 1]).unwrap_or(ids.0[0]);
            cfgs.push(FledgerConfig { system_realm: Some(U256::from([m as u8; 32]).into()) });
            let mut both = |o: NetworkOut| {
                net.emit_msg_out(o.clone()).unwrap();
                net2.emit_msg_out(o).unwrap();
            };
            match op["op"].as_str().unwrap() {
                "list" => both(NetworkOut::NodeListFromWS(
                    arr(&op["l"]).iter().map(|x| infos[us(&x[0]) - 1][us(&x[1])].clone()).collect(),
                )),
                "con" => both(NetworkOut::Connected(f)),
                "disc" => both(NetworkOut::Disconnected(f)),
                "msg" => both(NetworkOut::MessageFromNode(
                    f,
                    NetworkWrapper::wrap_yaml(MODULE_NAME, &ModuleMessage::Module(payload(m))).unwrap(),
                )),
                "drop" => both(NetworkOut::MessageFromNode(f, drop_msg(m))),
                "junk" => both(NetworkOut::MessageFromNode(f, payload(m))),
                "config" => both(NetworkOut::SystemConfig(cfgs[i].clone())),
                "fail" => rnd.broker.emit_msg_in(RandomIn::NodeFailure(f)).unwrap(),
                "send" => {
                    rr.emit_msg_in(RouterIn::NetworkWrapperToNetwork(f, payload(m))).unwrap();
                    rn.emit_msg_in(RouterIn::NetworkWrapperToNetwork(f, payload(m))).unwrap();
                }
                "tick" => timer.emit_msg_out(TimerMessage::Second).unwrap(),
                "state" => both(NetworkOut::ConnectionState(NetworkConnectionState {
                    id: f,
                    dir: if m % 2 == 0 { Direction::Incoming } else { Direction::Outgoing },
                    s: ConnStats { type_local: ConnType::Host, type_remote: ConnType::Unknown, signaling: SignalingState::Stable, rx_bytes: m as u64, tx_bytes: 7, delay_ms: 3 },
                })),
                o => panic!("unknown op {o}"),
            }
            quiesce().await;
            let st = rnd.stats.borrow().clone();
            let mut step = op.clone();
            step["m"] = json!(m);
            let fresh = stat.has_changed().unwrap_or(false);
            let ns = stat.borrow_and_update().clone();
            step["stat"] = json!({
                "fresh": fresh,
                "online": ids.l(&ns.online),
                "con": ids.l(&ns.connected),
                "infos": ids.infos(&ns.node_infos.values().cloned().collect::<Vec<_>>()),
                "keys": ids.l(&ns.node_infos.keys().cloned().collect::<Vec<_>>()),
                "conInfos": ids.infos(&ns.node_infos_connected()),
                "states": ns.states.iter().map(|(i, s)| (if *i == s.id { ids.p(i) } else { 0 }, s.s.rx_bytes, s.dir == Direction::Incoming)).collect::<Vec<_>>(),
            });
            step["net"] = drain(&mut net_tap).into_iter().filter_map(|m| ids.net(m, false)).collect();
            step["rnet"] = drain(&mut net2_tap).into_iter().filter_map(|m| ids.net(m, true)).collect();
            step["rnd"] = drain(&mut rnd_tap).into_iter().map(|m| ids.rnd(m)).collect();
            step["rr"] = drain(&mut rr_tap).into_iter().map(|m| ids.rtr(m, &cfgs)).collect();
            step["rn"] = drain(&mut rn_tap).into_iter().map(|m| ids.rtr(m, &cfgs)).collect();
            step["C"] = json!(ids.l(&st.connected.get_nodes().0));
            step["X"] = json!(ids.l(&st.connecting.get_nodes().0));
            step["K"] = json!(ids.l(&st.known.0));
            rec.step(step);
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), one);
}
