//! The peer connections of one node: the channels below are simulated, its packets are read and made by other real nodes.
use fl_harness::*;
use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
    web_rtc::{
        messages::{ConnectionStateMap, DataChannelState, PeerMessage, WebRTCInput, WebRTCOutput, WebRTCSpawner},
        node_connection::{Direction, NCInput, NCOutput, NodeConnection},
        WebRTCConn, WebRTCConnIn, WebRTCConnOut,
    },
};
use serde_json::{json, Value};
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
    time::Duration,
};
use tokio::sync::mpsc::UnboundedReceiver;

type Chan = Broker<WebRTCInput, WebRTCOutput>;
const MAX: usize = 65536;

/// All channels the code under test has asked for, in this order.
type Made = Arc<Mutex<Vec<(Chan, UnboundedReceiver<WebRTCInput>)>>>;
fn spawner() -> (WebRTCSpawner, Made) {
    let made: Made = Default::default();
    let m = made.clone();
    let s: WebRTCSpawner = Box::new(move || {
        let m = m.clone();
        Box::new(Box::pin(async move {
            let mut b: Chan = Broker::new();
            let tap = b.get_tap_in().await?.0;
            m.lock().unwrap().push((b.clone(), tap));
            Ok(b)
        }))
    });
    (s, made)
}

fn text(t: usize, len: usize, al: usize) -> String {
    let alphabet: Vec<char> = match al {
        1 => "abcdefghijklmnopqrstuvwxyz0123456789".chars().collect(),
        2 => "éßñøü".chars().collect(),
        3 => "😀🚀🧪".chars().collect(),
        4 => (0u8..32).map(|c| c as char).collect(),
        5 => "\"\\/\n\r\t{}[]:,#&*!|>'%@`-? ~".chars().collect(),
        6 => "\u{85}\u{2028}\u{2029}\u{feff}\u{7f}\u{80}\u{9f}\u{fffe}\u{ffff}\u{d7ff}\u{e000}\u{10ffff}\u{300}".chars().collect(),
        7 => "aé😀\u{0}\"\u{2028}".chars().collect(),
        _ => " \n".chars().collect(),
    };
    // half of the texts count in characters, the others in bytes
    let bytes = t % 2 == 0;
    let mut s = if len > 16 { format!("{t}|") } else { String::new() };
    let mut n = s.len();
    let mut i = t;
    while n < len {
        let c = alphabet[i % alphabet.len()];
        i += 1 + i % 3;
        let size = if bytes { c.len_utf8() } else { 1 };
        if n + size > len {
            s.push('.');
            n += 1;
        } else {
            s.push(c);
            n += size;
        }
    }
    s
}

fn dir(d: usize) -> Direction {
    if d == 1 {
        Direction::Incoming
    } else {
        Direction::Outgoing
    }
}
fn undir(d: &Direction) -> usize {
    if *d == Direction::Incoming {
        1
    } else {
        2
    }
}
fn pm(r: usize, m: usize) -> PeerMessage {
    match r {
        1 => PeerMessage::Init,
        2 => PeerMessage::Offer(format!("{m}")),
        3 => PeerMessage::Answer(format!("{m}")),
        _ => PeerMessage::IceCandidate(format!("{m}")),
    }
}
/// The kind and number of a setup message; an Init has no number.
fn unpm(p: &PeerMessage, m: usize) -> (usize, usize) {
    match p {
        PeerMessage::Init => (1, m),
        PeerMessage::Offer(s) => (2, s.parse().unwrap_or(0)),
        PeerMessage::Answer(s) => (3, s.parse().unwrap_or(0)),
        PeerMessage::IceCandidate(s) => (4, s.parse().unwrap_or(0)),
    }
}
fn csm(r: usize, m: usize) -> ConnectionStateMap {
    let data_connection = match r {
        1 => None,
        2 => Some(DataChannelState::Connecting),
        3 => Some(DataChannelState::Open),
        4 => Some(DataChannelState::Closing),
        _ => Some(DataChannelState::Closed),
    };
    ConnectionStateMap { data_connection, rx_bytes: m as u64, ..Default::default() }
}

/// A node on the other side: reads packets, or makes them.
struct Peer {
    nc: Broker<NCInput, NCOutput>,
    tap: UnboundedReceiver<NCOutput>,
    chans: Vec<Chan>,
    sent: UnboundedReceiver<WebRTCInput>,
}
impl Peer {
    async fn new() -> Peer {
        let (sp, made) = spawner();
        let mut nc = NodeConnection::new(&sp).await.unwrap();
        let tap = nc.get_tap_out().await.unwrap().0;
        let (mut chans, mut sent): (Vec<_>, Vec<_>) = made.lock().unwrap().drain(..).unzip();
        let sent = sent.remove(1);
        chans[1].emit_msg_out(WebRTCOutput::Connected).unwrap();
        quiesce().await;
        Peer { nc, tap, chans, sent }
    }
    async fn read(&mut self, packet: &str) -> Vec<String> {
        drain(&mut self.tap);
        self.chans[0].emit_msg_out(WebRTCOutput::Text(packet.into())).unwrap();
        quiesce().await;
        texts(drain(&mut self.tap))
    }
    async fn make(&mut self, text: String) -> Vec<String> {
        drain(&mut self.sent);
        self.nc.emit_msg_in(NCInput::Text(text)).unwrap();
        quiesce().await;
        drain(&mut self.sent)
            .into_iter()
            .filter_map(|m| match m {
                WebRTCInput::Text(s) => Some(s),
                _ => None,
            })
            .collect()
    }
}
fn texts(o: Vec<NCOutput>) -> Vec<String> {
    o.into_iter()
        .filter_map(|o| match o {
            NCOutput::Text(s) => Some(s),
            _ => None,
        })
        .collect()
}

#[derive(Clone)]
struct Pack {
    t: usize,
    p: usize,
    of: usize,
    s: String,
}

/// A packet which no node should send, made from one which is under way.
fn bad(r: usize, p: Option<&Pack>, partial: bool) -> Option<String> {
    let id = serde_json::to_value(U256::rnd()).unwrap();
    let real = p.and_then(|p| serde_json::from_str::<Value>(&p.s).ok()).filter(|v| v.get("id").is_some() && v["total"].is_u64() && v["part"].is_u64());
    Some(match r {
        1 => "no json: at [all".into(),
        2 => "{}".into(),
        3 => "{\"data\":5}".into(),
        4 => json!({"id": id, "part": 0, "total": 0, "data": "zz"}).to_string(),
        5 => json!({"id": id, "part": 0, "total": 1u64 << 62, "data": "zz"}).to_string(),
        6 => {
            let mut v = real?;
            v["part"] = v["total"].clone();
            v["data"] = json!("zz");
            v.to_string()
        }
        7 if partial => {
            let mut v = real?;
            v["total"] = json!(v["total"].as_u64().unwrap() + 1);
            v["data"] = json!("zz");
            v.to_string()
        }
        8 => {
            let mut v = real?;
            v.as_object_mut().unwrap().remove("part");
            v.to_string()
        }
        9 => json!({"id": id, "part": 0, "data": "zz"}).to_string(),
        10 => json!({"id": id, "part": -1, "total": 1, "data": "zz"}).to_string(),
        11 => json!({"id": "5", "part": 0, "total": 1, "data": "zz"}).to_string(),
        _ => return None,
    })
}

fn one(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let (sp, made) = spawner();
        let mut me = WebRTCConn::new(sp).await.unwrap();
        let mut tap = me.get_tap_out().await.unwrap().0;
        let ids: Vec<NodeID> = (0..2).map(|_| U256::rnd()).collect();
        // where the channels of each node are
        let mut chans: HashMap<usize, Vec<(Chan, UnboundedReceiver<WebRTCInput>)>> = HashMap::new();
        let mut readers = vec![Peer::new().await, Peer::new().await];
        let mut makers = vec![Peer::new().await, Peer::new().await];
        let mut pool: Vec<Vec<Pack>> = vec![vec![], vec![]];
        let mut known: Vec<(usize, String)> = vec![];
        let mut begun: Vec<usize> = vec![];
        rec.cfg(json!({}));
        for (i, op) in arr(&b["ops"]).iter().enumerate() {
            let m = i + 1;
            let n = us(&op["n"]);
            let d = op.get("d").map(us).unwrap_or(1);
            let r = op.get("r").map(us).unwrap_or(0);
            let mut step = op.clone();
            let mut content = || {
                let mut s = text(m, us(&op["len"]), us(&op["al"]));
                // what is sent through the channels has to be told apart
                if op["op"] == "text" && known.iter().any(|k| k.1 == s) {
                    s = char::from_u32(0x4e00 + m as u32).unwrap().to_string();
                }
                let t = known.iter().find(|k| k.1 == s).map(|k| k.0).unwrap_or(m);
                known.push((t, s.clone()));
                (t, s)
            };
            let mut inject: Option<String> = None;
            match op["op"].as_str().unwrap() {
                "text" => {
                    let (t, s) = content();
                    step["t"] = json!(t);
                    me.emit_msg_in(WebRTCConnIn::Message(ids[n - 1], NCInput::Text(s))).unwrap();
                }
                "peer" => {
                    let (t, s) = content();
                    let ps = makers[n - 1].make(s.clone()).await;
                    let of = ps.len();
                    // it must be possible to read what the node itself makes
                    let mut got = vec![];
                    for p in &ps {
                        got.extend(readers[n - 1].read(p).await);
                    }
                    step["whole"] = json!(of > 0 && got == [s]);
                    step["fits"] = json!(ps.iter().all(|p| p.len() <= MAX));
                    pool[n - 1].extend(ps.into_iter().enumerate().map(|(i, s)| Pack { t: t * 100 + if of > 1 { m } else { 0 }, p: i + 1, of, s }));
                    // two texts of the same content are told apart if they have several packets
                    if of > 1 {
                        let s = known.last().unwrap().1.clone();
                        known.push((t * 100 + m, s));
                    }
                    step["t"] = json!(t);
                }
                "chan" => {
                    let c = &mut chans.get_mut(&n).expect("channel exists")[d - 1].0;
                    let msg = match op["what"].as_str().unwrap() {
                        "connected" => WebRTCOutput::Connected,
                        "disconnected" => WebRTCOutput::Disconnected,
                        "error" => WebRTCOutput::Error("x".into()),
                        "state" => WebRTCOutput::State(csm(r, m)),
                        _ => WebRTCOutput::Setup(pm(r, m)),
                    };
                    step["m"] = json!(m);
                    c.emit_msg_out(msg).unwrap();
                }
                "in" => {
                    step["m"] = json!(m);
                    let id = ids[n - 1];
                    me.emit_msg_in(match op["what"].as_str().unwrap() {
                        "setup" => WebRTCConnIn::Message(id, NCInput::Setup(dir(d), pm(r, m))),
                        "disconnect" => WebRTCConnIn::Message(id, NCInput::Disconnect),
                        "states" => WebRTCConnIn::Message(id, NCInput::GetStates),
                        "connect" => WebRTCConnIn::Connect(id),
                        _ => WebRTCConnIn::Disconnect(id),
                    })
                    .unwrap();
                }
                "deliver" | "lose" | "bad" => {
                    let l = pool[n - 1].len();
                    let at = if l > 0 { us(&op["i"]) % l } else { 0 };
                    if op["op"] == "bad" {
                        let p = pool[n - 1].get(at);
                        inject = bad(r, p, p.map(|p| begun.contains(&p.t)).unwrap_or(false));
                        if inject.is_none() {
                            continue;
                        }
                    } else {
                        if l == 0 {
                            continue;
                        }
                        let p = pool[n - 1].remove(at);
                        if op["op"] == "lose" {
                            continue;
                        }
                        step["t"] = json!(p.t);
                        step["p"] = json!(p.p);
                        step["of"] = json!(p.of);
                        begun.push(p.t);
                        inject = Some(p.s);
                    }
                }
                o => panic!("unknown op {o}"),
            }
            if let Some(s) = inject {
                chans.get_mut(&n).expect("channel exists")[d - 1].0.emit_msg_out(WebRTCOutput::Text(s)).unwrap();
            }
            quiesce().await;
            let out = drain(&mut tap);
            // new channels: the first is the incoming one
            let new: Vec<_> = made.lock().unwrap().drain(..).collect();
            if !new.is_empty() {
                assert!(new.len() == 2 && !chans.contains_key(&n), "channels are made in pairs");
                chans.insert(n, new);
            }
            let mut up = vec![];
            let mut stray = 0;
            let mut seen: Vec<Vec<WebRTCInput>> = vec![vec![], vec![]];
            for WebRTCConnOut::Message(f, o) in out {
                if f != ids[n - 1] {
                    stray += 1;
                    continue;
                }
                match o {
                    NCOutput::Connected(d) => up.push(json!({"k": "connected", "d": undir(&d)})),
                    NCOutput::Disconnected(d) => up.push(json!({"k": "disconnected", "d": undir(&d)})),
                    NCOutput::Text(s) => {
                        let want = step.get("t").map(us).unwrap_or(0);
                        let t = if known.iter().any(|k| k.0 == want && k.1 == s) || known.iter().any(|k| k.0 * 100 == want && k.1 == s) {
                            want
                        } else {
                            known.iter().find(|k| k.1 == s).map(|k| k.0).unwrap_or(0)
                        };
                        up.push(json!({"k": "text", "t": t}))
                    }
                    NCOutput::State(d, s) => up.push(json!({"k": "state", "d": undir(&d), "open": s.data_connection == Some(DataChannelState::Open), "m": s.rx_bytes})),
                    NCOutput::Setup(d, p) => {
                        let (r, m) = unpm(&p, m);
                        up.push(json!({"k": "setup", "d": undir(&d), "r": r, "m": m}))
                    }
                    // seen at the channels
                    NCOutput::Incoming(_) | NCOutput::Outgoing(_) => {}
                }
            }
            let mut ch: Vec<Vec<Value>> = vec![vec![], vec![]];
            let mut packets: Vec<(usize, usize, String)> = vec![];
            for (n2, v) in chans.iter_mut() {
                for (d, (_, tap)) in v.iter_mut().enumerate() {
                    let got = drain(tap);
                    if *n2 != n {
                        stray += got.len();
                    } else {
                        seen[d] = got;
                    }
                }
            }
            for d in [1usize, 0] {
                for i in seen[d].drain(..) {
                    match i {
                        WebRTCInput::Text(s) => {
                            packets.push((d, ch[d].len(), s));
                            ch[d].push(json!({"k": "text"}));
                        }
                        WebRTCInput::Setup(p) => {
                            let connect = op.get("what") == Some(&json!("connect"));
                            let (r, m) = unpm(&p, if connect { 0 } else { m });
                            ch[d].push(json!({"k": "setup", "r": r, "m": m}))
                        }
                        WebRTCInput::Reset => ch[d].push(json!({"k": "reset"})),
                        WebRTCInput::Disconnect => ch[d].push(json!({"k": "disconnect"})),
                        _ => ch[d].push(json!({"k": "other"})),
                    }
                }
            }
            // which packets make up which text is told by a node reading them
            let mut from = 0;
            for j in 0..packets.len() {
                let got = readers[n - 1].read(&packets[j].2).await;
                if !got.is_empty() || j + 1 == packets.len() {
                    let t = if got.len() == 1 { known.iter().find(|k| k.1 == got[0]).map(|k| k.0).unwrap_or(0) } else { 0 };
                    for (p, x) in packets[from..=j].iter().enumerate() {
                        ch[x.0][x.1] = json!({"k": "text", "t": t, "p": p + 1, "of": j + 1 - from, "fits": x.2.len() <= MAX});
                    }
                    from = j + 1;
                }
            }
            step["up"] = json!(up);
            step["ch"] = json!(ch);
            step["stray"] = json!(stray);
            rec.step(step);
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), one);
}
