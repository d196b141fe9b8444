//! Proxied web requests: one node asking others (answers made here), and one node answering another from a local web server.
use bytes::Bytes;
use fl_harness::*;
use flarch::{
    broker::Broker,
    data_storage::DataStorageTemp,
    nodeids::{NodeID, U256},
};
use flmodules::{
    nodeconfig::{NodeConfig, NodeInfo},
    router::{
        broker::BrokerRouter,
        messages::{NetworkWrapper, RouterIn, RouterOut},
    },
    web_proxy::{
        broker::WebProxy,
        core::WebProxyConfig,
        response::{Response, ResponseHeader, ResponseMessage, ResponseStatus},
    },
    Modules,
};
use futures::FutureExt;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::TcpListener,
    sync::mpsc::UnboundedReceiver,
};

const MODULE: &str = "WebProxy";

/// What the nodes send to each other.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum ModuleMessage {
    Request(U256, String),
    Response(U256, ResponseMessage),
}

fn header(v: usize) -> ResponseHeader {
    let values = (0..=v % 3).map(|i| format!("{v}-{i}: é \"'")).collect();
    ResponseHeader::new(ResponseStatus { code: 200 + (v % 300) as u16, msg: "".into() }, HashMap::from([("x-v".to_string(), values), ("Empty".into(), vec![])]))
}
fn un_header(h: &ResponseHeader) -> usize {
    let v = h.headers.get("x-v").and_then(|l| l.first()).and_then(|s| s.split('-').next()).and_then(|s| s.parse().ok()).unwrap_or(0);
    if h == &header(v) {
        v
    } else {
        0
    }
}
fn piece(v: usize) -> Bytes {
    Bytes::from(format!("{v}:{}", "\0\u{ff}é\n".repeat(v % 5)))
}
fn un_piece(b: &Bytes) -> usize {
    let v = String::from_utf8_lossy(b).split(':').next().and_then(|s| s.parse().ok()).unwrap_or(0);
    if b == &piece(v) {
        v
    } else {
        0
    }
}

enum Got {
    Nothing,
    Have(Response, bool),
    Gone,
}

async fn proxy(id: NodeID) -> (WebProxy, BrokerRouter, UnboundedReceiver<RouterIn>) {
    let mut router: BrokerRouter = Broker::new();
    let wp = WebProxy::start(Box::new(DataStorageTemp::new()), id, router.clone(), WebProxyConfig::default()).await.unwrap();
    let tap = router.get_tap_in().await.unwrap().0;
    (wp, router, tap)
}

fn client(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let infos: Vec<NodeInfo> = (0..5).map(|_| NodeConfig::new().info).collect();
        let ids: Vec<NodeID> = infos.iter().map(|i| i.get_id()).collect();
        let (wp, mut router, mut tap) = proxy(ids[0]).await;
        quiesce().await;
        let mut nonces: Vec<Option<(U256, NodeID)>> = vec![];
        let got: Arc<Mutex<Vec<Got>>> = Default::default();
        let events: Arc<Mutex<Vec<Value>>> = Default::default();
        rec.cfg(json!({}));
        for (i, op) in arr(&b["ops"]).iter().enumerate() {
            let v = i + 1;
            let mut step = op.clone();
            let m = op.get("m").map(us).unwrap_or(0);
            let from = |f: NodeID, m: ModuleMessage| RouterOut::NetworkWrapperFromNetwork(f, NetworkWrapper::wrap_yaml(MODULE, &m).unwrap());
            match op["op"].as_str().unwrap() {
                "nodes" => {
                    let l = uss(&op["l"]);
                    let no = uss(&op["no"]);
                    let list = l
                        .iter()
                        .map(|n| {
                            let mut ni = infos[n - 1].clone();
                            ni.modules = if no.contains(n) { Modules::all() - Modules::WEBPROXY_REQUESTS } else { Modules::all() };
                            ni
                        })
                        .collect();
                    router.emit_msg_out(RouterOut::NodeInfosConnected(list)).unwrap();
                }
                "get" => {
                    let n = nonces.len();
                    got.lock().unwrap().push(Got::Nothing);
                    let (mut wp, got, events, ids) = (wp.clone(), got.clone(), events.clone(), ids.clone());
                    let url = format!("http://localhost/{v}?a=é \"'\n#");
                    tokio::spawn(async move {
                        match wp.get(&url).await {
                            Ok(r) => {
                                events.lock().unwrap().push(json!({"m": n + 1, "k": "header", "v": un_header(&r.headers()), "f": pos(&ids, &r.proxy())}));
                                got.lock().unwrap()[n] = Got::Have(r, false);
                            }
                            Err(_) => {
                                events.lock().unwrap().push(json!({"m": n + 1, "k": "late", "v": 0, "f": 0}));
                                got.lock().unwrap()[n] = Got::Gone;
                            }
                        }
                    });
                }
                "resp" => {
                    step["v"] = json!(v);
                    let (nonce, dst) = nonces[m - 1].expect("has been asked");
                    let f = if op["right"] == true { dst } else { *ids[1..].iter().find(|i| **i != dst).unwrap() };
                    let n = us(&op["n"]);
                    for j in 1..=n {
                        let r = match op["kind"].as_str().unwrap() {
                            "header" => ResponseMessage::Header(header(v)),
                            "body" => ResponseMessage::Body(piece(v * 1000 + n + 1 - j)),
                            "done" => ResponseMessage::Done,
                            _ => ResponseMessage::Error("some".into()),
                        };
                        router.emit_msg_out(from(f, ModuleMessage::Response(nonce, r))).unwrap();
                    }
                }
                "junk" => {
                    let nonce = if m > 0 { nonces[m - 1].unwrap() } else { (U256::rnd(), ids[1]) };
                    let ok = ModuleMessage::Response(nonce.0, ResponseMessage::Body(piece(1)));
                    router
                        .emit_msg_out(match us(&op["r"]) {
                            1 => from(nonce.1, ModuleMessage::Response(U256::rnd(), ResponseMessage::Body(piece(1)))),
                            2 => from(ids[1], ModuleMessage::Response(U256::rnd(), ResponseMessage::Header(header(1)))),
                            3 => RouterOut::NetworkWrapperFromNetwork(nonce.1, NetworkWrapper::wrap_yaml("Other", &ok).unwrap()),
                            _ => RouterOut::NetworkWrapperFromNetwork(nonce.1, NetworkWrapper { module: MODULE.into(), msg: "Response: [1".into() }),
                        })
                        .unwrap();
                }
                "tick" => tokio::time::sleep(Duration::from_secs(us(&op["s"]) as u64)).await,
                "leave" => got.lock().unwrap()[m - 1] = Got::Gone,
                "read" => {
                    let mut read = vec![];
                    let mut end = false;
                    let n = us(&op["n"]);
                    let mut g = std::mem::replace(&mut got.lock().unwrap()[m - 1], Got::Nothing);
                    if let Got::Have(r, ended) = &mut g {
                        let mut idle = 0;
                        while read.len() < n && idle < 2 && !end {
                            match r.chunk().now_or_never() {
                                Some(Some(b)) => {
                                    read.push(un_piece(&b));
                                    idle = 0;
                                }
                                Some(None) => end = true,
                                None => {
                                    idle += 1;
                                    quiesce().await;
                                }
                            }
                        }
                        let before = *ended;
                        *ended |= end;
                        end = end && !before;
                    }
                    got.lock().unwrap()[m - 1] = g;
                    step["read"] = json!(read);
                    step["end"] = json!(end);
                }
                o => panic!("unknown op {o}"),
            }
            quiesce().await;
            let mut sent = vec![];
            for RouterIn::NetworkWrapperToNetwork(dst, w) in drain(&mut tap) {
                sent.push(pos(&ids, &dst));
                if op["op"] == "get" {
                    if let Some(ModuleMessage::Request(nonce, url)) = w.unwrap_yaml(MODULE) {
                        nonces.push(Some((nonce, dst)));
                        step["url"] = json!(url == format!("http://localhost/{v}?a=é \"'\n#"));
                    }
                }
            }
            if op["op"] == "get" && sent.is_empty() {
                nonces.push(None);
            }
            step["sent"] = json!(sent);
            step["ev"] = json!(std::mem::take(&mut *events.lock().unwrap()));
            rec.step(step);
        }
    });
}

fn content(i: usize, n: usize, size: usize) -> Vec<u8> {
    (0..n).flat_map(|j| (0..size).map(move |x| ((i * 7 + j * 31 + j / 256 + x) % 256) as u8)).collect()
}

/// Answers one request as the plan has it.
async fn web_server(l: TcpListener, plan: Vec<Value>) {
    loop {
        let (mut s, _) = l.accept().await.unwrap();
        let plan = plan.clone();
        tokio::spawn(async move {
            let mut req = vec![];
            while !req.windows(4).any(|w| w == b"\r\n\r\n") {
                let mut b = [0; 1024];
                match s.read(&mut b).await {
                    Ok(n) if n > 0 => req.extend(&b[..n]),
                    _ => return,
                }
            }
            let i: usize = String::from_utf8_lossy(&req).split(['/', ' ']).find_map(|s| s.parse().ok()).unwrap_or(0);
            let p = &plan[i];
            let (n, size) = (us(&p["pieces"]), us(&p["size"]));
            let all = content(i, n, size);
            let mut h = format!("HTTP/1.1 {} X\r\n", us(&p["status"])).into_bytes();
            match us(&p["hk"]) {
                2 => h.extend(format!("X-Own: {i}\r\n").as_bytes()),
                3 => h.extend(format!("X-Own: {i}\r\nX-Own: second\r\n").as_bytes()),
                4 => h.extend(b"X-Other: caf\xe9\r\n"),
                _ => {}
            }
            let ending = p["ending"].as_str().unwrap();
            let chunked = ending == "chunked";
            if chunked {
                h.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            } else {
                h.extend(format!("Content-Length: {}\r\n\r\n", all.len() + if ending == "cut" { 5 } else { 0 }).as_bytes());
            }
            let _ = s.write_all(&h).await;
            for (j, c) in all.chunks(size).enumerate() {
                let mut out = vec![];
                if chunked {
                    out.extend(format!("{:x}\r\n", c.len()).as_bytes());
                }
                out.extend(c);
                if chunked {
                    out.extend(b"\r\n");
                }
                let _ = s.write_all(&out).await;
                if j % 40 == 0 {
                    tokio::task::yield_now().await;
                }
            }
            if chunked {
                let _ = s.write_all(b"0\r\n\r\n").await;
            }
            let _ = s.shutdown().await;
        });
    }
}

fn has_header(h: &ResponseHeader, p: &Value, i: usize) -> bool {
    let own = h.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("x-own")).map(|(_, v)| v.clone()).unwrap_or_default();
    h.status.code as usize == us(&p["status"])
        && match us(&p["hk"]) {
            2 => own == [format!("{i}")],
            3 => own == [format!("{i}"), "second".into()],
            _ => own.is_empty(),
        }
}
fn how_much(got: &[u8], all: &[u8]) -> &'static str {
    if got == all {
        "whole"
    } else if all.starts_with(got) {
        "prefix"
    } else {
        "other"
    }
}

fn serve(op: &Value, rec: &Rec) {
    rec.cfg(json!({}));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    let plan = arr(&op["l"]).to_vec();
    let res = rt.block_on(async {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let port = l.local_addr().unwrap().port();
        tokio::spawn(web_server(l, plan.clone()));
        let refused = {
            let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
            l.local_addr().unwrap().port()
        };
        let (ci, si) = (NodeConfig::new().info, NodeConfig::new().info);
        let (cid, sid) = (ci.get_id(), si.get_id());
        let (cl, mut cl_router, mut cl_tap) = proxy(cid).await;
        let (_srv, mut srv_router, mut srv_tap) = proxy(sid).await;
        cl_router.emit_msg_out(RouterOut::NodeInfosConnected(vec![ci, si])).unwrap();
        // all is passed on between the two nodes
        let nonces: Arc<Mutex<HashMap<U256, String>>> = Default::default();
        let said: Arc<Mutex<Vec<(NodeID, U256, ResponseMessage, Instant)>>> = Default::default();
        let (n2, mut sr) = (nonces.clone(), srv_router.clone());
        tokio::spawn(async move {
            while let Some(RouterIn::NetworkWrapperToNetwork(_, w)) = cl_tap.recv().await {
                if let Some(ModuleMessage::Request(n, u)) = w.unwrap_yaml(MODULE) {
                    n2.lock().unwrap().insert(n, u);
                }
                sr.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(cid, w)).unwrap();
            }
        });
        let (s2, mut cr) = (said.clone(), cl_router.clone());
        tokio::spawn(async move {
            while let Some(RouterIn::NetworkWrapperToNetwork(dst, w)) = srv_tap.recv().await {
                if let Some(ModuleMessage::Response(n, r)) = w.unwrap_yaml(MODULE) {
                    s2.lock().unwrap().push((dst, n, r, Instant::now()));
                }
                cr.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(sid, w)).unwrap();
            }
        });
        srv_router.settle_msg_out(RouterOut::NodeInfosConnected(vec![])).await.unwrap();
        let urls: Vec<String> = plan.iter().enumerate().map(|(i, p)| format!("http://127.0.0.1:{}/{i}", if p["ending"] == "refused" { refused } else { port })).collect();
        let mut tasks = vec![];
        for (i, p) in plan.iter().cloned().enumerate() {
            let (mut cl, url) = (cl.clone(), urls[i].clone());
            tasks.push(tokio::spawn(async move {
                let start = Instant::now();
                let all = content(i, us(&p["pieces"]), us(&p["size"]));
                let mut x = p.clone();
                x["got"] = json!("late");
                x["gothdr"] = json!(false);
                x["text"] = json!("");
                if let Ok(mut r) = cl.get(&url).await {
                    x["got"] = json!("header");
                    x["gothdr"] = json!(has_header(&r.headers(), &p, i) && r.proxy() == sid);
                    x["text"] = match tokio::time::timeout(Duration::from_secs(10), r.bytes()).await {
                        Ok(b) => json!(how_much(&b, &all)),
                        Err(_) => json!("no end"),
                    };
                }
                (x, start)
            }));
        }
        let mut res = vec![];
        for t in tasks {
            res.push(t.await.unwrap());
        }
        // whatever comes after the end
        tokio::time::sleep(Duration::from_millis(20)).await;
        let said = said.lock().unwrap().clone();
        let nonces = nonces.lock().unwrap().clone();
        for (i, (x, start)) in res.iter_mut().enumerate() {
            let p = &plan[i];
            let mine: Vec<_> = said.iter().filter(|(_, n, _, _)| nonces.get(n) == Some(&urls[i])).collect();
            x["to"] = json!(mine.iter().all(|(d, _, _, _)| *d == cid) && nonces.len() == plan.len() && said.iter().all(|(_, n, _, _)| nonces.contains_key(n)));
            // a machine that cannot keep up
            x["slow"] = json!(mine.first().map(|s| s.3.duration_since(*start) > Duration::from_secs(4)).unwrap_or(false));
            x["seq"] = mine
                .iter()
                .map(|(_, _, r, _)| match r {
                    ResponseMessage::Header(_) => "header",
                    ResponseMessage::Body(_) => "body",
                    ResponseMessage::Error(_) => "error",
                    ResponseMessage::Done => "done",
                })
                .collect();
            x["hdr"] = json!(mine.iter().all(|(_, _, r, _)| if let ResponseMessage::Header(h) = r { has_header(h, p, i) } else { true }));
            let body: Vec<u8> = mine.iter().flat_map(|(_, _, r, _)| if let ResponseMessage::Body(b) = r { b.to_vec() } else { vec![] }).collect();
            x["content"] = json!(how_much(&body, &content(i, us(&p["pieces"]), us(&p["size"]))));
        }
        res.into_iter().map(|(x, _)| x).collect::<Vec<_>>()
    });
    let mut step = op.clone();
    step["res"] = json!(res);
    rec.step(step);
    rt.shutdown_background();
}

fn one(b: &Value, rec: &Rec) {
    let first = &arr(&b["ops"])[0];
    if first["op"] == "serve" {
        serve(first, rec)
    } else {
        client(b, rec)
    }
}

fn main() {
    for k in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(k);
    }
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), one);
}
