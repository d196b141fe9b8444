//! A websocket server with real clients over the loopback network, in real time.
use fl_harness::*;
use flarch::{
    broker::Broker,
    web_rtc::{
        web_socket_server::WebSocketServer,
        websocket::{WSServerIn, WSServerOut},
    },
};
use futures::{SinkExt, StreamExt};
use serde_json::{json, Value};
use std::{
    sync::{
        atomic::{AtomicU16, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::TcpStream,
    sync::mpsc::UnboundedSender,
    task::JoinHandle,
};
use tokio_tungstenite::{client_async, tungstenite::Message};

static PORT: AtomicU16 = AtomicU16::new(0);
static LATE: AtomicU16 = AtomicU16::new(0);

fn text(m: usize, r: usize) -> String {
    match r {
        1 => format!("{m}"),
        2 => format!("{m}:é😀\n\"\0"),
        3 => format!("{m}:{}", "x".repeat(100_000)),
        _ => format!("{m}:{}", "é".repeat(126 - 60 + m % 5)),
    }
}
fn untext(s: &str, r: usize) -> usize {
    let m = s.split(':').next().and_then(|s| s.parse().ok()).unwrap_or(0);
    if s == text(m, r) {
        m
    } else {
        0
    }
}

enum Cmd {
    Send(Message),
    Leave,
    Drop,
    Clog,
}
struct Client {
    tx: UnboundedSender<Cmd>,
    task: JoinHandle<()>,
}
type Log = Arc<Mutex<Vec<(usize, String, String)>>>;

async fn client(i: usize, port: u16, log: Log) -> Option<Client> {
    let s = TcpStream::connect(("127.0.0.1", port)).await.ok()?;
    let (mut ws, _) = tokio::time::timeout(Duration::from_secs(5), client_async("ws://localhost/", s)).await.ok()?.ok()?;
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let task = tokio::spawn(async move {
        loop {
            tokio::select! {
                c = rx.recv() => match c {
                    Some(Cmd::Send(m)) => { let _ = ws.send(m).await; }
                    Some(Cmd::Leave) => {
                        let _ = ws.close(None).await;
                        // the other side may finish
                        let _ = tokio::time::timeout(Duration::from_millis(200), async { while let Some(Ok(_)) = ws.next().await {} }).await;
                        return;
                    }
                    Some(Cmd::Clog) => {
                        // nothing is read anymore
                        loop {
                            match rx.recv().await {
                                Some(Cmd::Send(m)) => { let _ = ws.send(m).await; }
                                Some(Cmd::Clog) => {}
                                _ => return,
                            }
                        }
                    }
                    _ => return,
                },
                m = ws.next() => match m {
                    Some(Ok(Message::Text(t))) => log.lock().unwrap().push((i, "text".into(), t.to_string())),
                    Some(Ok(Message::Close(_))) | Some(Err(_)) | None => {
                        log.lock().unwrap().push((i, "end".into(), "".into()));
                        return;
                    }
                    _ => {}
                }
            }
        }
    });
    Some(Client { tx, task })
}

fn one(b: &Value, rec: &Rec) {
    // enough to be rejected
    if LATE.load(Ordering::SeqCst) > 8 {
        rec.cfg(json!({}));
        return;
    }
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    rt.block_on(async {
        let (mut server, port) = loop {
            let port = 20000 + PORT.fetch_add(1, Ordering::SeqCst) % 12000;
            if let Ok(s) = WebSocketServer::new(port).await {
                break (s, port);
            }
        };
        let mut tap: tokio::sync::mpsc::UnboundedReceiver<WSServerOut> = server.get_tap_out().await.unwrap().0;
        let _: &Broker<WSServerIn, WSServerOut> = &server;
        let mut clients: Vec<Option<Client>> = (0..10).map(|_| None).collect();
        let mut nums: Vec<Option<usize>> = vec![None; 10];
        let mut gone = vec![false; 10];
        let mut clogged = vec![false; 10];
        let mut stopped = false;
        let mut stalled = vec![];
        let log: Log = Default::default();
        rec.cfg(json!({}));
        for (j, op) in arr(&b["ops"]).iter().enumerate() {
            let v = j + 1;
            let i = op.get("i").map(us).unwrap_or(0);
            let n = op.get("n").map(us).unwrap_or(0);
            let r = op.get("r").map(us).unwrap_or(1);
            let mut step = op.clone();
            step["v"] = json!(v);
            let kind = op["op"].as_str().unwrap();
            let live = nums[i].is_some() && !gone[i];
            // how many reports and things noticed by clients to wait for
            let (mut want_rep, mut want_got) = (0, 0);
            // a number which is nobody's if this client has never been there
            let num = if i == 0 { 1_000_000_007 } else { nums[i].unwrap_or(1000 + i) };
            match kind {
                "connect" => {
                    clients[i] = client(i, port, log.clone()).await;
                    want_rep = if stopped { 0 } else { 1 };
                }
                "bad" => {
                    if let Ok(mut s) = TcpStream::connect(("127.0.0.1", port)).await {
                        match r {
                            1 => drop(s),
                            2 => {
                                let _ = s.write_all(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").await;
                                let mut b = [0; 100];
                                let _ = tokio::time::timeout(Duration::from_millis(50), s.read(&mut b)).await;
                            }
                            3 => {
                                let _ = s.write_all(b"\x00\xff nonsense\r\n\r\n").await;
                            }
                            4 => {
                                let _ = s.write_all(b"GET / HT").await;
                                stalled.push(s);
                            }
                            _ => stalled.push(s),
                        }
                    }
                }
                "noise" => {
                    if let Some(c) = &clients[i] {
                        let _ = c.tx.send(Cmd::Send(Message::Ping(vec![1, 2].into())));
                        let _ = c.tx.send(Cmd::Send(Message::Binary(vec![1, 2].into())));
                        let _ = c.tx.send(Cmd::Send(Message::Pong(vec![].into())));
                    }
                }
                "text" => {
                    if let Some(c) = &clients[i] {
                        for j in 1..=n {
                            let _ = c.tx.send(Cmd::Send(Message::Text(text(v * 100 + j, r).into())));
                        }
                    }
                    want_rep = if live { n } else { 0 };
                }
                "send" => {
                    step["num"] = json!(num);
                    for j in 1..=n {
                        server.emit_msg_in(WSServerIn::Message(num, text(v * 100 + j, r))).unwrap();
                    }
                    want_got = if live && !clogged[i] { n } else { 0 };
                }
                "clog" => {
                    if let Some(c) = &clients[i] {
                        let _ = c.tx.send(Cmd::Clog);
                    }
                    clogged[i] = true;
                    tokio::time::sleep(Duration::from_millis(5)).await;
                    for _ in 0..24 {
                        server.emit_msg_in(WSServerIn::Message(num, "x".repeat(1 << 20))).unwrap();
                    }
                }
                "close" => {
                    step["num"] = json!(num);
                    server.emit_msg_in(WSServerIn::Close(num)).unwrap();
                    (want_rep, want_got) = if live { (1, if clogged[i] { 0 } else { 1 }) } else { (0, 0) };
                    if live {
                        gone[i] = true;
                    }
                }
                "leave" | "drop" => {
                    if let Some(c) = clients[i].take() {
                        let _ = c.tx.send(if kind == "leave" && !clogged[i] { Cmd::Leave } else { Cmd::Drop });
                        let _ = tokio::time::timeout(Duration::from_secs(2), c.task).await;
                    }
                    want_rep = if live { 1 } else { 0 };
                    gone[i] = true;
                }
                "stop" => {
                    let l: Vec<usize> = (1..10).filter(|i| nums[*i].is_some() && !gone[*i]).collect();
                    want_rep = 1 + l.len();
                    want_got = l.iter().filter(|i| !clogged[**i]).count();
                    for i in l {
                        gone[i] = true;
                    }
                    stopped = true;
                    server.emit_msg_in(WSServerIn::Stop).unwrap();
                }
                o => panic!("unknown op {o}"),
            }
            let start = Instant::now();
            let mut rep = vec![];
            let mut late = false;
            // wait for what has to come, and then a moment for what should not
            loop {
                rep.extend(drain(&mut tap));
                let done = rep.len() >= want_rep && log.lock().unwrap().len() >= want_got;
                late = !done && start.elapsed() > Duration::from_secs(8);
                if done || late {
                    break;
                }
                tokio::time::sleep(Duration::from_micros(300)).await;
            }
            tokio::time::sleep(Duration::from_millis(if matches!(kind, "bad" | "close" | "stop" | "clog") { 6 } else { 2 })).await;
            rep.extend(drain(&mut tap));
            step["rep"] = rep
                .iter()
                .map(|o| match o {
                    WSServerOut::NewConnection(n) => {
                        if kind == "connect" {
                            nums[i] = Some(*n);
                        }
                        json!({"k": "new", "n": n, "m": 0})
                    }
                    WSServerOut::Message(n, s) => json!({"k": "text", "n": n, "m": untext(s, r)}),
                    WSServerOut::Disconnection(n) => json!({"k": "end", "n": n, "m": 0}),
                    WSServerOut::Stopped => json!({"k": "stopped", "n": 0, "m": 0}),
                })
                .collect();
            step["got"] = log.lock().unwrap().drain(..).map(|(i, k, s)| json!({"i": i, "k": k, "m": if k == "text" {untext(&s, r)} else {0}})).collect();
            rec.step(step);
            if late {
                // what should have come didn't: the rest says nothing more
                LATE.fetch_add(1, Ordering::SeqCst);
                break;
            }
        }
    });
    rt.shutdown_background();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    PORT.store((std::process::id() % 12000) as u16, Ordering::SeqCst);
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(120), one);
}
