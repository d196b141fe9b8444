//! A websocket client with a real server over the loopback network; the clock only runs when nothing else can.
use fl_harness::*;
use flarch::{
    broker::Broker,
    web_rtc::{
        web_socket_client::WebSocketClient,
        websocket::{WSClientIn, WSClientOut},
    },
};
use futures::{SinkExt, StreamExt};
use serde_json::{json, Value};
use std::{
    sync::{
        atomic::{AtomicU16, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};
use tokio::{
    io::AsyncWriteExt,
    net::{TcpListener, TcpStream},
    sync::mpsc::UnboundedSender,
    task::JoinHandle,
};
use tokio_tungstenite::{accept_async, tungstenite::Message};

static PORT: AtomicU16 = AtomicU16::new(0);
static LATE: AtomicU16 = AtomicU16::new(0);

fn text(m: usize, r: usize) -> String {
    match r {
        1 => format!("{m}"),
        2 => format!("{m}:é😀\n\"\0"),
        3 => format!("{m}:{}", "x".repeat(100_000)),
        _ => format!("{m}:{}", "é".repeat(126 - 60 + m % 5)),
    }
}
fn untext(s: &str, r: usize) -> usize {
    let m = s.split(':').next().and_then(|s| s.parse().ok()).unwrap_or(0);
    if s == text(m, r) || s == text(m, 1) {
        m
    } else {
        0
    }
}

enum Cmd {
    Text(Vec<String>),
    Noise,
    Close,
    Drop,
    Fin,
    Bad,
}
type Log = Arc<Mutex<Vec<(usize, &'static str, String)>>>;
type Conns = Arc<Mutex<Vec<UnboundedSender<Cmd>>>>;

/// One connection as the server sees it.
async fn connection(s: TcpStream, greet: usize, log: Log, conns: Conns) {
    let Ok(mut ws) = accept_async(s).await else { return };
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let c = {
        let mut cs = conns.lock().unwrap();
        cs.push(tx);
        cs.len()
    };
    log.lock().unwrap().push((c, "open", "".into()));
    for i in 1..=greet {
        let _ = ws.send(Message::Text(text(1_000_000 + c * 100 + i, 1).into())).await;
    }
    loop {
        tokio::select! {
            cmd = rx.recv() => match cmd {
                Some(Cmd::Text(ts)) => for t in ts {
                    let _ = ws.send(Message::Text(t.into())).await;
                },
                Some(Cmd::Noise) => {
                    let _ = ws.send(Message::Ping(vec![1, 2].into())).await;
                    let _ = ws.send(Message::Binary(vec![1, 2].into())).await;
                    let _ = ws.send(Message::Pong(vec![].into())).await;
                }
                Some(Cmd::Close) => {
                    let _ = ws.close(None).await;
                    while let Some(Ok(_)) = ws.next().await {}
                    return;
                }
                Some(Cmd::Fin) => {
                    let _ = ws.get_mut().shutdown().await;
                    while let Some(Ok(_)) = ws.next().await {}
                    return;
                }
                Some(Cmd::Bad) => {
                    // a frame which doesn't exist, a text which is none, one which is masked
                    let frame: &[u8] = [&[0x8f, 1, 2][..], &[0x81, 1, 0xff], &[0x81, 0x81, 0, 0, 0, 0, 65]][c % 3];
                    let _ = ws.get_mut().write_all(frame).await;
                    while let Some(Ok(_)) = ws.next().await {}
                    return;
                }
                Some(Cmd::Drop) | None => return,
            },
            m = ws.next() => match m {
                Some(Ok(Message::Text(t))) => log.lock().unwrap().push((c, "text", t.to_string())),
                Some(Ok(Message::Close(_))) | Some(Err(_)) | None => {
                    log.lock().unwrap().push((c, "end", "".into()));
                    return;
                }
                _ => {}
            }
        }
    }
}

async fn serve(l: TcpListener, junk: bool, greet: usize, log: Log, conns: Conns) {
    let mut n = 0;
    loop {
        let Ok((mut s, _)) = l.accept().await else { return };
        n += 1;
        if junk {
            let _ = match n % 3 {
                0 => Ok(()),
                1 => s.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n").await,
                _ => s.write_all(b"\x00\xff nonsense\r\n\r\n").await,
            };
        } else {
            tokio::spawn(connection(s, greet, log.clone(), conns.clone()));
        }
    }
}

/// Lets everything run: the network in real time, the clock only when all wait.
async fn moment() {
    std::thread::sleep(Duration::from_micros(200));
    tokio::time::sleep(Duration::from_millis(50)).await;
}

fn one(b: &Value, rec: &Rec) {
    rec.cfg(json!({}));
    // enough to be rejected
    if LATE.load(Ordering::SeqCst) > 8 {
        return;
    }
    let rt = rt();
    rt.block_on(async {
        let (mut listener, port) = loop {
            let port = 20000 + PORT.fetch_add(1, Ordering::SeqCst) % 12000;
            if let Ok(l) = TcpListener::bind(("127.0.0.1", port)).await {
                break (Some(l), port);
            }
        };
        let mut client: Option<Broker<WSClientIn, WSClientOut>> = None;
        let mut tap = None;
        let mut server: Option<JoinHandle<()>> = None;
        let log: Log = Default::default();
        let conns: Conns = Default::default();
        for (j, op) in arr(&b["ops"]).iter().enumerate() {
            let v = j + 1;
            let r = op.get("r").map(us).unwrap_or(1);
            let mut step = op.clone();
            match op["op"].as_str().unwrap() {
                "mode" => {
                    if let Some(s) = server.take() {
                        s.abort();
                        let _ = s.await;
                    }
                    drop(listener.take());
                    let mode = op["mode"].as_str().unwrap();
                    if mode != "refuse" {
                        let l = TcpListener::bind(("127.0.0.1", port)).await.expect("port is free");
                        server = Some(tokio::spawn(serve(l, mode == "junk", us(&op["greet"]), log.clone(), conns.clone())));
                    }
                }
                "start" => {
                    let mut c = WebSocketClient::connect(&format!("ws://127.0.0.1:{port}")).await.unwrap();
                    tap = Some(c.get_tap_out().await.unwrap().0);
                    client = Some(c);
                }
                "in" => {
                    let c = client.as_mut().unwrap();
                    for (j, x) in arr(&op["xs"]).iter().enumerate() {
                        c.emit_msg_in(match x.as_str().unwrap() {
                            "on" => WSClientIn::Connect,
                            "off" => WSClientIn::Disconnect,
                            _ => WSClientIn::Message(text(v * 100 + j + 1, r)),
                        })
                        .unwrap();
                    }
                }
                "srv" => {
                    // the newest connection
                    if let Some(c) = conns.lock().unwrap().last() {
                        let how = op["how"].as_str().unwrap();
                        if how == "noise" {
                            let _ = c.send(Cmd::Noise);
                        }
                        let _ = c.send(Cmd::Text((1..=us(&op["n"])).map(|j| text(v * 100 + j, r)).collect()));
                        let _ = match how {
                            "noise" => c.send(Cmd::Noise),
                            "close" => c.send(Cmd::Close),
                            "drop" => c.send(Cmd::Drop),
                            "fin" => c.send(Cmd::Fin),
                            "bad" => c.send(Cmd::Bad),
                            _ => Ok(()),
                        };
                    }
                }
                o => panic!("unknown op {o}"),
            }
            let start = Instant::now();
            let mut cl: Vec<WSClientOut> = vec![];
            let mut late;
            // failing attempts to connect are not noticed here
            let mut more = 6 + 6 * op.get("xs").map(|x| arr(x).len()).unwrap_or(2).min(5);
            // wait for what has to come, and then a moment for what should not
            loop {
                moment().await;
                if let Some(t) = tap.as_mut() {
                    cl.extend(drain(t));
                }
                let done = log.lock().unwrap().len() >= us(&op["ws"]) && cl.len() >= us(&op["wc"]);
                late = !done && start.elapsed() > Duration::from_secs(8);
                if done {
                    more -= 1;
                }
                if more == 0 || late {
                    break;
                }
            }
            step["cl"] = cl
                .iter()
                .map(|o| match o {
                    WSClientOut::Message(s) => json!({"k": "text", "m": untext(s, r)}),
                    WSClientOut::Disconnect => json!({"k": "off", "m": 0}),
                    o => json!({"k": format!("{o:?}"), "m": 0}),
                })
                .collect();
            step["srv"] = log.lock().unwrap().drain(..).map(|(c, k, s)| json!({"c": c, "k": k, "m": if k == "text" {untext(&s, r)} else {0}})).collect();
            rec.step(step);
            if late {
                // what should have come didn't: the rest says nothing more
                LATE.fetch_add(1, Ordering::SeqCst);
                break;
            }
        }
    });
    rt.shutdown_background();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    PORT.store((std::process::id() % 12000) as u16, Ordering::SeqCst);
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(120), one);
}
