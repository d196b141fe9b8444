//! Conditions, signatures and links.
use bytes::Bytes;
use fl_harness::{access::*, *};
use flarch::{broker::Broker, nodeids::U256};
use flcrypto::{
    access::{BadgeID, Condition, ConditionSignature, VersionSpec},
    signer::{KeyPairID, SignerTrait},
};
use flmodules::{
    dht_router::broker::BrokerDHTRouter,
    dht_storage::{
        broker::DHTStorage,
        core::{DHTConfig, RealmConfig},
    },
    flo::{crypto::FloVerifier, realm::FloRealm},
    timer::BrokerTimer,
};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

fn one(b: &Value, rec: &Rec) {
    rt().block_on(async {
        let shape = &b["shape"];
        let realm = FloRealm::new("realm", Condition::Pass, RealmConfig { max_space: 10_000_000, max_flo_size: 1_000_000 }, &[]).unwrap();
        let rid = realm.realm_id();
        let w = World::new(us(&shape["ns"]), &shape["badges"], &rid);
        let known = uss(&shape["known"]);
        let mut dht: Option<DHTStorage> = None;
        rec.cfg(shape.clone());
        let digests = [U256::rnd(), U256::rnd()];
        let msgs = [Bytes::from("first"), Bytes::from("second")];
        let mut cs = ConditionSignature::empty();
        for (i, op) in arr(&b["ops"]).iter().enumerate() {
            let mut step = op.clone();
            let m = op.get("m").map(|m| us(m) - 1).unwrap_or(0);
            match op["op"].as_str().unwrap() {
                "cond" => {
                    cs.condition = w.cond(&op["c"]);
                    if us(&op["keep"]) == 0 {
                        cs.signatures.clear();
                    }
                }
                "sign" => step["r"] = yes(cs.sign_msg(w.signer(&op["s"]), &msgs[m]).is_ok()),
                "signd" => step["r"] = yes(cs.sign_digest(w.signer(&op["s"]), &digests[m]).is_ok()),
                "put" => {
                    let sig = damage(&sign_raw(w.signer(&op["by"]), &digests[m]), us(&op["bad"]), i * 7);
                    cs.signatures.insert(w.signer(&op["s"]).get_id(), sig);
                }
                "damage" => {
                    if let Some(sig) = cs.signatures.get_mut(&w.signer(&op["s"]).get_id()) {
                        *sig = damage(sig, us(&op["bad"]), i * 7);
                    }
                }
                "move" => {
                    if let Some(sig) = cs.signatures.remove(&w.signer(&op["s"]).get_id()) {
                        cs.signatures.insert(w.signer(&op["y"]).get_id(), sig);
                    }
                }
                "del" => {
                    cs.signatures.remove(&w.signer(&op["s"]).get_id());
                }
                "ser" => {
                    let back = roundtrip(&cs, us(&op["f"])).ok();
                    step["r"] = yes(back.as_ref() == Some(&cs));
                    cs = back.unwrap_or(cs);
                }
                "vmsg" => step["r"] = yes(cs.verify_msg(&msgs[m]).unwrap_or(false)),
                "vdig" => step["r"] = yes(verifies(&cs, &digests[m])),
                "match" => {
                    let link = w.link(&op["l"]);
                    step["r"] = match catch_unwind(AssertUnwindSafe(|| cs.condition.equal_link(&link))) {
                        Ok(r) => yes(r),
                        Err(_) => {
                            take_panic();
                            json!("panic")
                        }
                    }
                }
                "can" => {
                    let ss: Vec<_> = uss(&op["S"]).into_iter().map(|s| &w.signers[s - 1]).collect();
                    let ids: Vec<KeyPairID> = ss.iter().map(|s| s.get_id()).collect();
                    let (a, b) = (cs.condition.can_sign(&ids.iter().collect::<Vec<_>>()), cs.condition.can_signers(&ss));
                    step["r"] = if a == b { yes(a) } else { json!("differ") };
                }
                "resolve" => {
                    let link = w.link(&op["l"]);
                    let c = if us(&op["via"]) == 1 {
                        let (w, known) = (&w, &known);
                        link.to_condition(
                            &|spec: VersionSpec<BadgeID>| async move { w.badge_link(&spec) },
                            &|id: KeyPairID| async move { w.verifier(&id, known) },
                        )
                        .await
                    } else {
                        if dht.is_none() {
                            let router: BrokerDHTRouter = Broker::new();
                            let timer: BrokerTimer = Broker::new();
                            let config = DHTConfig { our_id: U256::rnd(), realms: vec![], owned: vec![], timeout: 100 };
                            let mut d = DHTStorage::start(Box::new(MemStorage::default()), config, timer, router).await.unwrap();
                            d.store_flo(realm.flo().clone()).unwrap();
                            for s in &known {
                                d.store_flo(FloVerifier::new(rid.clone(), w.signers[s - 1].verifier()).into()).unwrap();
                            }
                            for b in &w.badges {
                                d.store_flo(b.clone().into()).unwrap();
                            }
                            quiesce().await;
                            dht = Some(d);
                        }
                        dht.as_mut().unwrap().convert(&link, &rid).await
                    };
                    step["res"] = w.cond_json(&c);
                }
                o => panic!("unknown op {o}"),
            }
            rec.step(step);
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), one);
}
