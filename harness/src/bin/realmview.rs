//! Views on a realm in one real DHT storage: building, creating, editing, refreshing, looking up pages.
use fl_harness::{access::World, *};
use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
};
use flcrypto::{access::Condition, signer::Signer};
use flmodules::{
    dht_router::broker::BrokerDHTRouter,
    dht_storage::{
        broker::DHTStorage,
        core::{Cuckoo, DHTConfig, RealmConfig},
        realm_view::{RealmView, RealmViewBuilder},
    },
    flo::{
        blob::{BlobAccess, BlobFamily, BlobID, BlobPage, BlobPath, BlobTag},
        crypto::{BadgeCond, FloBadge, FloVerifier},
        flo::{FloID, FloWrapper},
        realm::{FloRealm, Realm, RealmID},
    },
    timer::BrokerTimer,
};
use serde_json::{json, Value};
use std::{collections::HashSet, time::Duration};

const UNKNOWN: usize = 99;

struct Ctx {
    w: World,
    badge: FloBadge,
    ids: Vec<BlobID>,
    tags: Vec<bool>,
    unknown: BlobID,
    rid: RealmID,
    ds: DHTStorage,
    rc: Condition,
}

impl Ctx {
    fn id(&self, i: usize) -> BlobID {
        if i == UNKNOWN { self.unknown.clone() } else { self.ids[i - 1].clone() }
    }
    fn num(&self, id: &BlobID) -> usize {
        if *id == self.unknown { UNKNOWN } else { pos(&self.ids, id) }
    }
    fn nums(&self, l: &[BlobID]) -> Vec<usize> {
        l.iter().map(|i| self.num(i)).collect()
    }
    fn fid(&self, id: &FloID) -> usize {
        self.num(&(**id).into())
    }
    fn signers(&self, v: &Value) -> Vec<&Signer> {
        uss(v).iter().map(|i| &self.w.signers[i - 1]).collect()
    }
    fn cond(&self, c: usize) -> Condition {
        let v = |i: usize| json!({"k": "ver", "s": i});
        let n = |n: usize, l: &[usize]| json!({"k": "noft", "n": n, "c": l.iter().map(|i| v(*i)).collect::<Vec<_>>()});
        match c {
            0 => Condition::Pass,
            5 => Condition::Fail,
            12 => self.w.cond(&n(1, &[1, 2])),
            22 => self.w.cond(&n(2, &[1, 2])),
            14 => self.w.cond(&n(1, &[1, 4])),
            1..=4 => self.w.cond(&v(c)),
            _ => {
                let id: flcrypto::access::BadgeID = (*self.badge.flo_id()).into();
                let l = self.badge.badge_link();
                let who = (1..=3).find(|i| self.w.link(&v(*i)) == l.condition).unwrap();
                Condition::Badge(
                    match c {
                        41 => flcrypto::access::VersionSpec::Minimal(id, 0),
                        42 => flcrypto::access::VersionSpec::Exact(id, 1),
                        _ => flcrypto::access::VersionSpec::Maximal(id, 1),
                    },
                    flcrypto::access::Badge { id: l.id, version: l.version, condition: Box::new(self.w.cond(&v(who))) },
                )
            }
        }
    }
    fn cuckoo(&self, v: &Value) -> Cuckoo {
        match v.as_i64().unwrap() {
            0 => Cuckoo::None,
            -1 => Cuckoo::Duration(1000),
            i => Cuckoo::Parent((*self.id(i as usize)).into()),
        }
    }
    fn parent(&self, v: &Value) -> Option<BlobID> {
        (us(v) != 0).then(|| self.id(us(v)))
    }
    fn page(&self, p: &FloWrapper<BlobPage>) -> Value {
        json!({"id": self.num(&p.blob_id()), "k": "p", "ver": p.version(), "name": p.get_path(), "par": self.nums(&p.get_parents()),
            "chi": self.nums(&p.get_children()), "txt": p.get_index().parse::<usize>().unwrap_or(0)})
    }
    fn tag(&self, p: &FloWrapper<BlobTag>) -> Value {
        json!({"id": self.num(&p.blob_id()), "k": "t", "ver": p.version(), "name": p.values().get("name"), "par": self.nums(&p.get_parents()),
            "chi": self.nums(&p.get_children()), "txt": 0})
    }
    fn service(&self, r: &FloRealm, name: &str) -> usize {
        r.cache().get_services().get(name).map_or(0, |f| self.fid(f))
    }
    fn view(&self, rv: &RealmView, looks: &[Vec<String>]) -> Value {
        let cuckoos = |c: &std::collections::HashMap<BlobID, Vec<BlobID>>| c.iter().map(|(k, v)| json!([self.num(k), self.nums(v)])).collect::<Vec<_>>();
        let mut looks: HashSet<Vec<String>> = looks.iter().cloned().collect();
        let mut fp = vec![];
        for id in rv.pages.storage.keys().chain(rv.tags.storage.keys()).chain([&self.unknown]) {
            let path = rv.get_full_path_id(id).ok();
            if let Some(p) = rv.pages.storage.get(id) {
                assert_eq!(rv.get_full_path_blob(p).ok(), path);
            }
            let path: Vec<String> = match path {
                Some(p) => p.strip_prefix('/').expect("full path").split('/').map(|s| s.into()).collect(),
                None => vec![],
            };
            if !path.is_empty() {
                looks.insert(path.clone());
            }
            fp.push(json!([self.num(id), path]));
        }
        let lk: Vec<Value> = looks
            .iter()
            .map(|l| {
                let path = format!("/{}", l.join("/"));
                let found = rv.get_page_from_path(&path).map_or(0, |p| self.num(&p.blob_id()));
                let without = rv.get_page_from_path(&path[1..]).map_or(0, |p| self.num(&p.blob_id()));
                assert_eq!(found, without);
                let (above, last) = rv.get_page_parent_remaining(&path).map_or((0, String::new()), |(p, l)| (self.num(&p.blob_id()), l));
                json!({"path": l, "id": found, "above": above, "last": last})
            })
            .collect();
        json!({
            "pg": rv.pages.storage.iter().map(|(k, p)| { assert_eq!(*k, p.blob_id()); self.page(p) }).collect::<Vec<_>>(),
            "tg": rv.tags.storage.iter().map(|(k, p)| { assert_eq!(*k, p.blob_id()); self.tag(p) }).collect::<Vec<_>>(),
            "pc": cuckoos(&rv.pages.cuckoos), "tc": cuckoos(&rv.tags.cuckoos),
            "pr": self.num(&rv.pages.root), "tr": self.num(&rv.tags.root), "rv": rv.realm.version(),
            "http": self.service(&rv.realm, "http"), "tag": self.service(&rv.realm, "tag"),
            "rootp": rv.get_root_page().is_some(), "roott": rv.get_root_tag().is_some(), "fp": fp, "lk": lk
        })
    }
    async fn sees(&mut self, views: &[RealmView], looks: &[Vec<String>]) -> Value {
        quiesce().await;
        let (mut st, mut ck) = (vec![], vec![]);
        for (i, id) in self.ids.clone().iter().enumerate() {
            let gid = self.rid.global_id((**id).into());
            st.push(match self.tags[i] {
                true => self.ds.get_flo::<BlobTag>(&gid).await.map_or(json!(0), |p| self.tag(&p)),
                false => self.ds.get_flo::<BlobPage>(&gid).await.map_or(json!(0), |p| self.page(&p)),
            });
            ck.push(self.ds.get_cuckoos(&gid).await.unwrap_or_default().iter().map(|f| self.fid(f)).collect::<Vec<_>>());
        }
        let realm = self.ds.get_flo::<Realm>(&self.rid.global_id((*self.rid).into())).await.unwrap();
        json!({"vs": views.iter().map(|v| self.view(v, looks)).collect::<Vec<_>>(), "st": st, "ck": ck,
            "rv": realm.version(), "http": self.service(&realm, "http"), "tag": self.service(&realm, "tag")})
    }
    async fn open(&self, how: &str) -> anyhow::Result<RealmView> {
        let mut ds = self.ds.clone();
        match how {
            "id" => RealmView::new_from_id(ds, self.rid.clone()).await,
            "first" => RealmView::new_first(ds).await,
            _ => ds.get_realm_view(self.rid.clone()).await,
        }
    }
    async fn op(&mut self, op: &Value, views: &mut [RealmView], step: &mut Value) -> anyhow::Result<()> {
        let v = us(&op["v"]) - 1;
        let rv = &mut views[v];
        let id = op.get("id").map(|i| self.id(us(i)));
        match op["op"].as_str().unwrap() {
            "create" => {
                let (name, text, parent) = (op["name"].as_str().unwrap(), op["txt"].to_string(), self.parent(&op["parent"]));
                let (cond, cu, s) = (self.cond(us(&op["cond"])), self.cuckoo(&op["cu"]), self.signers(&op["s"]));
                let p = match cu {
                    Cuckoo::None => rv.create_http(name, text, parent, cond, &s).await?,
                    _ => rv.create_http_cuckoo(name, text, parent, cond, cu, &s).await?,
                };
                self.ids.push(p.blob_id());
                self.tags.push(false);
                step["id"] = json!(self.ids.len());
            }
            "ctag" => {
                let (name, parent) = (op["name"].as_str().unwrap(), self.parent(&op["parent"]));
                let (cond, cu, s) = (self.cond(us(&op["cond"])), self.cuckoo(&op["cu"]), self.signers(&op["s"]));
                let p = match cu {
                    Cuckoo::None => rv.create_tag(name, parent, cond, &s)?,
                    _ => rv.create_tag_cuckoo(name, parent, cond, cu, &s)?,
                };
                self.ids.push(p.blob_id());
                self.tags.push(true);
                step["id"] = json!(self.ids.len());
            }
            "edit" => {
                let id = id.unwrap();
                let links = |v: &Value| uss(v).iter().map(|i| self.id(*i)).collect::<Vec<_>>();
                let (par, chi) = (links(&op["par"]), links(&op["chi"]));
                let s = self.signers(&op["s"]);
                rv.update_page(
                    &id,
                    |p| {
                        let b = &mut p.0;
                        b.set_path(op["name"].as_str().unwrap().into());
                        if b.get_data("index.html").map(|d| d.to_vec()) != Some(op["txt"].to_string().into_bytes()) {
                            b.set_data("index.html".into(), op["txt"].to_string().into());
                        }
                        // one by one, where this leads there
                        let old = b.get_parents();
                        if par.len() == old.len() + 1 && par.starts_with(&old) {
                            b.add_parent(par.last().unwrap().clone());
                        } else if let Some(o) = old.iter().find(|o| old.iter().filter(|x| x != o).cloned().collect::<Vec<_>>() == par) {
                            b.rm_parent(o);
                        } else if old != par {
                            b.set_parents(par);
                        }
                        if b.get_children() != chi {
                            b.set_children(chi);
                        }
                    },
                    &s,
                )
                .await?;
            }
            "service" => {
                let s = self.signers(&op["s"]);
                match op["what"].as_str().unwrap() {
                    "http" => rv.set_realm_http(id.unwrap(), &s).await?,
                    _ => rv.set_realm_tag(id.unwrap(), &s).await?,
                }
            }
            "fetch" => rv.fetch_page(id.unwrap()).await?,
            "attached" => {
                let got = rv.pages.get_cuckoos(id.unwrap()).await?;
                step["got"] = got.iter().map(|p| json!(self.num(&p.blob_id()))).collect();
            }
            "ftag" => rv.fetch_tag(id.unwrap()).await?,
            "refresh" => rv.update_pages().await?,
            "rtags" => rv.update_tags().await?,
            "realm" => {
                rv.update_realm().await?;
            }
            "all" => rv.update_all().await?,
            "walk" => {
                let mut seen = HashSet::new();
                loop {
                    let links: HashSet<BlobID> = rv.pages.storage.iter().flat_map(|(k, p)| p.get_parents().into_iter().chain(p.get_children()).chain([k.clone()])).collect();
                    let new: Vec<BlobID> = links.difference(&seen).cloned().collect();
                    if new.is_empty() {
                        break;
                    }
                    for id in new {
                        rv.fetch_page(id.clone()).await?;
                        seen.insert(id);
                    }
                }
            }
            "open" => views[v] = self.open(op["how"].as_str().unwrap()).await?,
            "badge" => {
                let link = self.w.link(&json!({"k": "ver", "s": op["who"]}));
                self.badge = self.badge.edit_data_signers(Condition::Pass, |b| *b = BadgeCond::new(link), &[])?;
                self.ds.store_flo(self.badge.clone().into())?;
            }
            "look" => {}
            o => panic!("unknown op {o}"),
        }
        Ok(())
    }
}

fn one(b: &Value, rec: &Rec) {
    rec.cfg(b["cfg"].clone());
    let rt = rt();
    rt.block_on(async {
        let cfg = &b["cfg"];
        let timer: BrokerTimer = Broker::new();
        let router: BrokerDHTRouter = Broker::new();
        let mut ds = DHTStorage::start(Box::new(MemStorage::default()), DHTConfig::default(NodeID::rnd()), timer, router).await.unwrap();
        // a realm nobody can have a view on
        let config = RealmConfig { max_space: 1_000_000, max_flo_size: 10_000 };
        ds.store_flo(FloRealm::new("partial", Condition::Pass, config.clone(), &[]).unwrap().into()).unwrap();
        let w = World::new(4, &json!([]), &RealmID::rnd());
        // The ID of the badge must be known before the realm.
        let first = BadgeCond::new(w.link(&json!({"k": "ver", "s": 1})));
        let badge = FloBadge::from_force_id(RealmID::zero(), first.clone(), U256::hash_data(b"badge")).unwrap();
        let mut c = Ctx { w, badge, ids: vec![], tags: vec![], unknown: BlobID::rnd(), rid: RealmID::zero(), ds: ds.clone(), rc: Condition::Pass };
        c.rc = c.cond(us(&cfg["rc"]));
        let sig = |n: usize| -> Vec<Signer> {
            let l: &[usize] = match n {
                0 => &[],
                22 => &[1, 2],
                _ => &[1],
            };
            l.iter().map(|i| c.w.signers[i - 1].clone()).collect()
        };
        let mut builder = RealmViewBuilder::new(ds.clone(), "realm".into(), c.rc.clone(), sig(us(&cfg["rc"]))).config(config);
        let (name, pc) = (cfg["name"].as_str().unwrap().to_string(), us(&cfg["pc"]));
        builder = match c.cuckoo(&cfg["cu"]) {
            Cuckoo::None => builder.root_http(name, "0".into(), None, c.cond(pc), sig(pc)),
            cu => builder.root_http_cuckoo(name, "0".into(), None, c.cond(pc), cu, sig(pc)),
        };
        builder = builder.root_tag_cuckoo("t".into(), None, Condition::Pass, Cuckoo::Duration(1000), vec![]);
        let rv = builder.build().await.unwrap();
        c.rid = rv.realm.realm_id();
        c.ids = vec![rv.pages.root.clone(), rv.tags.root.clone()];
        c.tags = vec![false, true];
        for i in 0..3 {
            ds.store_flo(FloVerifier::new(c.rid.clone(), flcrypto::signer::SignerTrait::verifier(&c.w.signers[i])).into()).unwrap();
        }
        c.badge = FloBadge::from_type_config(
            c.rid.clone(),
            Condition::Pass,
            flmodules::dht_storage::core::FloConfig { cuckoo: Cuckoo::None, force_id: Some(U256::hash_data(b"badge")) },
            first,
            &[],
        )
        .unwrap();
        ds.store_flo(c.badge.clone().into()).unwrap();
        quiesce().await;
        let mut views = vec![rv, c.open("id").await.unwrap()];
        let mut step = json!({"op": "start", "ok": true, "see": true});
        step["sees"] = c.sees(&views, &[]).await;
        rec.step(step);
        for op in arr(&b["ops"]) {
            let mut step = op.clone();
            let r = c.op(op, &mut views, &mut step).await;
            step["ok"] = json!(r.is_ok());
            if let Err(e) = r {
                step["err"] = json!(e.to_string());
            }
            if op["see"].as_bool().unwrap() {
                let looks = op.get("path").map(|p| vec![arr(p).iter().map(|n| n.as_str().unwrap().to_string()).collect()]).unwrap_or_default();
                step["sees"] = c.sees(&views, &looks).await;
            }
            rec.step(step);
        }
    });
    rt.shutdown_background();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(120), one);
}
