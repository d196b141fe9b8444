//! Real Flos for abstract shapes.
use crate::{common_bits, us, uss};
use flarch::nodeids::{NodeID, U256};
use flcrypto::{access::Condition, tofrombytes::ToFromBytes};
use flmodules::{
    dht_storage::core::{Cuckoo, DHTConfig, FloConfig, RealmConfig, RealmStorage},
    flo::{
        flo::{Flo, FloID},
        realm::{FloRealm, RealmID},
    },
};
use serde_json::{json, Value};
use std::collections::HashMap;

/// Bytes of data per abstract unit of size (the entry holds the data as hexadecimal digits).
pub const UNIT: usize = 10;

pub struct Universe {
    pub our_id: NodeID,
    pub rids: Vec<RealmID>,
    pub ids: Vec<FloID>,
    pub flos: Vec<Vec<Flo>>, // [id-1][content index]
    pub realm_of: Vec<usize>,
    pub cfg: Value,
    index: HashMap<FloID, usize>,
}

fn pad(base: &str, units: usize) -> String {
    format!("{base}{}", "x".repeat(units * UNIT))
}

/// More than the first bits which the other Flos are made for.
const FREE: usize = 6;

/// An ID which has the first `depth` bits in common with this one, and no more.
fn near(id: &NodeID, depth: usize) -> NodeID {
    let mut b: [u8; 32] = id.to_bytes();
    b[depth / 8] ^= 0x80 >> (depth % 8);
    b.into()
}

impl Universe {
    /// shape: {"realms":[{"max"}], "flos":[{"realm","root","depth","parent","vers":[{"ver","units"}]}], "accept":[..]}
    ///
    /// Depths come by trial, but the first Flo deeper than 6 can be as deep as one likes: our ID then moves close to it, keeping
    /// the first bits which the other Flos were made for.
    pub fn new(shape: &Value) -> Self {
        let mut our_id = U256::rnd();
        let mut moved = false;
        let mut u = Universe {
            our_id,
            rids: vec![],
            ids: vec![],
            flos: vec![],
            realm_of: vec![],
            cfg: json!(null),
            index: HashMap::new(),
        };
        let realms = shape["realms"].as_array().unwrap();
        let maxs: Vec<u64> = realms.iter().map(|r| us(&r["max"]) as u64 * 2 * UNIT as u64).collect();
        let mut cfg_flos = vec![];
        let mut roots = vec![0; realms.len()];
        let n = shape["flos"].as_array().unwrap().len();
        for f in shape["flos"].as_array().unwrap() {
            let realm = us(&f["realm"]);
            let depth = us(&f["depth"]);
            let max = maxs[realm - 1];
            let parent = us(&f["parent"]);
            let vers = f["vers"].as_array().unwrap();
            let units = |i: usize| us(&vers[i]["units"]);
            let id = u.ids.len() + 1;
            let is_root = f["root"].as_bool().unwrap();
            let base: Flo = loop {
                let flo: Flo = if is_root {
                    FloRealm::new(
                        &pad(&format!("r{realm}"), units(0)),
                        Condition::Pass,
                        RealmConfig { max_space: max, max_flo_size: 1_000_000 },
                        &[],
                    )
                    .unwrap()
                    .flo()
                    .clone()
                } else {
                    Flo::new_signer(
                        u.rids[realm - 1].clone(),
                        Condition::Pass,
                        &pad(&format!("f{id}-0"), units(0)),
                        FloConfig {
                            cuckoo: if parent > 0 { Cuckoo::Parent(u.ids[parent - 1].clone()) } else { Cuckoo::Duration(100_000) },
                            force_id: None,
                        },
                        &[],
                    )
                    .unwrap()
                };
                let common = common_bits(&our_id, &flo.flo_id());
                if common == depth {
                    moved |= depth > FREE;
                    break flo;
                }
                if depth > FREE && common >= FREE && !moved {
                    moved = true;
                    our_id = near(&flo.flo_id(), depth);
                    u.our_id = our_id;
                    assert_eq!(common_bits(&our_id, &flo.flo_id()), depth);
                    break flo;
                }
            };
            if is_root {
                roots[realm - 1] = id;
                u.rids.push(base.realm_id());
                assert_eq!(u.rids.len(), realm);
            }
            let mut contents = vec![base.clone()];
            for (i, v) in vers.iter().enumerate().skip(1) {
                let mut flo = base.clone();
                let ver = us(&v["ver"]);
                for step in 1..=ver {
                    let text = if step == ver { pad(&format!("f{id}-{i}"), units(i)) } else { format!("s{step}") };
                    flo = if is_root {
                        let fr: FloRealm = flo.clone().try_into().unwrap();
                        let fid: FloID = FloID::from(U256::hash_data(text.as_bytes()));
                        fr.edit_data_signers(Condition::Pass, |r| r.set_service(&text, fid), &[]).unwrap().flo().clone()
                    } else {
                        flo.update_data_signers(Condition::Pass, text, &[]).unwrap()
                    };
                }
                contents.push(flo);
            }
            u.index.insert(base.flo_id(), id);
            u.ids.push(base.flo_id());
            u.realm_of.push(realm);
            u.flos.push(contents);
        }
        for id in 1..=n {
            let f = &shape["flos"][id - 1];
            let max = maxs[u.realm_of[id - 1] - 1];
            let vers: Vec<Value> = u.flos[id - 1]
                .iter()
                .enumerate()
                .map(|(i, flo)| {
                    json!({"ver": us(&f["vers"][i]["ver"]), "third": flo.size() as u64 * 3 > max, "sz": u.sizes(flo, n)})
                })
                .collect();
            cfg_flos.push(json!({"realm": u.realm_of[id-1], "depth": us(&f["depth"]), "parent": us(&f["parent"]), "vers": vers}));
        }
        let acc = uss(&shape["accept"]);
        let cfg_realms: Vec<Value> = (1..=realms.len())
            .map(|r| json!({"max": maxs[r-1], "root": roots[r-1], "acc": acc.is_empty() || acc.contains(&r)}))
            .collect();
        u.cfg = json!({"realms": cfg_realms, "flos": cfg_flos, "accept": acc});
        u
    }

    /// What an entry of this Flo occupies with 0..=n attachments, measured alone in an unlimited realm.
    fn sizes(&self, flo: &Flo, n: usize) -> Vec<u64> {
        let realm = FloRealm::new(
            "calibrate",
            Condition::Pass,
            RealmConfig { max_space: 1 << 40, max_flo_size: 1 << 30 },
            &[],
        )
        .unwrap();
        let mut rs = RealmStorage::new(DHTConfig::default(self.our_id), realm).unwrap();
        let s0 = rs.size;
        rs.upsert_flo(flo.clone());
        let mut out = vec![rs.size - s0];
        for i in 0..n {
            rs.store_cuckoo_id(&flo.flo_id(), FloID::from(U256::hash_data(&[i as u8])));
            out.push(rs.size - s0);
        }
        // An entry cannot occupy less than its Flo and its attachments.
        let min = flo.size() as u64;
        out.iter().enumerate().map(|(i, s)| (*s).max(min + 32 * i as u64)).collect()
    }

    pub fn id_of(&self, id: &FloID) -> usize {
        self.index.get(id).copied().unwrap_or(0)
    }

    /// (id, content index); content index -1 when it is none of the known contents.
    pub fn content(&self, flo: &Flo) -> (usize, i64) {
        let id = self.id_of(&flo.flo_id());
        if id == 0 || flo.realm_id() != self.rids[self.realm_of[id - 1] - 1] {
            return (0, -1);
        }
        (id, self.flos[id - 1].iter().position(|f| f == flo).map_or(-1, |p| p as i64))
    }

    pub fn realm(&self, r: &RealmID) -> usize {
        crate::pos(&self.rids, r)
    }
    pub fn cids(&self, c: &[FloID]) -> Vec<usize> {
        c.iter().map(|x| self.id_of(x)).collect()
    }
    pub fn fc(&self, fc: &(Flo, Vec<FloID>)) -> Value {
        let (id, v) = self.content(&fc.0);
        json!({"id": id, "v": v, "c": self.cids(&fc.1)})
    }
}
