//! Signers, badges, conditions and their links for abstract values.
use crate::{arr, us};
use flarch::nodeids::U256;
use flcrypto::{
    access::{Badge, BadgeID, BadgeLink, Condition, ConditionLink, ConditionSignature, VersionSpec},
    signer::{KeyPairID, Signature, Signer, SignerTrait, Verifier, VerifierTrait},
    signer_ed25519::SignerEd25519,
    tofrombytes::ToFromBytes,
};
use flmodules::flo::{
    crypto::{BadgeCond, FloBadge},
    realm::RealmID,
};
use serde_json::{json, Value};

pub struct World {
    pub signers: Vec<Signer>,
    pub ids: Vec<KeyPairID>,
    pub badges: Vec<FloBadge>,
    pub badge_ids: Vec<BadgeID>,
    kinds: [&'static str; 3],
}

impl World {
    /// `badges`: [{"v", "link"}], a link only names earlier badges.
    pub fn new(ns: usize, badges: &Value, rid: &RealmID) -> Self {
        // some more signers and badges which nobody knows
        let signers: Vec<Signer> = (0..ns + 4).map(|_| SignerEd25519::new()).collect();
        let ids = signers.iter().map(|s| s.get_id()).collect();
        let mut w = World { signers, ids, badges: vec![], badge_ids: vec![], kinds: ["min", "exact", "max"] };
        for b in arr(badges) {
            let link = w.link(&b["link"]);
            let n = us(&b["v"]);
            let make = |v: usize| if v == n { BadgeCond::new(link.clone()) } else { BadgeCond::new(ConditionLink::Pass) };
            let mut flo = FloBadge::from_type(rid.clone(), Condition::Pass, make(0), &[]).unwrap();
            for v in 1..=n {
                flo = flo.edit_data_signers(Condition::Pass, |x| *x = make(v), &[]).unwrap();
            }
            w.badge_ids.push((*flo.flo_id()).into());
            w.badges.push(flo);
        }
        for _ in 0..4 {
            w.badge_ids.push(BadgeID::rnd());
        }
        w
    }

    pub fn signer(&self, v: &Value) -> &Signer {
        &self.signers[us(v) - 1]
    }

    fn spec(&self, v: &Value) -> VersionSpec<BadgeID> {
        let (id, ver) = (self.badge_ids[us(&v["id"]) - 1].clone(), us(&v["v"]) as u32);
        match v["kind"].as_str().unwrap() {
            "min" => VersionSpec::Minimal(id, ver),
            "exact" => VersionSpec::Exact(id, ver),
            _ => VersionSpec::Maximal(id, ver),
        }
    }

    fn list<'a>(v: &'a Value) -> Vec<&'a Value> {
        v.as_array().map(|a| a.iter().collect()).unwrap_or_default()
    }

    pub fn link(&self, v: &Value) -> ConditionLink {
        match v["k"].as_str().unwrap() {
            "ver" => ConditionLink::Verifier(self.ids[us(&v["s"]) - 1].clone()),
            "badge" => ConditionLink::Badge(self.spec(v)),
            "noft" => ConditionLink::NofT(us(&v["n"]) as u32, Self::list(&v["c"]).iter().map(|c| self.link(c)).collect()),
            "pass" => ConditionLink::Pass,
            "fail" => ConditionLink::Fail,
            k => panic!("unknown link {k}"),
        }
    }

    pub fn cond(&self, v: &Value) -> Condition {
        match v["k"].as_str().unwrap() {
            "ver" => Condition::Verifier(self.signer(&v["s"]).verifier()),
            "badge" => Condition::Badge(
                self.spec(v),
                Badge {
                    id: self.badge_ids[us(&v["bid"]) - 1].clone(),
                    version: us(&v["bv"]) as u32,
                    condition: Box::new(self.cond(&v["c"])),
                },
            ),
            "noft" => Condition::NofT(us(&v["n"]) as u32, Self::list(&v["c"]).iter().map(|c| self.cond(c)).collect()),
            "pass" => Condition::Pass,
            "fail" => Condition::Fail,
            "na" => Condition::NotAvailable,
            k => panic!("unknown condition {k}"),
        }
    }

    pub fn cond_json(&self, c: &Condition) -> Value {
        match c {
            Condition::Verifier(v) => json!({"k": "ver", "s": self.ids.iter().position(|i| i == &v.get_id()).map(|p| p + 1).unwrap_or(0)}),
            Condition::Badge(spec, b) => {
                let mut j = self.spec_json(spec);
                j["bid"] = json!(self.badge_no(&b.id));
                j["bv"] = json!(b.version);
                j["c"] = self.cond_json(&b.condition);
                j
            }
            Condition::NofT(n, cs) => json!({"k": "noft", "n": n, "c": cs.iter().map(|c| self.cond_json(c)).collect::<Vec<_>>()}),
            Condition::NotAvailable => json!({"k": "na"}),
            Condition::Pass => json!({"k": "pass"}),
            Condition::Fail => json!({"k": "fail"}),
        }
    }

    pub fn link_json(&self, l: &ConditionLink) -> Value {
        match l {
            ConditionLink::Verifier(v) => json!({"k": "ver", "s": self.ids.iter().position(|i| i == v).map(|p| p + 1).unwrap_or(0)}),
            ConditionLink::Badge(spec) => self.spec_json(spec),
            ConditionLink::NofT(n, ls) => json!({"k": "noft", "n": n, "c": ls.iter().map(|l| self.link_json(l)).collect::<Vec<_>>()}),
            ConditionLink::Pass => json!({"k": "pass"}),
            ConditionLink::Fail => json!({"k": "fail"}),
        }
    }

    fn badge_no(&self, id: &BadgeID) -> usize {
        self.badge_ids.iter().position(|b| b == id).map(|p| p + 1).unwrap_or(0)
    }

    fn spec_json(&self, spec: &VersionSpec<BadgeID>) -> Value {
        let (kind, id, v) = match spec {
            VersionSpec::Minimal(id, v) => (0, id, v),
            VersionSpec::Exact(id, v) => (1, id, v),
            VersionSpec::Maximal(id, v) => (2, id, v),
        };
        json!({"k": "badge", "kind": self.kinds[kind], "id": self.badge_no(id), "v": v})
    }

    /// What a badge lookup gives.
    pub fn badge_link(&self, spec: &VersionSpec<BadgeID>) -> Option<BadgeLink> {
        self.badges.iter().map(|b| b.badge_link()).find(|b| b.fits_version(spec.clone()))
    }

    pub fn verifier(&self, id: &KeyPairID, known: &[usize]) -> Option<Verifier> {
        self.ids.iter().position(|i| i == id).filter(|p| known.contains(&(p + 1))).map(|p| self.signers[p].verifier())
    }
}

/// A signature, damaged in one of several ways (0: not at all).
pub fn damage(sig: &Signature, bad: usize, salt: usize) -> Signature {
    let mut b = sig.bytes().to_vec();
    match bad {
        0 => {}
        1 if !b.is_empty() => {
            let l = b.len();
            b[salt % l] ^= 1 << (salt % 8)
        }
        2 => b.truncate(b.len() / 2),
        3 => b.push(0),
        _ => b.clear(),
    }
    b.into()
}

/// Through one of the serializations in use, and back.
pub fn roundtrip<T: ToFromBytes>(x: &T, format: usize) -> anyhow::Result<T> {
    Ok(match format {
        1 => serde_yaml::from_str(&serde_yaml::to_string(x)?)?,
        2 => serde_json::from_str(&serde_json::to_string(x)?)?,
        _ => T::from_rmp_bytes("roundtrip", &x.to_rmp_bytes())?,
    })
}

pub fn yes(b: bool) -> Value {
    json!(if b { "yes" } else { "no" })
}

pub fn sign_raw(s: &Signer, digest: &U256) -> Signature {
    s.sign(&digest.bytes()).unwrap()
}

pub fn verifies(c: &ConditionSignature, digest: &U256) -> bool {
    c.verify_digest(digest).unwrap_or(false)
}
