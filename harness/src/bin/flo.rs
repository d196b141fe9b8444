//! Signed histories of Flos.
use fl_harness::{access::*, *};
use flarch::nodeids::U256;
use flcrypto::{
    access::ConditionSignature,
    signer::Signer,
    tofrombytes::ToFromBytes,
};
use flmodules::{
    dht_storage::core::{Cuckoo, FloConfig},
    flo::{
        flo::{Flo, FloID, FloWrapper},
        realm::RealmID,
    },
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::any::type_name;
use std::time::Duration;

trait Data: Serialize + DeserializeOwned + Clone + PartialEq {
    fn make(x: usize) -> Self;
}
impl Data for String {
    fn make(x: usize) -> Self {
        format!("d{x}")
    }
}
impl Data for Vec<u32> {
    fn make(x: usize) -> Self {
        vec![x as u32; x]
    }
}
impl Data for u64 {
    fn make(x: usize) -> Self {
        x as u64
    }
}

fn value<T: Serialize>(x: &T) -> Value {
    rmp_serde::from_slice(&rmp_serde::to_vec(x).unwrap()).unwrap()
}

struct Ctx {
    w: World,
    rid: RealmID,
    parent: FloID,
    forced: Vec<U256>,
    nonces: Vec<U256>,
    ids: Vec<FloID>,
}

impl Ctx {
    fn config(&self, op: &Value) -> FloConfig {
        FloConfig {
            cuckoo: self.cuckoo(us(&op["cuc"])),
            force_id: self.force(us(&op["force"])),
        }
    }
    fn cuckoo(&self, x: usize) -> Cuckoo {
        match x {
            0 => Cuckoo::None,
            3 => Cuckoo::Parent(self.parent.clone()),
            n => Cuckoo::Duration(n as u32),
        }
    }
    fn force(&self, x: usize) -> Option<U256> {
        (x > 0).then(|| self.forced[x - 1])
    }
    fn who(&self, v: &Value) -> Vec<&Signer> {
        uss(v).into_iter().map(|s| &self.w.signers[s - 1]).collect()
    }
    fn new_flo<T: Data>(&self, op: &Value) -> anyhow::Result<Flo> {
        if op["op"] == "new" {
            Flo::new_signer(self.rid.clone(), self.w.cond(&op["c"]), &T::make(us(&op["x"])), self.config(op), &self.who(&op["S"]))
        } else {
            Flo::new(
                self.rid.clone(),
                self.w.link(&op["l"]),
                &T::make(1),
                self.config(op),
                self.nonces[us(&op["nonce"]) - 1],
                ConditionSignature::empty(),
                ConditionSignature::empty(),
            )
        }
    }
    fn edit<T: Data>(&self, f: &Flo, op: &Value) -> anyhow::Result<Flo> {
        let (c, new, who) = (self.w.cond(&op["c"]), T::make(us(&op["x"])), self.who(&op["S"]));
        if us(&op["via"]) == 2 {
            if let Ok(fw) = FloWrapper::<T>::try_from(f.clone()) {
                let n = fw.edit_data_signers(c, |x| *x = new.clone(), &who)?;
                assert!(n.cache() == &new, "the wrapper holds something else than was written");
                return Ok(n.flo().clone());
            }
        }
        f.update_data_signers(c, new, &who)
    }
    fn cond<T: Data>(&self, f: &Flo, op: &Value) -> anyhow::Result<Flo> {
        let (c, c2) = (self.w.cond(&op["c"]), self.w.cond(&op["c2"]));
        let (x, y) = (self.who(&op["S"]), self.who(&op["Y"]));
        if us(&op["via"]) == 2 {
            if let Ok(mut fw) = FloWrapper::<T>::try_from(f.clone()) {
                return fw.update_cond_signers(c, c2, &x, &y);
            }
        }
        f.update_cond_signers(c, c2, &x, &y)
    }
    fn open<T: Data>(&self, f: &Flo) -> bool {
        match FloWrapper::<T>::try_from(f.clone()) {
            Ok(fw) => (1..=3).any(|x| fw.cache() == &T::make(x)),
            Err(_) => false,
        }
    }
    fn data<T: Data>(&self, x: usize) -> Value {
        json!(T::make(x).to_rmp_bytes().iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
}

macro_rules! typed {
    ($ty:expr, $ctx:ident . $f:ident ( $($a:expr),* )) => {
        match $ty {
            1 => $ctx.$f::<String>($($a),*),
            2 => $ctx.$f::<Vec<u32>>($($a),*),
            _ => $ctx.$f::<u64>($($a),*),
        }
    };
}

const TYPES: [fn() -> &'static str; 3] = [type_name::<String>, type_name::<Vec<u32>>, type_name::<u64>];
fn ty(f: &Flo) -> usize {
    TYPES.iter().position(|t| t() == f.flo_type()).unwrap() + 1
}

// The fields of a serialized Flo.
const TYPE: usize = 1;
const CONFIG: usize = 2;
const DATA: usize = 3;
const VERSION: usize = 4;
const DATA_SIG: usize = 5;
const NONCE: usize = 6;
const GENESIS: usize = 7;
const UPDATES: usize = 8;

/// The list of the fields, wherever the versioning put it.
fn fields(v: &mut Value) -> &mut Vec<Value> {
    if v.is_object() {
        return fields(v.as_object_mut().unwrap().values_mut().next().unwrap());
    }
    let a = v.as_array_mut().unwrap();
    if a.len() == 9 {
        return a;
    }
    fields(a.last_mut().unwrap())
}

fn sigs(f: &mut Vec<Value>, p: usize) -> Option<&mut Value> {
    match p {
        0 => Some(&mut f[GENESIS][1][1]),
        99 => Some(&mut f[DATA_SIG][1]),
        i => f[UPDATES].as_array_mut().unwrap().get_mut(i - 1).map(|u| &mut u[1][1]),
    }
}

fn tamper(c: &Ctx, f: &Flo, g: &Flo, dty: usize, op: &Value) -> anyhow::Result<Flo> {
    let mut fv = value(f);
    let mut gv = value(g);
    let a = fields(&mut fv);
    let b = fields(&mut gv);
    let x = us(&op["x"]);
    let i = us(&op["i"]);
    let n = a[UPDATES].as_array().unwrap().len();
    let inside = i >= 1 && i <= n;
    match op["what"].as_str().unwrap() {
        "data" => a[DATA] = typed!(dty, c.data(x)),
        "dv" => a[VERSION] = json!(x),
        "ty" => a[TYPE] = json!(TYPES[x - 1]()),
        "cuc" => a[CONFIG][0] = value(&c.cuckoo(x)),
        "force" => a[CONFIG][1] = value(&c.force(x)),
        "nonce" => a[NONCE] = value(&c.nonces[x - 1]),
        "glink" => a[GENESIS][0] = value(&c.w.link(&op["l"])),
        "gcond" => a[GENESIS][1][0] = value(&c.w.cond(&op["c"])),
        "dcond" => a[DATA_SIG][0] = value(&c.w.cond(&op["c"])),
        "ulink" if inside => a[UPDATES][i - 1][0] = value(&c.w.link(&op["l"])),
        "ucond" if inside => a[UPDATES][i - 1][1][0] = value(&c.w.cond(&op["c"])),
        "drop" if inside => {
            a[UPDATES].as_array_mut().unwrap().remove(i - 1);
        }
        "dup" if inside => {
            let u = a[UPDATES][i - 1].clone();
            a[UPDATES].as_array_mut().unwrap().push(u);
        }
        "swap" if inside && i < n => a[UPDATES].as_array_mut().unwrap().swap(i - 1, i),
        w @ ("badsig" | "delsig") => {
            let key = value(&c.w.ids[us(&op["s"]) - 1]).as_str().unwrap().to_string();
            if let Some(s) = sigs(a, i) {
                let s = s.as_object_mut().unwrap();
                if w == "delsig" {
                    s.remove(&key);
                } else if let Some(old) = s.get(&key) {
                    let sig = serde_json::from_value(old.clone())?;
                    let new = value(&damage(&sig, x, 3));
                    s.insert(key, new);
                }
            }
        }
        "copysigs" => {
            if let Some(s) = sigs(b, us(&op["j"])).cloned() {
                if let Some(d) = sigs(a, i) {
                    *d = s;
                }
            }
        }
        "copydata" => [DATA, VERSION, DATA_SIG].iter().for_each(|p| a[*p] = b[*p].clone()),
        "copygen" => a[GENESIS] = b[GENESIS].clone(),
        "copyid" => [TYPE, CONFIG, NONCE, GENESIS].iter().for_each(|p| a[*p] = b[*p].clone()),
        "copyups" => a[UPDATES] = b[UPDATES].clone(),
        _ => {}
    }
    Flo::from_rmp_bytes("tampered", &rmp_serde::to_vec(&fv)?.into())
}

fn one(b: &Value, rec: &Rec) {
    let shape = &b["shape"];
    let rid = RealmID::rnd();
    let mut c = Ctx {
        w: World::new(us(&shape["ns"]), &shape["badges"], &rid),
        parent: FloID::rnd(),
        forced: vec![U256::rnd(), U256::rnd()],
        nonces: vec![U256::rnd(), U256::rnd(), U256::rnd()],
        rid,
        ids: vec![],
    };
    rec.cfg(shape.clone());
    // the Flo and the type of its data
    let mut pool: Vec<Option<(Flo, usize)>> = vec![];
    for op in arr(&b["ops"]) {
        let mut step = op.clone();
        let src = op.get("f").map(|f| pool[us(f) - 1].clone());
        let kind = op["op"].as_str().unwrap();
        if let Some(None) = src {
            step["ok"] = json!("skip");
            if kind != "open" {
                pool.push(None);
            }
            rec.step(step);
            continue;
        }
        let src = src.flatten();
        if kind == "open" {
            step["ok"] = yes(typed!(us(&op["ty"]), c.open(&src.unwrap().0)));
            rec.step(step);
            continue;
        }
        let new: anyhow::Result<(Flo, usize)> = match (kind, &src) {
            ("new" | "id", _) => {
                let t = us(&op["ty"]);
                typed!(t, c.new_flo(op)).map(|f| (f, t))
            }
            ("edit", Some((f, _))) => typed!(ty(f), c.edit(f, op)).map(|n| (n, ty(f))),
            ("cond", Some((f, t))) => typed!(ty(f), c.cond(f, op)).map(|n| (n, *t)),
            ("ser", Some((f, t))) => roundtrip(f, us(&op["fmt"])).map(|n| {
                step["same"] = yes(&n == f);
                (n, *t)
            }),
            ("tamper", Some((f, t))) => match &pool[us(&op["g"]) - 1] {
                Some((g, gt)) => tamper(&c, f, g, *t, op).map(|n| (n, if op["what"] == "copydata" { *gt } else { *t })),
                None => Err(anyhow::anyhow!("no such Flo")),
            },
            _ => panic!("unknown op {kind}"),
        };
        step["ok"] = yes(new.is_ok());
        if let Ok((f, _)) = &new {
            let id = f.flo_id();
            let no = c.ids.iter().position(|i| i == &id).unwrap_or_else(|| {
                c.ids.push(id);
                c.ids.len() - 1
            });
            step["id"] = json!(no + 1);
            step["v"] = json!(f.version());
            step["ver"] = yes(f.verify().unwrap_or(false));
            step["cur"] = c.w.link_json(f.cond());
        } else if kind == "ser" {
            step["same"] = json!("no");
        }
        pool.push(new.ok());
        rec.step(step);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    parallel(read_lines(&a[1]), &a[2], Duration::from_secs(60), one);
}
