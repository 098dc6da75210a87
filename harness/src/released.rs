//! The interface of released program versions, read from the published interface descriptions of those releases:
//! instruction arguments and accounts, account layouts, events.

use crate::abi::*;
use crate::world::Ix;
use anchor_lang::prelude::Pubkey;
use serde_json::Value as J;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use std::sync::OnceLock;

const TEXT: [(&str, &str); 4] = [
    ("0.1.2", include_str!("../idl/release_0.1.2.json")),
    ("0.1.3", include_str!("../idl/release_0.1.3.json")),
    ("0.1.4", include_str!("../idl/release_0.1.4.json")),
    ("0.1.6", include_str!("../idl/release_0.1.6.json")),
];

/// withdrawn, or announced as changed, by later releases; the descriptions of DAMM v2's migration leave out that the
/// position mints sign
const CHANGED: [&str; 7] = [
    "migration_damm_v2",
    "claim_protocol_fee",
    "protocol_withdraw_surplus",
    "create_claim_fee_operator",
    "close_claim_fee_operator",
    "withdraw_lamports_from_pool_authority",
    "migration_damm_v2_create_metadata",
];

pub enum Ty {
    Uint(usize),
    Int(usize),
    Bool,
    Key,
    Str,
    Array(Box<Ty>, usize),
    Vec(Box<Ty>),
    Option(Box<Ty>),
    Struct(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(u128),
    Key(Pubkey),
    Str(String),
    List(Vec<V>),
    Option(Option<Box<V>>),
    Struct(Vec<(String, V)>),
}

pub struct Acct {
    pub name: String,
    pub signer: bool,
    pub writable: bool,
    pub optional: bool,
    pub address: Option<Pubkey>,
}

pub struct IxDef {
    pub name: String,
    pub accounts: Vec<Acct>,
    pub args: Vec<(String, Ty)>,
}

pub struct Release {
    pub version: &'static str,
    types: HashMap<String, Vec<(String, Ty)>>,
    pub ixs: HashMap<[u8; 8], IxDef>,
    pub events: HashMap<[u8; 8], String>,
    pub accounts: HashMap<[u8; 8], String>,
}

fn ty(j: &J) -> Ty {
    if let Some(s) = j.as_str() {
        return match s {
            "bool" => Ty::Bool,
            "pubkey" => Ty::Key,
            "string" => Ty::Str,
            _ => {
                let n: usize = s[1..].parse().unwrap_or_else(|_| panic!("HARNESS: type {s}"));
                if s.starts_with('u') {
                    Ty::Uint(n / 8)
                } else {
                    Ty::Int(n / 8)
                }
            }
        };
    }
    if let Some(d) = j.get("defined") {
        return Ty::Struct(d["name"].as_str().unwrap().into());
    }
    if let Some(a) = j.get("array") {
        return Ty::Array(Box::new(ty(&a[0])), a[1].as_u64().unwrap() as usize);
    }
    if let Some(a) = j.get("vec") {
        return Ty::Vec(Box::new(ty(a)));
    }
    if let Some(a) = j.get("option") {
        return Ty::Option(Box::new(ty(a)));
    }
    panic!("HARNESS: type {j}");
}

fn fields(j: &J) -> Vec<(String, Ty)> {
    j.as_array().map(|v| v.iter().map(|f| (f["name"].as_str().unwrap().to_string(), ty(&f["type"]))).collect()).unwrap_or_default()
}

fn disc(j: &J) -> [u8; 8] {
    let v: Vec<u8> = j["discriminator"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    v.try_into().unwrap()
}

fn parse(version: &'static str, text: &str) -> Release {
    let j: J = serde_json::from_str(text).expect("HARNESS: interface description");
    let list = |k: &str| j[k].as_array().cloned().unwrap_or_default();
    let named = |k: &str| list(k).iter().map(|x| (disc(x), x["name"].as_str().unwrap().to_string())).collect::<HashMap<_, _>>();
    let mut r = Release { version, types: HashMap::new(), ixs: HashMap::new(), events: named("events"), accounts: named("accounts") };
    for t in list("types") {
        if t["type"]["kind"] == "struct" {
            r.types.insert(t["name"].as_str().unwrap().into(), fields(&t["type"]["fields"]));
        }
    }
    for i in list("instructions") {
        let flag = |a: &J, k: &str| a[k].as_bool().unwrap_or(false);
        let accounts = i["accounts"].as_array().unwrap().iter().map(|a| Acct {
            name: a["name"].as_str().unwrap().into(),
            signer: flag(a, "signer"),
            writable: flag(a, "writable"),
            optional: flag(a, "optional"),
            address: a["address"].as_str().map(|s| Pubkey::from_str(s).unwrap()),
        });
        let x = IxDef { name: i["name"].as_str().unwrap().into(), accounts: accounts.collect(), args: fields(&i["args"]) };
        r.ixs.insert(disc(&i), x);
    }
    r
}

pub fn releases() -> &'static [Release] {
    static R: OnceLock<Vec<Release>> = OnceLock::new();
    R.get_or_init(|| TEXT.iter().map(|(v, t)| parse(v, t)).collect())
}

impl Release {
    pub fn before(&self, v: &str) -> bool {
        self.version < v
    }
    pub fn read(&self, t: &Ty, d: &mut &[u8]) -> Option<V> {
        let mut take = |n: usize| -> Option<&[u8]> {
            if d.len() < n {
                return None;
            }
            let (a, b) = d.split_at(n);
            *d = b;
            Some(a)
        };
        Some(match t {
            Ty::Uint(n) | Ty::Int(n) => {
                let mut x = [0u8; 16];
                x[..*n].copy_from_slice(take(*n)?);
                V::N(u128::from_le_bytes(x))
            }
            Ty::Bool => match take(1)?[0] {
                x @ 0..=1 => V::N(x as u128),
                _ => return None,
            },
            Ty::Key => V::Key(Pubkey::try_from(take(32)?).unwrap()),
            Ty::Str => {
                let n = u32::from_le_bytes(take(4)?.try_into().unwrap()) as usize;
                V::Str(String::from_utf8(take(n)?.to_vec()).ok()?)
            }
            Ty::Array(e, n) => V::List((0..*n).map(|_| self.read(e, d)).collect::<Option<_>>()?),
            Ty::Vec(e) => {
                let n = u32::from_le_bytes(take(4)?.try_into().unwrap());
                if n > 10_000 {
                    return None;
                }
                V::List((0..n).map(|_| self.read(e, d)).collect::<Option<_>>()?)
            }
            Ty::Option(e) => match take(1)?[0] {
                0 => V::Option(None),
                1 => V::Option(Some(Box::new(self.read(e, d)?))),
                _ => return None,
            },
            Ty::Struct(s) => self.read_struct(s, d)?,
        })
    }
    pub fn read_struct(&self, name: &str, d: &mut &[u8]) -> Option<V> {
        let f = self.types.get(name)?;
        Some(V::Struct(f.iter().map(|(n, t)| self.read(t, d).map(|v| (n.clone(), v))).collect::<Option<_>>()?))
    }
    pub fn write(&self, t: &Ty, v: &V, out: &mut Vec<u8>) {
        match (t, v) {
            (Ty::Uint(n) | Ty::Int(n), V::N(x)) => out.extend(&x.to_le_bytes()[..*n]),
            (Ty::Bool, V::N(x)) => out.push(*x as u8),
            (Ty::Key, V::Key(k)) => out.extend(k.as_ref()),
            (Ty::Str, V::Str(s)) => {
                out.extend((s.len() as u32).to_le_bytes());
                out.extend(s.as_bytes());
            }
            (Ty::Array(e, n), V::List(l)) => {
                assert_eq!(l.len(), *n, "HARNESS: array");
                l.iter().for_each(|x| self.write(e, x, out));
            }
            (Ty::Vec(e), V::List(l)) => {
                out.extend((l.len() as u32).to_le_bytes());
                l.iter().for_each(|x| self.write(e, x, out));
            }
            (Ty::Option(_), V::Option(None)) => out.push(0),
            (Ty::Option(e), V::Option(Some(x))) => {
                out.push(1);
                self.write(e, x, out);
            }
            (Ty::Struct(s), V::Struct(_)) => self.write_struct(s, v, out),
            _ => panic!("HARNESS: {v:?} does not fit"),
        }
    }
    pub fn write_struct(&self, name: &str, v: &V, out: &mut Vec<u8>) {
        let V::Struct(l) = v else { panic!("HARNESS: not a struct") };
        for ((n, t), (m, x)) in self.types[name].iter().zip(l) {
            assert_eq!(n, m, "HARNESS: field order");
            self.write(t, x, out);
        }
    }
    /// all named values of a struct, nested names joined by dots; padding left out
    pub fn leaves(v: &V, path: &str, out: &mut Vec<(String, V)>) {
        match v {
            V::Struct(l) => {
                for (n, x) in l {
                    let p = if path.is_empty() { n.clone() } else { format!("{path}.{n}") };
                    if !n.trim_start_matches('_').starts_with("padding") {
                        Self::leaves(x, &p, out);
                    }
                }
            }
            V::List(l) if l.iter().any(|x| matches!(x, V::Struct(_))) => {
                for (i, x) in l.iter().enumerate() {
                    Self::leaves(x, &format!("{path}.{i}"), out);
                }
            }
            _ => out.push((path.to_string(), v.clone())),
        }
    }
    /// zeroes the padding and sets the named value
    pub fn set(v: &mut V, name: &str, to: u128) -> bool {
        let V::Struct(l) = v else { return false };
        let mut found = false;
        for (n, x) in l {
            if n == name {
                *x = V::N(to);
                found = true;
            } else {
                found |= Self::set(x, name, to);
            }
        }
        found
    }
    pub fn clear_padding(v: &mut V) {
        fn zero(v: &mut V) {
            match v {
                V::N(x) => *x = 0,
                V::List(l) => l.iter_mut().for_each(zero),
                _ => {}
            }
        }
        if let V::Struct(l) = v {
            for (n, x) in l {
                if n.trim_start_matches('_').starts_with("padding") {
                    zero(x);
                } else {
                    Self::clear_padding(x);
                }
            }
        }
    }
    /// an account of the program as a client of this release reads it
    pub fn account(&self, d: &[u8]) -> Option<(&str, V)> {
        let name = self.accounts.get(d.get(..8)?)?;
        let mut rest = &d[8..];
        Some((name, self.read_struct(name, &mut rest)?))
    }
    /// the instruction as a client of this release builds it
    pub fn form(&self, ix: &Ix) -> Option<Ix> {
        let def = self.ixs.get(ix.data.get(..8)?)?;
        if ix.program != DBC || CHANGED.contains(&def.name.as_str()) || ix.metas.len() < def.accounts.len() {
            return None;
        }
        let mut d = &ix.data[8..];
        let args = def.args.iter().map(|(_, t)| self.read(t, &mut d)).collect::<Option<Vec<_>>>()?;
        if !d.is_empty() {
            return None;
        }
        let mut data = ix.data[..8].to_vec();
        for ((_, t), v) in def.args.iter().zip(&args) {
            self.write(t, v, &mut data);
        }
        assert_eq!(data, ix.data, "HARNESS: {} arguments in the form of {}", def.name, self.version);
        let mut metas = ix.metas.clone();
        for (m, a) in metas.iter_mut().zip(&def.accounts) {
            m.is_signer &= a.signer;
            m.is_writable &= a.writable;
            if let Some(k) = a.address {
                if m.pubkey != k && !(a.optional && m.pubkey == DBC) {
                    return None;
                }
            }
        }
        USED.with(|u| *u.borrow_mut().entry(format!("{} as released in {}", def.name, self.version)).or_insert(0) += 1);
        Some(Ix { program: ix.program, metas, data })
    }
    /// an event as a client of this release reads it
    pub fn check_event(&self, e: &[u8]) {
        let Some(name) = e.get(..8).and_then(|d| self.events.get(d)) else { return };
        let mut d = &e[8..];
        let ok = self.read_struct(name, &mut d).is_some() && d.is_empty();
        if !ok {
            ISSUES.with(|i| i.borrow_mut().push(format!("a client of release {} cannot read the event {name}", self.version)));
        } else {
            USED.with(|u| *u.borrow_mut().entry("event read by a client of a release".into()).or_insert(0) += 1);
        }
    }
}

thread_local! {
    pub static USED: RefCell<BTreeMap<String, u64>> = const { RefCell::new(BTreeMap::new()) };
    pub static ISSUES: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
