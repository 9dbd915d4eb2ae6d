//! E01: serde round trips, arbitrary and malformed input.
use crate::map::Model;
use crate::util::*;
use scc::{Guard, HashCache, HashIndex, HashMap, HashSet, TreeIndex};
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{self, Deserialize, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use vcore::types::*;
use vcore::{Ctx, Gen, Prop, Res, Suite, ensure, fail, vtrace};

pub fn e01() -> Prop {
    Prop {
        id: "E01",
        rule: "Three kinds of cases. roundtrip: a container of each type is built by generated insertions, removals and replacements (hash distribution, capacity, retired entries and resizes included), serialised to JSON and CBOR, deserialised and compared entry by entry. hints: a generated list of pairs (duplicates and undecodable elements included) with a generated, possibly wrong size hint is deserialised and compared with the model of the list. mutated: a serialised form is truncated, overwritten or spliced at generated positions and deserialised; the result must be Ok exactly when a plain list of pairs can be decoded from the same bytes, with the contents of that list. Every key and value is tracked for leaks and double drops. Non-trivial: at least 2 entries and (roundtrip) a removal or a resize happened, (hints) the hint is wrong or absent or there are duplicates, (mutated) the bytes differ from a valid form.",
        suites: vec![
            Suite { name: "roundtrip", quick: 600_000, thorough: 12_000_000, f: roundtrip },
            Suite { name: "hints", quick: 400_000, thorough: 6_000_000, f: hints },
            Suite { name: "mutated", quick: 2_000_000, thorough: 60_000_000, f: mutated },
        ],
    }
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
pub struct SK(pub K);
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct SV(pub V);

impl Hash for SK {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.0.hash(s);
    }
}
impl Serialize for SK {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.check();
        s.serialize_u32(self.0.k)
    }
}
impl<'d> Deserialize<'d> for SK {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        u32::deserialize(d).map(|k| SK(K::new(k, 0)))
    }
}
impl Serialize for SV {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.0.get())
    }
}
impl<'d> Deserialize<'d> for SV {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        u64::deserialize(d).map(|v| SV(V::new(v)))
    }
}
fn sk(k: u32) -> SK {
    SK(K::new(k, 0))
}
fn sv(v: u64) -> SV {
    SV(V::new(v))
}

type M = HashMap<SK, SV, TestHasher>;
type S = HashSet<SK, TestHasher>;
type I = HashIndex<SK, SV, TestHasher>;
type C = HashCache<SK, SV, TestHasher>;
type T = TreeIndex<SK, SV>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Map,
    Set,
    Index,
    Tree,
    Cache,
}
const KINDS: [Kind; 5] = [Kind::Map, Kind::Set, Kind::Index, Kind::Tree, Kind::Cache];

enum Any {
    Map(M),
    Set(S),
    Index(I),
    Tree(T),
    Cache(C),
}
type Contents = BTreeMap<u32, u64>;

impl Any {
    fn contents(&self) -> Result<Contents, vcore::Fail> {
        let mut c = Contents::new();
        let mut n = 0;
        let len = match self {
            Any::Map(m) => {
                m.iter_sync(|k, v| {
                    n += 1;
                    c.insert(k.0.k, v.0.get());
                    true
                });
                m.len()
            }
            Any::Set(m) => {
                m.iter_sync(|k| {
                    n += 1;
                    c.insert(k.0.k, 0);
                    true
                });
                m.len()
            }
            Any::Index(m) => {
                for (k, v) in m.iter(&Guard::new()) {
                    n += 1;
                    c.insert(k.0.k, v.0.get());
                }
                m.len()
            }
            Any::Tree(m) => {
                for (k, v) in m.iter(&Guard::new()) {
                    n += 1;
                    c.insert(k.0.k, v.0.get());
                }
                m.len()
            }
            Any::Cache(m) => {
                m.iter_sync(|k, v| {
                    n += 1;
                    c.insert(k.0.k, v.0.get());
                    true
                });
                m.len()
            }
        };
        if n != c.len() || len != n {
            return Err(vcore::Fail::new("contents", format!("{n} entries visited, {} distinct, len() = {len}", c.len())));
        }
        Ok(c)
    }
    fn ser<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            Any::Map(m) => m.serialize(z),
            Any::Set(m) => m.serialize(z),
            Any::Index(m) => m.serialize(z),
            Any::Tree(m) => m.serialize(z),
            Any::Cache(m) => m.serialize(z),
        }
    }
    fn same(&self, o: &Any) -> bool {
        match (self, o) {
            (Any::Map(a), Any::Map(b)) => a == b,
            (Any::Set(a), Any::Set(b)) => a == b,
            (Any::Index(a), Any::Index(b)) => a == b,
            (Any::Tree(a), Any::Tree(b)) => a == b,
            (Any::Cache(a), Any::Cache(b)) => a == b,
            _ => false,
        }
    }
}

fn de<'d, D: Deserializer<'d>>(kind: Kind, d: D) -> Result<Any, D::Error> {
    Ok(match kind {
        Kind::Map => Any::Map(M::deserialize(d)?),
        Kind::Set => Any::Set(S::deserialize(d)?),
        Kind::Index => Any::Index(I::deserialize(d)?),
        Kind::Tree => Any::Tree(T::deserialize(d)?),
        Kind::Cache => Any::Cache(C::deserialize(d)?),
    })
}

/// The reference decoding: the listed pairs in order (`true`: a sequence of keys).
struct Pairs(Vec<(u32, u64)>);
struct PairVisitor(bool);
impl<'d> Visitor<'d> for PairVisitor {
    type Value = Pairs;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("pairs")
    }
    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<Pairs, A::Error> {
        if self.0 {
            return Err(de::Error::custom("a map"));
        }
        let mut v = Vec::new();
        while let Some(e) = a.next_entry::<u32, u64>()? {
            v.push(e);
        }
        Ok(Pairs(v))
    }
    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<Pairs, A::Error> {
        if !self.0 {
            return Err(de::Error::custom("a sequence"));
        }
        let mut v = Vec::new();
        while let Some(e) = a.next_element::<u32>()? {
            v.push((e, 0));
        }
        Ok(Pairs(v))
    }
}
struct RefSeq(Pairs);
struct RefMap(Pairs);
impl<'d> Deserialize<'d> for RefSeq {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_seq(PairVisitor(true)).map(RefSeq)
    }
}
impl<'d> Deserialize<'d> for RefMap {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_map(PairVisitor(false)).map(RefMap)
    }
}

/// The documented treatment of duplicates: a map overwrites the value, the others keep the first.
fn listed(kind: Kind, list: &[(u32, u64)]) -> Contents {
    let mut c = Contents::new();
    for (k, v) in list {
        match kind {
            Kind::Map => {
                c.insert(*k, *v);
            }
            Kind::Set => {
                c.insert(*k, 0);
            }
            _ => {
                c.entry(*k).or_insert(*v);
            }
        }
    }
    c
}

fn compare(kind: Kind, got: &Contents, list: &[(u32, u64)], sig: &str) -> Res {
    let exp = listed(kind, list);
    if kind == Kind::Cache {
        // A cache may evict, and an evicted key may be listed again.
        for (k, v) in got {
            ensure!(list.contains(&(*k, *v)), sig, "the deserialised cache holds {k}:{v} which is not listed");
        }
        if list.len() <= 32 {
            ensure!(*got == exp, sig, "the deserialised cache holds {} of {} listed entries: {got:?}", got.len(), exp.len());
        }
        return Ok(());
    }
    ensure!(*got == exp, sig, "deserialised {kind:?} holds {got:?}, expected {exp:?}");
    Ok(())
}

/// Builds a container by a generated history.
fn build(g: &mut Gen, kind: Kind, changed: &mut bool) -> Result<(Any, Contents), vcore::Fail> {
    let sh = shape(g);
    vtrace!("{kind:?} dist={:?} keys=0..{} capacity={}", sh.dist, sh.keys, sh.cap);
    let h = TestHasher(sh.dist);
    let any = match kind {
        Kind::Map => Any::Map(M::with_capacity_and_hasher(sh.cap, h)),
        Kind::Set => Any::Set(S::with_capacity_and_hasher(sh.cap, h)),
        Kind::Index => Any::Index(I::with_capacity_and_hasher(sh.cap, h)),
        Kind::Tree => Any::Tree(T::new()),
        Kind::Cache => Any::Cache(C::with_capacity_and_hasher(sh.cap, *g.pick(&[64, 128, 1024, 4096]), h)),
    };
    let mut model = Contents::new();
    let n = 1 + g.log_uniform(6);
    let guard = g.chance(1, 2).then(Guard::new);
    for r in 0..n {
        let cnt = 1 + g.log_uniform(u64::from(sh.keys.min(300))) as u32;
        let k0 = g.below(u64::from(sh.keys)) as u32;
        let ins = g.chance(3, 4);
        vtrace!("{} {cnt} from {k0}", if ins { "insert" } else { "remove" });
        for i in 0..cnt {
            let k = (k0 + i) % sh.keys;
            let v = r * 1000 + u64::from(i);
            if ins {
                match &any {
                    Any::Map(m) => {
                        m.upsert_sync(sk(k), sv(v));
                        model.insert(k, v);
                    }
                    Any::Set(m) => {
                        let _ = m.insert_sync(sk(k));
                        model.insert(k, 0);
                    }
                    Any::Index(m) => {
                        if m.insert_sync(sk(k), sv(v)).is_ok() {
                            model.insert(k, v);
                        }
                    }
                    Any::Tree(m) => {
                        if m.insert_sync(sk(k), sv(v)).is_ok() {
                            model.insert(k, v);
                        }
                    }
                    Any::Cache(m) => {
                        if let Ok(e) = m.put_sync(sk(k), sv(v)) {
                            model.insert(k, v);
                            if let Some((k, _)) = e {
                                model.remove(&k.0.k);
                            }
                        }
                    }
                }
            } else {
                let key = sk(k);
                match &any {
                    Any::Map(m) => {
                        m.remove_sync(&key);
                    }
                    Any::Set(m) => {
                        m.remove_sync(&key);
                    }
                    Any::Index(m) => {
                        m.remove_sync(&key);
                    }
                    Any::Tree(m) => {
                        m.remove_sync(&key);
                    }
                    Any::Cache(m) => {
                        m.remove_sync(&key);
                    }
                }
                *changed |= model.remove(&k).is_some();
            }
        }
    }
    drop(guard);
    Ok((any, model))
}

fn roundtrip(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    {
        let kind = *g.pick(&KINDS);
        let mut changed = false;
        let (a, model) = build(g, kind, &mut changed)?;
        ensure!(a.contents()? == model, "contents", "the container does not hold what was inserted");
        let list: Vec<(u32, u64)> = model.iter().map(|(k, v)| (*k, *v)).collect();
        DEFAULT_DIST.with(|d| d.set(DISTS[g.usize(DISTS.len())]));
        let cbor = g.chance(1, 2);
        vtrace!("round trip through {}", if cbor { "CBOR" } else { "JSON" });
        let mut known = false;
        let b = if cbor {
            let mut out = Vec::new();
            struct W<'a>(&'a Any);
            impl Serialize for W<'_> {
                fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
                    self.0.ser(z)
                }
            }
            if let Err(e) = ciborium::into_writer(&W(&a), &mut out) {
                fail!("serialize", "{e}");
            }
            let mut input = out.clone();
            if let Any::Cache(c) = &a {
                // Known finding: the declared number of entries is the maximum capacity.
                let (declared, hl) = cbor_len(&out);
                let max = *c.capacity_range().end() as u64;
                if declared == max && declared != model.len() as u64 {
                    known = true;
                    input = vec![0xb9, (model.len() >> 8) as u8, model.len() as u8];
                    input.extend_from_slice(&out[hl..]);
                }
            }
            match from_cbor(kind, &input) {
                Ok(b) => b,
                Err(e) => fail!("deserialize", "the CBOR form of a {kind:?} with {} entries does not decode: {e}", model.len()),
            }
        } else {
            let mut out = Vec::new();
            if let Err(e) = a.ser(&mut serde_json::Serializer::new(&mut out)) {
                fail!("serialize", "{e}");
            }
            // A sink that fails somewhere: the error is reported.
            if g.chance(1, 6) {
                let room = g.usize(out.len() + 4);
                let r = a.ser(&mut serde_json::Serializer::new(Limited(room)));
                ensure!(r.is_ok() == (room >= out.len()), "serialize", "serialising {} bytes into a sink of {room} bytes: {r:?}", out.len());
            }
            match from_json(kind, &out) {
                Ok(b) => b,
                Err(e) => fail!("deserialize", "the JSON form {} does not decode: {e}", String::from_utf8_lossy(&out)),
            }
        };
        compare(kind, &b.contents()?, &list, "roundtrip")?;
        if kind != Kind::Cache {
            ensure!(a.same(&b) && b.same(&a), "equal", "the deserialised {kind:?} is not equal to the original");
        }
        ensure!(a.contents()? == model, "contents", "serialising changed the container");
        ledger()?;
        ctx.nontrivial = model.len() >= 2 && (changed || model.len() > 62);
        ctx.label(if cbor { "cbor" } else { "json" });
        if known {
            fail!("cache-length-prefix", "the CBOR form of a HashCache with {} entries declares its maximum capacity as the number of entries", model.len());
        }
    }
    all_dropped()
}

/// The declared length of a CBOR map and the length of its header.
fn cbor_len(b: &[u8]) -> (u64, usize) {
    let n = match b.first() {
        Some(0xb8) => 1,
        Some(0xb9) => 2,
        Some(0xba) => 4,
        Some(0xbb) => 8,
        Some(x) if x & 0xe0 == 0xa0 => return (u64::from(x & 0x1f), 1),
        _ => return (u64::MAX, 0),
    };
    (b[1..=n].iter().fold(0, |a, x| a << 8 | u64::from(*x)), n + 1)
}

fn from_json(kind: Kind, b: &[u8]) -> Result<Any, String> {
    let mut d = serde_json::Deserializer::from_slice(b);
    let r = de(kind, &mut d).map_err(|e| e.to_string())?;
    d.end().map_err(|e| e.to_string())?;
    Ok(r)
}
fn from_cbor(kind: Kind, b: &[u8]) -> Result<Any, String> {
    fn go<X: for<'a> Deserialize<'a>>(b: &[u8]) -> Result<X, String> {
        ciborium::from_reader(b).map_err(|e| format!("{e:?}"))
    }
    Ok(match kind {
        Kind::Map => Any::Map(go(b)?),
        Kind::Set => Any::Set(go(b)?),
        Kind::Index => Any::Index(go(b)?),
        Kind::Tree => Any::Tree(go(b)?),
        Kind::Cache => Any::Cache(go(b)?),
    })
}

/// An element that may be undecodable.
#[derive(Clone, Copy, Debug)]
struct El(Option<u64>);
impl<'d> IntoDeserializer<'d, de::value::Error> for El {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
impl<'de> Deserializer<'de> for El {
    type Error = de::value::Error;
    fn deserialize_any<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, Self::Error> {
        match self.0 {
            Some(x) => v.visit_u64(x),
            None => Err(de::Error::custom("undecodable")),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// An iterator with an arbitrary size hint.
struct Hinted<X>(std::vec::IntoIter<X>, (usize, Option<usize>));
impl<X> Iterator for Hinted<X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

fn hints(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    {
        let kind = *g.pick(&KINDS);
        let n = g.log_uniform(120) as usize;
        let dom = *g.pick(&[4_u32, 40, 400]);
        DEFAULT_DIST.with(|d| d.set(DISTS[g.usize(DISTS.len())]));
        let list: Vec<(u32, u64)> = (0..n).map(|i| (g.below(u64::from(dom)) as u32, i as u64)).collect();
        let bad = if n > 0 && g.chance(1, 3) { Some((g.usize(n), g.chance(1, 2))) } else { None };
        let hint = match g.weighted(&[30, 30, 20, 20, 1]) {
            0 => None,
            1 => Some(n),
            2 => Some(g.usize(n + 1)),
            3 => Some(n + g.log_uniform(5000) as usize),
            _ => Some(*g.pick(&[usize::MAX, usize::MAX / 2, 1 << 62, 1 << 24, 1 << 40])),
        };
        vtrace!("{kind:?} from {list:?}, hint={hint:?}, undecodable={bad:?}");
        let h = hint.map_or((0, None), |x| (x, Some(x)));
        let r: Result<Any, de::value::Error> = if kind == Kind::Set {
            let els: Vec<El> = list
                .iter()
                .enumerate()
                .map(|(i, e)| El(if bad.is_some_and(|b| b.0 == i) { None } else { Some(u64::from(e.0)) }))
                .collect();
            let d = SeqDeserializer::<_, de::value::Error>::new(Hinted(els.into_iter(), h));
            de(kind, d)
        } else {
            let els: Vec<(El, El)> = list
                .iter()
                .enumerate()
                .map(|(i, e)| {
                    let b = bad.filter(|b| b.0 == i);
                    (
                        El(if b.is_some_and(|b| b.1) { None } else { Some(u64::from(e.0)) }),
                        El(if b.is_some_and(|b| !b.1) { None } else { Some(e.1) }),
                    )
                })
                .collect();
            let d = MapDeserializer::<_, de::value::Error>::new(Hinted(els.into_iter(), h));
            de(kind, d)
        };
        match r {
            Ok(a) => {
                ensure!(bad.is_none(), "malformed", "an undecodable element was accepted");
                let got = a.contents()?;
                compare(kind, &got, &list, "contents")?;
            }
            Err(e) => ensure!(bad.is_some(), "rejected", "a well-formed input was rejected: {e}"),
        }
        ledger()?;
        let mut keys: Vec<u32> = list.iter().map(|x| x.0).collect();
        keys.sort_unstable();
        keys.dedup();
        ctx.nontrivial = n >= 2 && (hint != Some(n) || keys.len() < n);
        if bad.is_some() {
            ctx.label("undecodable");
        }
    }
    all_dropped()
}

fn mutated(g: &mut Gen, ctx: &mut Ctx) -> Res {
    vcore::track::reset();
    {
        let kind = *g.pick(&KINDS);
        let n = g.log_uniform(40) as usize;
        DEFAULT_DIST.with(|d| d.set(DISTS[g.usize(DISTS.len())]));
        let list: Model = (0..n).map(|i| (g.below(60) as u32, (0, i as u64))).collect();
        let cbor = g.chance(1, 2);
        let mut b = Vec::new();
        let plain: BTreeMap<u32, u64> = list.iter().map(|(k, v)| (*k, v.1)).collect();
        let keys: Vec<u32> = plain.keys().copied().collect();
        match (cbor, kind == Kind::Set) {
            (true, true) => ciborium::into_writer(&keys, &mut b).unwrap(),
            (true, false) => ciborium::into_writer(&plain, &mut b).unwrap(),
            (false, true) => b = serde_json::to_vec(&keys).unwrap(),
            (false, false) => b = serde_json::to_vec(&plain).unwrap(),
        }
        let orig = b.clone();
        let m = g.usize(4);
        for _ in 0..m {
            if b.is_empty() {
                break;
            }
            let i = g.usize(b.len());
            match g.usize(5) {
                0 => b.truncate(i),
                1 => b[i] = if cbor { g.below(256) as u8 } else { *g.pick(b"0123456789\",:{}[]-e. nulltrue\\") },
                2 => b.insert(i, if cbor { g.below(256) as u8 } else { *g.pick(b"0123456789\",:{}[]-e. ") }),
                3 => {
                    let j = i + g.usize(b.len() - i + 1);
                    let part = b[i..j].to_vec();
                    let at = g.usize(b.len() + 1);
                    b.splice(at..at, part);
                }
                _ => {
                    let j = i + g.usize((b.len() - i).min(8) + 1);
                    b.drain(i..j);
                }
            }
        }
        vtrace!("{kind:?} from {} {}", if cbor { "CBOR" } else { "JSON" }, if cbor { format!("{b:02x?}") } else { String::from_utf8_lossy(&b).into_owned() });
        let exp: Result<Vec<(u32, u64)>, String> = match (cbor, kind == Kind::Set) {
            (true, true) => ciborium::from_reader::<RefSeq, _>(b.as_slice()).map(|x| x.0.0).map_err(|e| e.to_string()),
            (true, false) => ciborium::from_reader::<RefMap, _>(b.as_slice()).map(|x| x.0.0).map_err(|e| e.to_string()),
            (false, true) => serde_json::from_slice::<RefSeq>(&b).map(|x| x.0.0).map_err(|e| e.to_string()),
            (false, false) => serde_json::from_slice::<RefMap>(&b).map(|x| x.0.0).map_err(|e| e.to_string()),
        };
        let got = if cbor { from_cbor(kind, &b) } else { from_json(kind, &b) };
        match (got, exp) {
            (Ok(a), Ok(l)) => {
                compare(kind, &a.contents()?, &l, "contents")?;
                ctx.label("accepted");
            }
            (Err(_), Err(_)) => ctx.label("rejected"),
            (Ok(_), Err(e)) => fail!("malformed", "malformed input was accepted ({e})"),
            (Err(e), Ok(_)) => fail!("rejected", "a well-formed input was rejected: {e}"),
        }
        ledger()?;
        ctx.nontrivial = n >= 2 && b != orig;
    }
    all_dropped()
}

/// A sink that fails after a number of bytes.
struct Limited(usize);
impl std::io::Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.0 == 0 {
            return Err(std::io::Error::other("full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
