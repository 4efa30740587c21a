use cosmwasm_std::{Decimal, Uint256};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

pub type Tag = &'static str;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Self {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ c.wrapping_mul(0x8CB92BA72F3D8DD7) ^ 0x1234_5678);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn p(&mut self, percent: u32) -> bool {
        (self.next() % 100) < percent as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn pickc<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut x = (self.next() % t as u64) as u32;
        for (i, n) in w.iter().enumerate() {
            if x < *n {
                return i;
            }
            x -= n;
        }
        w.len() - 1
    }
}

/// histories that start from a very full book, to reach listing limits
pub fn bulk(idx: u64) -> Option<usize> {
    match idx % 64 {
        6 => Some(0),
        38 => Some(1),
        _ => None,
    }
}

pub fn fp<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Div {
    pub tags: Vec<Tag>,
    pub step: usize,
    pub sig: String,
    pub detail: String,
}

#[derive(Default)]
pub struct PropStat {
    pub evals: u64,
    pub fps: HashSet<u64>,
    pub samples: Vec<String>,
    pub kinds: BTreeMap<String, u64>,
}

/// Collector: what the monitors observed in a run.
pub struct Ctx {
    pub prop: Option<String>,
    pub divs: Vec<Div>,
    pub stats: BTreeMap<Tag, PropStat>,
    pub log: Vec<String>,
    pub step: usize,
    pub counters: BTreeMap<String, u64>,
    /// questions to the contracts and their answers, when somebody wants to see them
    pub capture: Option<Vec<(serde_json::Value, serde_json::Value)>>,
}
impl Ctx {
    pub fn new(prop: Option<String>) -> Self {
        Ctx { prop, divs: vec![], stats: BTreeMap::new(), log: vec![], step: 0, counters: BTreeMap::new(), capture: None }
    }
    pub fn wants(&self, t: Tag) -> bool {
        self.prop.as_deref().map_or(true, |p| p == t)
    }
    /// one judgement of property `t`; `f` fingerprints the judged situation (None: trivial)
    pub fn eval(&mut self, t: Tag, kind: &str, f: Option<u64>) {
        if !self.wants(t) {
            return;
        }
        let s = self.stats.entry(t).or_default();
        s.evals += 1;
        if let Some(f) = f {
            s.fps.insert(f);
        }
        if let Some(k) = s.kinds.get_mut(kind) {
            *k += 1;
        } else {
            s.kinds.insert(kind.to_string(), 1);
            if s.samples.len() < 6 {
                if let Some(l) = self.log.last() {
                    s.samples.push(format!("{kind}: {l}"));
                }
            }
        }
    }
    pub fn div(&mut self, tags: &[Tag], sig: &str, detail: String) {
        let mut t: Vec<Tag> = tags.to_vec();
        t.sort();
        t.dedup();
        if self.prop.is_some() && !t.iter().any(|x| self.wants(x)) {
            return;
        }
        self.divs.push(Div { tags: t, step: self.step, sig: sig.to_string(), detail });
    }
    pub fn count(&mut self, k: &str) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += 1;
        } else {
            self.counters.insert(k.to_string(), 1);
        }
    }
}

// ---------------------------------------------------------------- exact arithmetic (oracle side)
pub const ONE: u128 = 1_000_000_000_000_000_000;
pub fn atomics(s: &str) -> u128 {
    Decimal::from_str(s).map(|d| d.atomics().u128()).unwrap_or(0)
}
/// "0.0123" style string of bps-like atomics
pub fn dec_str(at: u128) -> String {
    Decimal::raw(at).to_string()
}
/// ceil(price * atomics / 1e18); None if it does not fit
pub fn mul_ceil(price: u128, at: u128) -> Option<u128> {
    let x = Uint256::from(price) * Uint256::from(at);
    let one = Uint256::from(ONE);
    let q = x / one;
    let q = if q * one == x { q } else { q + Uint256::from(1u128) };
    cosmwasm_std::Uint128::try_from(q).ok().map(|v| v.u128())
}
pub fn mul_floor(price: u128, num: u128, den: u128) -> Option<u128> {
    let x = Uint256::from(price) * Uint256::from(num) / Uint256::from(den);
    cosmwasm_std::Uint128::try_from(x).ok().map(|v| v.u128())
}

pub type Bank = BTreeMap<(String, String), u128>;
pub fn credit(b: &mut Bank, a: &str, d: &str, n: u128) {
    if n > 0 {
        *b.entry((a.to_string(), d.to_string())).or_default() += n;
    }
}
/// returns false if the balance is too small
pub fn debit(b: &mut Bank, a: &str, d: &str, n: u128) -> bool {
    if n == 0 {
        return true;
    }
    match b.get_mut(&(a.to_string(), d.to_string())) {
        Some(x) if *x >= n => {
            *x -= n;
            true
        }
        _ => false,
    }
}
pub fn bank_diff(exp: &Bank, got: &Bank) -> Vec<(String, String, u128, u128)> {
    let keys: BTreeSet<_> = exp.keys().chain(got.keys()).collect();
    keys.into_iter()
        .filter_map(|k| {
            let e = exp.get(k).copied().unwrap_or(0);
            let g = got.get(k).copied().unwrap_or(0);
            (e != g).then(|| (k.0.clone(), k.1.clone(), e, g))
        })
        .collect()
}

/// A generic key-ordered listing oracle: `items` sorted ascending by key.
pub fn page<K: Ord + Clone, V: Clone>(
    items: &BTreeMap<K, V>,
    min: Option<(K, bool)>, // (key, inclusive)
    max: Option<(K, bool)>,
    desc: bool,
    limit: usize,
) -> Vec<V> {
    let it = items.iter().filter(|(k, _)| {
        min.as_ref().map_or(true, |(m, inc)| if *inc { *k >= m } else { *k > m })
            && max.as_ref().map_or(true, |(m, inc)| if *inc { *k <= m } else { *k < m })
    });
    let mut v: Vec<V> = it.map(|(_, v)| v.clone()).collect();
    if desc {
        v.reverse();
    }
    v.truncate(limit);
    v
}

pub trait Engine {
    /// one step; true to continue
    fn step(&mut self, ctx: &mut Ctx);
    fn finish(&mut self, ctx: &mut Ctx);
}

/// Start of a history in seconds. A few histories run across the year 2106, where seconds stop fitting 32 bits.
pub fn epoch(idx: u64) -> u64 {
    if idx % 64 == 21 {
        4_294_967_290
    } else {
        1_700_000_000
    }
}
/// whether the collections of a history run the real sg721-base contract
pub fn real_nft(idx: u64) -> bool {
    std::env::var("MPMON_REAL").is_ok() || idx % 16 >= 12
}
