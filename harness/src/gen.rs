//! Case specifications (what proptest generates and shrinks) and their
//! expansion to scalars, points, matrices and transcripts.
use std::collections::BTreeSet;
use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_POINT, RISTRETTO_BASEPOINT_TABLE};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};

pub type Mat = Vec<Vec<Scalar>>;
pub type PMat = Vec<Vec<RistrettoPoint>>;

pub fn rng(seed: u64, salt: u64) -> StdRng {
    StdRng::seed_from_u64(seed ^ salt.wrapping_mul(0x9e3779b97f4a7c15))
}
pub fn rs(r: &mut StdRng) -> Scalar {
    Scalar::random(r)
}

// ---------- numbers of the source under test ----------
/// Where the library under test lives: the path this crate depends on.
fn source_dir() -> Option<std::path::PathBuf> {
    let here = std::path::Path::new(env!("CARGO_MANIFEST_DIR"));
    let toml = std::fs::read_to_string(here.join("Cargo.toml")).ok()?;
    let line = toml.lines().find(|l| l.trim_start().starts_with("qesa"))?;
    let path = line.split("path").nth(1)?.split('"').nth(1)?;
    Some(here.join(path).join("src"))
}
fn sources(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(es) = std::fs::read_dir(d) {
        for e in es.flatten() {
            let p = e.path();
            if p.is_dir() {
                sources(&p, out);
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p);
            }
        }
    }
}
/// Numbers written outside comments and tests, in order of size.
fn literals(text: &str) -> Vec<u64> {
    let mut out = vec![];
    for line in text.lines() {
        let l = line.trim();
        if l.starts_with("#[test]") || l.starts_with("#[cfg(test)]") {
            break;
        }
        let l = l.split("//").next().unwrap_or("");
        let b = l.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if !b[i].is_ascii_digit() {
                // skip names such as x25519
                if b[i].is_ascii_alphabetic() || b[i] == b'_' {
                    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                        i += 1;
                    }
                } else {
                    i += 1;
                }
                continue;
            }
            let from = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let t: String = l[from..i].chars().filter(|c| *c != '_').collect();
            let mut t = t.as_str();
            for suf in ["usize", "isize", "u128", "u64", "u32", "u16", "i64", "i32", "i16"] {
                t = t.strip_suffix(suf).unwrap_or(t);
            }
            let v = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h.strip_suffix("u8").unwrap_or(h), 16)
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(h.strip_suffix("u8").unwrap_or(h), 2)
            } else {
                t.strip_suffix("u8").unwrap_or(t).parse()
            };
            if let Ok(v) = v {
                out.push(v);
            }
        }
    }
    out
}
/// Interesting numbers: those of the source (except 0, 1, 2) and their
/// neighbours. Guides sizes and values only; never part of an oracle.
pub fn dict() -> &'static Vec<u64> {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        if let Some(d) = source_dir() {
            sources(&d, &mut files);
        }
        let mut set = BTreeSet::new();
        for f in files {
            if let Ok(t) = std::fs::read_to_string(&f) {
                for x in literals(&t) {
                    if x > 2 {
                        set.extend([x - 1, x, x.saturating_add(1)].iter());
                    }
                }
            }
        }
        if set.is_empty() || set.len() > 400 {
            set = [4u64, 8, 16, 32, 64].iter().cloned().collect();
        }
        set.into_iter().collect()
    })
}
fn word() -> BoxedStrategy<(u64, bool)> {
    (prop::sample::select(dict().clone()), prop::bool::weighted(0.3)).boxed()
}
/// Now and then a number of the source, up to `max`.
pub fn hint(one_in: u32, max: u64) -> BoxedStrategy<Option<u64>> {
    let d: Vec<u64> = dict().iter().cloned().filter(|x| *x <= max).collect();
    if d.is_empty() {
        return Just(None).boxed();
    }
    prop_oneof![
        one_in - 1 => Just(None),
        1 => prop::sample::select(d).prop_map(Some),
    ]
    .boxed()
}

/// Mostly `base`, now and then a number of the source within lo..=hi.
pub fn sized(base: BoxedStrategy<u16>, lo: u16, hi: u16) -> BoxedStrategy<u16> {
    let d: Vec<u16> = dict().iter().filter(|x| **x >= lo as u64 && **x <= hi as u64).map(|x| *x as u16).collect();
    if d.is_empty() {
        return base;
    }
    prop_oneof![11 => base, 1 => prop::sample::select(d)].boxed()
}

// ---------- scalars ----------
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sc {
    Zero,
    One,
    MinusOne,
    Small(u8),
    NegSmall(u8),
    Pow2(u8),
    Rand(u64),
    /// a number written in the source under test, or next to one
    Word(u64),
    NegWord(u64),
}
impl Sc {
    pub fn val(&self) -> Scalar {
        match self {
            Sc::Zero => Scalar::zero(),
            Sc::One => Scalar::one(),
            Sc::MinusOne => -Scalar::one(),
            Sc::Small(x) => Scalar::from(*x),
            Sc::NegSmall(x) => -Scalar::from(*x),
            Sc::Pow2(e) => pow2(*e),
            Sc::Rand(s) => rs(&mut rng(*s, 1)),
            Sc::Word(x) => Scalar::from(*x),
            Sc::NegWord(x) => -Scalar::from(*x),
        }
    }
}
pub fn pow2(e: u8) -> Scalar {
    let mut b = [0u8; 32];
    let e = (e as usize) % 252;
    b[e / 8] = 1 << (e % 8);
    Scalar::from_bits(b)
}
pub fn sc() -> BoxedStrategy<Sc> {
    prop_oneof![
        2 => Just(Sc::One),
        2 => Just(Sc::Zero),
        1 => Just(Sc::MinusOne),
        2 => any::<u8>().prop_map(Sc::Small),
        1 => any::<u8>().prop_map(Sc::NegSmall),
        1 => any::<u8>().prop_map(Sc::Pow2),
        1 => word().prop_map(|(x, neg)| if neg { Sc::NegWord(x) } else { Sc::Word(x) }),
        4 => any::<u64>().no_shrink().prop_map(Sc::Rand),
    ]
    .boxed()
}
/// A scalar that is never zero.
pub fn sc_nz() -> BoxedStrategy<Sc> {
    prop_oneof![
        2 => Just(Sc::One),
        1 => Just(Sc::MinusOne),
        2 => (1u8..=255).prop_map(Sc::Small),
        1 => (1u8..=255).prop_map(Sc::NegSmall),
        1 => any::<u8>().prop_map(Sc::Pow2),
        1 => word().prop_map(|(x, neg)| if neg { Sc::NegWord(x.max(1)) } else { Sc::Word(x.max(1)) }),
        3 => any::<u64>().no_shrink().prop_map(Sc::Rand),
    ]
    .boxed()
}
pub fn special(r: &mut StdRng) -> Scalar {
    match r.gen_range(0, 10) {
        9 => {
            let d = dict();
            let x = Scalar::from(d[r.gen_range(0, d.len())]);
            if r.gen_range(0, 3) == 0 { -x } else { x }
        }
        0 | 1 => Scalar::zero(),
        2 => Scalar::one(),
        3 => -Scalar::one(),
        4 => Scalar::from(r.gen_range(2u64, 300)),
        5 => -Scalar::from(r.gen_range(2u64, 300)),
        6 => pow2(r.gen()),
        _ => rs(r),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum VKind {
    Ones,
    Zeros,
    Ramp,
    Const(Sc),
    Sparse,
    FirstHalf,
    SecondHalf,
    Mixed,
    Small,
    Rand,
}
/// A vector of any length: a filling rule plus explicit overrides
/// (positions are taken modulo the length).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct VSpec {
    pub kind: VKind,
    pub seed: u64,
    pub over: Vec<(u16, Sc)>,
}
impl VSpec {
    pub fn vec(&self, n: usize) -> Vec<Scalar> {
        let mut r = rng(self.seed, 2);
        let mut v: Vec<Scalar> = (0..n)
            .map(|i| match &self.kind {
                VKind::Ones => Scalar::one(),
                VKind::Zeros => Scalar::zero(),
                VKind::Ramp => Scalar::from(i as u64 + 1),
                VKind::Const(s) => s.val(),
                VKind::Sparse => {
                    if r.gen_range(0, 4) == 0 {
                        rs(&mut r)
                    } else {
                        Scalar::zero()
                    }
                }
                VKind::FirstHalf => {
                    let x = rs(&mut r);
                    if 2 * i < n { x } else { Scalar::zero() }
                }
                VKind::SecondHalf => {
                    let x = rs(&mut r);
                    if 2 * i < n { Scalar::zero() } else { x }
                }
                VKind::Mixed => special(&mut r),
                VKind::Small => Scalar::from(r.gen_range(0u64, 4)),
                VKind::Rand => rs(&mut r),
            })
            .collect();
        if n > 0 {
            for (i, s) in &self.over {
                v[*i as usize % n] = s.val();
            }
        }
        v
    }
}
pub fn vspec() -> BoxedStrategy<VSpec> {
    let kind = prop_oneof![
        1 => Just(VKind::Ones),
        1 => Just(VKind::Zeros),
        1 => Just(VKind::Ramp),
        1 => sc().prop_map(VKind::Const),
        2 => Just(VKind::Sparse),
        1 => Just(VKind::FirstHalf),
        1 => Just(VKind::SecondHalf),
        3 => Just(VKind::Mixed),
        1 => Just(VKind::Small),
        5 => Just(VKind::Rand),
    ];
    (kind, any::<u64>().no_shrink(), prop::collection::vec((any::<u16>(), sc()), 0..3))
        .prop_map(|(kind, seed, over)| VSpec { kind, seed, over })
        .boxed()
}
/// All entries random (non-zero with overwhelming probability).
pub fn vrand() -> BoxedStrategy<VSpec> {
    any::<u64>()
        .no_shrink()
        .prop_map(|seed| VSpec { kind: VKind::Rand, seed, over: vec![] })
        .boxed()
}

// ---------- points ----------
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CrsKind {
    Random,
    SmallMul,
    Repeated,
    WithIdentity,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CrsSpec {
    pub kind: CrsKind,
    pub seed: u64,
}
impl CrsSpec {
    pub fn points(&self, n: usize, salt: u64) -> Vec<RistrettoPoint> {
        let mut r = rng(self.seed, 100 + salt);
        let b = RISTRETTO_BASEPOINT_POINT;
        match self.kind {
            CrsKind::Random => (0..n).map(|_| RistrettoPoint::random(&mut r)).collect(),
            CrsKind::SmallMul => (0..n)
                .map(|_| &Scalar::from(r.gen_range(1u64, 50)) * &RISTRETTO_BASEPOINT_TABLE)
                .collect(),
            CrsKind::Repeated => {
                let ps: Vec<_> = (0..3).map(|_| RistrettoPoint::random(&mut r)).collect();
                (0..n).map(|_| ps[r.gen_range(0, 3)]).collect()
            }
            CrsKind::WithIdentity => (0..n)
                .map(|_| match r.gen_range(0, 4) {
                    0 => RistrettoPoint::identity(),
                    1 => b,
                    _ => RistrettoPoint::random(&mut r),
                })
                .collect(),
        }
    }
    pub fn point(&self, salt: u64) -> RistrettoPoint {
        self.points(1, 1000 + salt)[0]
    }
}
pub fn crs_any() -> BoxedStrategy<CrsSpec> {
    let k = prop_oneof![
        5 => Just(CrsKind::Random),
        1 => Just(CrsKind::SmallMul),
        1 => Just(CrsKind::Repeated),
        1 => Just(CrsKind::WithIdentity),
    ];
    (k, any::<u64>().no_shrink()).prop_map(|(kind, seed)| CrsSpec { kind, seed }).boxed()
}
pub fn crs_random() -> BoxedStrategy<CrsSpec> {
    any::<u64>().no_shrink().prop_map(|seed| CrsSpec { kind: CrsKind::Random, seed }).boxed()
}
/// A point that is not the identity, from a seed.
pub fn rp(seed: u64) -> RistrettoPoint {
    RistrettoPoint::random(&mut rng(seed, 77))
}

// ---------- transcripts ----------
pub static LABELS: [&[u8]; 12] = [
    b"qesa", b"copy", b"lmpa", b"", b"x", b"ctx", b"L", b"challenge", b"alpha", b"c_w",
    b"a longer label used by an application", b"app-message",
];
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ctx {
    pub label: u8,
    pub msgs: Vec<(u8, Vec<u8>)>,
}
impl Ctx {
    pub fn none() -> Ctx {
        Ctx { label: 0, msgs: vec![] }
    }
    pub fn transcript(&self) -> Transcript {
        let mut t = Transcript::new(label(self.label));
        for (l, m) in &self.msgs {
            t.append_message(label(*l), m);
        }
        t
    }
}
pub fn label(i: u8) -> &'static [u8] {
    LABELS[i as usize % LABELS.len()]
}
pub fn ctx() -> BoxedStrategy<Ctx> {
    (
        0u8..12,
        prop::collection::vec((0u8..12, prop::collection::vec(any::<u8>(), 0..40)), 0..3),
    )
        .prop_map(|(label, msgs)| Ctx { label, msgs })
        .boxed()
}
/// Fingerprint of a transcript's state.
pub fn state(t: &Transcript) -> [u8; 32] {
    let mut b = [0u8; 32];
    t.clone().challenge_bytes(b"verif-state", &mut b);
    b
}

// ---------- quadratic systems ----------
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EqKind {
    Zero,
    /// w_i * w_j = w_k
    Gate,
    /// one linear relation in the first row
    Linear,
    Diag,
    Sparse,
    RankOne,
    /// rows orthogonal to w, as in the unit tests
    OrthRows,
    /// antisymmetric: satisfied by every w
    Antisym,
    Dense,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EqSpec {
    pub kind: EqKind,
    pub seed: u64,
    pub pivot: (u16, u16),
}
pub fn eqspec() -> BoxedStrategy<EqSpec> {
    let k = prop_oneof![
        2 => Just(EqKind::Gate),
        1 => Just(EqKind::Zero),
        1 => Just(EqKind::Linear),
        1 => Just(EqKind::Diag),
        3 => Just(EqKind::Sparse),
        1 => Just(EqKind::RankOne),
        1 => Just(EqKind::OrthRows),
        1 => Just(EqKind::Antisym),
        3 => Just(EqKind::Dense),
    ];
    (k, any::<u64>().no_shrink(), any::<(u16, u16)>())
        .prop_map(|(kind, seed, pivot)| EqSpec { kind, seed, pivot })
        .boxed()
}
pub fn quad(g: &Mat, w: &[Scalar]) -> Scalar {
    let mut s = Scalar::zero();
    for i in 0..w.len() {
        if w[i] == Scalar::zero() {
            continue;
        }
        let mut t = Scalar::zero();
        for j in 0..w.len() {
            if g[i][j] != Scalar::zero() {
                t += g[i][j] * w[j];
            }
        }
        s += w[i] * t;
    }
    s
}
impl EqSpec {
    /// A d x d matrix with zeros in the `frozen` rows and columns and
    /// w^T G w = target. w[0] must be non-zero and 0 not frozen.
    pub fn matrix(&self, w: &[Scalar], frozen: &[bool], target: Scalar) -> Mat {
        let d = w.len();
        let mut r = rng(self.seed, 3);
        let mut g = vec![vec![Scalar::zero(); d]; d];
        match self.kind {
            EqKind::Zero => {}
            EqKind::Gate => {
                let (i, j) = (r.gen_range(0, d), r.gen_range(0, d));
                g[i][j] = Scalar::one();
            }
            EqKind::Linear => {
                for j in 0..d {
                    g[0][j] = special(&mut r);
                }
            }
            EqKind::Diag => {
                for j in 0..d {
                    g[j][j] = special(&mut r);
                }
            }
            EqKind::Sparse => {
                for _ in 0..r.gen_range(1, 2 * d + 1) {
                    let (i, j) = (r.gen_range(0, d), r.gen_range(0, d));
                    g[i][j] = special(&mut r);
                }
            }
            EqKind::RankOne => {
                let a: Vec<_> = (0..d).map(|_| special(&mut r)).collect();
                let b: Vec<_> = (0..d).map(|_| special(&mut r)).collect();
                for i in 0..d {
                    for j in 0..d {
                        g[i][j] = a[i] * b[j];
                    }
                }
            }
            EqKind::OrthRows => {
                for i in 0..d {
                    let mut s = Scalar::zero();
                    for j in 1..d {
                        g[i][j] = rs(&mut r);
                        s += g[i][j] * w[j];
                    }
                    g[i][0] = -s * w[0].invert();
                }
            }
            EqKind::Antisym => {
                for i in 0..d {
                    for j in 0..i {
                        let x = special(&mut r);
                        g[i][j] = x;
                        g[j][i] = -x;
                    }
                }
            }
            EqKind::Dense => {
                for i in 0..d {
                    for j in 0..d {
                        g[i][j] = rs(&mut r);
                    }
                }
            }
        }
        for i in 0..d {
            for j in 0..d {
                if frozen[i] || frozen[j] {
                    g[i][j] = Scalar::zero();
                }
            }
        }
        let v = quad(&g, w);
        if v != target {
            // put the correction where both factors are non-zero
            let ok = |i: usize| !frozen[i] && w[i] != Scalar::zero();
            let mut i = self.pivot.0 as usize % d;
            while !ok(i) {
                i = (i + 1) % d;
            }
            let mut j = self.pivot.1 as usize % d;
            while !ok(j) {
                j = (j + 1) % d;
            }
            g[i][j] += (target - v) * (w[i] * w[j]).invert();
        }
        g
    }
}

/// Another group element whose encoding differs in few places, preferably only
/// in byte `k`.
pub fn near(p: &RistrettoPoint, k: u8) -> RistrettoPoint {
    let old = p.compress();
    for d in 0..32u8 {
        let at = (k as usize + d as usize) % 32;
        for x in 1..=255u8 {
            let mut b = old.0;
            b[at] ^= x.wrapping_add(k);
            if b == old.0 {
                continue;
            }
            if let Some(q) = curve25519_dalek::ristretto::CompressedRistretto(b).decompress() {
                return q;
            }
        }
    }
    unreachable!()
}
/// Another scalar whose encoding differs in one byte.
pub fn near_scalar(s: &Scalar, k: u8) -> Scalar {
    let at = (k % 32) as usize;
    for x in 0..255u8 {
        let mut b = s.to_bytes();
        b[at] ^= 1 + x.wrapping_add(k / 32) % 255;
        if let Some(t) = Scalar::from_canonical_bytes(b) {
            return t;
        }
    }
    s + Scalar::one()
}
