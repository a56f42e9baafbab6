//! Every protocol of the library behind one interface: a case specification
//! is expanded to a statement and a witness; `prove` and `verify` call the
//! library; `visit` walks over the values of a proof.
use crate::eng::{must, Fail, Tier};
use crate::gen::*;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::{Identity, VartimeMultiscalarMul};
use merlin::verif_log::{self, Event};
use merlin::Transcript;
use proptest::prelude::*;
use qesa::lmpa::{no_zk as lnz, simple_zk as lsz};
use qesa::matrix::BlockMatrix;
use qesa::qesa_zk;
use qesa::verif_hooks::{alm_zk, copy, mapping, no_zk, qesa_inner};
use rand::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Ipa,
    Alm,
    Inner,
    Qesa,
    Copy,
    LHalf,
    LK,
    SHalf,
    SK,
}
pub const ALL: [Kind; 9] = [
    Kind::Ipa,
    Kind::Alm,
    Kind::Inner,
    Kind::Qesa,
    Kind::Copy,
    Kind::LHalf,
    Kind::LK,
    Kind::SHalf,
    Kind::SK,
];
impl Kind {
    pub fn quadratic(self) -> bool {
        matches!(self, Kind::Inner | Kind::Qesa | Kind::Copy)
    }
    pub fn lmpa(self) -> bool {
        matches!(self, Kind::LHalf | Kind::LK | Kind::SHalf | Kind::SK)
    }
    pub fn kary(self) -> bool {
        matches!(self, Kind::LK | Kind::SK)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CopySpec {
    pub wsize: u16,
    pub sets: Vec<Vec<u16>>,
    pub msgs: VSpec,
    pub rands: VSpec,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PCase {
    pub kind: Kind,
    pub lg: u8,
    pub m: u8,
    pub k: u8,
    pub d: u8,
    pub c: u8,
    pub eqs: Vec<EqSpec>,
    pub w: VSpec,
    pub v: VSpec,
    pub copy: CopySpec,
    pub crs: CrsSpec,
    pub ctx: Ctx,
}

#[derive(Clone)]
pub struct St {
    pub kind: Kind,
    pub n: usize,
    pub m: usize,
    pub k: usize,
    pub g: Vec<RistrettoPoint>,
    pub h: Vec<RistrettoPoint>,
    pub q: RistrettoPoint,
    pub p: RistrettoPoint,
    pub t: Scalar,
    pub gamma: Vec<Mat>,
    pub wsize: usize,
    pub sets: Vec<BTreeSet<u16>>,
    pub comms: Vec<RistrettoPoint>,
    pub a: PMat,
    pub tv: Vec<RistrettoPoint>,
    pub ctx: Ctx,
}
#[derive(Clone)]
pub struct Wit {
    pub a: Vec<Scalar>,
    pub b: Vec<Scalar>,
    /// quadratic: w without blinding (copy: the caller's part only); lmpa: w
    pub w: Vec<Scalar>,
    /// quadratic: the full variable vector, copy messages placed
    pub full: Vec<Scalar>,
    pub rp: Vec<Scalar>,
    pub opens: Vec<(Vec<Scalar>, Scalar)>,
    /// rows/columns equations must leave zero
    pub frozen: Vec<bool>,
}

#[derive(Clone)]
pub enum Proof {
    Ipa(no_zk::NoZK),
    Alm(alm_zk::AlmZK),
    Inner(qesa_inner::Inner),
    Qesa(qesa_zk::Zk),
    Copy(copy::Copy),
    LHalf(lnz::NoZK),
    LK(lnz::lmpa_noZK),
    SHalf(lsz::SimpleZK),
    SK(lsz::SimpleZK_general),
}

pub fn ip(a: &[Scalar], b: &[Scalar]) -> Scalar {
    assert_eq!(a.len(), b.len());
    let mut s = Scalar::zero();
    for i in 0..a.len() {
        s += a[i] * b[i];
    }
    s
}
pub fn msm(s: &[Scalar], p: &[RistrettoPoint]) -> RistrettoPoint {
    assert_eq!(s.len(), p.len());
    RistrettoPoint::vartime_multiscalar_mul(s.iter(), p.iter())
}
pub fn mv(a: &PMat, w: &[Scalar]) -> Vec<RistrettoPoint> {
    a.iter().map(|r| msm(w, r)).collect()
}
pub fn bm(g: &[Mat]) -> BlockMatrix {
    let mut b = BlockMatrix::new();
    for m in g {
        b.push(m.clone());
    }
    b
}

/// Reference placement of committed messages (see C18).
pub fn ref_positions(n: usize, wsize: usize, sets: &[BTreeSet<u16>]) -> Option<Vec<u16>> {
    let used: BTreeSet<u16> = sets.iter().flatten().cloned().collect();
    let total: usize = sets.iter().map(|s| s.len()).sum();
    let pos: Vec<u16> = (wsize..n - 2)
        .map(|x| x as u16)
        .filter(|x| !used.contains(x))
        .take(total)
        .collect();
    if pos.len() == total {
        Some(pos)
    } else {
        None
    }
}

impl CopySpec {
    /// Admissible index sets and witness size for reference size n.
    pub fn layout(&self, n: usize) -> (usize, Vec<BTreeSet<u16>>) {
        let mut wsize = 1 + self.wsize as usize % (n - 3);
        let mut sets: Vec<BTreeSet<u16>> = vec![BTreeSet::new(); self.sets.len().max(1)];
        let mut any = false;
        for (si, s) in self.sets.iter().enumerate() {
            for raw in s {
                let idx = 1 + (*raw % (n as u16 - 3));
                let mut trial = sets.clone();
                if !trial[si].insert(idx) {
                    continue;
                }
                if ref_positions(n, wsize, &trial).is_some() {
                    sets = trial;
                    any = true;
                }
            }
        }
        if !any {
            wsize = 1;
            sets[0].insert(1 + (self.wsize % (n as u16 - 3)));
        }
        (wsize, sets)
    }
}

impl PCase {
    /// Make some dimension of the statement equal to x, where it can be.
    fn steer(&mut self, x: usize, part: u8, seed: u64) {
        let lg_for = |n: usize| (0..10u8).find(|l| 1usize << l >= n).unwrap_or(10);
        let part = part as usize;
        match self.kind {
            Kind::Ipa | Kind::Alm => {
                if part % 4 == 0 && lg_for(x) <= 7 {
                    self.lg = lg_for(x).max(min_lg(self.kind));
                }
            }
            Kind::Inner | Kind::Qesa | Kind::Copy => match part % 8 {
                0 if x <= 130 && !self.eqs.is_empty() => {
                    self.lg = self.lg.min(4).max(min_lg(self.kind));
                    let have = self.eqs.len();
                    for i in have..x {
                        let mut e = self.eqs[i % have].clone();
                        e.seed = e.seed.wrapping_add(seed).wrapping_add(i as u64);
                        e.pivot.0 = e.pivot.0.wrapping_add(i as u16);
                        self.eqs.push(e);
                    }
                    if self.kind != Kind::Copy {
                        self.eqs.truncate(x.max(1));
                    }
                }
                1 if part % 5 == 0 && lg_for(x) <= 6 => {
                    self.lg = lg_for(x).max(min_lg(self.kind));
                    self.eqs.truncate(2);
                }
                2..=4 if self.kind == Kind::Copy => {
                    // key sets
                    let top = 1 + seed % 6;
                    let mut r = rng(seed, 9);
                    while self.copy.sets.len() < x {
                        let s = if r.gen_range(0, 3) == 0 { vec![r.gen_range(0, top) as u16] } else { vec![] };
                        self.copy.sets.push(s);
                    }
                    self.copy.sets.truncate(x.max(1));
                }
                5 if self.kind == Kind::Copy && 2 * x + 4 <= 128 => {
                    // messages in one set
                    self.lg = self.lg.max(lg_for(2 * x + 4));
                    self.copy.wsize = (seed % 4) as u16;
                    self.copy.sets.truncate(2);
                    let at = seed as usize % self.copy.sets.len().max(1);
                    let set: Vec<u16> = (0..x as u16).collect();
                    if self.copy.sets.is_empty() {
                        self.copy.sets.push(set);
                    } else {
                        for (i, s) in self.copy.sets.iter_mut().enumerate() {
                            if i == at {
                                *s = set.clone();
                            } else {
                                s.clear();
                            }
                        }
                    }
                    self.eqs.truncate(1);
                }
                6 if self.kind == Kind::Copy && x + 8 <= 64 => {
                    // caller's part of the witness
                    self.lg = self.lg.max(lg_for(x + 8));
                    self.copy.wsize = x as u16 - 1;
                    self.eqs.truncate(1);
                }
                7 if self.kind == Kind::Copy && x + 4 <= 128 => {
                    // one committed index
                    self.lg = self.lg.max(lg_for(x + 4));
                    self.copy.sets = vec![vec![x as u16 - 1]];
                    self.eqs.truncate(1);
                }
                _ => (),
            },
            Kind::LHalf | Kind::SHalf => match part % 4 {
                0 if x <= 200 => {
                    self.m = x as u8;
                    self.lg = self.lg.min(2);
                }
                1 if lg_for(x) <= 6 => {
                    self.lg = lg_for(x);
                    self.m = self.m.min(2);
                }
                _ => (),
            },
            Kind::LK | Kind::SK => match part % 6 {
                0 if x <= 200 => {
                    self.m = x as u8;
                    self.d = self.d.min(1);
                }
                1 if x <= 40 && x >= 2 => {
                    self.k = x as u8;
                    self.d = 1;
                    self.c = 1 + (seed % (self.k as u64 - 1)) as u8;
                    self.m = self.m.min(2);
                }
                2 if x > 1 && x < 40 => {
                    // that many columns, no round
                    self.k = x as u8 + 1;
                    self.d = 0;
                    self.c = x as u8;
                    self.m = self.m.min(2);
                }
                _ => (),
            },
        }
        // and an extreme value at that place
        let n = self.n();
        if x <= n && seed % 3 == 0 {
            self.w.over.push(((x - 1) as u16, if seed % 2 == 0 { Sc::Zero } else { Sc::Rand(seed) }));
        }
    }
    pub fn n(&self) -> usize {
        if self.kind.kary() {
            let k = self.k as usize;
            self.c as usize * k.pow(self.d as u32)
        } else {
            1usize << self.lg
        }
    }
    pub fn build(&self) -> (St, Wit) {
        let n = self.n();
        let kind = self.kind;
        let z = Scalar::zero();
        let id = RistrettoPoint::identity();
        let mut st = St {
            kind,
            n,
            m: self.m.max(1) as usize,
            k: self.k.max(2) as usize,
            g: vec![],
            h: vec![],
            q: self.crs.point(3),
            p: id,
            t: z,
            gamma: vec![],
            wsize: 0,
            sets: vec![],
            comms: vec![],
            a: vec![],
            tv: vec![],
            ctx: self.ctx.clone(),
        };
        let mut wit = Wit { a: vec![], b: vec![], w: vec![], full: vec![], rp: vec![], opens: vec![], frozen: vec![] };
        if kind.kary() {
            // generators play no role
        } else {
            st.g = self.crs.points(n, 1);
            st.h = self.crs.points(n, 2);
        }
        match kind {
            Kind::Ipa | Kind::Alm => {
                wit.a = self.w.vec(n);
                wit.b = self.v.vec(n);
                st.t = ip(&wit.a, &wit.b);
                st.p = msm(&wit.a, &st.g) + msm(&wit.b, &st.h);
                if kind == Kind::Ipa {
                    st.p += st.t * st.q;
                }
            }
            Kind::Inner | Kind::Qesa => {
                let d = n - 2;
                wit.w = self.w.vec(d);
                wit.w[0] = Scalar::one();
                wit.full = wit.w.clone();
                wit.frozen = vec![false; d];
                wit.rp = self.v.vec(2);
            }
            Kind::Copy => {
                let d = n - 2;
                let (wsize, sets) = self.copy.layout(n);
                let used: BTreeSet<u16> = sets.iter().flatten().cloned().collect();
                wit.w = self.w.vec(wsize);
                wit.w[0] = Scalar::one();
                wit.frozen = vec![false; d];
                for u in &used {
                    wit.frozen[*u as usize] = true;
                    if (*u as usize) < wsize {
                        wit.w[*u as usize] = z;
                    }
                }
                let total: usize = sets.iter().map(|s| s.len()).sum();
                let msgs = self.copy.msgs.vec(total);
                let rands = self.copy.rands.vec(sets.len());
                let pos = ref_positions(n, wsize, &sets).unwrap();
                wit.full = wit.w.clone();
                wit.full.resize(d, z);
                let mut it = msgs.iter().zip(pos.iter());
                for (i, s) in sets.iter().enumerate() {
                    let mut mm = vec![];
                    let mut c = rands[i] * st.g[n - 1];
                    for idx in s {
                        let (x, p) = it.next().unwrap();
                        mm.push(*x);
                        wit.full[*p as usize] = *x;
                        c += x * st.g[*idx as usize];
                    }
                    wit.opens.push((mm, rands[i]));
                    st.comms.push(c);
                }
                st.wsize = wsize;
                st.sets = sets;
            }
            _ => {
                let pts = self.crs.points(n * st.m, 4);
                st.a = (0..st.m).map(|i| pts[i * n..(i + 1) * n].to_vec()).collect();
                wit.w = self.w.vec(n);
                st.tv = mv(&st.a, &wit.w);
            }
        }
        if kind.quadratic() {
            for e in &self.eqs {
                st.gamma.push(e.matrix(&wit.full, &wit.frozen, z));
            }
            if st.gamma.is_empty() && kind != Kind::Copy {
                st.gamma.push(vec![vec![z; n - 2]; n - 2]);
            }
        }
        (st, wit)
    }
}

thread_local!(static UNBOUND: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// Run `f` for a caller that does not bind the statement to the transcript.
pub fn unbound<T>(f: impl FnOnce() -> T) -> T {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            UNBOUND.with(|u| u.set(self.0));
        }
    }
    let _back = Back(UNBOUND.with(|u| u.replace(true)));
    f()
}
impl St {
    pub fn transcript(&self) -> Transcript {
        self.ctx.transcript()
    }
    pub fn map(&self) -> mapping::Mapping {
        mapping::compute_mapping(self.n, self.wsize, &self.sets)
    }
    /// What a caller of the two inner-product layers has to do: bind the
    /// statement to the transcript.
    fn bind(&self, t: &mut Transcript) {
        if UNBOUND.with(|u| u.get()) {
            return;
        }
        for x in self.g.iter().chain(self.h.iter()) {
            t.append_message(b"bind", x.compress().as_bytes());
        }
        t.append_message(b"bind", self.q.compress().as_bytes());
        t.append_message(b"bind", self.p.compress().as_bytes());
        t.append_message(b"bind", self.t.as_bytes());
    }
    /// Rounds of the recursive part.
    pub fn rounds(&self) -> usize {
        if self.kind.kary() {
            let (mut n, mut r) = (self.n, 0);
            while n >= self.k {
                n /= self.k;
                r += 1;
            }
            r
        } else {
            self.n.trailing_zeros() as usize
        }
    }
    /// Challenges the verifier draws.
    pub fn num_challenges(&self) -> usize {
        let r = self.rounds();
        match self.kind {
            Kind::Ipa => 1 + r,
            Kind::Alm => 2 + r,
            Kind::Inner | Kind::Qesa => 5 + r,
            Kind::Copy => 6 + r,
            Kind::LHalf | Kind::LK => r,
            Kind::SHalf | Kind::SK => 1 + r,
        }
    }
}

pub fn prove_raw(st: &St, w: &Wit, t: &mut Transcript) -> Proof {
    match st.kind {
        Kind::Ipa => {
            st.bind(t);
            Proof::Ipa(no_zk::create(t, st.g.clone(), st.h.clone(), &st.q, w.a.clone(), w.b.clone()))
        }
        Kind::Alm => {
            st.bind(t);
            Proof::Alm(alm_zk::create(
                t,
                st.g.clone(),
                st.h.clone(),
                &st.q,
                st.p,
                w.a.clone(),
                w.b.clone(),
                st.t,
            ))
        }
        Kind::Inner => Proof::Inner(qesa_inner::create(
            t,
            st.g.clone(),
            st.h.clone(),
            &st.q,
            &bm(&st.gamma),
            w.w.clone(),
            w.rp.clone(),
        )),
        Kind::Qesa => {
            Proof::Qesa(qesa_zk::create(t, st.g.clone(), st.h.clone(), st.q, &bm(&st.gamma), w.w.clone()))
        }
        Kind::Copy => Proof::Copy(copy::create(
            t,
            st.g.clone(),
            st.h.clone(),
            &st.q,
            st.map(),
            bm(&st.gamma),
            w.w.clone(),
            w.opens.clone(),
        )),
        Kind::LHalf => {
            Proof::LHalf(lnz::create(t, st.a.clone(), st.g.clone(), st.h.clone(), &st.q, w.w.clone()))
        }
        Kind::LK => Proof::LK(lnz::create_lmpa_noZK(
            t,
            st.a.clone(),
            w.w.clone(),
            st.tv.clone(),
            st.n,
            st.m,
            st.k,
            Scalar::one(),
            RistrettoPoint::identity(),
        )),
        Kind::SHalf => {
            Proof::SHalf(lsz::create(t, st.a.clone(), st.g.clone(), st.h.clone(), &st.q, w.w.clone()))
        }
        Kind::SK => {
            Proof::SK(lsz::create_general(t, st.a.clone(), w.w.clone(), st.tv.clone(), st.n, st.m, st.k))
        }
    }
}
pub fn verify_raw(st: &St, p: &Proof, t: &mut Transcript) -> bool {
    match p {
        Proof::Ipa(p) => {
            st.bind(t);
            p.verify(t, &st.g, &st.h, &st.q, st.n, st.p, st.t)
        }
        Proof::Alm(p) => {
            st.bind(t);
            p.verify(t, &st.g, &st.h, &st.q, st.n, st.p, st.t)
        }
        Proof::Inner(p) => p.verify(t, st.g.clone(), st.h.clone(), &st.q, &bm(&st.gamma)),
        Proof::Qesa(p) => p.verify(t, st.g.clone(), st.h.clone(), &st.q, &bm(&st.gamma)),
        Proof::Copy(p) => p.verif_verify(
            t,
            st.g.clone(),
            st.h.clone(),
            &st.q,
            bm(&st.gamma),
            st.map(),
            st.comms.clone(),
        ),
        Proof::LHalf(p) => {
            p.verify(t, st.a.clone(), st.g.clone(), st.h.clone(), &st.q, st.n, st.tv.clone())
        }
        Proof::LK(p) => p.verify_lmpa_noZK(
            t,
            st.a.clone(),
            st.tv.clone(),
            st.n,
            st.m,
            st.k,
            Scalar::one(),
            RistrettoPoint::identity(),
        ),
        Proof::SHalf(p) => {
            p.verify(t, st.a.clone(), st.g.clone(), st.h.clone(), &st.q, st.n, st.tv.clone())
        }
        Proof::SK(p) => p.verify_general(t, st.a.clone(), st.tv.clone(), st.n, st.m, st.k),
    }
}
/// Prove on the statement's own transcript; a panic is a failure.
pub fn prove(st: &St, w: &Wit) -> Result<Proof, Fail> {
    Ok(prove_on(st, w, &mut st.transcript())?)
}
pub fn prove_on(st: &St, w: &Wit, t: &mut Transcript) -> Result<Proof, Fail> {
    must("prove", || prove_raw(st, w, t))
}
pub fn verify(st: &St, p: &Proof) -> Result<bool, Fail> {
    verify_on(st, p, &mut st.transcript())
}
pub fn verify_on(st: &St, p: &Proof, t: &mut Transcript) -> Result<bool, Fail> {
    must("verify", || verify_raw(st, p, t))
}
pub struct Logged<T> {
    pub out: T,
    pub events: Vec<Event>,
    pub state: [u8; 32],
}
impl<T> Logged<T> {
    pub fn challenges(&self) -> Vec<Scalar> {
        chals(&self.events)
    }
}
pub fn wide(b: &[u8]) -> Scalar {
    let mut x = [0u8; 64];
    x.copy_from_slice(b);
    Scalar::from_bytes_mod_order_wide(&x)
}
pub fn chals(ev: &[Event]) -> Vec<Scalar> {
    ev.iter().filter(|e| e.challenge && e.data.len() == 64).map(|e| wide(&e.data)).collect()
}
pub fn logged<T>(t: &mut Transcript, f: impl FnOnce(&mut Transcript) -> Result<T, Fail>) -> Result<Logged<T>, Fail> {
    verif_log::start();
    let r = f(t);
    let events = verif_log::take();
    Ok(Logged { out: r?, events, state: state(t) })
}
pub fn prove_log(st: &St, w: &Wit) -> Result<Logged<Proof>, Fail> {
    logged(&mut st.transcript(), |t| prove_on(st, w, t))
}
pub fn verify_log(st: &St, p: &Proof) -> Result<Logged<bool>, Fail> {
    logged(&mut st.transcript(), |t| verify_on(st, p, t))
}

/// A transcript on which the given events have happened.
pub fn replayed(st: &St, ev: &[Event]) -> Transcript {
    let mut t = st.transcript();
    for e in ev {
        if e.challenge {
            let mut b = vec![0u8; e.data.len()];
            t.challenge_bytes(e.label, &mut b);
        } else {
            t.append_message(e.label, &e.data);
        }
    }
    t
}

// ---------- proof values ----------
pub enum Slot<'a> {
    C(&'a mut CompressedRistretto),
    P(&'a mut RistrettoPoint),
    S(&'a mut Scalar),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(CompressedRistretto),
    P(RistrettoPoint),
    S(Scalar),
}
impl Val {
    pub fn point(&self) -> Option<RistrettoPoint> {
        match self {
            Val::C(c) => c.decompress(),
            Val::P(p) => Some(*p),
            Val::S(_) => None,
        }
    }
    pub fn bytes(&self) -> [u8; 32] {
        match self {
            Val::C(c) => c.0,
            Val::P(p) => p.compress().0,
            Val::S(s) => s.to_bytes(),
        }
    }
    pub fn is_point(&self) -> bool {
        !matches!(self, Val::S(_))
    }
}
const NEVER: usize = usize::MAX;
type Vis<'v> = dyn FnMut(&str, usize, Slot) + 'v;
fn v_ipa(p: &mut no_zk::NoZK, base: usize, f: &mut Vis) {
    let (l, r, a, b) = p.verif_parts();
    for (i, x) in l.iter_mut().enumerate() {
        f(&format!("L[{}]", i), base + 1 + i, Slot::C(x));
    }
    for (i, x) in r.iter_mut().enumerate() {
        f(&format!("R[{}]", i), base + 1 + i, Slot::C(x));
    }
    f("a", NEVER, Slot::S(a));
    f("b", NEVER, Slot::S(b));
}
fn v_alm(p: &mut alm_zk::AlmZK, base: usize, f: &mut Vis) {
    let (c, i) = p.verif_parts();
    f("C_r", base, Slot::C(c));
    v_ipa(i, base + 1, f);
}
fn v_lh(p: &mut lnz::NoZK, base: usize, f: &mut Vis) {
    let (l, r, w) = p.verif_parts();
    for (i, row) in l.iter_mut().enumerate() {
        for (j, x) in row.iter_mut().enumerate() {
            f(&format!("L[{}][{}]", i, j), base + i, Slot::P(x));
        }
    }
    for (i, row) in r.iter_mut().enumerate() {
        for (j, x) in row.iter_mut().enumerate() {
            f(&format!("R[{}][{}]", i, j), base + i, Slot::P(x));
        }
    }
    f("w", NEVER, Slot::S(w));
}
fn v_lk(p: &mut lnz::lmpa_noZK, base: usize, f: &mut Vis) {
    let (a, t, w, u) = p.verif_parts();
    for (i, x) in w.iter_mut().enumerate() {
        f(&format!("w[{}]", i), NEVER, Slot::S(x));
    }
    for (r, blk) in u.iter_mut().enumerate() {
        for (l, v) in blk.iter_mut().enumerate() {
            for (j, x) in v.iter_mut().enumerate() {
                f(&format!("u[{}][{}][{}]", r, l, j), base + r, Slot::P(x));
            }
        }
    }
    for (i, row) in a.iter_mut().enumerate() {
        for (j, x) in row.iter_mut().enumerate() {
            f(&format!("A[{}][{}]", i, j), NEVER, Slot::P(x));
        }
    }
    for (i, x) in t.iter_mut().enumerate() {
        f(&format!("t[{}]", i), NEVER, Slot::P(x));
    }
}
/// Walk over every value of a proof the verifier's decision can rest on.
/// The number passed along says how many challenges the verifier has drawn
/// before that value has to be on the transcript (NEVER: it need not be).
pub fn visit(p: &mut Proof, f: &mut Vis) {
    match p {
        Proof::Ipa(p) => v_ipa(p, 0, f),
        Proof::Alm(p) => v_alm(p, 0, f),
        Proof::Inner(_) | Proof::Qesa(_) => {
            let p = match p {
                Proof::Inner(p) => p,
                Proof::Qesa(p) => p.verif_parts(),
                _ => unreachable!(),
            };
            let (alm, c1, c2) = p.verif_parts();
            f("C'_w", 0, Slot::C(c1));
            f("C''_w", 1, Slot::C(c2));
            v_alm(alm, 3, f);
        }
        Proof::Copy(p) => {
            // inner.c_prime_w is recomputed by the verifier and not read
            let (cw, inner) = p.verif_parts();
            f("C_w", 0, Slot::C(cw));
            let (alm, _, c2) = inner.verif_parts();
            f("C''_w", 2, Slot::C(c2));
            v_alm(alm, 4, f);
        }
        Proof::LHalf(p) => v_lh(p, 0, f),
        Proof::LK(p) => v_lk(p, 0, f),
        Proof::SHalf(p) => {
            let (i, a) = p.verif_parts();
            for (j, x) in a.iter_mut().enumerate() {
                f(&format!("a[{}]", j), 0, Slot::P(x));
            }
            v_lh(i, 1, f);
        }
        Proof::SK(p) => {
            let (i, a) = p.verif_parts();
            for (j, x) in a.iter_mut().enumerate() {
                f(&format!("a[{}]", j), 0, Slot::P(x));
            }
            v_lk(i, 1, f);
        }
    }
}
#[derive(Clone, Debug)]
pub struct Comp {
    pub name: String,
    pub before: usize,
    pub val: Val,
}
impl Comp {
    pub fn absorbed(&self) -> bool {
        self.before != NEVER
    }
}
pub fn comps(p: &Proof) -> Vec<Comp> {
    let mut q = p.clone();
    let mut out = vec![];
    visit(&mut q, &mut |n, b, s| {
        let val = match s {
            Slot::C(c) => Val::C(*c),
            Slot::P(p) => Val::P(*p),
            Slot::S(s) => Val::S(*s),
        };
        out.push(Comp { name: n.to_string(), before: b, val });
    });
    out
}
pub fn find(p: &Proof, name: &str) -> Option<Val> {
    comps(p).into_iter().find(|c| c.name == name).map(|c| c.val)
}
pub fn set(p: &mut Proof, name: &str, v: &Val) {
    visit(p, &mut |n, _, s| {
        if n == name {
            match (s, v) {
                (Slot::C(x), Val::C(y)) => *x = *y,
                (Slot::C(x), Val::P(y)) => *x = y.compress(),
                (Slot::P(x), Val::P(y)) => *x = *y,
                (Slot::P(x), Val::C(y)) => *x = y.decompress().unwrap(),
                (Slot::S(x), Val::S(y)) => *x = *y,
                _ => panic!("type mismatch for {}", name),
            }
        }
    });
}
pub fn add_point(p: &mut Proof, name: &str, d: &RistrettoPoint) {
    let v = find(p, name).unwrap().point().unwrap();
    set(p, name, &Val::P(v + d));
}

// ---------- strategies ----------
fn copyspec() -> BoxedStrategy<CopySpec> {
    let idx = prop_oneof![3 => 0u16..12, 1 => any::<u16>()];
    let sets = prop_oneof![
        6 => prop::collection::vec(prop::collection::vec(idx, 0..4), 1..4),
        // many commitments over few indices
        1 => (1u16..4).prop_flat_map(|hi| prop::collection::vec(prop::collection::vec(0..hi, 1..3), 4..12)),
    ];
    (
        prop_oneof![3 => 0u16..4, 1 => any::<u16>()],
        sets,
        vspec(),
        vspec(),
    )
        .prop_map(|(wsize, sets, msgs, rands)| CopySpec { wsize, sets, msgs, rands })
        .boxed()
}
pub fn min_lg(k: Kind) -> u8 {
    match k {
        Kind::Ipa => 0,
        Kind::Alm => 1,
        Kind::Inner | Kind::Qesa => 2,
        Kind::Copy => 3,
        Kind::LHalf | Kind::SHalf => 0,
        Kind::LK | Kind::SK => 0,
    }
}
#[derive(Clone, Copy)]
pub struct Shape {
    pub max_lg: u8,
    pub max_eqs: usize,
    pub max_m: u8,
    pub max_n: usize, // for k-ary
}
/// Witness vectors: arbitrary, or all entries random.
pub fn pcase(kind: Kind, sh: Shape, special: bool) -> BoxedStrategy<PCase> {
    let lo = min_lg(kind);
    let hi = sh.max_lg.max(lo);
    let lg = {
        let mut v: Vec<(u32, BoxedStrategy<u8>)> = vec![];
        for x in lo..=hi {
            v.push((1 + 2 * (hi - x) as u32, Just(x).boxed()));
        }
        prop::strategy::Union::new_weighted(v)
    };
    let max_n = sh.max_n;
    let kdc = (2u8..6, 0u8..4, any::<u8>()).prop_map(move |(k, d, c)| {
        let mut d = d;
        while (k as usize).pow(d as u32) > max_n {
            d -= 1;
        }
        let mut c = 1 + c % (k - 1);
        while c as usize * (k as usize).pow(d as u32) > max_n && c > 1 {
            c -= 1;
        }
        (k, d, c)
    });
    let (vw, vv) = if special { (vspec(), vspec()) } else { (vrand(), vrand()) };
    let crs = if special { crs_any() } else { crs_random() };
    // many rows now and then, over few columns
    let rows = prop_oneof![12 => 1..=sh.max_m, 1 => sh.max_m..=18];
    (
        (Just(kind), lg, rows, kdc),
        prop::collection::vec(eqspec(), if kind == Kind::Copy { 0 } else { 1 }..=sh.max_eqs),
        (vw, vv),
        copyspec(),
        crs,
        (ctx(), hint(10, 300), any::<(u8, u64)>().no_shrink()),
    )
        .prop_map(move |((kind, lg, m, (k, d, c)), eqs, (w, v), copy, crs, (ctx, hint, (part, seed)))| {
            let mut p = PCase { kind, lg, m, k, d, c, eqs, w, v, copy, crs, ctx };
            if let Some(x) = hint {
                p.steer(x as usize, part, seed);
            }
            if kind.lmpa() && m > sh.max_m {
                p.lg = p.lg.min(2);
                while p.n() > 9 && p.d > 0 {
                    p.d -= 1;
                }
            }
            p
        })
        .boxed()
}
pub fn any_kind(kinds: &[Kind], sh: Shape, special: bool) -> BoxedStrategy<PCase> {
    prop::strategy::Union::new(kinds.iter().map(|k| pcase(*k, sh, special)).collect::<Vec<_>>()).boxed()
}

/// Statements far beyond the usual size, few values otherwise.
pub fn large(kinds: &[Kind], t: Tier) -> BoxedStrategy<PCase> {
    let up = if t == Tier::Thorough { 1u8 } else { 0 };
    let small = Shape { max_lg: 3, max_eqs: 2, max_m: 2, max_n: 8 };
    (any_kind(kinds, small, true), any::<u8>(), any::<(u8, u8)>())
        .prop_map(move |(mut p, x, (y, c))| {
            p.crs.kind = CrsKind::Random;
            match p.kind {
                Kind::Ipa | Kind::Alm => p.lg = 7 + x % (4 + up),
                Kind::Inner | Kind::Qesa => p.lg = 6 + x % (2 + up),
                Kind::Copy => p.lg = 6 + x % (2 + up),
                Kind::LHalf | Kind::SHalf => {
                    p.m = 1 + p.m % 2;
                    p.lg = 6 + x % (4 + up);
                    if y % 3 == 0 {
                        // many rows
                        p.m = 19 + c % 180;
                        p.lg = x % 3;
                    }
                }
                Kind::LK | Kind::SK => {
                    p.m = 1 + p.m % 2;
                    if y % 3 == 0 {
                        p.m = 19 + c % 90;
                        p.k = 2 + x % 2;
                        p.d = 1 + x / 2 % 2;
                    } else if y % 2 == 0 {
                        // many rounds
                        p.k = 2 + x % 4;
                        p.d = [9, 5, 4, 4][p.k as usize - 2];
                    } else {
                        // large factors
                        p.k = 6 + x % 27;
                        p.d = 1 + (y / 2) % 2;
                    }
                    p.c = 1 + c % (p.k - 1);
                    while p.n() > 600 && p.c > 1 {
                        p.c -= 1;
                    }
                }
            }
            for e in p.eqs.iter_mut() {
                if matches!(e.kind, EqKind::Dense | EqKind::OrthRows | EqKind::RankOne | EqKind::Antisym) {
                    e.kind = EqKind::Sparse;
                }
            }
            p
        })
        .boxed()
}
