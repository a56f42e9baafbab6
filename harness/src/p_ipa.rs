//! C08 inner product, C09 masked inner product, C10 orthogonalisation,
//! C11 mask randomness.
use crate::attack::*;
use crate::eng::*;
use crate::gen::*;
use crate::proto::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use proptest::prelude::*;
use qesa::verif_hooks::gramschmidt as gs;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

fn shp(t: Tier) -> Shape {
    Shape { max_lg: if t == Tier::Thorough { 8 } else { 6 }, max_eqs: 1, max_m: 1, max_n: 8 }
}

// ------------------------------------------------------- complete
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rel {
    Free,
    Same,
    Parallel(Sc),
    Orthogonal,
    Disjoint,
    Unit(u16, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    pub c: PCase,
    pub rel: Rel,
}
pub fn rel() -> BoxedStrategy<Rel> {
    prop_oneof![
        5 => Just(Rel::Free),
        1 => Just(Rel::Same),
        2 => sc().prop_map(Rel::Parallel),
        2 => Just(Rel::Orthogonal),
        1 => Just(Rel::Disjoint),
        1 => any::<(u16, u16)>().prop_map(|(a, b)| Rel::Unit(a, b)),
    ]
    .boxed()
}
pub fn relate(r: &Rel, a: &mut Vec<Scalar>, b: &mut Vec<Scalar>) {
    let n = a.len();
    let z = Scalar::zero();
    match r {
        Rel::Free => {}
        Rel::Same => *b = a.clone(),
        Rel::Parallel(s) => *b = a.iter().map(|x| x * s.val()).collect(),
        Rel::Orthogonal => {
            // adjust one entry of b where a is not zero
            if let Some(i) = a.iter().position(|x| *x != z) {
                let e = ip(a, b) * a[i].invert();
                b[i] -= e;
            }
        }
        Rel::Disjoint => {
            for i in 0..n {
                if i % 2 == 0 {
                    a[i] = z
                } else {
                    b[i] = z
                }
            }
        }
        Rel::Unit(i, j) => {
            *a = vec![z; n];
            *b = vec![z; n];
            a[*i as usize % n] = Scalar::one();
            b[*j as usize % n] = Scalar::one();
        }
    }
}
pub fn rel_tag(r: &Rel) -> String {
    let s = format!("{:?}", r);
    s.split('(').next().unwrap().to_string()
}
pub fn build_pair(p: &Pair) -> (St, Wit) {
    let (mut st, mut w) = p.c.build();
    relate(&p.rel, &mut w.a, &mut w.b);
    st.t = ip(&w.a, &w.b);
    st.p = msm(&w.a, &st.g) + msm(&w.b, &st.h);
    if st.kind == Kind::Ipa {
        st.p += st.t * st.q;
    }
    (st, w)
}
fn isotropic(a: &[Scalar]) -> bool {
    ip(a, a) == Scalar::zero() && a.iter().any(|x| *x != Scalar::zero())
}
fn t_pair(p: &Pair) -> CaseResult {
    let (st, w) = build_pair(p);
    if st.kind == Kind::Alm && (isotropic(&w.a) || isotropic(&w.b)) {
        return Ok(Info::new(false));
    }
    let pr = prove_log(&st, &w)?;
    let v = verify_log(&st, &pr.out)?;
    ensure!(v.out, "rejects-honest", "honest {:?} proof rejected (n={}, {:?})", st.kind, st.n, p.rel);
    ensure!(pr.state == v.state, "state-differs", "transcripts differ after a {:?} proof (n={})", st.kind, st.n);
    let z = Scalar::zero();
    let mut i = Info::new(w.a.iter().chain(w.b.iter()).any(|x| *x != z))
        .tag(format!("n={}", st.n))
        .tag(rel_tag(&p.rel));
    if w.a.iter().all(|x| *x == z) || w.b.iter().all(|x| *x == z) {
        i = i.tag("zero vector");
    }
    if st.t == z {
        i = i.tag("t=0");
    }
    Ok(i)
}
fn s_big(k: Kind, t: Tier) -> BoxedStrategy<Pair> {
    let hi = if t == Tier::Thorough { 11u8 } else { 9 };
    (s_pair(k, Shape { max_lg: 3, ..shp(t) }), 7u8..=hi)
        .prop_map(|(mut p, lg)| {
            p.c.lg = lg;
            p
        })
        .boxed()
}
fn s_big_ipa(t: Tier) -> BoxedStrategy<Pair> {
    s_big(Kind::Ipa, t)
}
fn s_big_alm(t: Tier) -> BoxedStrategy<Pair> {
    s_big(Kind::Alm, t)
}
fn s_pair_ipa(t: Tier) -> BoxedStrategy<Pair> {
    s_pair(Kind::Ipa, shp(t))
}
fn s_pair_alm(t: Tier) -> BoxedStrategy<Pair> {
    s_pair(Kind::Alm, shp(t))
}

// ------------------------------------------------------- false claims
#[derive(Clone, Debug, Serialize, Deserialize)]
enum FalseIp {
    /// other value, same commitment
    T(Sc),
    /// other value, commitment shifted along Q to match
    TandP(Sc),
    /// commitment shifted by a multiple of Q only
    PQ(Sc),
    /// commitment shifted by an unrelated point
    PRand(u64),
    /// commitment shifted by a multiple of one generator
    PGen(u8, u16, Sc),
    Gen(u8, u16, u64),
    /// swap of two generators
    GenSwap(u8, u16, u16),
    /// the prover uses other vectors than committed
    A(u16, Sc),
    B(u16, Sc),
    Qpt(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FalseCase {
    p: Pair,
    f: FalseIp,
    /// prove the false statement itself instead of reusing an honest proof
    reprove: bool,
}
fn s_false(k: Kind, t: Tier) -> BoxedStrategy<FalseCase> {
    let f = prop_oneof![
        2 => sc_nz().prop_map(FalseIp::T),
        2 => sc_nz().prop_map(FalseIp::TandP),
        2 => sc_nz().prop_map(FalseIp::PQ),
        1 => any::<u64>().no_shrink().prop_map(FalseIp::PRand),
        2 => (0u8..2, any::<u16>(), sc_nz()).prop_map(|(a, b, c)| FalseIp::PGen(a, b, c)),
        2 => (0u8..2, any::<u16>(), any::<u64>().no_shrink()).prop_map(|(a, b, c)| FalseIp::Gen(a, b, c)),
        1 => (0u8..2, any::<u16>(), any::<u16>()).prop_map(|(a, b, c)| FalseIp::GenSwap(a, b, c)),
        1 => (any::<u16>(), sc_nz()).prop_map(|(a, b)| FalseIp::A(a, b)),
        1 => (any::<u16>(), sc_nz()).prop_map(|(a, b)| FalseIp::B(a, b)),
        1 => any::<u64>().no_shrink().prop_map(FalseIp::Qpt),
    ];
    (s_pair(k, shp(t)), f, any::<bool>())
        .prop_map(|(mut p, f, reprove)| {
            p.c.crs.kind = CrsKind::Random;
            FalseCase { p, f, reprove }
        })
        .boxed()
}
fn s_false_ipa(t: Tier) -> BoxedStrategy<FalseCase> {
    s_false(Kind::Ipa, t)
}
fn s_false_alm(t: Tier) -> BoxedStrategy<FalseCase> {
    s_false(Kind::Alm, t)
}
/// Turns the statement into a false one. None: it stays true.
fn falsify(f: &FalseIp, st: &mut St, w: &mut Wit) -> Option<()> {
    let z = Scalar::zero();
    let n = st.n;
    match f {
        FalseIp::T(d) => st.t += d.val(),
        FalseIp::TandP(d) => {
            st.t += d.val();
            st.p += d.val() * st.q;
        }
        FalseIp::PQ(d) => st.p += d.val() * st.q,
        FalseIp::PRand(s) => st.p += rp(*s),
        FalseIp::PGen(side, i, d) => {
            let i = *i as usize % n;
            // a commitment to other vectors; true if the product is unchanged
            let (x, y) = if *side == 0 { (st.g[i], w.b[i]) } else { (st.h[i], w.a[i]) };
            if y == z {
                return None;
            }
            st.p += d.val() * x;
        }
        FalseIp::Gen(side, i, s) => {
            let i = *i as usize % n;
            let (v, c) = if *side == 0 { (&mut st.g, w.a[i]) } else { (&mut st.h, w.b[i]) };
            if c == z {
                return None;
            }
            v[i] = rp(*s);
        }
        FalseIp::GenSwap(side, i, j) => {
            let (i, j) = (*i as usize % n, *j as usize % n);
            let (v, c) = if *side == 0 { (&mut st.g, &w.a) } else { (&mut st.h, &w.b) };
            let other = if *side == 0 { &w.b } else { &w.a };
            // swapping generators commits to swapped entries; false if the
            // product changes
            if (c[i] - c[j]) * (other[i] - other[j]) == z {
                return None;
            }
            v.swap(i, j);
        }
        FalseIp::A(i, d) => w.a[*i as usize % n] += d.val(),
        FalseIp::B(i, d) => w.b[*i as usize % n] += d.val(),
        FalseIp::Qpt(s) => {
            if st.kind == Kind::Alm || st.t == z {
                return None;
            }
            st.q = rp(*s);
        }
    }
    Some(())
}
/// The commitment that makes a proof fit the claimed value under the challenges
/// of a first verification.
fn late_claim(st: &St, p: &Proof) -> Result<Option<St>, Fail> {
    let ch = match canon(st, &verify_log(st, p)?.challenges()) {
        Some(c) => c,
        None => return Ok(None),
    };
    let res = match residual(st, p, &ch) {
        Some(r) => r[0],
        None => return Ok(None),
    };
    let c = ch[0] * prod(&ch[2..]);
    let mut st2 = st.clone();
    st2.p -= c.invert() * res;
    let ok = residual(&st2, p, &ch).map_or(false, |r| r[0] == RistrettoPoint::identity());
    Ok(if ok && st2.p != st.p { Some(st2) } else { None })
}
fn t_false(c: &FalseCase) -> CaseResult {
    let (st0, w0) = build_pair(&c.p);
    let (mut st, mut w) = (st0.clone(), w0.clone());
    if falsify(&c.f, &mut st, &mut w).is_none() {
        return Ok(Info::new(false));
    }
    let prover_changed = matches!(c.f, FalseIp::A(..) | FalseIp::B(..));
    let name = {
        let s = format!("{:?}", c.f);
        s.split('(').next().unwrap().to_string()
    };
    let r = if c.reprove || prover_changed {
        lib(|| prove_raw(&st, &w, &mut st.transcript()))
    } else {
        lib(|| prove_raw(&st0, &w0, &mut st0.transcript()))
    };
    let p = match r {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(false).tag("prover refused")),
    };
    ensure!(
        !verify(&st, &p)?,
        "accepts-false",
        "a {:?} proof was accepted for a false claim: {:?} (n={}, {:?}, {})",
        st.kind,
        c.f,
        st.n,
        c.p.rel,
        if c.reprove { "proof made for the false claim" } else { "honest proof" }
    );
    if st.kind == Kind::Alm {
        // another value, with a commitment that fits it under the challenges
        // just seen, where the caller leaves binding the statement to the argument
        let late = unbound(|| -> Result<bool, Fail> {
            let p = match lib(|| prove_raw(&st0, &w0, &mut st0.transcript())) {
                Ok(p) => p,
                Err(_) => return Ok(false),
            };
            match late_claim(&st, &p)? {
                Some(st2) => verify(&st2, &p),
                None => Ok(false),
            }
        })?;
        ensure!(
            !late,
            "accepts-late-claim",
            "a {:?} proof was accepted for another value or generator and a commitment chosen after all challenges (n={})",
            st.kind,
            st.n
        );
    }
    let fs = late_forge(&st, &p)?;
    let k = fs.len();
    for (nm, f) in fs {
        ensure!(
            !verify(&st, &f)?,
            "accepts-late",
            "a {:?} proof of a false claim whose {} was chosen after all challenges was accepted (n={})",
            st.kind,
            nm,
            st.n
        );
    }
    Ok(Info::new(true).tag(name).tag(if k > 0 { "with late messages" } else { "no late messages" }))
}

// ------------------------------------------------------- own prover
/// A prover that announces a mask cancelling a false claim for a guessed
/// challenge, and then runs the library's unmasked argument.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Guess {
    p: Pair,
    /// 0: the claimed product, 1: the commitment, 2: along Q, 3: along a generator
    what: u8,
    /// guessed challenge: 0, 1, -1, or the one of a first run
    guess: u8,
    delta: Sc,
    seed: u64,
    i: u16,
    control: bool,
}
fn s_guess(t: Tier) -> BoxedStrategy<Guess> {
    (
        s_pair(Kind::Alm, Shape { max_lg: 4, ..shp(t) }),
        0u8..4,
        0u8..4,
        sc_nz(),
        any::<u64>().no_shrink(),
        any::<u16>(),
        prop::bool::weighted(0.1),
    )
        .prop_map(|(mut p, what, guess, delta, seed, i, control)| {
            p.c.crs.kind = CrsKind::Random;
            Guess { p, what, guess, delta, seed, i, control }
        })
        .boxed()
}
fn s_pair(k: Kind, sh: Shape) -> BoxedStrategy<Pair> {
    (pcase(k, sh, true), rel()).prop_map(|(c, rel)| Pair { c, rel }).boxed()
}
fn t_guess(c: &Guess) -> CaseResult {
    let (mut st, w) = build_pair(&c.p);
    let n = st.n;
    let z = Scalar::zero();
    let id = st.q - st.q;
    let mut r = rng(c.seed, 70);
    let mut p = match lib(|| prove_raw(&st, &w, &mut st.transcript())) {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(false).tag("template prover refused")),
    };
    let delta = if c.control { z } else { c.delta.val() };
    // the false part of the claim: of the product, and of the commitment
    let (mut dt, mut dp) = (z, id);
    match c.what {
        0 => dt = delta,
        1 => dp = delta * rp(c.seed),
        2 => dp = delta * st.q,
        _ => {
            let i = c.i as usize % n;
            if w.b[i] == z {
                return Ok(Info::new(false));
            }
            dp = delta * st.g[i];
        }
    }
    st.t += dt;
    st.p += dp;
    // masks: ra orthogonal to b; rb such that everything else vanishes
    let j = match w.b.iter().position(|x| *x != z) {
        Some(j) => j,
        None => c.i as usize % n,
    };
    let mut ra: Vec<Scalar> = (0..n).map(|_| rs(&mut r)).collect();
    if w.b[j] != z {
        let e = ip(&ra, &w.b) * w.b[j].invert();
        ra[j] -= e;
    }
    let rb0: Vec<Scalar> = (0..n).map(|_| rs(&mut r)).collect();
    let k = c.i as usize % n;
    let mut guess = match c.guess {
        0 => z,
        2 => -Scalar::one(),
        _ => Scalar::one(),
    };
    let mut beta = z;
    let mut rb = rb0.clone();
    let mut ev = vec![];
    for run in 0..2 {
        // guess * <a, rb> + <ra, rb> = guess^2 * dt
        rb = rb0.clone();
        let f = guess * w.a[k] + ra[k];
        let cur = guess * ip(&w.a, &rb) + ip(&ra, &rb);
        rb[k] += (guess * guess * dt - cur) * f.invert();
        let mut cr = msm(&ra, &st.g) + msm(&rb, &st.h) - guess * dp;
        if c.control {
            // an honest mask: also orthogonal to a on its own
            let m = (k + 1) % n;
            rb = rb0.clone();
            let (e1, e2) = (ip(&rb, &w.a), ip(&rb, &ra));
            let det = w.a[k] * ra[m] - w.a[m] * ra[k];
            if det == z {
                return Ok(Info::new(false));
            }
            let di = det.invert();
            rb[k] += (-e1 * ra[m] + e2 * w.a[m]) * di;
            rb[m] += (-e2 * w.a[k] + e1 * ra[k]) * di;
            cr = msm(&ra, &st.g) + msm(&rb, &st.h);
        }
        set(&mut p, "C_r", &Val::P(cr));
        ev = verify_log(&st, &p)?.events;
        let ch = match canon(&st, &chals(&ev)) {
            Some(c) => c,
            None => return Ok(Info::new(false).tag("other challenge structure")),
        };
        beta = ch[0];
        if c.guess != 3 || run == 1 {
            break;
        }
        guess = beta;
    }
    let fa: Vec<Scalar> = w.a.iter().zip(ra.iter()).map(|(x, y)| beta * x + y).collect();
    let fb: Vec<Scalar> = w.b.iter().zip(rb.iter()).map(|(x, y)| beta * x + y).collect();
    let inner = |t: &mut merlin::Transcript| {
        lib(|| {
            qesa::verif_hooks::no_zk::create(t, st.g.clone(), st.h.clone(), &st.q, fa.clone(), fb.clone())
        })
    };
    // how many messages the inner argument absorbs before its first challenge
    let mut t0 = st.transcript();
    let own = logged(&mut t0, |t| Ok(inner(t).map(|_| ())))?.events;
    let own = own.iter().position(|e| e.challenge).unwrap_or(0);
    let chpos: Vec<usize> = (0..ev.len()).filter(|i| ev[*i].challenge && ev[*i].data.len() == 64).collect();
    if chpos.len() < 2 || chpos[1] < own + chpos[0] {
        return Ok(Info::new(false).tag("other message structure"));
    }
    let mut t = replayed(&st, &ev[..chpos[1] - own]);
    let q = match inner(&mut t) {
        Ok(q) => q,
        Err(_) => return Ok(Info::new(false).tag("inner prover refused")),
    };
    if let Proof::Alm(a) = &mut p {
        *a.verif_parts().1 = q;
    }
    let ok = verify(&st, &p)?;
    if c.control {
        return Ok(Info::new(false).tag(if ok { "control: accepted" } else { "control: rejected" }));
    }
    ensure!(
        !ok,
        "accepts-cheater",
        "a masked inner-product proof of a false claim (variant {}) was accepted from a prover guessing the challenge (guess {}, n={})",
        c.what,
        c.guess,
        n
    );
    Ok(Info::new(true).tag(format!("claim {} guess {}", c.what, c.guess)).tag(format!("n={}", n)))
}

// ------------------------------------------------------- refused vectors
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Iso {
    c: PCase,
    which: u8,
    i: u16,
    j: u16,
    s: Sc,
}
fn s_iso(t: Tier) -> BoxedStrategy<Iso> {
    (pcase(Kind::Alm, shp(t), true), 0u8..3, any::<u16>(), any::<u16>(), sc_nz())
        .prop_map(|(c, which, i, j, s)| Iso { c, which, i, j, s })
        .boxed()
}
/// A square root of -1 modulo the group order: a power x^((l-1)/4) of a
/// quadratic non-residue.
pub fn sqrt_m1() -> Scalar {
    // (l - 1) / 4 with l = 2^252 + 27742317777372353535851937790883648493
    let lm1 = -Scalar::one();
    let mut b = lm1.to_bytes();
    let mut carry = 0u8;
    for i in (0..32).rev() {
        let cur = b[i];
        b[i] = (cur >> 2) | (carry << 6);
        carry = cur & 3;
    }
    for base in 2u64.. {
        let x = Scalar::from(base);
        let mut r = Scalar::one();
        for i in (0..256).rev() {
            r *= r;
            if b[i / 8] >> (i % 8) & 1 == 1 {
                r *= x;
            }
        }
        if r * r == -Scalar::one() {
            return r;
        }
    }
    unreachable!()
}
fn iso_vec(n: usize, i: usize, j: usize, s: Scalar) -> Vec<Scalar> {
    let mut v = vec![Scalar::zero(); n];
    let i = i % n;
    let mut j = j % n;
    if i == j {
        j = (i + 1) % n;
    }
    v[i] = s;
    v[j] = s * sqrt_m1();
    v
}
fn t_iso(c: &Iso) -> CaseResult {
    let (mut st, mut w) = c.c.build();
    let v = iso_vec(st.n, c.i as usize, c.j as usize, c.s.val());
    assert!(isotropic(&v));
    if c.which != 1 {
        w.a = v.clone();
    }
    if c.which != 0 {
        w.b = v;
    }
    st.t = ip(&w.a, &w.b);
    st.p = msm(&w.a, &st.g) + msm(&w.b, &st.h);
    match lib(|| prove_raw(&st, &w, &mut st.transcript())) {
        Err(_) => Ok(Info::new(true).tag("refused")),
        Ok(p) => {
            ensure!(
                verify(&st, &p)?,
                "invalid-instead-of-refused",
                "the masked prover turned self-orthogonal vectors into a proof that does not verify (n={})",
                st.n
            );
            Ok(Info::new(true).tag("proved"))
        }
    }
}

// ------------------------------------------------------- C10
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OrthCase {
    n: u16,
    a: VSpec,
    b: VSpec,
    rel: Rel,
    iso: Option<(u16, u16, Sc)>,
}
fn s_orth(t: Tier) -> BoxedStrategy<OrthCase> {
    let hi = if t == Tier::Thorough { 400u16 } else { 130 };
    (
        sized(prop_oneof![300 => 1u16..10, 100 => 1..hi, 1 => hi..20 * hi].boxed(), 1, 400),
        vspec(),
        vspec(),
        rel(),
        prop::option::weighted(0.15, (any::<u16>(), any::<u16>(), sc_nz())),
    )
        .prop_map(|(n, a, b, rel, iso)| OrthCase { n, a, b, rel, iso })
        .boxed()
}
fn t_orth(c: &OrthCase) -> CaseResult {
    let n = c.n as usize;
    let (mut a, mut b) = (c.a.vec(n), c.b.vec(n));
    if let (Some((i, j, s)), true) = (&c.iso, n >= 2) {
        a = iso_vec(n, *i as usize, *j as usize, s.val());
    }
    relate(&c.rel, &mut a, &mut b);
    let (aa, ab) = (ip(&a, &a), ip(&a, &b));
    let z = Scalar::zero();
    let got = lib(|| gs::orth(&a, &b));
    let mut i = Info::new(n > 1).tag(rel_tag(&c.rel));
    if ab == z {
        i = i.tag("already orthogonal");
    }
    if aa == z {
        i = i.tag("first vector self-orthogonal");
    }
    match got {
        Err(m) => {
            ensure!(
                aa == z && ab != z,
                "orth-refuses",
                "orthogonal projection refused an admissible pair of length {}: <a,a>=0: {}, <a,b>=0: {} ({})",
                n,
                aa == z,
                ab == z,
                m
            );
            Ok(i.tag("refused"))
        }
        Ok(v) => {
            ensure!(v.len() == n, "orth-length", "projection of length {} vectors has length {}", n, v.len());
            ensure!(ip(&v, &a) == z, "orth-not-orthogonal", "projection is not orthogonal (n={}, {:?})", n, c.rel);
            if ab == z {
                ensure!(v == b, "orth-changed", "an already orthogonal vector was changed (n={})", n);
            } else {
                ensure!(aa != z, "orth-accepts-isotropic", "projection onto a self-orthogonal vector was not refused");
                let x = ab * aa.invert();
                let exp: Vec<Scalar> = b.iter().zip(a.iter()).map(|(b, a)| b - x * a).collect();
                ensure!(v == exp, "orth-wrong", "projection differs from b - (<a,b>/<a,a>) a (n={})", n);
            }
            Ok(i)
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SampleCase {
    n: u16,
    a: VSpec,
    b: VSpec,
    rel: Rel,
    seed: u64,
}
fn s_sample(t: Tier) -> BoxedStrategy<SampleCase> {
    let hi = if t == Tier::Thorough { 10u32 } else { 8 };
    (
        sized(
            prop_oneof![60 => (2u32..hi).prop_map(|l| 1u16 << l), 20 => 4u16..80, 1 => (8u32..13).prop_map(|l| 1u16 << l)].boxed(),
            4,
            400,
        ),
        vspec(),
        vspec(),
        rel(),
        any::<u64>().no_shrink(),
    )
        .prop_map(|(n, a, b, rel, seed)| SampleCase { n, a, b, rel, seed })
        .boxed()
}
fn t_sample(c: &SampleCase) -> CaseResult {
    let n = c.n as usize;
    let (mut a, mut b) = (c.a.vec(n), c.b.vec(n));
    relate(&c.rel, &mut a, &mut b);
    if isotropic(&a) || isotropic(&b) {
        return Ok(Info::new(false));
    }
    let z = Scalar::zero();
    rand::verif::set_seed(Some(c.seed));
    let v = must("sample_gram_schmidt", || gs::sample_gram_schmidt(&b))?;
    ensure!(v.len() == n, "mask-length", "a mask for length {} has length {}", n, v.len());
    ensure!(ip(&v, &b) == z, "mask-not-orthogonal", "a sampled mask is not orthogonal to its vector (n={})", n);
    ensure!(v.iter().any(|x| *x != z), "mask-zero", "a sampled mask is zero (n={})", n);
    // the second mask: for a and the first mask, as the argument uses it
    let u = must("sample_gram_schmidt_twice", || gs::sample_gram_schmidt_twice(&a, &v))?;
    ensure!(u.len() == n, "mask-length", "a double mask for length {} has length {}", n, u.len());
    ensure!(ip(&u, &a) == z, "mask-not-orthogonal", "the second mask is not orthogonal to the first vector (n={})", n);
    ensure!(ip(&u, &v) == z, "mask-not-orthogonal", "the second mask is not orthogonal to the first mask (n={})", n);
    ensure!(u.iter().any(|x| *x != z), "mask-zero", "a sampled double mask is zero (n={})", n);
    // and for two arbitrary vectors
    let par = ip(&a, &b);
    let u = lib(|| gs::sample_gram_schmidt_twice(&a, &b));
    match u {
        Ok(u) => {
            ensure!(ip(&u, &a) == z && ip(&u, &b) == z, "mask-not-orthogonal", "a double mask is not orthogonal to both vectors (n={}, {:?})", n, c.rel);
            ensure!(u.iter().any(|x| *x != z), "mask-zero", "a sampled double mask is zero (n={})", n);
        }
        Err(m) => {
            // b minus its part along a may be self-orthogonal
            let aa = ip(&a, &a);
            let mut o = b.clone();
            if par != z {
                let x = par * aa.invert();
                for i in 0..n {
                    o[i] -= x * a[i];
                }
            }
            ensure!(isotropic(&o), "mask-refused", "sampling a double mask failed (n={}, {:?}): {}", n, c.rel, m);
        }
    }
    Ok(Info::new(true).tag(rel_tag(&c.rel)).tag(if n.is_power_of_two() { "power of two" } else { "other length" }))
}

// ------------------------------------------------------- C11
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RankCase {
    lg: u8,
    b: VSpec,
    a: VSpec,
    seed: u64,
}
fn s_rank(t: Tier) -> BoxedStrategy<RankCase> {
    let hi = if t == Tier::Thorough { 10u8 } else { 8 };
    (prop_oneof![60 => 2u8..=hi, 1 => hi..=hi + 3], vspec(), vspec(), any::<u64>().no_shrink())
        .prop_map(|(lg, b, a, seed)| RankCase { lg, b, a, seed })
        .boxed()
}
fn t_rank(c: &RankCase) -> CaseResult {
    let n = 1usize << c.lg;
    let want = (n - 1).min(2 * c.lg as usize + 1);
    let (b, a) = (c.b.vec(n), c.a.vec(n));
    if isotropic(&b) || isotropic(&a) {
        return Ok(Info::new(false));
    }
    let mut rows = vec![];
    let mut rows2 = vec![];
    for i in 0..want + 2 {
        rand::verif::set_seed(Some(hash64(&[&c.seed.to_le_bytes(), &(i as u64).to_le_bytes()])));
        let v = must("sample_gram_schmidt", || gs::sample_gram_schmidt(&b))?;
        rows2.push(must("sample_gram_schmidt_twice", || gs::sample_gram_schmidt_twice(&a, &v))?);
        rows.push(v);
    }
    let r = rank(rows);
    ensure!(r >= want, "mask-rank", "masks of length {} span only {} dimensions, {} expected", n, r, want);
    let r = rank(rows2);
    ensure!(r + 1 >= want, "mask-rank", "second masks of length {} span only {} dimensions, {} expected", n, r, want - 1);
    Ok(Info::new(true).tag(format!("n={}", n)))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawCase {
    lg: u8,
    j: u16,
    seed: u64,
    reps: u16,
}
fn s_raw(t: Tier) -> BoxedStrategy<RawCase> {
    let hi = if t == Tier::Thorough { 12u8 } else { 10 };
    (prop_oneof![200 => 2u8..=hi, 1 => hi..=hi + 4], any::<u16>(), any::<u64>().no_shrink())
        .prop_map(|(lg, j, seed)| RawCase { lg, j, seed, reps: 4 })
        .boxed()
}
/// Many masks one after another on one random stream.
fn s_raw_many(t: Tier) -> BoxedStrategy<RawCase> {
    let hi = if t == Tier::Thorough { 3000u16 } else { 700 };
    (2u8..=5, any::<u16>(), any::<u64>().no_shrink(), 4..=hi)
        .prop_map(|(lg, j, seed, reps)| RawCase { lg, j, seed, reps })
        .boxed()
}
/// With a unit vector the orthogonal mask shows the random entries themselves.
fn t_raw(c: &RawCase) -> CaseResult {
    let n = 1usize << c.lg;
    let mut e = vec![Scalar::zero(); n];
    let j = c.j as usize % n;
    e[j] = Scalar::one();
    let z = Scalar::zero();
    let mut seen: HashSet<[u8; 32]> = HashSet::new();
    for s in 0..c.reps as u64 {
        if s < 3 {
            rand::verif::set_seed(Some(hash64(&[&c.seed.to_le_bytes(), &s.to_le_bytes()])));
        }
        let v = must("sample_gram_schmidt", || gs::sample_gram_schmidt(&e))?;
        let nz: Vec<&Scalar> = v.iter().filter(|x| **x != z).collect();
        let want = (n - 1).min(2 * c.lg as usize + 1);
        ensure!(nz.len() >= want, "mask-entries", "a mask of length {} has only {} random entries, {} expected", n, nz.len(), want);
        for (i, x) in nz.iter().enumerate() {
            ensure!(!small(x), "mask-small", "a mask entry is not a full-size scalar (n={})", n);
            for y in &nz[..i] {
                ensure!(
                    !small(&(*x - *y)) && !small(&(*x + *y)) && (i > 64 || !small(&(*x * y.invert())) && !small(&(*y * x.invert()))),
                    "mask-related",
                    "two entries of one mask have a small sum, difference or quotient (n={})",
                    n
                );
            }
            ensure!(
                seen.insert(x.to_bytes()) && !seen.contains(&(-**x).to_bytes()),
                "mask-repeats",
                "a mask entry repeats within a mask or between two masks (n={})",
                n
            );
        }
    }
    Ok(Info::new(true).tag(format!("n={}", n)))
}
/// Each random entry of a mask depends on at least 128 bits of randomness.
fn s_entropy(t: Tier) -> BoxedStrategy<RawCase> {
    let hi = if t == Tier::Thorough { 8u8 } else { 6 };
    (2u8..=hi, any::<u16>(), any::<u64>().no_shrink()).prop_map(|(lg, j, seed)| RawCase { lg, j, seed, reps: 1 }).boxed()
}
fn t_entropy(c: &RawCase) -> CaseResult {
    let n = 1usize << c.lg;
    let mut e = vec![Scalar::zero(); n];
    e[c.j as usize % n] = Scalar::one();
    let run = || Ok(must("sample_gram_schmidt", || gs::sample_gram_schmidt(&e))?.iter().map(|x| x.to_bytes()).collect());
    rand::verif::set_seed(Some(c.seed));
    let zeros: Vec<bool> = must("sample_gram_schmidt", || gs::sample_gram_schmidt(&e))?.iter().map(|x| *x == Scalar::zero()).collect();
    // structural zeros depend on nothing: only the others are counted
    let live = |v: Vec<[u8; 32]>| -> Vec<[u8; 32]> { v.into_iter().zip(zeros.iter()).filter(|x| !*x.1).map(|x| x.0).collect() };
    match influence(c.seed, 16, &|| Ok(live(run()?)))? {
        None => Ok(Info::new(false).tag("randomness not reproducible")),
        Some(v) => {
            for (i, x) in v.iter().enumerate() {
                ensure!(*x >= 16, "little-entropy", "random entry {} of a mask depends on {} random bytes only (n={})", i, x, n);
            }
            Ok(Info::new(true).tag(format!("n={}", n)))
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Extract {
    c: PCase,
    rel: Rel,
    seed: u64,
}
fn s_extract(t: Tier) -> BoxedStrategy<Extract> {
    let hi = if t == Tier::Thorough { 4 } else { 3 };
    (
        pcase(Kind::Alm, Shape { max_lg: hi, max_eqs: 1, max_m: 1, max_n: 8 }, true),
        rel(),
        any::<u64>().no_shrink(),
        any::<bool>(),
    )
        .prop_map(|(mut c, mut rel, seed, structured)| {
            c.lg = c.lg.max(2).min(5);
            c.crs.kind = CrsKind::Random;
            if !structured {
                rel = Rel::Free;
                c.lg = 2 + (seed % 3) as u8;
                c.w = VSpec { kind: VKind::Rand, seed: c.w.seed, over: vec![] };
                c.v = VSpec { kind: VKind::Rand, seed: c.v.seed ^ 0x5555, over: vec![] };
            }
            Extract { c, rel, seed }
        })
        .boxed()
}
/// Replays the masked prover with one random stream under many transcripts and
/// solves for the vectors its final scalars are made of: (challenge part, mask)
/// of a and of b, and C_r.
#[allow(clippy::type_complexity)]
fn extract(
    st: &St,
    w: &Wit,
    seed: u64,
) -> Result<Result<(Vec<Scalar>, Vec<Scalar>, Option<RistrettoPoint>), &'static str>, Fail> {
    let mut st = st.clone();
    let n = st.n;
    let lg = st.rounds();
    let (mut ra, mut ya, mut rb, mut yb) = (vec![], vec![], vec![], vec![]);
    let mut cr = None;
    for i in 0..2 * n + 3 {
        rand::verif::set_seed(Some(seed));
        st.ctx.msgs = vec![(0, vec![i as u8])];
        let p = prove_log(&st, w)?;
        let ch = match canon(&st, &p.challenges()) {
            Some(c) => c,
            None => return Ok(Err("other challenge structure")),
        };
        cr = find(&p.out, "C_r").unwrap().point();
        let be = ch[0];
        let xs = &ch[2..2 + lg];
        let (mut ka, mut kb) = (vec![], vec![]);
        for j in 0..n {
            let (mut wa, mut wb) = (Scalar::one(), Scalar::one());
            let (mut jj, mut half) = (j, n / 2);
            for x in xs {
                if jj < half {
                    wa *= x;
                } else {
                    wb *= x;
                    jj -= half;
                }
                half /= 2;
            }
            ka.push(wa);
            kb.push(wb);
        }
        let row = |k: &[Scalar]| -> Vec<Scalar> { k.iter().map(|x| be * x).chain(k.iter().cloned()).collect() };
        ra.push(row(&ka));
        rb.push(row(&kb));
        match (find(&p.out, "a"), find(&p.out, "b")) {
            (Some(Val::S(a)), Some(Val::S(b))) => {
                ya.push(a);
                yb.push(b);
            }
            _ => unreachable!(),
        }
    }
    // final = sum_j k_j (beta p_j + r_j)
    Ok(match (solve(ra, ya), solve(rb, yb)) {
        (Some(a), Some(b)) => Ok((a, b, cr)),
        _ => Err("randomness not reproducible or other structure"),
    })
}
/// Masks applied to related vectors still span as much as those of any other.
fn s_related(t: Tier) -> BoxedStrategy<Extract> {
    let hi = if t == Tier::Thorough { 4 } else { 3 };
    let odd = prop_oneof![4 => rel().boxed(), 3 => Just(Rel::Orthogonal).boxed(), 1 => Just(Rel::Disjoint).boxed()];
    (pcase(Kind::Alm, Shape { max_lg: hi, max_eqs: 1, max_m: 1, max_n: 8 }, true), odd, any::<u64>().no_shrink())
        .prop_map(move |(mut c, rel, seed)| {
            c.lg = c.lg.max(2).min(hi);
            c.crs.kind = CrsKind::Random;
            Extract { c, rel, seed }
        })
        .boxed()
}
fn t_related(e: &Extract) -> CaseResult {
    let (st, w) = build_pair(&Pair { c: e.c.clone(), rel: e.rel.clone() });
    if isotropic(&w.a) || isotropic(&w.b) {
        return Ok(Info::new(false));
    }
    let n = st.n;
    let dims = (n - 1).min(2 * st.rounds() + 1);
    let runs = 3;
    let (mut ma, mut mb) = (vec![], vec![]);
    for k in 0..runs {
        match extract(&st, &w, e.seed.wrapping_add(k as u64))? {
            Ok((sa, sb, _)) => {
                ma.push(sa[n..].to_vec());
                mb.push(sb[n..].to_vec());
            }
            Err(s) => return Ok(Info::new(false).tag(s)),
        }
    }
    for (nm, m, want) in [("a", ma, dims), ("b", mb, dims - 1)] {
        let got = rank(m);
        ensure!(
            got >= want.min(runs),
            "mask-rank",
            "the masks applied to {} in {} proofs span only {} dimensions (n={}, {:?})",
            nm,
            runs,
            got,
            n,
            e.rel
        );
    }
    let mut i = Info::new(true).tag(format!("n={}", n)).tag(rel_tag(&e.rel));
    if st.t == Scalar::zero() {
        i = i.tag("t=0");
    }
    Ok(i)
}
fn t_extract(e: &Extract) -> CaseResult {
    let (st, w) = build_pair(&Pair { c: e.c.clone(), rel: e.rel.clone() });
    if isotropic(&w.a) || isotropic(&w.b) {
        return Ok(Info::new(false));
    }
    let n = st.n;
    let lg = st.rounds();
    let (sa, sb, cr) = match extract(&st, &w, e.seed)? {
        Ok(x) => x,
        Err(s) => return Ok(Info::new(false).tag(s)),
    };
    let z = Scalar::zero();
    let nm = ["a", "b"];
    let plain = |v: &VSpec| v.kind == VKind::Rand && v.over.is_empty();
    let free = e.rel == Rel::Free && plain(&e.c.w) && plain(&e.c.v);
    let (pa, r1) = sa.split_at(n);
    let (pb, r2) = sb.split_at(n);
    for (k, (p, r, wv)) in [(pa, r1, &w.a), (pb, r2, &w.b)].iter().enumerate() {
        ensure!(
            *p == &wv[..] || *p == &wv.iter().map(|x| -x).collect::<Vec<_>>()[..],
            "not-masked",
            "the inner argument does not run on challenge times witness plus mask for {} (n={})",
            nm[k],
            n
        );
        // orthogonality to a structured vector can force equal or zero entries
        if !free {
            continue;
        }
        let cnt = r.iter().filter(|x| **x != z).count();
        let want = (n - 1).min(2 * lg + 1) - k;
        ensure!(cnt >= want.min(2 * lg), "mask-entries", "the mask applied to {} has only {} non-zero entries (n={})", nm[k], cnt, n);
        let mut seen = HashSet::new();
        for x in r.iter().filter(|x| **x != z) {
            ensure!(!small(x), "mask-small", "a mask entry applied to {} is not full-size (n={})", nm[k], n);
            ensure!(seen.insert(x.to_bytes()), "mask-repeats", "mask entries applied to {} repeat (n={})", nm[k], n);
        }
        // a mask proportional to the witness would be determined by one value
        if let Some(i) = wv.iter().position(|x| *x != z) {
            let q = r[i] * wv[i].invert();
            ensure!(
                !wv.iter().zip(r.iter()).all(|(x, y)| q * x == *y) || ip(wv, r) == z,
                "mask-parallel",
                "the mask applied to {} is a multiple of it (n={})",
                nm[k],
                n
            );
        }
    }
    ensure!(
        ip(r1, &w.b) == z && ip(r2, &w.a) == z && ip(r1, r2) == z,
        "mask-not-orthogonal",
        "the applied masks are not orthogonal as required (n={})",
        n
    );
    let exp = msm(r1, &st.g) + msm(r2, &st.h);
    ensure!(cr == Some(exp), "mask-commitment", "C_r does not commit to the applied masks (n={})", n);
    Ok(Info::new(true).tag(format!("n={}", n)).tag(if free { "random vectors" } else { "structured vectors" }))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "A case is a pair of vectors in a generated relation, generators and, for soundness, one false claim; non-trivial if some entry is non-zero, or if the claim is false and a proof was offered.",
            assumptions: vec!["soundness: generators are independent (random)", "callers bind the statement to the transcript, as the harness does"],
            facets: vec![
                facet("complete", 12000, 120000, s_pair_ipa, t_pair),
                facet("large", 150, 1500, s_big_ipa, t_pair),
                facet("false-claims", 4000, 40000, s_false_ipa, t_false),
            ],
        },
        Prop {
            id: "C09",
            rule: "As C08 for the masked argument; additionally self-orthogonal vectors built from a square root of -1.",
            assumptions: vec!["soundness: generators are independent (random)", "callers bind the statement to the transcript, as the harness does"],
            facets: vec![
                facet("complete", 10000, 100000, s_pair_alm, t_pair),
                facet("large", 150, 1500, s_big_alm, t_pair),
                facet("guessing-prover", 6000, 60000, s_guess, t_guess),
                facet("false-claims", 3500, 35000, s_false_alm, t_false),
                facet("self-orthogonal", 6000, 60000, s_iso, t_iso),
            ],
        },
        Prop {
            id: "C10",
            rule: "A case is a length and two vectors in a generated relation (free, equal, parallel, orthogonal, disjoint, unit, self-orthogonal); non-trivial if longer than 1.",
            assumptions: vec![],
            facets: vec![
                facet("projection", 200000, 2000000, s_orth, t_orth),
                facet("sampled-masks", 60000, 600000, s_sample, t_sample),
            ],
        },
        Prop {
            id: "C11",
            rule: "A case is a length, vectors and random streams; non-trivial unless the vectors cannot be masked or the prover's randomness could not be reproduced.",
            assumptions: vec!["randomness comes from rand 0.7.3 thread_rng, replaced by a seedable copy"],
            facets: vec![
                facet("rank", 5000, 50000, s_rank, t_rank),
                facet("raw-entries", 12000, 120000, s_raw, t_raw),
                facet("many", 64, 600, s_raw_many, t_raw),
                facet("entropy", 800, 6000, s_entropy, t_entropy),
                facet("applied", 1800, 15000, s_extract, t_extract),
                facet("related", 600, 6000, s_related, t_related),
            ],
        },
    ]
}
