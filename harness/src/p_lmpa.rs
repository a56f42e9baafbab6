//! C12 halving, C13 k-ary, C14 zero-knowledge linear-map arguments, C15 hiding.
use crate::attack::*;
use crate::eng::*;
use crate::gen::*;
use crate::p_cross::{apply_edit, edit, edit_name, Edit};
use crate::p_qesa::{apply, s_ctx_change, Change};
use crate::proto::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::io::{Read, Seek, SeekFrom, Write};

const HALF: [Kind; 1] = [Kind::LHalf];
const KARY: [Kind; 1] = [Kind::LK];
const ZK: [Kind; 2] = [Kind::SHalf, Kind::SK];
fn shp(t: Tier) -> Shape {
    if t == Tier::Thorough {
        Shape { max_lg: 6, max_eqs: 1, max_m: 6, max_n: 128 }
    } else {
        Shape { max_lg: 4, max_eqs: 1, max_m: 4, max_n: 32 }
    }
}
fn shape_tag(st: &St) -> String {
    if st.kind.kary() {
        format!("{:?} k={} n={}", st.kind, st.k, st.n)
    } else {
        format!("{:?} n={}", st.kind, st.n)
    }
}

fn t_complete(c: &PCase) -> CaseResult {
    let (st, w) = c.build();
    let p = prove_log(&st, &w)?;
    let v = verify_log(&st, &p.out)?;
    ensure!(v.out, "rejects-honest", "honest {:?} proof rejected (m={}, n={}, k={})", st.kind, st.m, st.n, st.k);
    ensure!(p.state == v.state, "state-differs", "transcripts differ after a {:?} proof", st.kind);
    Ok(Info::new(st.rounds() > 0).tag(shape_tag(&st)).tag(format!("m={}", st.m)))
}
fn s_c12(t: Tier) -> BoxedStrategy<PCase> {
    any_kind(&HALF, shp(t), true)
}
fn s_c13(t: Tier) -> BoxedStrategy<PCase> {
    any_kind(&KARY, shp(t), true)
}
fn s_c14(t: Tier) -> BoxedStrategy<PCase> {
    any_kind(&ZK, shp(t), true)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FalseL {
    /// one entry of t
    T(u16, u64),
    /// one entry of t, by a multiple of an entry of A
    TMul(u16, u16, Sc),
    /// two entries of t exchanged
    TSwap(u16, u16),
    /// errors in two rows that cancel
    TPair(u16, u16, u64),
    /// one entry of A
    A(u16, u16, u64),
    /// one entry of t, or of A, whose encoding differs in one byte
    Near(bool, u16, u16, u8),
    /// the prover uses another witness
    W(u16, Sc),
    /// t chosen with knowledge of proof and challenges
    AdaptT(u16, Sc),
    /// A chosen with knowledge of proof and challenges
    AdaptA(u16, u16, u16, u64),
    /// t false, the error absorbed by the cross terms of one round (k-ary)
    LateU(u16, u16, u16, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FalseCase {
    c: PCase,
    f: FalseL,
    reprove: bool,
}
fn s_falsel() -> BoxedStrategy<FalseL> {
    let p = || any::<u64>().no_shrink();
    prop_oneof![
        3 => (any::<u16>(), p()).prop_map(|(a, b)| FalseL::T(a, b)),
        1 => (any::<u16>(), any::<u16>(), sc_nz()).prop_map(|(a, b, c)| FalseL::TMul(a, b, c)),
        1 => any::<(u16, u16)>().prop_map(|(a, b)| FalseL::TSwap(a, b)),
        1 => (any::<u16>(), any::<u16>(), p()).prop_map(|(a, b, c)| FalseL::TPair(a, b, c)),
        3 => (any::<u16>(), any::<u16>(), p()).prop_map(|(a, b, c)| FalseL::A(a, b, c)),
        2 => (any::<bool>(), any::<u16>(), any::<u16>(), any::<u8>()).prop_map(|(x, a, b, c)| FalseL::Near(x, a, b, c)),
        2 => (any::<u16>(), sc_nz()).prop_map(|(a, b)| FalseL::W(a, b)),
        3 => (any::<u16>(), sc_nz()).prop_map(|(a, b)| FalseL::AdaptT(a, b)),
        3 => (any::<u16>(), any::<u16>(), any::<u16>(), p()).prop_map(|(a, b, c, d)| FalseL::AdaptA(a, b, c, d)),
        2 => (any::<u16>(), any::<u16>(), any::<u16>(), p()).prop_map(|(a, b, c, d)| FalseL::LateU(a, b, c, d)),
    ]
    .boxed()
}
fn s_false(kinds: &[Kind], t: Tier) -> BoxedStrategy<FalseCase> {
    let c = prop_oneof![any_kind(kinds, shp(t), true), any_kind(kinds, shp(t), false)];
    (c, s_falsel(), any::<bool>())
        .prop_map(|(mut c, f, reprove)| {
            c.crs.kind = CrsKind::Random;
            FalseCase { c, f, reprove }
        })
        .boxed()
}
fn false_large(kinds: &[Kind], t: Tier) -> BoxedStrategy<FalseCase> {
    (large(kinds, t), s_falsel(), any::<bool>()).prop_map(|(c, f, reprove)| FalseCase { c, f, reprove }).boxed()
}
fn tamper_large(kinds: &[Kind], t: Tier) -> BoxedStrategy<Tamper> {
    (large(kinds, t), edit()).prop_map(|(c, e)| Tamper { c, e }).boxed()
}
fn s_f12(t: Tier) -> BoxedStrategy<FalseCase> {
    s_false(&HALF, t)
}
fn s_f13(t: Tier) -> BoxedStrategy<FalseCase> {
    s_false(&KARY, t)
}
fn s_f14(t: Tier) -> BoxedStrategy<FalseCase> {
    s_false(&ZK, t)
}
fn zk(st: &St) -> bool {
    matches!(st.kind, Kind::SHalf | Kind::SK)
}
fn rec_chals<'a>(st: &St, ch: &'a [Scalar]) -> &'a [Scalar] {
    if zk(st) {
        &ch[1..]
    } else {
        ch
    }
}
fn t_false(c: &FalseCase) -> CaseResult {
    let (st0, mut w) = c.c.build();
    let mut st = st0.clone();
    let z = Scalar::zero();
    let (m, n) = (st.m, st.n);
    let name = {
        let s = format!("{:?}", c.f);
        s.split('(').next().unwrap().to_string()
    };
    let adaptive = matches!(c.f, FalseL::AdaptT(..) | FalseL::AdaptA(..) | FalseL::LateU(..));
    // without any challenge there is nothing to be adaptive about
    if adaptive && st.num_challenges() == 0 {
        return Ok(Info::new(false));
    }
    let mut proof: Option<Proof> = None;
    match &c.f {
        FalseL::T(j, s) => st.tv[*j as usize % m] += rp(*s),
        FalseL::TMul(j, i, s) => {
            let j = *j as usize % m;
            let d = s.val() * st.a[j][*i as usize % n];
            st.tv[j] += d;
        }
        FalseL::TSwap(i, j) => {
            let (i, j) = (*i as usize % m, *j as usize % m);
            if st.tv[i] == st.tv[j] {
                return Ok(Info::new(false));
            }
            st.tv.swap(i, j);
        }
        FalseL::TPair(i, j, s) => {
            let (i, j) = (*i as usize % m, *j as usize % m);
            if i == j {
                return Ok(Info::new(false));
            }
            st.tv[i] += rp(*s);
            st.tv[j] -= rp(*s);
        }
        FalseL::A(i, j, s) => {
            let (i, j) = (*i as usize % m, *j as usize % n);
            if w.w[j] == z {
                return Ok(Info::new(false));
            }
            st.a[i][j] += rp(*s);
        }
        FalseL::Near(true, i, _, k) => {
            let i = *i as usize % m;
            st.tv[i] = near(&st.tv[i], *k);
        }
        FalseL::Near(_, i, j, k) => {
            let (i, j) = (*i as usize % m, *j as usize % n);
            if w.w[j] == z {
                return Ok(Info::new(false));
            }
            st.a[i][j] = near(&st.a[i][j], *k);
        }
        FalseL::W(i, d) => w.w[*i as usize % n] += d.val(),
        _ => {
            let mut p = prove(&st0, &w)?;
            let ch = match canon(&st0, &verify_log(&st0, &p)?.challenges()) {
                Some(c) => c,
                None => return Ok(Info::new(false).tag("other challenge structure")),
            };
            let xs = rec_chals(&st, &ch).to_vec();
            let be = if zk(&st) { ch[0] } else { Scalar::one() };
            match &c.f {
                FalseL::AdaptT(i, d) => {
                    let nm = if st.kind.kary() {
                        format!("w[{}]", *i as usize % last_len(&st))
                    } else {
                        "w".to_string()
                    };
                    let old = match find(&p, &nm) {
                        Some(Val::S(s)) => s,
                        _ => return Ok(Info::new(false)),
                    };
                    set(&mut p, &nm, &Val::S(old + d.val()));
                    let res = residual(&st, &p, &ch).unwrap();
                    for j in 0..m {
                        if st.kind.kary() {
                            st.tv[j] += be.invert() * res[j];
                            for r in 0..st.rounds() {
                                add_point(&mut p, &format!("u[{}][{}][{}]", r, st.k - 1, j), &res[j]);
                            }
                            if find(&p, &format!("t[{}]", j)).is_some() {
                                add_point(&mut p, &format!("t[{}]", j), &res[j]);
                            }
                        } else {
                            st.tv[j] += (be * prod(&xs)).invert() * res[j];
                        }
                    }
                }
                FalseL::AdaptA(i, j, j2, s) => {
                    let (i, j, mut j2) = (*i as usize % m, *j as usize % n, *j2 as usize % n);
                    let len = last_len(&st);
                    j2 = j2 / len * len + j % len;
                    if j2 == j {
                        j2 = (j2 + len) % n;
                    }
                    if j2 == j || xs.is_empty() {
                        return Ok(Info::new(false));
                    }
                    let d = rp(*s);
                    let (c1, c2) = (col_weight(&st, j, &xs).invert(), col_weight(&st, j2, &xs).invert());
                    if w.w[j] * c1 == w.w[j2] * c2 {
                        return Ok(Info::new(false));
                    }
                    st.a[i][j] += c1 * d;
                    st.a[i][j2] -= c2 * d;
                }
                FalseL::LateU(j, r, l, s) => {
                    if !st.kind.kary() || xs.is_empty() {
                        return Ok(Info::new(false));
                    }
                    let j = *j as usize % m;
                    let d = rp(*s);
                    let r = *r as usize % xs.len();
                    let mut l = *l as usize % (2 * st.k - 1);
                    if l == st.k - 1 {
                        l += 1;
                    }
                    st.tv[j] += be.invert() * d;
                    for rr in 0..=r {
                        add_point(&mut p, &format!("u[{}][{}][{}]", rr, st.k - 1, j), &d);
                    }
                    add_point(&mut p, &format!("u[{}][{}][{}]", r, l, j), &(-(zpow(&st, l, xs[r]).invert() * d)));
                }
                _ => unreachable!(),
            }
            // the construction satisfies the last equation under the old challenges
            let id = residual(&st, &p, &ch).map_or(false, |v| v.iter().all(|x| *x == v[0] - v[0]));
            if !id {
                return Ok(Info::new(false).tag("construction not applicable"));
            }
            proof = Some(p);
        }
    }
    let changed_w = matches!(c.f, FalseL::W(..));
    let p = match proof {
        Some(p) => p,
        None => {
            let r = if changed_w || c.reprove {
                // prover works on the false statement itself
                lib(|| prove_raw(&st, &w, &mut st.transcript()))
            } else {
                lib(|| prove_raw(&st0, &w, &mut st0.transcript()))
            };
            match r {
                Ok(p) => p,
                Err(_) => return Ok(Info::new(false).tag("prover refused")),
            }
        }
    };
    ensure!(
        !verify(&st, &p)?,
        "accepts-false",
        "a {:?} proof was accepted for a false statement: {:?} (m={}, n={}, k={}{})",
        st.kind,
        c.f,
        m,
        n,
        st.k,
        if c.reprove && !adaptive { ", proof made for it" } else { "" }
    );
    if !changed_w && (st.tv != st0.tv || st.a != st0.a) {
        crate::p_qesa::other_challenges(&st0, &st, &p, 0, &format!("{:?}", c.f))?;
    }
    let mut late = 0;
    // A zero image has a preimage whatever the prover used, and no challenge
    // weighs it: there the changed announcement is an honest one.
    let zero_image = st.tv.iter().all(|x| *x == *x - *x);
    if !adaptive && !zero_image {
        for (nm, f) in late_forge(&st, &p)? {
            late += 1;
            ensure!(
                !verify(&st, &f)?,
                "accepts-late",
                "a {:?} proof of a false statement whose {} was chosen after all challenges was accepted (m={}, n={})",
                st.kind,
                nm,
                m,
                n
            );
        }
    }
    Ok(Info::new(true).tag(name).tag(if late > 0 { "with late messages" } else { "-" }).tag(shape_tag(&st)))
}

// -------------------------------------------------- own prover
/// A prover that announces a = A r - guess * D for a claim t = A w + D and
/// runs the library's unmasked argument on the blinded witness.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Guess {
    c: PCase,
    guess: u8,
    rows: u16,
    i: u16,
    along: bool,
    seed: u64,
    control: bool,
}
fn s_guess(t: Tier) -> BoxedStrategy<Guess> {
    (any_kind(&ZK, shp(t), true), 0u8..4, 1u16..64, any::<u16>(), any::<bool>(), any::<u64>().no_shrink(), prop::bool::weighted(0.1))
        .prop_map(|(mut c, guess, rows, i, along, seed, control)| {
            c.crs.kind = CrsKind::Random;
            Guess { c, guess, rows, i, along, seed, control }
        })
        .boxed()
}
fn t_guess(c: &Guess) -> CaseResult {
    let (mut st, w) = c.c.build();
    let (m, n) = (st.m, st.n);
    let mut r = rng(c.seed, 80);
    let mut p = prove(&st, &w)?;
    let id = st.q - st.q;
    let mut any = false;
    let d: Vec<RistrettoPoint> = (0..m)
        .map(|j| {
            if c.control || c.rows >> (j % 6) & 1 == 0 {
                return id;
            }
            any = true;
            if c.along {
                rs(&mut r) * st.a[j][c.i as usize % n]
            } else {
                rp(c.seed ^ j as u64)
            }
        })
        .collect();
    if !any && !c.control {
        return Ok(Info::new(false));
    }
    for j in 0..m {
        st.tv[j] += d[j];
    }
    let rr: Vec<Scalar> = (0..n).map(|_| rs(&mut r)).collect();
    let ar = mv(&st.a, &rr);
    let mut g = match c.guess {
        0 => Scalar::zero(),
        2 => -Scalar::one(),
        _ => Scalar::one(),
    };
    let mut ev = vec![];
    let mut beta = g;
    let mut a = ar.clone();
    for run in 0..2 {
        for j in 0..m {
            a[j] = ar[j] - g * d[j];
            set(&mut p, &format!("a[{}]", j), &Val::P(a[j]));
        }
        ev = verify_log(&st, &p)?.events;
        let ch = match canon(&st, &chals(&ev)) {
            Some(c) => c,
            None => return Ok(Info::new(false).tag("other challenge structure")),
        };
        beta = ch[0];
        if c.guess != 3 || run == 1 {
            break;
        }
        g = beta;
    }
    let cut = ev.iter().position(|e| e.challenge).unwrap();
    let mut t = replayed(&st, &ev[..=cut]);
    let wp: Vec<Scalar> = w.w.iter().zip(rr.iter()).map(|(x, y)| beta * x + y).collect();
    let tp: Vec<RistrettoPoint> = st.tv.iter().zip(a.iter()).map(|(x, y)| beta * x + y).collect();
    let q = lib(|| match st.kind {
        Kind::SHalf => Proof::LHalf(qesa::lmpa::no_zk::create(&mut t, st.a.clone(), st.g.clone(), st.h.clone(), &st.q, wp.clone())),
        _ => Proof::LK(qesa::lmpa::no_zk::create_lmpa_noZK(&mut t, st.a.clone(), wp.clone(), tp.clone(), n, m, st.k, Scalar::one(), id)),
    });
    match (&mut p, q) {
        (Proof::SHalf(p), Ok(Proof::LHalf(q))) => *p.verif_parts().0 = q,
        (Proof::SK(p), Ok(Proof::LK(q))) => *p.verif_parts().0 = q,
        _ => return Ok(Info::new(false).tag("inner prover refused")),
    }
    let ok = verify(&st, &p)?;
    if c.control {
        return Ok(Info::new(false).tag(if ok { "control: accepted" } else { "control: rejected" }));
    }
    ensure!(
        !ok,
        "accepts-cheater",
        "a {:?} proof of a claim with an unknown part was accepted from a prover guessing the challenge (guess {}, m={}, n={}, k={})",
        st.kind,
        c.guess,
        m,
        n,
        st.k
    );
    Ok(Info::new(true).tag(format!("guess {}", c.guess)).tag(shape_tag(&st)))
}

// -------------------------------------------------- altered proofs
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tamper {
    c: PCase,
    e: Edit,
}
fn s_tamper(kinds: &[Kind], t: Tier) -> BoxedStrategy<Tamper> {
    let c = prop_oneof![any_kind(kinds, shp(t), true), any_kind(kinds, shp(t), false)];
    (c, edit())
        .prop_map(|(mut c, e)| {
            c.crs.kind = CrsKind::Random;
            Tamper { c, e }
        })
        .boxed()
}
fn s_t12(t: Tier) -> BoxedStrategy<Tamper> {
    s_tamper(&HALF, t)
}
fn s_t13(t: Tier) -> BoxedStrategy<Tamper> {
    s_tamper(&KARY, t)
}
fn s_t14(t: Tier) -> BoxedStrategy<Tamper> {
    s_tamper(&ZK, t)
}
fn t_tamper(t: &Tamper) -> CaseResult {
    let (st, w) = t.c.build();
    let p = prove(&st, &w)?;
    if !verify(&st, &p)? {
        return fail("rejects-honest", format!("honest {:?} proof rejected", st.kind));
    }
    let q = match apply_edit(&st, &w, &p, &t.e)? {
        Some(q) => q,
        None => return Ok(Info::new(false)),
    };
    ensure!(
        !verify(&st, &q.1)?,
        "accepts-altered",
        "an altered {:?} proof was accepted: {} {:?} (m={}, n={}, k={})",
        st.kind,
        q.0,
        t.e,
        st.m,
        st.n,
        st.k
    );
    Ok(Info::new(true).tag(edit_name(&t.e)).tag(shape_tag(&st)))
}

// -------------------------------------------------- context (C14)
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CtxCase {
    c: PCase,
    ch: Change,
}
fn s_ctx14(t: Tier) -> BoxedStrategy<CtxCase> {
    (any_kind(&ZK, shp(t), true), s_ctx_change())
        .prop_map(|(mut c, ch)| {
            c.crs.kind = CrsKind::Random;
            CtxCase { c, ch }
        })
        .boxed()
}
fn t_ctx(c: &CtxCase) -> CaseResult {
    let (st, w) = c.c.build();
    let p = prove(&st, &w)?;
    let mut st2 = st.clone();
    // an all-zero witness makes beta irrelevant only if the image is zero too
    if w.w.iter().all(|x| *x == Scalar::zero()) {
        return Ok(Info::new(false));
    }
    if !apply(&c.ch, &mut st2, &w) {
        return Ok(Info::new(false));
    }
    ensure!(!verify(&st2, &p)?, "accepts-other-context", "a {:?} proof was accepted on a different transcript ({:?})", st.kind, c.ch);
    crate::p_qesa::other_challenges(&st, &st2, &p, 0, &format!("{:?}", c.ch))?;
    Ok(Info::new(true).tag(shape_tag(&st)))
}

// -------------------------------------------------- C15
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hide {
    c: PCase,
    s1: u64,
    s2: u64,
}
fn s_hide(t: Tier) -> BoxedStrategy<Hide> {
    let s = if t == Tier::Thorough {
        Shape { max_lg: 4, max_eqs: 1, max_m: 4, max_n: 18 }
    } else {
        Shape { max_lg: 3, max_eqs: 1, max_m: 3, max_n: 9 }
    };
    (any_kind(&ZK, s, true), any::<u64>().no_shrink(), any::<u64>().no_shrink())
        .prop_map(|(mut c, s1, s2)| {
            c.crs.kind = CrsKind::Random;
            Hide { c, s1, s2 }
        })
        .boxed()
}
fn finals(st: &St, p: &Proof) -> Option<Vec<Scalar>> {
    let mut v = vec![];
    for i in 0..last_len(st) {
        let nm = if st.kind.kary() { format!("w[{}]", i) } else { "w".into() };
        match find(p, &nm) {
            Some(Val::S(s)) => v.push(s),
            _ => return None,
        }
    }
    Some(v)
}
/// What the prover's recursive part ran on, as (p, r) with beta*p + r.
fn extract(st0: &St, w: &Wit, seed: u64) -> Result<Option<(Vec<Scalar>, Vec<Scalar>, Vec<RistrettoPoint>)>, Fail> {
    let mut st = st0.clone();
    let n = st.n;
    let len = last_len(&st);
    let (mut rows, mut ys) = (vec![], vec![]);
    let mut a = vec![];
    for i in 0..2 * n / len + 3 {
        rand::verif::set_seed(Some(seed));
        st.ctx.msgs = vec![(0, vec![i as u8])];
        let p = prove_log(&st, w)?;
        let (f, ch) = match (finals(&st, &p.out), canon(&st, &p.challenges())) {
            (Some(f), Some(c)) => (f, c),
            _ => return Ok(None),
        };
        a = (0..st.m).map(|j| find(&p.out, &format!("a[{}]", j)).and_then(|v| v.point())).collect::<Option<Vec<_>>>().unwrap_or(vec![]);
        let wt: Vec<Scalar> = (0..n).map(|j| wit_weight(&st, j, &ch[1..])).collect();
        for c in 0..len {
            let k: Vec<Scalar> = (0..n).map(|j| if j % len == c { wt[j] } else { Scalar::zero() }).collect();
            rows.push(k.iter().map(|x| ch[0] * x).chain(k.iter().cloned()).collect());
            ys.push(f[c]);
        }
    }
    Ok(solve(rows, ys).map(|s| (s[..n].to_vec(), s[n..].to_vec(), a)))
}
fn t_hide(h: &Hide) -> CaseResult {
    if h.s1 == h.s2 {
        return Ok(Info::new(false));
    }
    let (st, w) = h.c.build();
    let (x1, x2) = match (extract(&st, &w, h.s1)?, extract(&st, &w, h.s2)?) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(Info::new(false).tag("randomness not reproducible or other structure")),
    };
    let neg: Vec<Scalar> = w.w.iter().map(|x| -x).collect();
    let mut seen: HashSet<[u8; 32]> = HashSet::new();
    for (p, r, a) in [&x1, &x2] {
        ensure!(
            *p == w.w || *p == neg,
            "not-masked",
            "the {:?} prover does not work with beta*w + r (m={}, n={})",
            st.kind,
            st.m,
            st.n
        );
        for (i, x) in r.iter().enumerate() {
            ensure!(!small(x), "mask-small", "mask entry {} of a {:?} proof is not a full-size random value (n={})", i, st.kind, st.n);
            ensure!(
                !seen.contains(&(-x).to_bytes()) && seen.insert(x.to_bytes()),
                "mask-repeats",
                "a mask entry of a {:?} proof repeats within the proof or in another proof (entry {}, n={})",
                st.kind,
                i,
                st.n
            );
            ensure!(
                !w.w.iter().any(|y| y == x || -y == *x),
                "mask-known",
                "mask entry {} of a {:?} proof is a witness entry (n={})",
                i,
                st.kind,
                st.n
            );
        }
        // linear dependences among neighbours (r_i = c * r_0 for small c)
        for i in 1..r.len() {
            for j in 0..i {
                let q = r[i] * r[j].invert();
                ensure!(
                    !small(&q) && !small(&q.invert()) && !small(&(r[i] - r[j])) && !small(&(r[i] + r[j])),
                    "mask-dependent",
                    "mask entries {} and {} of a {:?} proof have a small sum, difference or quotient (n={})",
                    j,
                    i,
                    st.kind,
                    st.n
                );
            }
        }
        ensure!(mv(&st.a, r) == *a, "mask-image", "the announced vector of a {:?} proof is not the image of its mask (n={})", st.kind, st.n);
    }
    Ok(Info::new(true).tag(shape_tag(&st)))
}

/// Masks of many proofs are independent vectors: more proofs than the vector
/// has entries, each with its own mask.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HideMany {
    c: PCase,
    seed: u64,
}
fn s_hiderank(t: Tier) -> BoxedStrategy<HideMany> {
    let s = Shape { max_lg: if t == Tier::Thorough { 4 } else { 3 }, max_eqs: 1, max_m: 2, max_n: 8 };
    (any_kind(&ZK, s, false), any::<u64>().no_shrink())
        .prop_map(|(mut c, seed)| {
            c.crs.kind = CrsKind::Random;
            HideMany { c, seed }
        })
        .boxed()
}
fn t_hiderank(h: &HideMany) -> CaseResult {
    let (st, w) = h.c.build();
    let mut rows = vec![];
    for i in 0..st.n + 1 {
        match extract(&st, &w, hash64(&[b"rank", &h.seed.to_le_bytes(), &[i as u8]]))? {
            Some((_, r, _)) => rows.push(r),
            None => return Ok(Info::new(false).tag("randomness not reproducible or other structure")),
        }
    }
    // differences too: masks must not share a fixed part
    let first = rows[0].clone();
    let diff: Vec<Vec<Scalar>> = rows[1..].iter().map(|r| r.iter().zip(&first).map(|(x, y)| x - y).collect()).collect();
    let (ra, rd) = (rank(rows), rank(diff));
    ensure!(
        ra == st.n && rd == st.n,
        "mask-rank",
        "the masks of {} {:?} proofs span {} of {} dimensions, their differences {}",
        st.n + 1,
        st.kind,
        ra,
        st.n,
        rd
    );
    Ok(Info::new(true).tag(format!("{:?} n={}", st.kind, st.n)))
}
/// Many proofs one after another on one random stream: no message comes twice.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HideSeq {
    c: PCase,
    seed: u64,
    reps: u16,
}
fn s_hideseq(t: Tier) -> BoxedStrategy<HideSeq> {
    let hi = if t == Tier::Thorough { 1500u16 } else { 400 };
    let s = Shape { max_lg: 2, max_eqs: 1, max_m: 1, max_n: 4 };
    (any_kind(&ZK, s, false), any::<u64>().no_shrink(), 2..=hi)
        .prop_map(|(mut c, seed, reps)| {
            c.crs.kind = CrsKind::Random;
            HideSeq { c, seed, reps }
        })
        .boxed()
}
fn t_hideseq(h: &HideSeq) -> CaseResult {
    let (st, w) = h.c.build();
    rand::verif::set_seed(Some(h.seed));
    let mut seen: HashSet<[u8; 32]> = HashSet::new();
    for i in 0..h.reps {
        let p = prove(&st, &w)?;
        let f = match finals(&st, &p) {
            Some(f) => f,
            None => return Ok(Info::new(false).tag("other structure")),
        };
        for x in f {
            ensure!(
                seen.insert(x.to_bytes()),
                "mask-repeats",
                "a final scalar of {:?} proof number {} was in an earlier proof (n={})",
                st.kind,
                i,
                st.n
            );
        }
    }
    Ok(Info::new(true).tag(format!("{:?}", st.kind)).tag(if h.reps > 100 { "over 100 proofs" } else { "up to 100 proofs" }))
}

/// Each entry of the mask depends on at least 128 bits of randomness. The map
/// of this statement picks out single entries.
fn t_entropy(h: &HideMany) -> CaseResult {
    let (mut st, w) = h.c.build();
    let (n, b) = (st.n, rp(97));
    let id = b - b;
    st.m = n;
    st.a = (0..n).map(|i| (0..n).map(|j| if i == j { b } else { id }).collect()).collect();
    st.tv = mv(&st.a, &w.w);
    let run = || {
        let p = prove(&st, &w)?;
        Ok((0..n).map(|j| find(&p, &format!("a[{}]", j)).unwrap().bytes()).collect())
    };
    match influence(h.seed, 16, &run)? {
        None => Ok(Info::new(false).tag("randomness not reproducible")),
        Some(v) => {
            for (i, x) in v.iter().enumerate() {
                ensure!(
                    *x >= 16,
                    "little-entropy",
                    "entry {} of the mask of a {:?} proof depends on {} random bytes only (n={})",
                    i,
                    st.kind,
                    x,
                    n
                );
            }
            Ok(Info::new(true).tag(format!("{:?} n={}", st.kind, n)))
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Print {
    c: PCase,
    seed: u64,
}
fn s_print(t: Tier) -> BoxedStrategy<Print> {
    let s = if t == Tier::Thorough {
        Shape { max_lg: 4, max_eqs: 1, max_m: 3, max_n: 18 }
    } else {
        Shape { max_lg: 3, max_eqs: 1, max_m: 2, max_n: 9 }
    };
    (any_kind(&ZK, s, false), any::<u64>().no_shrink())
        .prop_map(|(mut c, seed)| {
            c.crs.kind = CrsKind::Random;
            Print { c, seed }
        })
        .boxed()
}
fn capture<T>(f: impl FnOnce() -> T) -> (T, String) {
    let path = std::env::temp_dir().join(format!("qv-out-{}", std::process::id()));
    let mut file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).unwrap();
    let _ = std::fs::remove_file(&path);
    let _ = std::io::stdout().flush();
    crate::redirect(&file, true);
    let r = f();
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    crate::restore();
    let mut s = vec![];
    file.seek(SeekFrom::Start(0)).unwrap();
    file.read_to_end(&mut s).unwrap();
    (r, String::from_utf8_lossy(&s).into_owned())
}
/// All scalars that can be read off a text: byte lists and 64-digit hex runs.
fn scalars_in(s: &str) -> HashSet<[u8; 32]> {
    let mut out = HashSet::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'[' {
            if let Some(e) = s[i..].find(']') {
                let nums: Option<Vec<u8>> =
                    s[i + 1..i + e].split(',').map(|x| x.trim().parse::<u8>().ok()).collect();
                if let Some(v) = nums {
                    if v.len() == 32 {
                        let mut a = [0u8; 32];
                        a.copy_from_slice(&v);
                        out.insert(a);
                    }
                }
            }
        }
        i += 1;
    }
    let mut run = String::new();
    for c in s.chars().chain(std::iter::once(' ')) {
        if c.is_ascii_hexdigit() {
            run.push(c);
        } else {
            if run.len() == 64 {
                let mut a = [0u8; 32];
                for k in 0..32 {
                    a[k] = u8::from_str_radix(&run[2 * k..2 * k + 2], 16).unwrap();
                }
                out.insert(a);
                a.reverse();
                out.insert(a);
            }
            run.clear();
        }
    }
    out
}
fn t_print(c: &Print) -> CaseResult {
    let (mut st, w) = c.c.build();
    st.ctx.msgs = vec![(0, vec![0])];
    let ex = extract(&st, &w, c.seed)?;
    let ((run, ver), text) = capture(|| {
        rand::verif::set_seed(Some(c.seed));
        let run = prove_log(&st, &w);
        let ver = run.as_ref().map_err(|e| e.clone()).and_then(|p| verify(&st, &p.out));
        (run, ver)
    });
    let run = run?;
    let _ = ver?;
    let ch = run.challenges();
    let seen = scalars_in(&text);
    let mut secrets: Vec<(String, Scalar)> = vec![];
    for (i, x) in w.w.iter().enumerate() {
        secrets.push((format!("w[{}]", i), *x));
        secrets.push((format!("-w[{}]", i), -x));
        for (k, y) in ch.iter().enumerate() {
            secrets.push((format!("challenge {} * w[{}]", k, i), x * y));
            secrets.push((format!("w[{}] / challenge {}", i, k), x * y.invert()));
        }
    }
    if let Some((_, r, _)) = &ex {
        for (i, x) in r.iter().enumerate() {
            secrets.push((format!("mask[{}]", i), *x));
        }
    }
    // folded, unmasked witness after each round
    if let Some(ch) = canon(&st, &ch) {
        let len = last_len(&st);
        for c in 0..len {
            let mut s = Scalar::zero();
            for j in 0..st.n {
                if j % len == c {
                    s += wit_weight(&st, j, &ch[1..]) * w.w[j];
                }
            }
            secrets.push(("folded witness".into(), s));
            for k in comps(&run.out) {
                ensure!(k.val != Val::S(s), "leak-proof", "{} of a {:?} proof is the unmasked folded witness", k.name, st.kind);
            }
        }
    }
    for (nm, x) in &secrets {
        ensure!(
            !seen.contains(&x.to_bytes()) && !text.contains(&format!("{:?}", x)),
            "leak-printed",
            "the {:?} prover prints {} (n={})",
            st.kind,
            nm,
            st.n
        );
        for k in comps(&run.out) {
            ensure!(k.val != Val::S(*x), "leak-proof", "{} of a {:?} proof equals {} (n={})", k.name, st.kind, nm, st.n);
        }
    }
    Ok(Info::new(true)
        .tag(shape_tag(&st))
        .tag(if seen.is_empty() { "nothing printed" } else { "scalars or points printed" })
        .tag(if ex.is_some() { "mask known" } else { "mask unknown" }))
}

pub fn props() -> Vec<Prop> {
    let assume = vec!["soundness: generators (entries of A) are independent (random)"];
    vec![
        Prop {
            id: "C12",
            rule: "A case is a matrix of group elements, a witness and, for soundness, one false statement (also challenge-aware) or one edit of the proof; non-trivial with at least one folding round, if the statement is really false, or if the edit changed the proof.",
            assumptions: assume.clone(),
            facets: vec![
                facet("complete", 12000, 90000, s_c12, t_complete),
                facet("large", 64, 800, |t| large(&HALF, t), t_complete),
                facet("false-large", 64, 800, |t| false_large(&HALF, t), t_false),
                facet("altered-large", 64, 800, |t| tamper_large(&HALF, t), t_tamper),
                facet("false-statements", 8000, 80000, s_f12, t_false),
                facet("altered", 12000, 90000, s_t12, t_tamper),
            ],
        },
        Prop {
            id: "C13",
            rule: "As C12, over folding factors 2 to 5 (large: up to 20) and shapes n = c*k^d.",
            assumptions: assume.clone(),
            facets: vec![
                facet("complete", 2500, 25000, s_c13, t_complete),
                facet("large", 64, 800, |t| large(&KARY, t), t_complete),
                facet("false-large", 64, 800, |t| false_large(&KARY, t), t_false),
                facet("altered-large", 64, 800, |t| tamper_large(&KARY, t), t_tamper),
                facet("false-statements", 3000, 30000, s_f13, t_false),
                facet("altered", 2500, 25000, s_t13, t_tamper),
            ],
        },
        Prop {
            id: "C14",
            rule: "As C12 and C13 for the zero-knowledge versions, plus changed transcript contexts.",
            assumptions: assume.clone(),
            facets: vec![
                facet("complete", 2500, 25000, s_c14, t_complete),
                facet("large", 64, 800, |t| large(&ZK, t), t_complete),
                facet("false-large", 64, 800, |t| false_large(&ZK, t), t_false),
                facet("altered-large", 64, 800, |t| tamper_large(&ZK, t), t_tamper),
                facet("false-statements", 3000, 30000, s_f14, t_false),
                facet("altered", 2500, 25000, s_t14, t_tamper),
                facet("guessing-prover", 2500, 25000, s_guess, t_guess),
                facet("context", 4000, 30000, s_ctx14, t_ctx),
            ],
        },
        Prop {
            id: "C15",
            rule: "A case is a statement and two random streams; the prover is replayed with equal randomness under many transcripts and its masked witness solved for, or its output captured; non-trivial if the system was solvable, or for every captured run.",
            assumptions: vec!["randomness comes from rand 0.7.3 thread_rng, replaced by a seedable copy"],
            facets: vec![
                facet("masked", 400, 3000, s_hide, t_hide),
                facet("mask-rank", 100, 1000, s_hiderank, t_hiderank),
                facet("many", 64, 600, s_hideseq, t_hideseq),
                facet("entropy", 100, 1000, s_hiderank, t_entropy),
                facet_serial("printed", 60, 400, s_print, t_print),
            ],
        },
    ]
}
