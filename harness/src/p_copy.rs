//! C16 completeness, C17 binding, C18 mapping, C19 Pedersen commitments.
use crate::attack::*;
use crate::eng::*;
use crate::gen::*;
use crate::p_qesa::{apply, ask, complete, model, own_tail, s_how, Change, Cheat};
use crate::proto::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use proptest::prelude::*;
use qesa::lmpa::simple_zk::pedersen_commit;
use qesa::verif_hooks::mapping;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

const CP: [Kind; 1] = [Kind::Copy];
fn shp(t: Tier) -> Shape {
    Shape { max_lg: if t == Tier::Thorough { 6 } else { 5 }, max_eqs: 4, max_m: 1, max_n: 8 }
}

// ---------------------------------------------------------------- C16
fn copy_tags(st: &St, w: &Wit, i: Info) -> Info {
    let mut i = i.tag(format!("n={}", st.n)).tag(format!("{} commitments", st.sets.len()));
    let used: BTreeSet<u16> = st.sets.iter().flatten().cloned().collect();
    let total: usize = st.sets.iter().map(|s| s.len()).sum();
    if used.len() < total {
        i = i.tag("overlapping index sets");
    }
    if used.iter().any(|u| (*u as usize) < st.wsize) {
        i = i.tag("index inside the witness");
    }
    if used.iter().any(|u| *u as usize == st.n - 3) {
        i = i.tag("highest index");
    }
    if used.iter().any(|u| *u > 255) {
        i = i.tag("index above 255");
    }
    let free = ref_positions(st.n, st.wsize, &st.sets).unwrap();
    if free.windows(2).any(|p| p[1] != p[0] + 1) {
        i = i.tag("positions with gaps");
    }
    if !st.gamma.is_empty() {
        i = i.tag("user equations");
    }
    let _ = w;
    i
}
fn t_complete(c: &PCase) -> CaseResult {
    let (st, w) = c.build();
    let r = complete(c)?;
    let mut i = copy_tags(&st, &w, Info::new(true));
    i.tags.extend(r.tags);
    Ok(i)
}
fn s_complete(t: Tier) -> BoxedStrategy<PCase> {
    any_kind(&CP, shp(t), true)
}
fn s_large(t: Tier) -> BoxedStrategy<PCase> {
    let hi = if t == Tier::Thorough { 10u8 } else { 9 };
    (pcase(Kind::Copy, Shape { max_lg: 3, max_eqs: 1, max_m: 1, max_n: 8 }, true), 7u8..=hi, any::<[u16; 4]>(), 0u8..8, 20u16..420)
        .prop_map(|(mut c, lg, ix, many, num)| {
            c.lg = lg;
            if many == 0 {
                // more commitments than fit in a byte
                c.lg = 9;
                c.copy.sets = (0..num).map(|i| vec![ix[i as usize % 2]]).collect();
                c.copy.wsize %= 40;
                return c;
            }
            c.copy.sets = vec![ix.to_vec(), vec![ix[0], 300, ix[1] / 2]];
            c.copy.wsize %= 300;
            c
        })
        .boxed()
}

// ---------------------------------------------------------------- C17
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    /// commitment to another message at one index
    Msg(u16, u16, Sc),
    Rand(u16, Sc),
    Other(u16, u64),
    Neg(u16),
    /// a commitment whose encoding differs in one byte
    Near(u16, u8),
    /// a component along a generator outside the index set
    Extra(u16, u16, Sc),
    SwapComms(u16, u16),
    /// one commitment too many (nothing, or a random one) or too few
    AddComm(Option<u64>),
    DropComm,
    /// prover opens differently
    OpenMsg(u16, u16, Sc),
    OpenRand(u16, Sc),
    /// differences that cancel for the challenges of the proof
    AdaptComms(u16, u16, u8, u64),
    /// one equation changed by a matrix the verifier's vector s is orthogonal to
    AdaptEq(u16, (u16, u16), Sc),
    /// differences that cancel without weights
    Cancel(u16, u16, u64),
    /// violated user equation
    Eq(EqSpec, Sc),
    /// another mapping
    Index(u16, u16),
    MoveSet(u16, u16),
    Wsize(u16),
    Change(Change),
    /// last message of one commitment moved to another position's value
    Reorder(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadCase {
    c: PCase,
    b: Bad,
    reprove: bool,
}
fn s_bad(t: Tier) -> BoxedStrategy<BadCase> {
    let p = || any::<u64>().no_shrink();
    let u = || any::<u16>();
    let b = prop_oneof![
        2 => (u(), u(), sc_nz()).prop_map(|(a, b, c)| Bad::Msg(a, b, c)),
        2 => (u(), sc_nz()).prop_map(|(a, b)| Bad::Rand(a, b)),
        1 => (u(), p()).prop_map(|(a, b)| Bad::Other(a, b)),
        1 => u().prop_map(Bad::Neg),
        2 => (u(), any::<u8>()).prop_map(|(a, b)| Bad::Near(a, b)),
        1 => (u(), u(), sc_nz()).prop_map(|(a, b, c)| Bad::Extra(a, b, c)),
        2 => (u(), u()).prop_map(|(a, b)| Bad::SwapComms(a, b)),
        1 => prop::option::of(p()).prop_map(Bad::AddComm),
        1 => Just(Bad::DropComm),
        2 => (u(), u(), sc_nz()).prop_map(|(a, b, c)| Bad::OpenMsg(a, b, c)),
        1 => (u(), sc_nz()).prop_map(|(a, b)| Bad::OpenRand(a, b)),
        3 => (u(), u(), 0u8..3, p()).prop_map(|(a, b, c, d)| Bad::AdaptComms(a, b, c, d)),
        2 => (u(), (u(), u()), sc_nz()).prop_map(|(a, b, c)| Bad::AdaptEq(a, b, c)),
        1 => (u(), u(), p()).prop_map(|(a, b, c)| Bad::Cancel(a, b, c)),
        2 => (eqspec(), sc_nz()).prop_map(|(a, b)| Bad::Eq(a, b)),
        1 => (u(), u()).prop_map(|(a, b)| Bad::Index(a, b)),
        1 => (u(), u()).prop_map(|(a, b)| Bad::MoveSet(a, b)),
        1 => u().prop_map(Bad::Wsize),
        3 => crate::p_qesa::s_change().prop_map(Bad::Change),
        1 => u().prop_map(Bad::Reorder),
    ];
    (any_kind(&CP, Shape { max_lg: 5, ..shp(t) }, false), b, any::<bool>(), any::<bool>())
        .prop_map(|(mut c, b, reprove, two)| {
            if two && c.copy.sets.len() < 2 {
                c.copy.sets.push(vec![1, 2]);
                c.lg = c.lg.max(4);
            }
            c.copy.msgs.kind = VKind::Rand;
            c.copy.msgs.over.clear();
            c.copy.rands.kind = VKind::Rand;
            c.copy.rands.over.clear();
            BadCase { c, b, reprove }
        })
        .boxed()
}
/// Many different indices, many commitments.
fn widen(mut c: PCase, lg: u8, many: bool, num: u8, ix: u64) -> PCase {
    c.lg = lg;
    let n = 1u64 << lg;
    let mut x = ix | 1;
    let mut next = || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (1 + (x >> 33) % (n - 3)) as u16
    };
    let (nc, each) = if many { (10 + num as usize % 40, 2) } else { (1 + num as usize % 4, n as usize / 4) };
    c.copy.sets = (0..nc).map(|_| (0..each).map(|_| next()).collect()).collect();
    c.copy.wsize %= 12;
    c
}
fn wide() -> impl Strategy<Value = (u8, bool, u8, u64)> {
    (prop_oneof![15 => Just(6u8), 1 => Just(7u8)], any::<bool>(), any::<u8>(), any::<u64>().no_shrink())
}
fn s_bad_large(t: Tier) -> BoxedStrategy<BadCase> {
    (s_bad(t), wide())
        .prop_map(|(mut b, (lg, many, num, ix))| {
            b.c = widen(b.c, lg, many, num, ix);
            b
        })
        .boxed()
}
fn s_ccheat_large(t: Tier) -> BoxedStrategy<CCheat> {
    (s_ccheat(t), wide())
        .prop_map(|(mut b, (lg, many, num, ix))| {
            b.c = widen(b.c, lg, many, num, ix);
            b
        })
        .boxed()
}
fn bad_name(b: &Bad) -> String {
    let s = format!("{:?}", b);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}
fn t_bad(bc: &BadCase) -> CaseResult {
    let (st0, w0) = bc.c.build();
    let (mut st, mut w) = (st0.clone(), w0.clone());
    let nc = st.comms.len();
    let n = st.n;
    let z = Scalar::zero();
    let skip = || Ok(Info::new(false));
    // a commitment with at least one message
    let withmsg = |i: u16| -> usize {
        let mut k = i as usize % nc;
        while st0.sets[k].is_empty() {
            k = (k + 1) % nc;
        }
        k
    };
    let mut reprove = bc.reprove;
    match &bc.b {
        Bad::Msg(i, j, d) => {
            let i = withmsg(*i);
            let s: Vec<u16> = st.sets[i].iter().cloned().collect();
            let g = st.g[s[*j as usize % s.len()] as usize];
            st.comms[i] += d.val() * g;
        }
        Bad::Rand(i, d) => {
            let g = st.g[n - 1];
            st.comms[*i as usize % nc] += d.val() * g;
        }
        Bad::Other(i, s) => st.comms[*i as usize % nc] = rp(*s),
        Bad::Near(i, k) => {
            let i = *i as usize % nc;
            st.comms[i] = near(&st.comms[i], *k);
        }
        Bad::Neg(i) => {
            let i = *i as usize % nc;
            st.comms[i] = -st.comms[i];
        }
        Bad::Extra(i, j, d) => {
            let g = st.g[*j as usize % n];
            st.comms[*i as usize % nc] += d.val() * g;
        }
        Bad::AddComm(_) | Bad::DropComm => {
            let p = prove(&st0, &w0)?;
            match &bc.b {
                Bad::AddComm(Some(s)) => st.comms.push(rp(*s)),
                Bad::AddComm(None) => st.comms.push(st.q - st.q),
                _ => {
                    st.comms.pop();
                    if nc == 1 {
                        return skip();
                    }
                }
            }
            // refusing the statement is as good as rejecting the proof
            let r = lib(|| verify_raw(&st, &p, &mut st.transcript()));
            ensure!(
                !matches!(r, Ok(true)),
                "accepts-false",
                "a copy proof for {} commitments was accepted for {} (n={})",
                nc,
                st.comms.len(),
                n
            );
            return Ok(Info::new(true).tag(bad_name(&bc.b)));
        }
        Bad::SwapComms(i, j) => {
            let (i, j) = (*i as usize % nc, *j as usize % nc);
            if i == j {
                return skip();
            }
            st.comms.swap(i, j);
        }
        Bad::OpenMsg(i, j, d) => {
            let i = withmsg(*i);
            let k = w.opens[i].0.len();
            w.opens[i].0[*j as usize % k] += d.val();
            reprove = true;
        }
        Bad::OpenRand(i, d) => {
            w.opens[*i as usize % nc].1 += d.val();
            reprove = true;
        }
        Bad::Reorder(i) => {
            let i = withmsg(*i);
            let k = w.opens[i].0.len();
            if k < 2 {
                return skip();
            }
            w.opens[i].0.swap(0, k - 1);
            reprove = true;
        }
        Bad::Cancel(i, j, s) => {
            let (i, j) = (*i as usize % nc, *j as usize % nc);
            if i == j {
                return skip();
            }
            st.comms[i] += rp(*s);
            st.comms[j] -= rp(*s);
        }
        Bad::AdaptComms(i, j, how, s) => {
            let (i, j) = (*i as usize % nc, *j as usize % nc);
            if i == j {
                return skip();
            }
            let p = prove(&st0, &w0)?;
            let ch = match canon(&st0, &verify_log(&st0, &p)?.challenges()) {
                Some(c) => c,
                None => return Ok(Info::new(false).tag("other challenge structure")),
            };
            let al = powers(ch[0], nc);
            let d = match how {
                0 => rp(*s),
                1 => st.g[n - 1],
                _ => st.g[*st.sets[withmsg(i as u16)].iter().next().unwrap() as usize],
            };
            st.comms[i] += al[i].invert() * d;
            st.comms[j] -= al[j].invert() * d;
            ensure!(
                !verify(&st, &p)?,
                "accepts-adaptive-commitments",
                "a copy proof was accepted for commitments altered after it was seen (commitments {} and {} of {}, n={})",
                i,
                j,
                nc,
                n
            );
            return Ok(copy_tags(&st, &w, Info::new(true)).tag(bad_name(&bc.b)));
        }
        Bad::AdaptEq(e, (y, x), dl) => {
            let d = n - 2;
            let k = st.gamma.len();
            if k == 0 {
                return skip();
            }
            let p = prove(&st0, &w0)?;
            let ch = match canon(&st0, &verify_log(&st0, &p)?.challenges()) {
                Some(c) => c,
                None => return Ok(Info::new(false).tag("other challenge structure")),
            };
            let s = powers(ch[2], d);
            let (r0, c0) = (*y as usize % d, *x as usize % d);
            let r1 = if r0 + 1 == d { 0 } else { r0 + 1 };
            let cc = if w0.full[c0] == z { 0 } else { c0 };
            let g = &mut st.gamma[*e as usize % k];
            g[r0][cc] += dl.val() * s[r1];
            g[r1][cc] -= dl.val() * s[r0];
            if quad(g, &w0.full) == z {
                return skip();
            }
            ensure!(
                !verify(&st, &p)?,
                "accepts-adaptive-equation",
                "a copy proof was accepted for an equation altered after it was seen (n={}, {} equations)",
                n,
                k
            );
            crate::p_qesa::other_challenges(&st0, &st, &p, 1, "an equation is altered")?;
            return Ok(copy_tags(&st, &w, Info::new(true)).tag(bad_name(&bc.b)));
        }
        Bad::Eq(e, d) => {
            st.gamma.push(e.matrix(&w.full, &w.frozen, d.val()));
            reprove = true;
        }
        Bad::Index(i, raw) => {
            let i = withmsg(*i);
            let old = *st.sets[i].iter().next().unwrap();
            let new = 1 + raw % (n as u16 - 3);
            let mut s = st.sets.clone();
            s[i].remove(&old);
            if !s[i].insert(new) || s == st.sets || ref_positions(n, st.wsize, &s).is_none() {
                return skip();
            }
            st.sets = s;
            reprove = false;
        }
        Bad::MoveSet(i, j) => {
            let (i, j) = (*i as usize % nc, *j as usize % nc);
            if st.sets[i] == st.sets[j] {
                return skip();
            }
            st.sets.swap(i, j);
            reprove = false;
        }
        Bad::Wsize(x) => {
            let ws = 1 + *x as usize % (n - 3);
            if ref_positions(n, ws, &st.sets) == ref_positions(n, st.wsize, &st.sets)
                || ref_positions(n, ws, &st.sets).is_none()
            {
                return skip();
            }
            st.wsize = ws;
            reprove = false;
        }
        Bad::Change(c) => {
            if !apply(c, &mut st, &w) {
                return skip();
            }
            reprove = false;
        }
    }
    let r = if reprove {
        lib(|| prove_raw(&st, &w, &mut st.transcript()))
    } else {
        lib(|| prove_raw(&st0, &w0, &mut st0.transcript()))
    };
    let p = match r {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(false).tag("prover refused")),
    };
    ensure!(
        !verify(&st, &p)?,
        "accepts-false",
        "a copy proof was accepted although {:?} ({} commitments, n={}, {})",
        bc.b,
        nc,
        n,
        if reprove { "proof made for it" } else { "honest proof" }
    );
    // the challenges depend on all of the statement
    let from = match &bc.b {
        Bad::OpenMsg(..) | Bad::OpenRand(..) | Bad::Reorder(..) => None,
        Bad::Eq(..) | Bad::Index(..) | Bad::MoveSet(..) | Bad::Wsize(..) => Some(1),
        Bad::Change(c) if crate::p_qesa::eq_change(c) => Some(1),
        Bad::Change(Change::Gen { .. }) | Bad::Change(Change::SwapGens { .. }) | Bad::Change(Change::GenAdd { .. }) => None,
        _ => Some(0),
    };
    if let Some(f) = from {
        crate::p_qesa::other_challenges(&st0, &st, &p, f, &format!("{:?}", bc.b))?;
    }
    let mut k = 0;
    if !matches!(bc.b, Bad::Index(..) | Bad::MoveSet(..) | Bad::Wsize(..) | Bad::Change(..)) {
        for (nm, f) in late_forge(&st, &p)? {
            k += 1;
            ensure!(
                !verify(&st, &f)?,
                "accepts-late",
                "a copy proof of a false statement whose {} was chosen after all challenges was accepted (n={})",
                nm,
                n
            );
        }
    }
    let _ = z;
    Ok(copy_tags(&st, &w, Info::new(true)).tag(bad_name(&bc.b)).tag(if k > 0 { "with late messages" } else { "-" }))
}

/// A prover of our own whose witness holds other messages than the committed
/// ones, with the difference hidden (for a guessed weight) in the witness
/// commitment.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CCheat {
    c: PCase,
    how: Cheat,
    /// guessed weight of the commitment: 0, 1, -1, or the one of a first run
    guess: u8,
    which: u16,
    /// a second message with the opposite error
    second: Option<u16>,
    delta: Sc,
    pos: (u16, u16),
    seed: u64,
}
fn s_ccheat(t: Tier) -> BoxedStrategy<CCheat> {
    (
        any_kind(&CP, Shape { max_lg: 4, max_eqs: 2, ..shp(t) }, false),
        s_how(),
        0u8..4,
        any::<u16>(),
        prop::option::weighted(0.4, any::<u16>()),
        sc_nz(),
        any::<(u16, u16)>(),
        any::<u64>().no_shrink(),
        any::<bool>(),
    )
        .prop_map(|(mut c, how, guess, which, second, delta, pos, seed, zero)| {
            c.copy.msgs.kind = VKind::Rand;
            c.copy.msgs.over.clear();
            if zero {
                c.w = VSpec { kind: VKind::Zeros, seed: 0, over: vec![] };
            }
            CCheat { c, how, guess, which, second, delta, pos, seed }
        })
        .boxed()
}
/// The equations the verifier put on the transcript, if it did.
fn absorbed(ev: &[merlin::verif_log::Event], d: usize) -> Option<Vec<Mat>> {
    let v: Vec<Scalar> = ev
        .iter()
        .filter(|e| !e.challenge && e.label == b"gamma" && e.data.len() == 32)
        .map(|e| {
            let mut b = [0u8; 32];
            b.copy_from_slice(&e.data);
            Scalar::from_bits(b)
        })
        .collect();
    if v.is_empty() || v.len() % (d * d) != 0 {
        return None;
    }
    Some(v.chunks(d * d).map(|m| m.chunks(d).map(|r| r.to_vec()).collect()).collect())
}
fn t_ccheat(cc: &CCheat) -> CaseResult {
    let (mut st, w) = cc.c.build();
    let (n, d) = (st.n, st.n - 2);
    let mut r = rng(cc.seed, 60);
    let control = cc.how == Cheat::Control;
    // (commitment, index, position) of every message
    let pos = ref_positions(n, st.wsize, &st.sets).unwrap();
    let mut it = pos.iter();
    let mut ms: Vec<(usize, usize, usize)> = vec![];
    for (ci, s) in st.sets.iter().enumerate() {
        for idx in s {
            ms.push((ci, *idx as usize, *it.next().unwrap() as usize));
        }
    }
    let mut p = match lib(|| prove_raw(&st, &w, &mut st.transcript())) {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(false).tag("template prover refused")),
    };
    let delta = cc.delta.val();
    let mut errs = vec![];
    if cc.how == Cheat::EqualEquations {
        // two messages at the same index, in commitments of equal weight
        let lg = verify_log(&st, &p)?;
        let eqs = match absorbed(&lg.events, d) {
            Some(a) => a,
            None => return Ok(Info::new(false).tag("EqualEquations: weights not known")),
        };
        let weight = |m: &(usize, usize, usize)| {
            let rows = eqs.iter().skip(st.gamma.len()).flatten();
            let row = rows.filter(|r| r[m.1] == -Scalar::one()).next();
            row.map_or(Scalar::one(), |r| r[m.2])
        };
        let ws: Vec<Scalar> = ms.iter().map(weight).collect();
        let z = Scalar::zero();
        let mut weak = vec![];
        for i in 0..ms.len() {
            if ws[i] == z {
                weak.push((i, i));
            }
            for j in i + 1..ms.len() {
                if ms[i].1 == ms[j].1 && ms[i].0 != ms[j].0 && ws[i] == ws[j] {
                    weak.push((i, j));
                }
            }
        }
        if weak.is_empty() {
            return Ok(Info::new(true).tag("EqualEquations: no equal weights"));
        }
        let (i, j) = weak[cc.pos.0 as usize % weak.len()];
        errs.push((i, delta));
        if i != j {
            errs.push((j, -delta));
        }
    } else if !control {
        let k = cc.which as usize % ms.len();
        errs.push((k, delta));
        if let Some(s) = cc.second {
            // preferably of the same commitment
            let same: Vec<usize> = (0..ms.len()).filter(|j| *j != k && ms[*j].0 == ms[k].0).collect();
            let any: Vec<usize> = (0..ms.len()).filter(|j| *j != k).collect();
            let from = if same.is_empty() { any } else { same };
            if !from.is_empty() {
                errs.push((from[s as usize % from.len()], -delta));
            }
        }
    }
    if !control {
        // an equation that is true of the prover's message only
        let mut g = vec![vec![Scalar::zero(); d]; d];
        let q = ms[errs[0].0].2;
        g[0][q] = Scalar::one();
        g[0][0] = -(w.full[q] + delta);
        st.gamma.push(g);
    }
    let mut wp0 = w.full.clone();
    wp0.push(rs(&mut r));
    wp0.push(rs(&mut r));
    let base = wp0.clone();
    let inconclusive = |s: &str| Ok(Info::new(false).tag(format!("{:?}: {}", cc.how, s)));
    let place = |wp: &mut Vec<Scalar>, wt: &[Scalar], guess: u8| {
        for (k, e) in &errs {
            let (ci, idx, q) = ms[*k];
            let f = match guess {
                0 => Scalar::zero(),
                1 => Scalar::one(),
                2 => -Scalar::one(),
                _ => wt[ci],
            };
            wp[q] += e;
            wp[idx] += f * e;
        }
    };
    let mut wt = vec![Scalar::one(); st.sets.len()];
    let mut ch = vec![];
    let mut eqs = vec![];
    for run in 0..2 {
        wp0 = base.clone();
        place(&mut wp0, &wt, if run == 0 && cc.guess == 3 { 0 } else { cc.guess });
        set(&mut p, "C_w", &Val::P(msm(&wp0, &st.g)));
        let lg = verify_log(&st, &p)?;
        ch = match ask(&st, &p)? {
            Some(c) => c,
            None => return inconclusive("other challenge structure"),
        };
        eqs = st.gamma.clone();
        eqs.extend(copy_eqs(&st, ch[0]));
        if let Some(a) = absorbed(&lg.events, d) {
            eqs = a;
        }
        wt = powers(ch[0], st.sets.len());
        let user = st.gamma.len();
        for (ci, idx, q) in &ms {
            for m in eqs.iter().skip(user) {
                for row in m {
                    if row[*idx] == -Scalar::one() && row[*q] != Scalar::zero() {
                        wt[*ci] = row[*q];
                    }
                }
            }
        }
        if cc.guess != 3 {
            break;
        }
    }
    let mut wp = wp0.clone();
    for (k, (ci, idx, q)) in ms.iter().enumerate() {
        let _ = k;
        wp[*idx] += wt[*ci] * w.full[*q];
    }
    for (ci, o) in w.opens.iter().enumerate() {
        wp[n - 1] += wt[ci] * o.1;
    }
    let md = model(n, eqs.len());
    let gam = md.batch(&eqs, ch[1], d);
    let ok = match own_tail(md, &st, &mut p, cc.how, &wp, &gam, ch[1], 1, cc.pos, &mut r)? {
        Some(ok) => ok,
        None if cc.how == Cheat::EqualEntries => return Ok(Info::new(true).tag("EqualEntries: no equal weights")),
        None => return inconclusive("not applicable"),
    };
    if control {
        return Ok(Info::new(false).tag(if ok { "Control: accepted" } else { "Control: rejected" }));
    }
    ensure!(
        !ok,
        "accepts-cheater",
        "accepted a copy proof of a cheating prover ({:?}, guess {}) whose witness does not hold the committed messages ({} commitments, n={})",
        cc.how,
        cc.guess,
        st.sets.len(),
        n
    );
    Ok(Info::new(true).tag(format!("{:?}", cc.how)).tag(format!("guess {}", cc.guess)).tag(if errs.len() > 1 { "two errors" } else { "one error" }))
}

// ---------------------------------------------------------------- C18
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MapCase {
    n: u32,
    wsize: u32,
    sets: Vec<Vec<u16>>,
    fill: u8,
}
fn s_map(_t: Tier) -> BoxedStrategy<MapCase> {
    let n = prop_oneof![
        12 => 4u32..40,
        6 => 40u32..600,
        3 => 600u32..65536,
        1 => sized((4u16..40).boxed(), 4, 65535).prop_map(|x| x as u32 + 2),
    ];
    let idx = sized(prop_oneof![4 => 0u16..20, 2 => any::<u16>()].boxed(), 0, 65535);
    (
        n,
        sized(prop_oneof![3 => 0u16..6, 1 => any::<u16>()].boxed(), 0, 65535).prop_map(|x| x as u32),
        prop_oneof![
            30 => sized((1u16..7).boxed(), 1, 240).prop_flat_map({
                let idx = idx.clone();
                move |k| prop::collection::vec(prop::collection::vec(idx.clone(), 0..4), k as usize)
            }),
            300 => prop::collection::vec(prop::collection::vec(idx.clone(), 0..8), 1..6),
            // more key sets than fit a byte
            1 => prop::collection::vec(prop::collection::vec(idx, 0..3), 250..300),
        ],
        0u8..6,
    )
        .prop_map(|(n, wsize, sets, fill)| {
            let n = if sets.len() > 200 { 1000 + n % 5000 } else { n };
            MapCase { n, wsize, sets, fill }
        })
        .boxed()
}
fn t_map(c: &MapCase) -> CaseResult {
    let n = c.n as usize;
    let wsize = 1 + c.wsize as usize % (n - 2);
    // fill 0: indices anywhere including 0; otherwise admissible ones
    let sets: Vec<BTreeSet<u16>> = c
        .sets
        .iter()
        .map(|s| {
            s.iter()
                .map(|x| {
                    let m = (n - 2) as u16;
                    if c.fill == 0 {
                        x % m
                    } else if m > 1 {
                        1 + x % (m - 1)
                    } else {
                        1
                    }
                })
                .collect()
        })
        .collect();
    let total: usize = sets.iter().map(|s| s.len()).sum();
    let used: BTreeSet<u16> = sets.iter().flatten().cloned().collect();
    let pos = ref_positions(n, wsize, &sets);
    let bad0 = used.contains(&0);
    let r = lib(|| mapping::compute_mapping(n, wsize, &sets));
    let desc = format!("n={}, witness size {}, sets {:?}", n, wsize, sets);
    if total == 0 {
        return Ok(Info::new(false).tag("no messages"));
    }
    if bad0 || pos.is_none() {
        ensure!(
            r.is_err(),
            "mapping-not-refused",
            "the mapping accepted index sets that {} ({})",
            if bad0 { "use the reserved position 0" } else { "do not fit" },
            desc
        );
        return Ok(Info::new(true).tag(if bad0 { "index 0" } else { "does not fit" }));
    }
    let pos = pos.unwrap();
    let mut m = match r {
        Ok(m) => m,
        Err(e) => return fail("mapping-refuses", format!("the mapping refused an admissible layout ({}): {}", desc, e)),
    };
    let (nc, mm, ui, last) = m.verif_parts();
    ensure!(*nc == sets.len(), "mapping-count", "wrong number of commitments {} ({})", nc, desc);
    ensure!(*ui == used, "mapping-used", "wrong set of used indices ({})", desc);
    ensure!(*last == *pos.last().unwrap(), "mapping-last", "wrong last position {} ({})", last, desc);
    ensure!(mm.len() == total, "mapping-len", "{} messages mapped, {} expected ({})", mm.len(), total, desc);
    let mut k = 0;
    for (ci, s) in sets.iter().enumerate() {
        for idx in s {
            let (id, cidx, crs, p) = mm[k].verif_parts();
            ensure!(
                *id == k && *cidx == *idx && *crs as usize == ci && *p == pos[k],
                "mapping-entry",
                "message {} maps to (id {}, index {}, commitment {}, position {}), expected ({}, {}, {}, {}) ({})",
                k, id, cidx, crs, p, k, idx, ci, pos[k], desc
            );
            k += 1;
        }
    }
    let mut i = Info::new(true).tag("placed");
    if used.iter().any(|u| *u as usize >= wsize) {
        i = i.tag("positions to skip");
    }
    if ref_positions(n, wsize + 1, &sets).is_none() {
        i = i.tag("exact fit");
    }
    if sets.len() > 1 && used.len() < total {
        i = i.tag("overlap");
    }
    if used.iter().any(|u| *u > 255) {
        i = i.tag("index above 255");
    }
    Ok(i)
}
/// Layouts at the limit: as many messages as fit, then one more.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Limit {
    n: u16,
    wsize: u16,
    start: u16,
    step: u8,
    sets: u8,
}
fn s_limit(_t: Tier) -> BoxedStrategy<Limit> {
    (sized((6u16..300).boxed(), 6, 400), any::<u16>(), any::<u16>(), 1u8..4, 1u8..40)
        .prop_map(|(n, wsize, start, step, sets)| Limit { n, wsize, start, step, sets })
        .boxed()
}
fn t_limit(c: &Limit) -> CaseResult {
    let n = c.n as usize;
    let d = n - 2;
    let wsize = 1 + c.wsize as usize % (d - 1);
    // add one index at a time to `sets` sets in turn until it does not fit
    let ns = c.sets as usize;
    let mut sets: Vec<BTreeSet<u16>> = vec![BTreeSet::new(); ns];
    let mut steps = 0;
    let mut checked = 0;
    loop {
        let mut trial = sets.clone();
        let idx = 1 + (c.start as usize + steps / ns * c.step as usize) % (d - 1);
        steps += 1;
        if steps > 2 * n * ns {
            break;
        }
        if !trial[steps % ns].insert(idx as u16) {
            continue;
        }
        let fits = ref_positions(n, wsize, &trial).is_some();
        let fits2 = ref_positions(n, wsize + 1, &trial).is_some();
        // only look closely near the limit
        if !fits2 || checked == 0 {
            checked += 1;
            let r = lib(|| mapping::compute_mapping(n, wsize, &trial));
            if fits {
                match r {
                    Err(e) => return fail("mapping-refuses", format!("refused a layout that fits exactly (n={}, witness size {}, {:?}): {}", n, wsize, trial, e)),
                    Ok(mut m) => {
                        let want = ref_positions(n, wsize, &trial).unwrap();
                        let got: Vec<u16> = m.verif_parts().1.iter_mut().map(|x| *x.verif_parts().3).collect();
                        ensure!(got == want, "mapping-entry", "wrong positions at the limit (n={}, witness size {}, {:?}): {:?}, expected {:?}", n, wsize, trial, got, want);
                    }
                }
            } else {
                ensure!(r.is_err(), "mapping-not-refused", "accepted a layout with one message too many (n={}, witness size {}, {:?})", n, wsize, trial);
            }
        }
        if !fits {
            break;
        }
        sets = trial;
    }
    Ok(Info::new(checked > 1).tag(if checked > 1 { "limit reached" } else { "limit not reached" }))
}

// ---------------------------------------------------------------- C19
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ped {
    n: u16,
    idx: Vec<u16>,
    m1: VSpec,
    m2: VSpec,
    r: (Sc, Sc),
    c: (Sc, Sc),
    crs: CrsSpec,
    extra: i8,
}
fn s_ped(t: Tier) -> BoxedStrategy<Ped> {
    let hi = if t == Tier::Thorough { 700u16 } else { 300 };
    (
        sized(prop_oneof![16 => 1u16..20, 4 => 20u16..hi, 1 => hi..4 * hi].boxed(), 1, 1500),
        prop_oneof![
            20 => prop::collection::vec(sized(any::<u16>().boxed(), 0, 65535), 0..10),
            1 => prop::collection::vec(any::<u16>(), 10..300),
            // a run of that many indices
            1 => (any::<u16>(), sized((1u16..20).boxed(), 1, 600)).prop_map(|(s, k)| (0..k).map(|i| s.wrapping_add(i)).collect()),
        ],
        (vspec(), vspec()),
        (sc(), sc()),
        (sc(), sc()),
        crs_any(),
        prop_oneof![3 => Just(0i8), 1 => Just(1i8), 1 => Just(-1i8)],
    )
        .prop_map(|(n, idx, (m1, m2), r, c, crs, extra)| Ped { n, idx, m1, m2, r, c, crs, extra })
        .boxed()
}
fn t_ped(c: &Ped) -> CaseResult {
    let n = c.n as usize;
    let g = c.crs.points(n, 1);
    let set: BTreeSet<u16> = c.idx.iter().map(|x| x % c.n).collect();
    let k = set.len();
    let (m1, m2) = (c.m1.vec(k), c.m2.vec(k));
    let (r1, r2) = (c.r.0.val(), c.r.1.val());
    let naive = |m: &[Scalar], r: Scalar| {
        let mut p = r * g[n - 1];
        for (x, i) in m.iter().zip(set.iter()) {
            p += x * g[*i as usize];
        }
        p
    };
    let c1 = must("commit", || mapping::commit(&g, &set, &m1, &r1))?;
    ensure!(c1 == naive(&m1, r1), "commit-wrong", "commitment over indices {:?} of {} generators is not the documented sum", set, n);
    let c2 = must("commit", || mapping::commit(&g, &set, &m2, &r2))?;
    let (x, y) = (c.c.0.val(), c.c.1.val());
    let m3: Vec<Scalar> = m1.iter().zip(m2.iter()).map(|(a, b)| x * a + y * b).collect();
    let c3 = must("commit", || mapping::commit(&g, &set, &m3, &(x * r1 + y * r2)))?;
    ensure!(x * c1 + y * c2 == c3, "commit-homomorphic", "commitments are not homomorphic (n={}, {:?})", n, set);
    // the variant with its own blinding generator
    let h = c.crs.point(9);
    let gs: Vec<RistrettoPoint> = g[..if c.idx.len() >= 10 { n.min(c.idx.len()) } else { n.min(8) }].to_vec();
    let (a1, a2) = (c.m1.vec(gs.len()), c.m2.vec(gs.len()));
    let q1 = must("pedersen_commit", || pedersen_commit(&h, &gs, &a1, &r1))?;
    ensure!(q1 == msm(&a1, &gs) + r1 * h, "commit-wrong", "pedersen_commit over {} generators is not the documented sum", gs.len());
    let q2 = must("pedersen_commit", || pedersen_commit(&h, &gs, &a2, &r2))?;
    let a3: Vec<Scalar> = a1.iter().zip(a2.iter()).map(|(a, b)| x * a + y * b).collect();
    let q3 = must("pedersen_commit", || pedersen_commit(&h, &gs, &a3, &(x * r1 + y * r2)))?;
    ensure!(x * q1 + y * q2 == q3, "commit-homomorphic", "pedersen_commit is not homomorphic");
    // numbers of messages and indices
    if c.extra != 0 {
        let mut m = m1.clone();
        if c.extra > 0 {
            m.push(Scalar::one());
        } else if m.pop().is_none() {
            return Ok(Info::new(true));
        }
        ensure!(
            lib(|| mapping::commit(&g, &set, &m, &r1)).is_err(),
            "commit-not-refused",
            "a commitment of {} messages to {} indices was not refused",
            m.len(),
            k
        );
        let mut a = a1.clone();
        if c.extra > 0 {
            a.push(Scalar::one());
        } else {
            a.pop();
        }
        ensure!(
            lib(|| pedersen_commit(&h, &gs, &a, &r1)).is_err(),
            "commit-not-refused",
            "pedersen_commit of {} messages to {} generators was not refused",
            a.len(),
            gs.len()
        );
    }
    // single changes
    if c.crs.kind == CrsKind::Random {
        for i in 0..k {
            let mut m = m1.clone();
            m[i] += Scalar::one();
            ensure!(must("commit", || mapping::commit(&g, &set, &m, &r1))? != c1, "commit-not-binding", "commitment unchanged by message {}", i);
        }
        ensure!(must("commit", || mapping::commit(&g, &set, &m1, &(r1 + Scalar::one())))? != c1, "commit-not-binding", "commitment unchanged by the randomness");
    }
    Ok(Info::new(k > 0).tag(format!("{} indices", k)).tag(if set.contains(&(c.n - 1)) { "last generator as message" } else { "-" }))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "A case is a layout of commitments (index sets, witness size), messages, randomness, witness and user equations satisfied by the extended witness; every case is non-trivial (it has at least one committed message).",
            assumptions: vec!["the caller's witness is zero at positions reserved for commitments, and user equations do not touch them"],
            facets: vec![
                facet("honest", 8000, 60000, s_complete, t_complete),
                facet("large", 40, 200, s_large, t_complete),
            ],
        },
        Prop {
            id: "C17",
            rule: "A case is a statement as in C16 with one falsification; non-trivial if the falsification changes something and a proof was offered to the verifier.",
            assumptions: vec!["generators are independent (random)", "messages are random, hence non-zero"],
            facets: vec![
                facet("false-statements", 6000, 60000, s_bad, t_bad),
                facet("cheating-prover", 3000, 40000, s_ccheat, t_ccheat),
                facet("false-large", 128, 1600, s_bad_large, t_bad),
                facet("cheating-large", 128, 1600, s_ccheat_large, t_ccheat),
            ],
        },
        Prop {
            id: "C18",
            rule: "A case is a reference size, witness size and list of index sets, or a layout grown one message at a time to the limit; non-trivial with at least one message, or when the limit was reached.",
            assumptions: vec![],
            facets: vec![
                facet("mapping", 400000, 4000000, s_map, t_map),
                facet("limits", 25000, 250000, s_limit, t_limit),
            ],
        },
        Prop {
            id: "C19",
            rule: "A case is a generator vector, index set, two message vectors, randomness and a linear combination; non-trivial with at least one message.",
            assumptions: vec![],
            facets: vec![facet("commitments", 18000, 150000, s_ped, t_ped)],
        },
    ]
}
