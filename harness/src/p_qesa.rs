//! C01 completeness, C02 soundness, C03 binding, C06 blinding, C21 batching.
use crate::attack::*;
use crate::eng::*;
use crate::gen::*;
use crate::proto::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

fn sh(t: Tier, lg: u8, eqs: usize) -> Shape {
    let x = if t == Tier::Thorough { 1 } else { 0 };
    Shape { max_lg: lg + x, max_eqs: eqs * (1 + x as usize), max_m: 3, max_n: 32 }
}
const QI: [Kind; 2] = [Kind::Qesa, Kind::Inner];

// ---------------------------------------------------------------- C01
fn size_tag(st: &St) -> String {
    format!("{:?} n={}", st.kind, st.n)
}
pub fn complete(c: &PCase) -> CaseResult {
    let (st, w) = c.build();
    let p = prove_log(&st, &w)?;
    let v = verify_log(&st, &p.out)?;
    ensure!(v.out, "rejects-honest", "honest {:?} proof rejected (n={}, {} equations)", st.kind, st.n, st.gamma.len());
    ensure!(p.state == v.state, "state-differs", "prover and verifier transcripts differ after a {:?} proof", st.kind);
    let zero = Scalar::zero();
    let nz = st.gamma.iter().any(|g| g.iter().any(|r| r.iter().any(|x| *x != zero)));
    let full = if st.kind.quadratic() { nz } else { true };
    let mut i = Info::new(full).tag(size_tag(&st));
    if st.gamma.len() > st.n {
        i = i.tag("more equations than generators");
    }
    if !c.ctx.msgs.is_empty() {
        i = i.tag("used transcript");
    }
    i = i.tag(format!("crs {:?}", c.crs.kind));
    if w.full.iter().skip(1).any(|x| *x == zero) {
        i = i.tag("witness with zeros");
    }
    Ok(i)
}
fn s_complete(t: Tier) -> BoxedStrategy<PCase> {
    any_kind(&QI, sh(t, 4, 6), true)
}
fn s_many(t: Tier) -> BoxedStrategy<PCase> {
    any_kind(&QI, sh(t, 3, 30), true)
}
fn s_large(t: Tier) -> BoxedStrategy<PCase> {
    let lg = if t == Tier::Thorough { 8 } else { 6 };
    any_kind(&QI, Shape { max_lg: lg, max_eqs: 3, max_m: 1, max_n: 8 }, true)
        .prop_map(move |mut c| {
            c.lg = 5 + c.lg % (lg - 4);
            c
        })
        .boxed()
}

fn s_huge(t: Tier) -> BoxedStrategy<PCase> {
    let hi = if t == Tier::Thorough { 9u8 } else { 8 };
    (any_kind(&QI, Shape { max_lg: 3, max_eqs: 2, max_m: 1, max_n: 8 }, true), 7u8..=hi)
        .prop_map(|(mut c, lg)| {
            c.lg = lg;
            for e in c.eqs.iter_mut() {
                if matches!(e.kind, EqKind::Dense | EqKind::OrthRows | EqKind::RankOne | EqKind::Antisym) {
                    e.kind = EqKind::Sparse;
                }
            }
            c
        })
        .boxed()
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub c: PCase,
    pub at: u16,
    pub delta: Sc,
    /// a second violated equation with the opposite (or equal) error
    pub pair: Option<(u16, bool)>,
}
fn s_viol(t: Tier) -> BoxedStrategy<Viol> {
    let small = any_kind(&QI, sh(t, 3, 20), false);
    let mid = any_kind(&QI, sh(t, 4, 5), false);
    // special witnesses too: soundness only needs independent generators
    let spec = any_kind(&QI, sh(t, 3, 8), true).prop_map(|mut c| {
        c.crs.kind = CrsKind::Random;
        c
    });
    (
        prop_oneof![2 => small, 1 => mid, 1 => spec],
        any::<u16>(),
        sc_nz(),
        prop::option::weighted(0.4, (any::<u16>(), any::<bool>())),
    )
        .prop_map(|(c, at, delta, pair)| Viol { c, at, delta, pair })
        .boxed()
}
fn s_viol_large(t: Tier) -> BoxedStrategy<Viol> {
    (s_huge(t), 5u8..=8, any::<u16>(), sc_nz())
        .prop_map(|(mut c, lg, at, delta)| {
            c.lg = lg;
            c.crs.kind = CrsKind::Random;
            Viol { c, at, delta, pair: None }
        })
        .boxed()
}
fn rebuild_violated(v: &Viol, st: &mut St, w: &Wit) -> Vec<(usize, Scalar)> {
    let ne = v.c.eqs.len();
    let mut bad = vec![];
    let d = v.delta.val();
    let i = v.at as usize % ne;
    bad.push((i, d));
    if let Some((j, same)) = v.pair {
        let j = j as usize % ne;
        if j != i {
            bad.push((j, if same { d } else { -d }));
        }
    }
    for (i, t) in &bad {
        st.gamma[*i] = v.c.eqs[*i].matrix(&w.full, &w.frozen, *t);
    }
    bad
}
fn t_viol(v: &Viol) -> CaseResult {
    let (mut st, w) = v.c.build();
    let bad = rebuild_violated(v, &mut st, &w);
    for (i, t) in &bad {
        assert_eq!(quad(&st.gamma[*i], &w.full), *t);
    }
    let p = match lib(|| prove_raw(&st, &w, &mut st.transcript())) {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(false).tag("prover refused")),
    };
    let ok = verify(&st, &p)?;
    ensure!(
        !ok,
        "accepts-violated",
        "accepted a {:?} proof although equation(s) {:?} of {} are violated (n={})",
        st.kind,
        bad.iter().map(|b| b.0).collect::<Vec<_>>(),
        st.gamma.len(),
        st.n
    );
    let mut i = Info::new(true).tag(size_tag(&st));
    if bad[0].0 >= st.n {
        i = i.tag("violated equation beyond n");
    }
    if bad.len() > 1 {
        i = i.tag("two violated equations");
    }
    Ok(i)
}

/// First entry of the witness is not 1, all equations hold.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadOne {
    c: PCase,
    w0: Sc,
    /// scale a good witness instead of replacing its first entry
    scale: bool,
}
fn s_badone(t: Tier) -> BoxedStrategy<BadOne> {
    (any_kind(&QI, sh(t, 3, 4), false), sc(), any::<bool>())
        .prop_map(|(c, w0, scale)| BadOne { c, w0, scale })
        .boxed()
}
fn t_badone(b: &BadOne) -> CaseResult {
    let (mut st, mut w) = b.c.build();
    let x = b.w0.val();
    if x == Scalar::one() {
        return Ok(Info::new(false));
    }
    if b.scale {
        for v in w.w.iter_mut() {
            *v *= x;
        }
    } else {
        w.w[0] = x;
    }
    w.full = w.w.clone();
    for (g, e) in st.gamma.iter_mut().zip(b.c.eqs.iter()) {
        if x == Scalar::zero() {
            *g = vec![vec![Scalar::zero(); st.n - 2]; st.n - 2];
        } else if !b.scale {
            *g = e.matrix(&w.full, &w.frozen, Scalar::zero());
        }
    }
    let p = match lib(|| prove_raw(&st, &w, &mut st.transcript())) {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(true).tag("prover refused")),
    };
    ensure!(
        !verify(&st, &p)?,
        "accepts-bad-one",
        "accepted a {:?} proof for a witness whose first entry is not 1 (n={})",
        st.kind,
        st.n
    );
    Ok(Info::new(true).tag(size_tag(&st)))
}

/// Late-message forgeries for a false statement.
fn t_late(v: &Viol) -> CaseResult {
    let (mut st, w) = v.c.build();
    rebuild_violated(v, &mut st, &w);
    let p = match lib(|| prove_raw(&st, &w, &mut st.transcript())) {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(false).tag("prover refused")),
    };
    let fs = late_forge(&st, &p)?;
    let n = fs.len();
    for (name, f) in fs {
        ensure!(
            !verify(&st, &f)?,
            "accepts-late",
            "accepted a {:?} proof of a violated system whose {} was chosen after all challenges (n={})",
            st.kind,
            name,
            st.n
        );
    }
    Ok(Info::new(n > 0).tag(format!("{} late messages", n)))
}

/// A prover of our own: it talks to the verifier to learn the challenges, so
/// it can deviate wherever it likes.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cheat {
    /// follows the protocol on a satisfied system; has to be accepted
    Control,
    Plain,
    /// w'' = Gamma w + e with <w', e> cancelling the violation
    Compensate,
    /// the same, and also orthogonal to s of a first run
    LateE,
    /// masks chosen for the beta of a first run
    LateMask,
    /// witness chosen for the x of a first run (linear equations)
    LateW,
    /// error put on Q in C_r, for the challenges of a first run
    QInMask,
    /// error put on Q in C''_w
    QInSecond,
    /// LateE in the two blinding entries
    LateTail,
    /// opposite errors where the verifier's weights are equal: in two entries of w''
    EqualEntries,
    /// ... in two equations
    EqualEquations,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CheatCase {
    v: Viol,
    how: Cheat,
    pos: (u16, u16),
    seed: u64,
}
pub fn s_how() -> BoxedStrategy<Cheat> {
    prop_oneof![
        2 => Just(Cheat::Control),
        1 => Just(Cheat::Plain),
        3 => Just(Cheat::Compensate),
        3 => Just(Cheat::LateE),
        2 => Just(Cheat::LateMask),
        2 => Just(Cheat::LateW),
        2 => Just(Cheat::QInMask),
        2 => Just(Cheat::QInSecond),
        2 => Just(Cheat::LateTail),
        1 => Just(Cheat::EqualEntries),
        1 => Just(Cheat::EqualEquations),
    ]
    .boxed()
}
fn s_cheat(t: Tier) -> BoxedStrategy<CheatCase> {
    let how = s_how();
    let c = any_kind(&QI, sh(t, 3, 4), false);
    (
        (c, any::<u16>(), sc_nz()).prop_map(|(c, at, delta)| Viol { c, at, delta, pair: None }),
        how,
        any::<(u16, u16)>(),
        any::<u64>().no_shrink(),
    )
        .prop_map(|(v, how, pos, seed)| CheatCase { v, how, pos, seed })
        .boxed()
}
/// Many variables, or many equations.
fn s_cheat_large(t: Tier) -> BoxedStrategy<CheatCase> {
    let hi = if t == Tier::Thorough { 8u8 } else { 7 };
    let wide = (any_kind(&QI, Shape { max_lg: 3, max_eqs: 2, max_m: 1, max_n: 8 }, false), 4u8..=hi).prop_map(|(mut c, lg)| {
        c.lg = lg;
        c
    });
    let many = (any_kind(&QI, Shape { max_lg: 3, max_eqs: 1, max_m: 1, max_n: 8 }, false), sized((9u16..=130).boxed(), 9, 140), any::<u64>().no_shrink())
        .prop_map(|(mut c, e, seed)| {
            let e0 = c.eqs[0].clone();
            c.eqs = (0..e as u64).map(|i| EqSpec { seed: e0.seed ^ seed.wrapping_mul(i), ..e0.clone() }).collect();
            c
        });
    let how = prop_oneof![
        1 => Just(Cheat::Control),
        2 => Just(Cheat::LateE),
        1 => Just(Cheat::LateMask),
        1 => Just(Cheat::QInMask),
        3 => Just(Cheat::EqualEntries),
        3 => Just(Cheat::EqualEquations),
    ];
    (prop_oneof![1 => wide.boxed(), 1 => many.boxed()], any::<u16>(), sc_nz(), how, any::<(u16, u16)>(), any::<u64>().no_shrink())
        .prop_map(|(mut c, at, delta, how, pos, seed)| {
            c.crs.kind = CrsKind::Random;
            for e in c.eqs.iter_mut() {
                if matches!(e.kind, EqKind::Dense | EqKind::OrthRows | EqKind::RankOne | EqKind::Antisym) {
                    e.kind = EqKind::Sparse;
                }
            }
            CheatCase { v: Viol { c, at, delta, pair: None }, how, pos, seed }
        })
        .boxed()
}
/// The verifier's challenges for a (partial) proof, if they have the expected structure.
pub fn ask(st: &St, p: &Proof) -> Result<Option<Vec<Scalar>>, Fail> {
    Ok(canon(st, &verify_log(st, p)?.challenges()))
}
fn t_cheat(cc: &CheatCase) -> CaseResult {
    let (mut st, mut wit) = cc.v.c.build();
    let n = st.n;
    let d = n - 2;
    let mut r = rng(cc.seed, 50);
    if cc.how == Cheat::LateW {
        // at least two linear equations, none of them satisfied
        while st.gamma.len() < 2 {
            st.gamma.push(vec![vec![Scalar::zero(); d]; d]);
        }
        for g in st.gamma.iter_mut() {
            *g = vec![vec![Scalar::zero(); d]; d];
            for j in 0..d {
                g[0][j] = rs(&mut r);
            }
        }
    } else if cc.how == Cheat::EqualEquations {
        let weak = model(n, st.gamma.len()).weak_equations(st.gamma.len());
        if weak.is_empty() {
            return Ok(Info::new(true).tag("EqualEquations: no equal weights"));
        }
        let (i, j) = weak[cc.pos.0 as usize % weak.len()];
        let dl = cc.v.delta.val();
        for (k, e) in [(i, dl), (j, -dl)].iter().take(if i == j { 1 } else { 2 }) {
            st.gamma[*k] = cc.v.c.eqs[*k].matrix(&wit.full, &wit.frozen, *e);
        }
    } else if cc.how != Cheat::Control {
        rebuild_violated(&cc.v, &mut st, &wit);
    }
    let md = model(n, st.gamma.len());
    let p = match lib(|| prove_raw(&st, &wit, &mut st.transcript())) {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(false).tag("template prover refused")),
    };
    let mut p = p;
    let inconclusive = |s: &str| Ok(Info::new(false).tag(format!("{:?}: {}", cc.how, s)));
    // 1. w'
    let rp = [rs(&mut r), rs(&mut r)];
    let mut wp = [&wit.w[..], &rp[..]].concat();
    set(&mut p, "C'_w", &Val::P(msm(&wp, &st.g)));
    let ch = match ask(&st, &p)? {
        Some(c) => c,
        None => return inconclusive("other challenge structure"),
    };
    let mut x = ch[0];
    if cc.how == Cheat::LateW {
        let g = md.batch(&st.gamma, x, d);
        let j = 1 + cc.pos.0 as usize % (d - 1);
        let fix = ip(&g[0], &wit.w) * g[0][j].invert();
        wit.w[j] -= fix;
        assert_eq!(quad(&g, &wit.w), Scalar::zero());
        wp = [&wit.w[..], &rp[..]].concat();
        set(&mut p, "C'_w", &Val::P(msm(&wp, &st.g)));
        x = match ask(&st, &p)? {
            Some(c) => c[0],
            None => return inconclusive("other challenge structure"),
        };
    }
    let gam = md.batch(&st.gamma, x, d);
    let ok = match own_tail(md, &st, &mut p, cc.how, &wp, &gam, x, 0, cc.pos, &mut r)? {
        Some(ok) => ok,
        None if cc.how == Cheat::EqualEntries => return Ok(Info::new(true).tag("EqualEntries: no equal weights")),
        None => return inconclusive("not applicable"),
    };
    if cc.how == Cheat::Control {
        return Ok(Info::new(false).tag(if ok { "Control: accepted" } else { "Control: rejected" }));
    }
    ensure!(
        !ok,
        "accepts-cheater",
        "accepted a cheating {:?} prover ({:?} at positions {:?}) on a violated system, n={}",
        st.kind,
        cc.how,
        cc.pos,
        n
    );
    Ok(Info::new(true).tag(format!("{:?}", cc.how)))
}

/// One honest run of our own prover.
fn control(md: Model, n: usize, eqs: usize, seed: u64) -> Result<bool, Fail> {
    let mut r = rng(seed, 51);
    let d = n - 2;
    let st0 = |k: u64| -> Vec<RistrettoPoint> { (0..n as u64).map(|i| rp(seed ^ (k << 32) ^ i)).collect() };
    let mut w: Vec<Scalar> = (0..d).map(|_| rs(&mut r)).collect();
    w[0] = Scalar::one();
    let mut gamma = vec![];
    for k in 0..eqs {
        let mut g: Mat = vec![vec![Scalar::zero(); d]; d];
        for i in 0..d {
            if n <= 8 && eqs < 8 {
                g[i] = (0..d).map(|_| rs(&mut r)).collect();
            } else {
                g[i][(i + k) % d] = rs(&mut r);
            }
        }
        let v = quad(&g, &w);
        g[0][0] -= v;
        gamma.push(g);
    }
    let id = RistrettoPoint::identity();
    let st = St {
        kind: Kind::Qesa,
        n,
        m: 1,
        k: 2,
        g: st0(1),
        h: st0(2),
        q: rp(seed ^ (3 << 32)),
        p: id,
        t: Scalar::zero(),
        gamma,
        wsize: 0,
        sets: vec![],
        comms: vec![],
        a: vec![],
        tv: vec![],
        ctx: Ctx::none(),
    };
    let wit = Wit { a: vec![], b: vec![], w: w.clone(), full: w.clone(), rp: vec![], opens: vec![], frozen: vec![false; d] };
    let mut p = prove(&st, &wit)?;
    let wp = [&w[..], &[rs(&mut r), rs(&mut r)]].concat();
    set(&mut p, "C'_w", &Val::P(msm(&wp, &st.g)));
    let x = match ask(&st, &p)? {
        Some(c) => c[0],
        None => return Ok(false),
    };
    let gam = md.batch(&st.gamma, x, d);
    Ok(own_tail(md, &st, &mut p, Cheat::Control, &wp, &gam, x, 0, (1, 2), &mut r)? == Some(true))
}
/// The way of expanding challenges with which an honest run of this size is accepted.
pub fn model(n: usize, eqs: usize) -> Model {
    type Known = std::sync::Mutex<std::collections::BTreeMap<(usize, usize), Model>>;
    static BASE: std::sync::OnceLock<Model> = std::sync::OnceLock::new();
    static M: Known = std::sync::Mutex::new(std::collections::BTreeMap::new());
    let fits = |m: Model, n: usize, e: usize| (0..2).all(|s| matches!(control(m, n, e, 900 + s), Ok(true)));
    // on a thread of its own: the case's random stream stays as it is
    let base = *BASE.get_or_init(|| {
        let run = move || models().into_iter().find(|m| fits(*m, 8, 3)).unwrap_or(DOC);
        std::thread::spawn(run).join().unwrap_or(DOC)
    });
    let at = |n: usize, e: usize| {
        if let Some(m) = M.lock().unwrap().get(&(n, e)) {
            return *m;
        }
        let run = move || {
            if fits(base, n, e) {
                return base;
            }
            base.variants(n, e).into_iter().find(|m| fits(*m, n, e)).unwrap_or(base)
        };
        let m = std::thread::spawn(run).join().unwrap_or(base);
        M.lock().unwrap().insert((n, e), m);
        m
    };
    // few equations over many variables, and many over few
    at(n, 2).with_equations_of(&at(8, eqs.max(1)))
}

/// The part of our own prover after w' is fixed and the equations are batched:
/// w' = `wp` (blinding included), batched matrix `gam`, batching challenge `x`,
/// `off` challenges drawn before x. Some(verdict), or None if the deviation
/// does not apply.
pub fn own_tail(
    md: Model,
    st: &St,
    p: &mut Proof,
    how: Cheat,
    wp: &[Scalar],
    gam: &Mat,
    x: Scalar,
    off: usize,
    pos: (u16, u16),
    r: &mut rand::rngs::StdRng,
) -> Result<Option<bool>, Fail> {
    let n = st.n;
    let d = n - 2;
    let mut g = st.g.clone();
    g[0] = md.fix(x).invert() * g[0];
    // 2. w''
    let v = quad(gam, &wp[..d]);
    let mut wpp = matvec(gam, &wp[..d]);
    wpp.push(-wp[n - 1]);
    wpp.push(wp[n - 2]);
    let from = |v: &[Scalar], k: usize| (0..n).map(|i| (k + i) % n).find(|i| v[*i] != Scalar::zero()).unwrap_or(k);
    let mut j = from(wp, pos.0 as usize % n);
    let mut j2 = pos.1 as usize % n;
    if j2 == j {
        j2 = (j + 1) % n;
    }
    if how == Cheat::LateTail {
        j = n - 2;
        j2 = n - 1;
    }
    if how == Cheat::Compensate {
        wpp[j] -= v * wp[j].invert();
    }
    if how == Cheat::EqualEntries {
        let ok = |p: &(usize, usize)| if p.0 == p.1 { wp[p.0] != Scalar::zero() } else { wp[p.0] != wp[p.1] };
        let weak: Vec<(usize, usize)> = md.weak_entries(d).into_iter().filter(ok).collect();
        if weak.is_empty() {
            return Ok(None);
        }
        let (i, k) = weak[pos.0 as usize % weak.len()];
        if i == k {
            wpp[i] -= v * wp[i].invert();
        } else {
            let e = -v * (wp[i] - wp[k]).invert();
            wpp[i] += e;
            wpp[k] -= e;
        }
    }
    set(p, "C''_w", &Val::P(msm(&wpp, &st.h)));
    let spf = |c: &[Scalar]| md.sp(c[off + 1], c[off + 2], d);
    let mut ch = ask(st, p)?.unwrap();
    if how == Cheat::LateE || how == Cheat::LateTail {
        let s = spf(&ch);
        // wp_j e_j + wp_j2 e_j2 = -v ; s_j e_j + s_j2 e_j2 = 0
        let det = wp[j] * s[j2] - wp[j2] * s[j];
        if det == Scalar::zero() {
            return Ok(None);
        }
        let di = det.invert();
        wpp[j] += -v * s[j2] * di;
        wpp[j2] += v * s[j] * di;
        set(p, "C''_w", &Val::P(msm(&wpp, &st.h)));
        ch = ask(st, p)?.unwrap();
    }
    let qshift2 = if how == Cheat::QInSecond {
        // alpha * beta * delta = beta^2 * err, for the challenges just seen
        let s = spf(&ch);
        let a: Vec<Scalar> = wp.iter().zip(s.iter()).map(|(x, y)| x - y).collect();
        let b: Vec<Scalar> = wpp.iter().zip(gpt(gam, &s).iter()).map(|(x, y)| x + y).collect();
        let t = -ip(&s[..d], &tmul(gam, &s[..d]));
        let delta = (ip(&a, &b) - t) * ch[off + 3] * ch[off + 4].invert();
        set(p, "C''_w", &Val::P(msm(&wpp, &st.h) + delta * st.q));
        ch = ask(st, p)?.unwrap();
        delta
    } else {
        Scalar::zero()
    };
    let _ = qshift2;
    let s = spf(&ch);
    let a: Vec<Scalar> = wp.iter().zip(s.iter()).map(|(x, y)| x - y).collect();
    let b: Vec<Scalar> = wpp.iter().zip(gpt(gam, &s).iter()).map(|(x, y)| x + y).collect();
    let tver = -ip(&s[..d], &tmul(gam, &s[..d]));
    let err = ip(&a, &b) - tver;
    // 3. masks: ra orthogonal to b, rb orthogonal to a and ra
    let mut ra: Vec<Scalar> = (0..n).map(|_| rs(r)).collect();
    let jb = from(&b, j);
    let fix = ip(&ra, &b) * b[jb].invert();
    ra[jb] -= fix;
    let mut rb: Vec<Scalar> = (0..n).map(|_| rs(r)).collect();
    {
        // adjust entries j, j2 of rb
        let (e1, e2) = (ip(&rb, &a), ip(&rb, &ra));
        let det = a[j] * ra[j2] - a[j2] * ra[j];
        if det == Scalar::zero() {
            return Ok(None);
        }
        let di = det.invert();
        rb[j] += (-e1 * ra[j2] + e2 * a[j2]) * di;
        rb[j2] += (-e2 * a[j] + e1 * ra[j]) * di;
    }
    let cr = |ra: &[Scalar], rb: &[Scalar]| msm(ra, &g) + msm(rb, &st.h);
    set(p, "C_r", &Val::P(cr(&ra, &rb)));
    let mut ch = ask(st, p)?.unwrap();
    if how == Cheat::LateMask {
        let be = ch[off + 3];
        // b2 * err + be(<a,rb>+<ra,b>) + <ra,rb> = 0, linear in rb
        let cur = be * be * err + be * (ip(&a, &rb) + ip(&ra, &b)) + ip(&ra, &rb);
        let f = be * a[j] + ra[j];
        rb[j] -= cur * f.invert();
        set(p, "C_r", &Val::P(cr(&ra, &rb)));
        ch = ask(st, p)?.unwrap();
    }
    if how == Cheat::QInMask {
        let delta = ch[off + 3] * ch[off + 3] * err * ch[off + 4].invert();
        set(p, "C_r", &Val::P(cr(&ra, &rb) + delta * st.q));
        ch = ask(st, p)?.unwrap();
    }
    let be = ch[off + 3];
    // 4. inner-product argument for the masked vectors
    let mut fa: Vec<Scalar> = a.iter().zip(ra.iter()).map(|(x, y)| be * x + y).collect();
    let mut fb: Vec<Scalar> = b.iter().zip(rb.iter()).map(|(x, y)| be * x + y).collect();
    let (mut fg, mut fh) = (g.clone(), st.h.clone());
    let q = ch[off + 4].invert() * st.q;
    for i in 0..st.rounds() {
        let h = fa.len() / 2;
        let (al, ar) = fa.split_at(h);
        let (bl, br) = fb.split_at(h);
        let (gl, gr) = fg.split_at(h);
        let (hl, hr) = fh.split_at(h);
        let l = msm(al, gr) + msm(br, hl) + ip(al, br) * q;
        let rr = msm(ar, gl) + msm(bl, hr) + ip(ar, bl) * q;
        set(p, &format!("L[{}]", i), &Val::P(l));
        set(p, &format!("R[{}]", i), &Val::P(rr));
        let xi = ask(st, p)?.unwrap()[off + 5 + i];
        let na = (0..h).map(|k| al[k] * xi + ar[k]).collect();
        let nb = (0..h).map(|k| bl[k] + xi * br[k]).collect();
        let ng = (0..h).map(|k| gl[k] + xi * gr[k]).collect();
        let nh = (0..h).map(|k| xi * hl[k] + hr[k]).collect();
        fa = na;
        fb = nb;
        fg = ng;
        fh = nh;
    }
    set(p, "a", &Val::S(fa[0]));
    set(p, "b", &Val::S(fb[0]));
    Ok(Some(verify(st, p)?))
}

// ---------------------------------------------------------------- C03
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Coef { e: u16, i: u16, j: u16, d: Sc },
    Transpose { e: u16 },
    AddEq { eq: EqSpec, d: Sc },
    SwapEqs { i: u16, j: u16 },
    Gen { which: u8, i: u16, seed: u64 },
    SwapGens { which: u8, i: u16, j: u16 },
    GenAdd { which: u8, i: u16, d: Sc },
    CtxLabel(u8),
    CtxByte { m: u16, b: u16, x: u8 },
    CtxDrop { m: u16 },
    CtxAdd { m: u16, l: u8, data: Vec<u8> },
    CtxMsgLabel { m: u16, l: u8 },
}
pub fn s_ctx_change() -> BoxedStrategy<Change> {
    prop_oneof![
        any::<u8>().prop_map(Change::CtxLabel),
        (any::<u16>(), any::<u16>(), 1u8..=255).prop_map(|(m, b, x)| Change::CtxByte { m, b, x }),
        any::<u16>().prop_map(|m| Change::CtxDrop { m }),
        (any::<u16>(), 0u8..12, prop::collection::vec(any::<u8>(), 0..20))
            .prop_map(|(m, l, data)| Change::CtxAdd { m, l, data }),
        (any::<u16>(), 0u8..12).prop_map(|(m, l)| Change::CtxMsgLabel { m, l }),
    ]
    .boxed()
}
pub fn s_change() -> BoxedStrategy<Change> {
    prop_oneof![
        5 => (any::<u16>(), any::<u16>(), any::<u16>(), sc_nz()).prop_map(|(e, i, j, d)| Change::Coef { e, i, j, d }),
        1 => any::<u16>().prop_map(|e| Change::Transpose { e }),
        2 => (eqspec(), sc_nz()).prop_map(|(eq, d)| Change::AddEq { eq, d }),
        1 => any::<(u16, u16)>().prop_map(|(i, j)| Change::SwapEqs { i, j }),
        4 => (0u8..3, any::<u16>(), any::<u64>().no_shrink()).prop_map(|(which, i, seed)| Change::Gen { which, i, seed }),
        1 => (0u8..2, any::<u16>(), any::<u16>()).prop_map(|(which, i, j)| Change::SwapGens { which, i, j }),
        1 => (0u8..3, any::<u16>(), sc_nz()).prop_map(|(which, i, d)| Change::GenAdd { which, i, d }),
        4 => s_ctx_change(),
    ]
    .boxed()
}
/// Applies a change; false if it changed nothing (or nothing that has to
/// invalidate the proof).
pub fn apply_ctx(c: &Change, ctx: &mut Ctx) -> bool {
    let old = ctx.clone();
    let old_labels = |c: &Ctx| (label(c.label), c.msgs.iter().map(|m| (label(m.0), m.1.clone())).collect::<Vec<_>>());
    let before = old_labels(&old);
    let n = ctx.msgs.len();
    match c {
        Change::CtxLabel(l) => ctx.label = *l,
        Change::CtxByte { m, b, x } => {
            if n == 0 {
                return false;
            }
            let d = &mut ctx.msgs[*m as usize % n].1;
            if d.is_empty() {
                d.push(*x);
            } else {
                let k = *b as usize % d.len();
                d[k] ^= x;
            }
        }
        Change::CtxDrop { m } => {
            if n == 0 {
                return false;
            }
            ctx.msgs.remove(*m as usize % n);
        }
        Change::CtxAdd { m, l, data } => {
            ctx.msgs.insert(*m as usize % (n + 1), (*l, data.clone()));
        }
        Change::CtxMsgLabel { m, l } => {
            if n == 0 {
                return false;
            }
            ctx.msgs[*m as usize % n].0 = *l;
        }
        _ => return false,
    }
    before != old_labels(ctx)
}
pub fn apply(c: &Change, st: &mut St, w: &Wit) -> bool {
    let d = if st.n > 2 { st.n - 2 } else { 0 };
    let id = RistrettoPoint::identity();
    match c {
        Change::Coef { e, i, j, d: x } => {
            let k = st.gamma.len();
            if k == 0 {
                return false;
            }
            st.gamma[*e as usize % k][*i as usize % d][*j as usize % d] += x.val();
            true
        }
        Change::Transpose { e } => {
            let k = st.gamma.len();
            if k == 0 {
                return false;
            }
            let g = &mut st.gamma[*e as usize % k];
            let t: Mat = (0..d).map(|i| (0..d).map(|j| g[j][i]).collect()).collect();
            let ch = *g != t;
            *g = t;
            ch
        }
        Change::AddEq { eq, d: x } => {
            st.gamma.push(eq.matrix(&w.full, &w.frozen, x.val()));
            true
        }
        Change::SwapEqs { i, j } => {
            let k = st.gamma.len();
            if k < 2 {
                return false;
            }
            let (i, j) = (*i as usize % k, *j as usize % k);
            let ch = st.gamma[i] != st.gamma[j];
            st.gamma.swap(i, j);
            ch
        }
        Change::Gen { which, i, seed } => {
            let p = rp(*seed);
            gen_at(st, *which, *i, |_| p)
        }
        Change::GenAdd { which, i, d } => {
            let s = d.val();
            // scaled copies of a generator
            gen_at(st, *which, *i, |q| q + s * q)
        }
        Change::SwapGens { which, i, j } => {
            let v = if *which == 0 { &mut st.g } else { &mut st.h };
            let k = v.len();
            if k == 0 {
                return false;
            }
            let (i, j) = (*i as usize % k, *j as usize % k);
            let ch = v[i] != v[j];
            v.swap(i, j);
            ch
        }
        c => {
            let _ = id;
            let mut ctx = st.ctx.clone();
            let ch = apply_ctx(c, &mut ctx);
            st.ctx = ctx;
            ch
        }
    }
}
fn gen_at(st: &mut St, which: u8, i: u16, f: impl Fn(RistrettoPoint) -> RistrettoPoint) -> bool {
    let q = match which {
        0 => {
            let k = st.g.len();
            &mut st.g[i as usize % k]
        }
        1 => {
            let k = st.h.len();
            &mut st.h[i as usize % k]
        }
        _ => &mut st.q,
    };
    let new = f(*q);
    let ch = new != *q;
    *q = new;
    ch
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bind {
    c: PCase,
    ch: Change,
}
fn s_bind(t: Tier) -> BoxedStrategy<Bind> {
    (any_kind(&QI, sh(t, 4, 4), true), s_change())
        .prop_map(|(mut c, ch)| {
            c.crs.kind = CrsKind::Random;
            Bind { c, ch }
        })
        .boxed()
}
/// Every challenge of the verification must depend on the changed thing.
pub fn other_challenges(st: &St, st2: &St, p: &Proof, from: usize, what: &str) -> Result<bool, Fail> {
    let (c1, c2) = (verify_log(st, p)?.challenges(), verify_log(st2, p)?.challenges());
    for (i, (x, y)) in c1.iter().zip(c2.iter()).enumerate().skip(from) {
        ensure!(
            x != y,
            "statement-not-bound",
            "challenge {} of a {:?} verification is the same after {} (n={}, {} equations)",
            i,
            st.kind,
            what,
            st.n,
            st.gamma.len()
        );
    }
    Ok(c1.len() > from && c2.len() > from)
}
pub fn eq_change(c: &Change) -> bool {
    matches!(c, Change::Coef { .. } | Change::Transpose { .. } | Change::AddEq { .. } | Change::SwapEqs { .. })
}
fn change_name(c: &Change) -> String {
    let s = format!("{:?}", c);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}
fn t_bind(b: &Bind) -> CaseResult {
    let (st, w) = b.c.build();
    let p = prove(&st, &w)?;
    let mut st2 = st.clone();
    if !apply(&b.ch, &mut st2, &w) {
        return Ok(Info::new(false));
    }
    ensure!(
        !verify(&st2, &p)?,
        "accepts-other-statement",
        "a {:?} proof was accepted for another statement: {:?} (n={}, {} equations)",
        st.kind,
        b.ch,
        st.n,
        st.gamma.len()
    );
    if !matches!(b.ch, Change::Gen { .. } | Change::SwapGens { .. } | Change::GenAdd { .. }) {
        other_challenges(&st, &st2, &p, 0, &format!("{:?}", b.ch))?;
    }
    Ok(Info::new(true).tag(change_name(&b.ch)))
}

/// Systems computed with knowledge of the proof and its challenges.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Adapt {
    c: PCase,
    i: u16,
    j: u16,
    /// 0: random difference, 1: single coefficient, 2: row 0 only,
    /// 3: one equation, by a matrix the verifier's vector s is orthogonal to
    shape: u8,
    at: (u16, u16),
    seed: u64,
}
fn s_adapt(t: Tier) -> BoxedStrategy<Adapt> {
    (
        any_kind(&QI, sh(t, 3, 6), false),
        any::<u16>(),
        any::<u16>(),
        0u8..4,
        any::<(u16, u16)>(),
        any::<u64>().no_shrink(),
    )
        .prop_map(|(mut c, i, j, shape, at, seed)| {
            while c.eqs.len() < 2 {
                let e = EqSpec { kind: EqKind::Dense, seed: seed ^ 5, pivot: at };
                c.eqs.push(e);
            }
            Adapt { c, i, j, shape, at, seed }
        })
        .boxed()
}
fn t_adapt(a: &Adapt) -> CaseResult {
    let (st, w) = a.c.build();
    let d = st.n - 2;
    let p = prove(&st, &w)?;
    let ch = verify_log(&st, &p)?.challenges();
    let k = st.gamma.len();
    let i = a.i as usize % k;
    let mut j = a.j as usize % k;
    if i == j {
        j = (i + 1) % k;
    }
    if ch.len() < 1 {
        return Ok(Info::new(false));
    }
    let xs = powers(ch[0], k);
    let mut r = rng(a.seed, 9);
    let mut st2 = st.clone();
    let (r0, c0) = (a.at.0 as usize % d, a.at.1 as usize % d);
    if a.shape == 3 {
        if d < 2 || ch.len() < 2 {
            return Ok(Info::new(false));
        }
        let s = powers(ch[1], d);
        let r1 = if r0 + 1 == d { 0 } else { r0 + 1 };
        let cc = if w.full[c0] == Scalar::zero() { 0 } else { c0 };
        let e = rs(&mut r);
        st2.gamma[i][r0][cc] += e * s[r1];
        st2.gamma[i][r1][cc] -= e * s[r0];
    }
    for y in 0..d {
        for z in 0..d {
            let on = match a.shape {
                3 => false,
                0 => true,
                1 => y == r0 && z == c0,
                _ => y == 0,
            };
            if on {
                let e = rs(&mut r);
                st2.gamma[i][y][z] += e * xs[i].invert();
                st2.gamma[j][y][z] -= e * xs[j].invert();
            }
        }
    }
    if quad(&st2.gamma[i], &w.full) == Scalar::zero() && quad(&st2.gamma[j], &w.full) == Scalar::zero() {
        return Ok(Info::new(false));
    }
    ensure!(
        !verify(&st2, &p)?,
        "accepts-adaptive-system",
        "a {:?} proof was accepted for a system computed from its challenges, which its witness violates (equations {} and {} of {}, n={})",
        st.kind,
        i,
        j,
        k,
        st.n
    );
    Ok(Info::new(true).tag(format!("shape {}", a.shape)))
}

// ---------------------------------------------------------------- C21
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BatchCase {
    k: u16,
    extra: u8,
    r: u8,
    c: u8,
    dense: bool,
    seed: u64,
    chal: VSpec,
}
fn s_batch(t: Tier) -> BoxedStrategy<BatchCase> {
    let maxk = if t == Tier::Thorough { 300u16 } else { 80 };
    (
        sized(prop_oneof![3 => 1..12u16, 1 => 1..maxk].boxed(), 1, 400),
        0u8..5,
        sized((1u16..9).boxed(), 1, 36).prop_map(|x| x as u8),
        sized((1u16..9).boxed(), 1, 36).prop_map(|x| x as u8),
        any::<bool>(),
        any::<u64>().no_shrink(),
        vspec(),
    )
        .prop_map(|(k, extra, r, c, dense, seed, chal)| BatchCase { k, extra, r, c, dense, seed, chal })
        .boxed()
}
fn s_batch_large(t: Tier) -> BoxedStrategy<BatchCase> {
    let up = if t == Tier::Thorough { 2u16 } else { 1 };
    (
        s_batch(t),
        prop_oneof![(80..700 * up, 1u8..4, 1u8..4), (1u16..6, 20u8..70, 20u8..70), (1u16..6, 1u8..3, any::<u8>()), (1u16..6, any::<u8>(), 1u8..3)],
    )
        .prop_map(|(mut b, (k, r, c))| {
            b.k = k;
            b.r = r.max(1);
            b.c = c.max(1);
            b
        })
        .boxed()
}
fn t_batch(b: &BatchCase) -> CaseResult {
    let k = b.k as usize;
    let mut r = rng(b.seed, 1);
    let ms: Vec<Mat> = (0..k)
        .map(|_| {
            (0..b.r)
                .map(|_| (0..b.c).map(|_| if b.dense { rs(&mut r) } else { special(&mut r) }).collect())
                .collect()
        })
        .collect();
    let ch = b.chal.vec(k + b.extra as usize);
    let got = must("block_matrix_batch", || bm(&ms).block_matrix_batch(&ch))?;
    let mut exp = vec![vec![Scalar::zero(); b.c as usize]; b.r as usize];
    for i in 0..k {
        for y in 0..b.r as usize {
            for z in 0..b.c as usize {
                exp[y][z] += ch[i] * ms[i][y][z];
            }
        }
    }
    ensure!(got == exp, "batch-wrong", "batch of {} matrices of shape {}x{} is not their weighted sum", k, b.r, b.c);
    Ok(Info::new(k > 1).tag(if k > 8 { "more than 8 matrices" } else { "up to 8 matrices" }))
}
/// Everything is zero except one violated equation (or a cancelling pair).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OneBad {
    c: PCase,
    total: u16,
    at: u16,
    pair: Option<u16>,
    spec: EqSpec,
    delta: Sc,
}
fn s_onebad(t: Tier) -> BoxedStrategy<OneBad> {
    (
        any_kind(&QI, sh(t, 3, 1), false),
        prop_oneof![2 => 1u16..8, 2 => 8u16..40],
        any::<u16>(),
        prop::option::of(any::<u16>()),
        eqspec(),
        sc_nz(),
    )
        .prop_map(|(c, total, at, pair, spec, delta)| OneBad { c, total, at, pair, spec, delta })
        .boxed()
}
fn s_onebad_many(t: Tier) -> BoxedStrategy<OneBad> {
    let up = if t == Tier::Thorough { 2u16 } else { 1 };
    (s_onebad(t), sized(prop_oneof![2 => 40..150u16, 1 => 150..400 * up].boxed(), 40, 400))
        .prop_map(|(mut o, total)| {
            o.total = total;
            o.c.lg = if total > 150 { 2 } else { 2 + o.c.lg % 2 };
            o
        })
        .boxed()
}
fn t_onebad(o: &OneBad) -> CaseResult {
    let (mut st, w) = o.c.build();
    let d = st.n - 2;
    let k = o.total as usize;
    let at = o.at as usize % k;
    st.gamma = vec![vec![vec![Scalar::zero(); d]; d]; k];
    // satisfied everywhere: the proof has to be accepted whatever the position
    st.gamma[at] = o.spec.matrix(&w.full, &w.frozen, Scalar::zero());
    let p = prove(&st, &w)?;
    ensure!(verify(&st, &p)?, "rejects-honest", "honest {:?} proof with {} equations rejected (n={})", st.kind, k, st.n);
    st.gamma[at] = o.spec.matrix(&w.full, &w.frozen, o.delta.val());
    let mut bad = vec![at];
    if let Some(j) = o.pair {
        let j = j as usize % k;
        if j != at {
            st.gamma[j] = o.spec.matrix(&w.full, &w.frozen, -o.delta.val());
            bad.push(j);
        }
    }
    if let Ok(p) = lib(|| prove_raw(&st, &w, &mut st.transcript())) {
        ensure!(
            !verify(&st, &p)?,
            "equation-not-batched",
            "{:?} proof accepted although equation(s) {:?} of {} are violated (n={})",
            st.kind,
            bad,
            k,
            st.n
        );
    }
    let mut i = Info::new(true).tag(if at >= st.n { "position >= n" } else { "position < n" });
    if bad.len() == 2 {
        i = i.tag("cancelling pair");
    }
    Ok(i)
}

// ---------------------------------------------------------------- C06
const ZKQ: [Kind; 2] = [Kind::Qesa, Kind::Copy];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    c: PCase,
    s1: u64,
    s2: u64,
    zero: bool,
}
fn s_fresh(t: Tier) -> BoxedStrategy<Fresh> {
    (
        any_kind(&ZKQ, sh(t, 4, 3), true),
        any::<u64>().no_shrink(),
        any::<u64>().no_shrink(),
        any::<bool>(),
    )
        .prop_map(|(mut c, s1, s2, zero)| {
            c.crs.kind = CrsKind::Random;
            if zero {
                c.w = VSpec { kind: VKind::Zeros, seed: 0, over: vec![] };
                c.copy.msgs = c.w.clone();
                c.copy.rands = c.w.clone();
            }
            Fresh { c, s1, s2, zero }
        })
        .boxed()
}
fn seeded_prove(st: &St, w: &Wit, seed: u64) -> Result<Logged<Proof>, Fail> {
    rand::verif::set_seed(Some(seed));
    prove_log(st, w)
}
fn t_fresh(f: &Fresh) -> CaseResult {
    if f.s1 == f.s2 {
        return Ok(Info::new(false));
    }
    let (st, w) = f.c.build();
    let p1 = seeded_prove(&st, &w, f.s1)?;
    let p2 = seeded_prove(&st, &w, f.s2)?;
    let (c1, c2) = (comps(&p1.out), comps(&p2.out));
    for (x, y) in c1.iter().zip(c2.iter()) {
        ensure!(
            x.val != y.val,
            "not-fresh",
            "{} is the same in two {:?} proofs made with independent randomness (n={})",
            x.name,
            st.kind,
            st.n
        );
    }
    // a second proof in the same process, without reseeding
    let p3 = prove(&st, &w)?;
    for (x, y) in c2.iter().zip(comps(&p3).iter()) {
        ensure!(x.val != y.val, "not-fresh", "{} repeats in the next {:?} proof of the process", x.name, st.kind);
    }
    // known functions of the witness
    let d = st.n - 2;
    let z = Scalar::zero();
    let ch = p1.challenges();
    let mut known: Vec<(String, RistrettoPoint)> = vec![];
    let wv = |v: &[Scalar]| {
        let mut x = v.to_vec();
        x.resize(st.n, z);
        x
    };
    known.push(("0".into(), RistrettoPoint::identity()));
    known.push(("w*G".into(), msm(&wv(&w.full), &st.g)));
    if let (Kind::Qesa, Some(ch)) = (st.kind, canon(&st, &ch)) {
        let gam = batch(&st.gamma, ch[0], d);
        let gw = matvec(&gam, &w.full);
        known.push(("Gamma w*H".into(), msm(&wv(&gw), &st.h)));
        let mut g = st.g.clone();
        g[0] = (ch[0] * ch[0]).invert() * g[0];
        let mut sp = powers(ch[1], d);
        sp.extend(powers(ch[2], 2));
        let a: Vec<Scalar> = wv(&w.full).iter().zip(sp.iter()).map(|(x, y)| x - y).collect();
        let b: Vec<Scalar> = wv(&gw).iter().zip(gpt(&gam, &sp).iter()).map(|(x, y)| x + y).collect();
        known.push(("(w-s)*G".into(), msm(&a, &g)));
        known.push(("(Gamma w+Gamma^T s)*H".into(), msm(&b, &st.h)));
        known.push(("C_w without blinding".into(), msm(&a, &g) + msm(&b, &st.h)));
    }
    for c in &c1 {
        if let Some(p) = c.val.point() {
            for (n, k) in &known {
                ensure!(p != *k, "unblinded", "{} of a {:?} proof equals {} (n={})", c.name, st.kind, n, st.n);
            }
        }
    }
    Ok(Info::new(true).tag(format!("{:?}{}", st.kind, if f.zero { " zero witness" } else { "" })))
}

/// All generators are the identity except one: the proof then shows multiples
/// of that generator only, the coefficients of one position.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Isolate {
    c: PCase,
    seeds: Vec<u64>,
}
fn s_isolate(t: Tier) -> BoxedStrategy<Isolate> {
    (
        any_kind(&ZKQ, sh(t, 4, 2), true),
        prop::collection::vec(any::<u64>().no_shrink(), 3),
    )
        .prop_map(|(c, seeds)| Isolate { c, seeds })
        .boxed()
}
fn t_isolate(f: &Isolate) -> CaseResult {
    let mut seeds = f.seeds.clone();
    seeds.sort();
    seeds.dedup();
    let (st0, w) = f.c.build();
    let n = st0.n;
    let b = rp(99);
    let id = RistrettoPoint::identity();
    let first = if st0.kind == Kind::Copy { "C_w" } else { "C'_w" };
    // small multiples of b, and multiples by values of the statement
    let mut forb: Vec<(String, RistrettoPoint)> = vec![];
    let mut acc = id;
    for i in 0..=64 {
        forb.push((format!("{}", i), acc));
        forb.push((format!("-{}", i), -acc));
        acc += b;
    }
    for (i, x) in w.full.iter().enumerate() {
        forb.push((format!("w[{}]", i), x * b));
        forb.push((format!("-w[{}]", i), -(x * b)));
    }
    for (i, o) in w.opens.iter().enumerate() {
        forb.push((format!("rand[{}]", i), o.1 * b));
    }
    // +-k*b for small k; and k*x for small k of every coefficient x seen so far
    let small: HashSet<[u8; 32]> = forb[..130].iter().map(|f| f.1.compress().to_bytes()).collect();
    let mut multiples: HashMap<[u8; 32], Vec<(i32, usize)>> = HashMap::new();
    let mut seen: Vec<(String, RistrettoPoint)> = vec![];
    for s in &seeds {
        for (side, pos) in [(0, n - 2), (0, n - 1), (1, n - 2), (1, n - 1)].iter() {
            let mut st = st0.clone();
            st.g = vec![id; n];
            st.h = vec![id; n];
            st.q = id;
            if *side == 0 {
                st.g[*pos] = b;
            } else {
                st.h[*pos] = b;
            }
            let p = seeded_prove(&st, &w, *s)?.out;
            let names: &[&str] = if *side == 0 { &[first, "C_r"] } else { &["C''_w", "C_r"] };
            for nm in names {
                let v = find(&p, nm).unwrap().point().unwrap();
                let what = format!("{} at {}[{}]", nm, if *side == 0 { "G" } else { "H" }, pos);
                for (k, x) in &forb {
                    ensure!(v != *x, "weak-blinding", "blinding coefficient of {} in a {:?} proof is {} (n={})", what, st.kind, k, n);
                }
                for (wh, x) in &seen {
                    // r'' is r' rotated by definition, so C'_w and C''_w share values
                    let rot = nm.starts_with("C''") || wh.starts_with("C''");
                    if rot && wh.ends_with(&format!("#{}", s)) {
                        continue;
                    }
                    ensure!(
                        v != *x && v != -x,
                        "repeated-blinding",
                        "blinding coefficient of {} (seed {}) equals that of {} in a {:?} proof (n={})",
                        what, s, wh, st.kind, n
                    );
                    ensure!(
                        !small.contains(&(v - x).compress().to_bytes()) && !small.contains(&(v + x).compress().to_bytes()),
                        "related-blinding",
                        "blinding coefficient of {} (seed {}) differs from that of {} by a small number in a {:?} proof (n={})",
                        what, s, wh, st.kind, n
                    );
                }
                let mut ms = vec![];
                let mut acc = v;
                for k in 1..=16 {
                    for (sg, x) in [(k, acc), (-k, -acc)].iter() {
                        let y = x.compress().to_bytes();
                        for (j, at) in multiples.get(&y).into_iter().flatten() {
                            let wh = &seen[*at].0;
                            let rot = nm.starts_with("C''") || wh.starts_with("C''");
                            ensure!(
                                rot && wh.ends_with(&format!("#{}", s)),
                                "related-blinding",
                                "{} times the blinding coefficient of {} (seed {}) is {} times that of {} in a {:?} proof (n={})",
                                sg, what, s, j, wh, st.kind, n
                            );
                        }
                        ms.push((y, *sg));
                    }
                    acc += v;
                }
                for (y, sg) in ms {
                    multiples.entry(y).or_default().push((sg, seen.len()));
                }
                seen.push((format!("{} #{}", what, s), v));
            }
        }
    }
    Ok(Info::new(true).tag(size_tag(&st0)))
}

/// Many proofs one after another on one random stream: no message comes twice.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    c: PCase,
    seed: u64,
    reps: u16,
}
fn s_manyfresh(t: Tier) -> BoxedStrategy<Many> {
    let hi = if t == Tier::Thorough { 1200u16 } else { 320 };
    (any_kind(&ZKQ, sh(t, 2, 1), true), any::<u64>().no_shrink(), 2u16..=hi)
        .prop_map(|(mut c, seed, reps)| {
            c.crs.kind = CrsKind::Random;
            Many { c, seed, reps }
        })
        .boxed()
}
fn t_manyfresh(f: &Many) -> CaseResult {
    let (st, w) = f.c.build();
    rand::verif::set_seed(Some(f.seed));
    let mut seen: HashMap<[u8; 32], (u16, String)> = HashMap::new();
    for i in 0..f.reps {
        for c in comps(&prove(&st, &w)?) {
            if let Some((j, nm)) = seen.insert(c.val.bytes(), (i, c.name.clone())) {
                return fail(
                    "not-fresh",
                    format!("{} of {:?} proof number {} equals {} of proof number {} (n={})", c.name, st.kind, i, nm, j, st.n),
                );
            }
        }
    }
    Ok(Info::new(true).tag(format!("{:?}", st.kind)).tag(if f.reps > 100 { "over 100 proofs" } else { "up to 100 proofs" }))
}

/// Each blinding value has to depend on at least 128 bits of randomness.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Entropy {
    c: PCase,
    seed: u64,
}
fn s_entropy(t: Tier) -> BoxedStrategy<Entropy> {
    (any_kind(&ZKQ, sh(t, 2, 1), true), any::<u64>().no_shrink()).prop_map(|(c, seed)| Entropy { c, seed }).boxed()
}
fn t_entropy(f: &Entropy) -> CaseResult {
    let (st0, w) = f.c.build();
    let (n, b, id) = (st0.n, rp(98), RistrettoPoint::identity());
    let first = if st0.kind == Kind::Copy { "C_w" } else { "C'_w" };
    for (side, pos, nm) in [(0, n - 2, first), (0, n - 1, first), (1, n - 2, "C''_w"), (1, n - 1, "C''_w"), (0, n - 1, "C_r"), (1, n - 1, "C_r")].iter() {
        let mut st = st0.clone();
        st.g = vec![id; n];
        st.h = vec![id; n];
        st.q = id;
        if *side == 0 {
            st.g[*pos] = b;
        } else {
            st.h[*pos] = b;
        }
        let run = || Ok(vec![find(&prove(&st, &w)?, nm).unwrap().bytes()]);
        match influence(f.seed, 16, &run)? {
            None => return Ok(Info::new(false).tag("randomness not reproducible")),
            Some(v) => ensure!(
                v[0] >= 16,
                "little-entropy",
                "the blinding of {} at {}[{}] in a {:?} proof depends on {} random bytes only (n={})",
                nm,
                if *side == 0 { "G" } else { "H" },
                pos,
                st.kind,
                v[0],
                n
            ),
        }
    }
    Ok(Info::new(true).tag(size_tag(&st0)))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is a CRS, prior transcript, witness with first entry 1 and a list of quadratic equations made to hold for it by correcting one coefficient; non-trivial if some equation has a non-zero coefficient.",
            assumptions: vec!["sizes are bounded (n up to 256 quick, 512 thorough)"],
            facets: vec![
                facet("honest", 12000, 80000, s_complete, complete),
                facet("many-equations", 6000, 30000, s_many, complete),
                facet("large", 120, 600, s_large, complete),
                facet("huge", 120, 400, s_huge, complete),
            ],
        },
        Prop {
            id: "C02",
            rule: "A case is an unsatisfied system (one equation, or two with equal or opposite errors, at any index), a wrong constant entry, or a cheating prover with its positions; non-trivial if a proof was actually made and offered to the verifier.",
            assumptions: vec!["generators are independent (random)", "cheating provers are those of the generator, not all provers"],
            facets: vec![
                facet("violated", 12000, 100000, s_viol, t_viol),
                facet("violated-large", 200, 1000, s_viol_large, t_viol),
                facet("bad-constant", 4000, 30000, s_badone, t_badone),
                facet("late-message", 2500, 20000, s_viol, t_late),
                facet("cheating-prover", 8000, 60000, s_cheat, t_cheat),
                facet("cheating-large", 240, 3000, s_cheat_large, t_cheat),
            ],
        },
        Prop {
            id: "C03",
            rule: "A case is an accepted proof and one change of statement or context (or a challenge-aware change of two equations); non-trivial if the change really alters the statement or context.",
            assumptions: vec!["generators are independent (random)"],
            facets: vec![
                facet("single-change", 12000, 80000, s_bind, t_bind),
                facet("challenge-aware", 6000, 50000, s_adapt, t_adapt),
            ],
        },
        Prop {
            id: "C06",
            rule: "A case is a statement, a witness (often all zero) and independent random streams; non-trivial when the streams differ.",
            assumptions: vec!["randomness comes from rand 0.7.3 thread_rng, replaced by a seedable copy"],
            facets: vec![
                facet("fresh", 4000, 30000, s_fresh, t_fresh),
                facet("isolated-coefficients", 1200, 8000, s_isolate, t_isolate),
                facet("many", 64, 600, s_manyfresh, t_manyfresh),
                facet("entropy", 160, 1600, s_entropy, t_entropy),
            ],
        },
        Prop {
            id: "C21",
            rule: "A case is a block of matrices with challenges, or a quadratic system in which exactly one equation (or a cancelling pair) at a generated position is violated; non-trivial with more than one matrix, or when a violated system was tried.",
            assumptions: vec![],
            facets: vec![
                facet("batch", 20000, 200000, s_batch, t_batch),
                facet("batch-large", 300, 3000, s_batch_large, t_batch),
                facet("one-violated", 6000, 50000, s_onebad, t_onebad),
                facet("one-violated-of-many", 300, 3000, s_onebad_many, t_onebad),
            ],
        },
    ]
}
