//! C27: inputs whose sizes do not fit together never end in acceptance.
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use crate::proto::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use proptest::prelude::*;
use rand::Rng;
use serde::{Deserialize, Serialize};

/// What is made longer or shorter.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    G,
    H,
    GH,
    W,
    A,
    B,
    AB,
    Blind,
    Rows,
    Row,
    Cols,
    Square,
    Comms,
    Opens,
    Messages,
    Sets,
    Images,
    PRows,
    PRow,
    PCols,
    N,
    M,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dim {
    c: PCase,
    what: What,
    by: i8,
    /// perturb the prover's inputs too, not only the verifier's
    reprove: bool,
    at: u16,
    seed: u64,
}
fn whats(k: Kind) -> Vec<What> {
    use What::*;
    match k {
        Kind::Ipa | Kind::Alm => vec![G, H, GH, A, B, AB, N],
        Kind::Inner => vec![G, H, GH, W, Blind, Rows, Row, Cols, Square],
        Kind::Qesa => vec![G, H, GH, W, Rows, Row, Cols, Square],
        Kind::Copy => vec![G, H, GH, W, Rows, Row, Cols, Square, Comms, Opens, Messages, Sets],
        Kind::LHalf | Kind::SHalf => vec![G, H, GH, W, Images, PRows, PRow, PCols, N],
        Kind::LK | Kind::SK => vec![W, Images, PRows, PRow, PCols, N, M],
    }
}
fn cut<T>(v: &mut Vec<T>, by: i8, mut new: impl FnMut() -> T) -> bool {
    if by > 0 {
        for _ in 0..by {
            v.push(new());
        }
        true
    } else if v.len() > -by as usize {
        v.truncate(v.len() - -by as usize);
        true
    } else {
        false
    }
}
fn perturb(d: &Dim, st: &mut St, w: &mut Wit) -> bool {
    use What::*;
    let r = std::cell::RefCell::new(rng(d.seed, 5));
    let s = || rs(&mut *r.borrow_mut());
    let p = || RistrettoPoint::random(&mut *r.borrow_mut());
    let by = d.by;
    let at = |n: usize| d.at as usize % n.max(1);
    match d.what {
        G => cut(&mut st.g, by, p),
        H => cut(&mut st.h, by, p),
        GH => cut(&mut st.g, by, p) && cut(&mut st.h, by, p),
        W => cut(&mut w.w, by, s),
        A => cut(&mut w.a, by, s),
        B => cut(&mut w.b, by, s),
        AB => cut(&mut w.a, by, s) && cut(&mut w.b, by, s),
        Blind => cut(&mut w.rp, by, s),
        Rows | Row | Cols | Square => {
            if st.gamma.is_empty() {
                return false;
            }
            let i = at(st.gamma.len());
            let g = &mut st.gamma[i];
            let cols = g[0].len();
            match d.what {
                Rows => cut(g, by, || (0..cols).map(|_| s()).collect()),
                Row => {
                    let k = at(g.len());
                    cut(&mut g[k], by, s)
                }
                Cols => g.iter_mut().all(|r| cut(r, by, s)),
                _ => g.iter_mut().all(|r| cut(r, by, s)) && {
                    let cols = g[0].len();
                    cut(g, by, || (0..cols).map(|_| s()).collect())
                },
            }
        }
        Comms => cut(&mut st.comms, by, p),
        Opens => cut(&mut w.opens, by, || (vec![s()], s())),
        Messages => {
            let i = at(w.opens.len());
            cut(&mut w.opens[i].0, by, s)
        }
        Sets => {
            let n = st.n as u16;
            cut(&mut st.sets, by, || vec![1 + d.at % (n - 3)].into_iter().collect())
        }
        Images => cut(&mut st.tv, by, p),
        PRows => {
            let n = st.n;
            cut(&mut st.a, by, || (0..n).map(|_| p()).collect())
        }
        PRow => {
            let i = at(st.a.len());
            cut(&mut st.a[i], by, p)
        }
        PCols => st.a.iter_mut().all(|r| cut(r, by, p)),
        N => {
            let n = st.n as i64 + by as i64;
            st.n = n.max(0) as usize;
            n > 0
        }
        M => {
            let m = st.m as i64 + by as i64;
            st.m = m.max(0) as usize;
            m > 0
        }
    }
}
/// Whether the library tells this misfit from a fitting input. Left out: inputs
/// the call does not use (H of the linear maps, m), and surplus entries that
/// are documented nowhere and ignored (columns past the witness).
fn tells(k: Kind, what: What, longer: bool, reprove: bool) -> bool {
    use What::*;
    match what {
        // the verifier does not get these
        W | A | B | AB | Blind | Opens | Messages if !reprove => false,
        W => matches!(k, Kind::Inner | Kind::Qesa) || matches!(k, Kind::LHalf | Kind::SHalf) && !longer,
        Messages => false,
        G | H | GH if k == Kind::Ipa => reprove || !longer,
        H if k.lmpa() => false,
        PRow | PCols => !longer && !(k.kary() && reprove),
        N if k.kary() => false,
        M => false,
        _ => true,
    }
}
fn t_dim(d: &Dim) -> CaseResult {
    let (st0, w0) = d.c.build();
    let (mut st, mut w) = (st0.clone(), w0.clone());
    if !perturb(d, &mut st, &mut w) {
        return Ok(Info::new(false));
    }
    let p = if d.reprove { lib(|| prove_raw(&st, &w, &mut st.transcript())) } else { lib(|| prove_raw(&st0, &w0, &mut st0.transcript())) };
    if !tells(st.kind, d.what, d.by > 0, d.reprove) {
        return Ok(Info::new(false).tag("not told apart"));
    }
    // dropping index sets without an index leaves the statement as it is
    if d.what == What::Sets && d.by < 0 && st0.sets[st.sets.len()..].iter().all(|s| s.is_empty()) {
        return Ok(Info::new(false).tag("empty sets dropped"));
    }
    let tag = format!("{:?} {:?}{}", st.kind, d.what, if d.by > 0 { "+" } else { "-" });
    let p = match p {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(true).tag(tag).tag("prover refuses")),
    };
    let v = lib(|| verify_raw(&st, &p, &mut st.transcript()));
    ensure!(
        !matches!(v, Ok(true)),
        "accepts-misfit",
        "a {:?} proof was accepted although {:?} is {} by {} ({}; n={}, m={}, k={}, {} equations)",
        st.kind,
        d.what,
        if d.by > 0 { "longer" } else { "shorter" },
        d.by.abs(),
        if d.reprove { "for prover and verifier" } else { "for the verifier, proof of the fitting statement" },
        st0.n,
        st0.m,
        st0.k,
        st0.gamma.len()
    );
    Ok(Info::new(true).tag(tag).tag(if v.is_err() { "verifier refuses" } else { "verifier rejects" }))
}
fn s_dim(t: Tier) -> BoxedStrategy<Dim> {
    any_kind(&ALL, Shape { max_lg: if t == Tier::Thorough { 6 } else { 4 }, max_eqs: 3, max_m: 3, max_n: 27 }, false)
        .prop_flat_map(|c| {
            (
                Just(c.clone()),
                prop::sample::select(whats(c.kind)),
                prop_oneof![3 => Just(1i8), 3 => Just(-1i8), 1 => 2i8..5, 1 => -4i8..-1],
                any::<bool>(),
                any::<u16>(),
                any::<u64>().no_shrink(),
            )
        })
        .prop_map(|(mut c, what, by, reprove, at, seed)| {
            c.crs.kind = CrsKind::Random;
            Dim { c, what, by, reprove, at, seed }
        })
        .boxed()
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "A case is a protocol, a satisfied statement, and one input made longer or shorter for both sides or for the verifier only; non-trivial if the misfit is one the library tells apart.",
        assumptions: vec![],
        facets: vec![facet("sizes", 20000, 200000, s_dim, t_dim)],
    }]
}
