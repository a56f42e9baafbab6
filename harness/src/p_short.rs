//! Challenge sizes: an honest accepted proof satisfies the documented
//! equations under the challenges that were drawn. If it satisfies them only
//! with some challenge cut down to a small part of it, the verifier uses that
//! part, and a prover can search for a proof of a false statement.
use crate::attack::*;
use crate::eng::*;
use crate::gen::*;
use crate::proto::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use proptest::prelude::*;

fn cuts(x: &Scalar) -> Vec<(String, Scalar)> {
    let b = x.to_bytes();
    let mut out = vec![];
    for len in [1usize, 2, 3, 4, 5, 6, 7, 8, 10, 12] {
        for from in [0, 32 - len] {
            let mut y = [0u8; 32];
            y[..len].copy_from_slice(&b[from..from + len]);
            out.push((format!("{} bits", 8 * len), Scalar::from_bytes_mod_order(y)));
            // in place
            let mut y = [0u8; 32];
            y[from..from + len].copy_from_slice(&b[from..from + len]);
            out.push((format!("{} bits", 8 * len), Scalar::from_bytes_mod_order(y)));
        }
    }
    for (n, s) in [("0", Scalar::zero()), ("1", Scalar::one()), ("-1", -Scalar::one()), ("2", Scalar::from(2u8))] {
        out.push((format!("the constant {}", n), s));
    }
    out
}
fn holds(st: &St, p: &Proof, ch: &[Scalar]) -> bool {
    lib(|| residual(st, p, ch).map_or(false, |r| r.iter().all(|x| *x == RistrettoPoint::identity()))).unwrap_or(false)
}
pub fn t_short(c: &PCase) -> CaseResult {
    let (st, w) = c.build();
    let mut t = st.transcript();
    let p = match lib(|| prove_raw(&st, &w, &mut t)) {
        Ok(p) => p,
        Err(_) => return Ok(Info::new(false).tag("prover refused")),
    };
    let v = verify_log(&st, &p)?;
    let ch = v.challenges();
    if !v.out || ch.len() != st.num_challenges() {
        return Ok(Info::new(false).tag("other challenge structure"));
    }
    let tag = format!("{:?} n={}", st.kind, st.n);
    if holds(&st, &p, &ch) {
        return Ok(Info::new(!ch.is_empty()).tag(tag));
    }
    for i in 0..=ch.len() {
        let idx: Vec<usize> = if i == ch.len() { (0..ch.len()).collect() } else { vec![i] };
        for k in 0..cuts(&Scalar::one()).len() {
            let mut c2 = ch.clone();
            let mut name = String::new();
            for j in &idx {
                let (n, s) = cuts(&ch[*j]).swap_remove(k);
                c2[*j] = s;
                name = n;
            }
            ensure!(
                !holds(&st, &p, &c2),
                "short-challenge",
                "an accepted {:?} proof shows that only {} of {} are used (n={})",
                st.kind,
                name,
                if i == ch.len() { "each challenge".to_string() } else { format!("challenge {}", i + 1) },
                st.n
            );
        }
    }
    Ok(Info::new(false).tag("other equations"))
}
fn sh(t: Tier) -> Shape {
    if t == Tier::Thorough {
        Shape { max_lg: 5, max_eqs: 4, max_m: 4, max_n: 64 }
    } else {
        Shape { max_lg: 4, max_eqs: 3, max_m: 3, max_n: 27 }
    }
}
fn strat(k: &[Kind], t: Tier) -> BoxedStrategy<PCase> {
    any_kind(k, sh(t), false)
        .prop_map(|mut c| {
            c.crs.kind = CrsKind::Random;
            c
        })
        .boxed()
}
fn s_all(t: Tier) -> BoxedStrategy<PCase> {
    strat(&ALL, t)
}
fn s_quad(t: Tier) -> BoxedStrategy<PCase> {
    strat(&[Kind::Inner, Kind::Qesa], t)
}
fn s_copy(t: Tier) -> BoxedStrategy<PCase> {
    strat(&[Kind::Copy], t)
}
fn s_ipa(t: Tier) -> BoxedStrategy<PCase> {
    strat(&[Kind::Ipa], t)
}
fn s_alm(t: Tier) -> BoxedStrategy<PCase> {
    strat(&[Kind::Alm], t)
}
fn s_half(t: Tier) -> BoxedStrategy<PCase> {
    strat(&[Kind::LHalf], t)
}
fn s_kary(t: Tier) -> BoxedStrategy<PCase> {
    strat(&[Kind::LK], t)
}
fn s_zk(t: Tier) -> BoxedStrategy<PCase> {
    strat(&[Kind::SHalf, Kind::SK], t)
}
pub fn facet_for(id: &str) -> Box<dyn FacetDyn> {
    let (s, n): (fn(Tier) -> BoxedStrategy<PCase>, u32) = match id {
        "C02" => (s_quad, 300),
        "C08" => (s_ipa, 600),
        "C09" => (s_alm, 600),
        "C12" => (s_half, 600),
        "C13" => (s_kary, 600),
        "C14" => (s_zk, 600),
        "C17" => (s_copy, 300),
        _ => (s_all, 1500),
    };
    facet("challenge-size", n, n * 10, s, t_short)
}
