//! C04 altered proofs, C05 malformed proofs, C07 transcript binding, C24 proof
//! sizes, C25 chained proofs, C26 determinism: properties across protocols.
use crate::eng::*;
use crate::gen::*;
use crate::proto::*;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use proptest::prelude::*;
use rand::Rng;
use serde::{Deserialize, Serialize};

fn shp(t: Tier) -> Shape {
    if t == Tier::Thorough {
        Shape { max_lg: 6, max_eqs: 6, max_m: 5, max_n: 100 }
    } else {
        Shape { max_lg: 4, max_eqs: 4, max_m: 3, max_n: 27 }
    }
}

// ------------------------------------------------------------- proof edits
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    /// add a random group element or scalar
    Add(u16, u64),
    /// add a chosen multiple of a generator, or a chosen scalar
    AddGen(u16, u16, Sc),
    Neg(u16),
    Zero(u16),
    Rand(u16, u64),
    Scale(u16, Sc),
    Swap(u16, u16),
    /// equal value in another place
    CopyOver(u16, u16),
    /// opposite errors in two values
    Pair(u16, u16, u64),
    /// take one value from another proof of the same statement
    Splice(u16, u64),
    /// take two values from another proof of the same statement
    Splice2(u16, u16, u64),
    /// exchange the two sides of one round, or of all
    SwapSides(u16),
    SwapAllSides,
    DropRound(u16),
    DupRound(u16),
    ReverseRounds,
    /// a value whose encoding differs in one byte
    Near(u16, u8),
}
pub fn edit() -> BoxedStrategy<Edit> {
    let i = || any::<u16>();
    let s = || any::<u64>().no_shrink();
    prop_oneof![
        4 => (i(), s()).prop_map(|(a, b)| Edit::Add(a, b)),
        4 => (i(), i(), sc_nz()).prop_map(|(a, b, c)| Edit::AddGen(a, b, c)),
        2 => i().prop_map(Edit::Neg),
        2 => i().prop_map(Edit::Zero),
        2 => (i(), s()).prop_map(|(a, b)| Edit::Rand(a, b)),
        2 => (i(), sc()).prop_map(|(a, b)| Edit::Scale(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| Edit::Swap(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Edit::CopyOver(a, b)),
        2 => (i(), i(), s()).prop_map(|(a, b, c)| Edit::Pair(a, b, c)),
        2 => (i(), s()).prop_map(|(a, b)| Edit::Splice(a, b)),
        1 => (i(), i(), s()).prop_map(|(a, b, c)| Edit::Splice2(a, b, c)),
        1 => i().prop_map(Edit::SwapSides),
        1 => Just(Edit::SwapAllSides),
        1 => i().prop_map(Edit::DropRound),
        1 => i().prop_map(Edit::DupRound),
        1 => Just(Edit::ReverseRounds),
        3 => (i(), any::<u8>()).prop_map(|(a, b)| Edit::Near(a, b)),
    ]
    .boxed()
}
pub fn edit_name(e: &Edit) -> String {
    let s = format!("{:?}", e);
    s.split('(').next().unwrap().to_string()
}

/// The parts of a proof that are lists.
pub enum Parts<'a> {
    Ipa(&'a mut Vec<CompressedRistretto>, &'a mut Vec<CompressedRistretto>),
    Lh(&'a mut Vec<Vec<RistrettoPoint>>, &'a mut Vec<Vec<RistrettoPoint>>),
    Lk {
        a: &'a mut Vec<Vec<RistrettoPoint>>,
        t: &'a mut Vec<RistrettoPoint>,
        w: &'a mut Vec<Scalar>,
        u: &'a mut Vec<Vec<Vec<RistrettoPoint>>>,
    },
}
fn lk(p: &mut qesa::lmpa::no_zk::lmpa_noZK) -> Parts<'_> {
    let (a, t, w, u) = p.verif_parts();
    Parts::Lk { a, t, w, u }
}
pub fn parts(p: &mut Proof) -> (Parts<'_>, Option<&mut Vec<RistrettoPoint>>) {
    fn alm(p: &mut qesa::verif_hooks::alm_zk::AlmZK) -> Parts<'_> {
        let (l, r, _, _) = p.verif_parts().1.verif_parts();
        Parts::Ipa(l, r)
    }
    match p {
        Proof::Ipa(p) => {
            let (l, r, _, _) = p.verif_parts();
            (Parts::Ipa(l, r), None)
        }
        Proof::Alm(p) => (alm(p), None),
        Proof::Inner(p) => (alm(p.verif_parts().0), None),
        Proof::Qesa(p) => (alm(p.verif_parts().verif_parts().0), None),
        Proof::Copy(p) => (alm(p.verif_parts().1.verif_parts().0), None),
        Proof::LHalf(p) => {
            let (l, r, _) = p.verif_parts();
            (Parts::Lh(l, r), None)
        }
        Proof::LK(p) => (lk(p), None),
        Proof::SHalf(p) => {
            let (i, a) = p.verif_parts();
            let (l, r, _) = i.verif_parts();
            (Parts::Lh(l, r), Some(a))
        }
        Proof::SK(p) => {
            let (i, a) = p.verif_parts();
            (lk(i), Some(a))
        }
    }
}
/// Everything in a proof, as text, to tell whether an edit changed it.
fn image(p: &Proof) -> Vec<(String, [u8; 32])> {
    let mut v: Vec<(String, [u8; 32])> = comps(p).into_iter().map(|c| (c.name, c.val.bytes())).collect();
    let mut q = p.clone();
    let z = [0u8; 32];
    let (ps, a) = parts(&mut q);
    let shape = match ps {
        Parts::Ipa(l, r) => format!("{} {}", l.len(), r.len()),
        Parts::Lh(l, r) => format!(
            "{:?} {:?}",
            l.iter().map(|x| x.len()).collect::<Vec<_>>(),
            r.iter().map(|x| x.len()).collect::<Vec<_>>()
        ),
        Parts::Lk { a, t, w, u } => format!(
            "{:?} {} {} {:?}",
            a.iter().map(|x| x.len()).collect::<Vec<_>>(),
            t.len(),
            w.len(),
            u.iter().map(|x| x.iter().map(|y| y.len()).collect::<Vec<_>>()).collect::<Vec<_>>()
        ),
    };
    v.push((shape, z));
    v.push((format!("{:?}", a.map(|x| x.len())), z));
    v
}
fn swap_round<T>(l: &mut Vec<T>, r: &mut Vec<T>, i: usize) {
    std::mem::swap(&mut l[i], &mut r[i]);
}
/// Apply an edit; None if it leaves the proof as it was.
pub fn apply_edit(st: &St, w: &Wit, p: &Proof, e: &Edit) -> Result<Option<(String, Proof)>, Fail> {
    let cs = comps(p);
    let at = |i: &u16| &cs[*i as usize % cs.len()];
    let mut q = p.clone();
    let mut name = String::new();
    // generators to build structured errors from
    let gen = |j: &u16| -> RistrettoPoint {
        let all: Vec<&RistrettoPoint> =
            st.g.iter().chain(st.h.iter()).chain(std::iter::once(&st.q)).chain(st.a.iter().flatten()).collect();
        *all[*j as usize % all.len()]
    };
    let put = |q: &mut Proof, c: &Comp, pf: &dyn Fn(RistrettoPoint) -> RistrettoPoint, sf: &dyn Fn(Scalar) -> Scalar| {
        let v = match &c.val {
            Val::S(s) => Val::S(sf(*s)),
            v => Val::P(pf(v.point().unwrap())),
        };
        set(q, &c.name, &v);
    };
    match e {
        Edit::Add(i, s) => {
            let (c, x) = (at(i), *s);
            name = c.name.clone();
            put(&mut q, c, &|p| p + rp(x), &|v| v + rs(&mut rng(x, 4)));
        }
        Edit::AddGen(i, j, s) => {
            let (c, x, g) = (at(i), s.val(), gen(j));
            name = c.name.clone();
            put(&mut q, c, &|p| p + x * g, &|v| v + x);
        }
        Edit::Near(i, k) => {
            let c = at(i);
            name = c.name.clone();
            put(&mut q, c, &|p| near(&p, *k), &|v| near_scalar(&v, *k));
        }
        Edit::Neg(i) => {
            let c = at(i);
            name = c.name.clone();
            put(&mut q, c, &|p| -p, &|v| -v);
        }
        Edit::Zero(i) => {
            let c = at(i);
            name = c.name.clone();
            put(&mut q, c, &|_| RistrettoPoint::identity(), &|_| Scalar::zero());
        }
        Edit::Rand(i, s) => {
            let (c, x) = (at(i), *s);
            name = c.name.clone();
            put(&mut q, c, &|_| rp(x), &|_| rs(&mut rng(x, 4)));
        }
        Edit::Scale(i, s) => {
            let (c, x) = (at(i), s.val());
            name = c.name.clone();
            put(&mut q, c, &|p| x * p, &|v| x * v);
        }
        Edit::Swap(i, j) | Edit::CopyOver(i, j) => {
            let (c, d) = (at(i), at(j));
            if c.val.is_point() != d.val.is_point() {
                return Ok(None);
            }
            name = format!("{} and {}", c.name, d.name);
            set(&mut q, &c.name, &d.val);
            if matches!(e, Edit::Swap(..)) {
                set(&mut q, &d.name, &c.val);
            }
        }
        Edit::Pair(i, j, s) => {
            let (c, d, x) = (at(i), at(j), *s);
            if c.val.is_point() != d.val.is_point() || c.name == d.name {
                return Ok(None);
            }
            name = format!("{} and {}", c.name, d.name);
            put(&mut q, c, &|p| p + rp(x), &|v| v + rs(&mut rng(x, 4)));
            put(&mut q, d, &|p| p - rp(x), &|v| v - rs(&mut rng(x, 4)));
        }
        Edit::Splice(_, s) | Edit::Splice2(_, _, s) => {
            // without folding two values can be a whole proof
            if st.rounds() == 0 && matches!(e, Edit::Splice2(..)) {
                return Ok(None);
            }
            let mut st2 = st.clone();
            st2.ctx.msgs.push((7, s.to_le_bytes().to_vec()));
            let other = prove(&st2, w)?;
            let idx: Vec<u16> = match e {
                Edit::Splice(i, _) => vec![*i],
                Edit::Splice2(i, j, _) => vec![*i, *j],
                _ => unreachable!(),
            };
            for i in idx {
                let c = at(&i);
                if let Some(v) = find(&other, &c.name) {
                    set(&mut q, &c.name, &v);
                    name.push_str(&c.name);
                }
            }
        }
        Edit::SwapSides(_) | Edit::SwapAllSides => {
            let pick = |n: usize| -> Vec<usize> {
                if n == 0 {
                    return vec![];
                }
                match e {
                    Edit::SwapSides(i) => vec![*i as usize % n],
                    _ => (0..n).collect(),
                }
            };
            match parts(&mut q).0 {
                Parts::Ipa(l, r) => {
                    for i in pick(l.len()) {
                        swap_round(l, r, i)
                    }
                }
                Parts::Lh(l, r) => {
                    for i in pick(l.len()) {
                        swap_round(l, r, i)
                    }
                }
                Parts::Lk { u, .. } => {
                    for i in pick(u.len()) {
                        u[i].reverse()
                    }
                }
            }
        }
        Edit::DropRound(i) | Edit::DupRound(i) => {
            fn go<T: Clone>(v: &mut Vec<T>, i: usize, drop: bool) {
                if !v.is_empty() {
                    let i = i % v.len();
                    if drop {
                        v.remove(i);
                    } else {
                        let x = v[i].clone();
                        v.insert(i, x);
                    }
                }
            }
            let (i, drop) = (*i as usize, matches!(e, Edit::DropRound(_)));
            match parts(&mut q).0 {
                Parts::Ipa(l, r) => {
                    go(l, i, drop);
                    go(r, i, drop);
                }
                Parts::Lh(l, r) => {
                    go(l, i, drop);
                    go(r, i, drop);
                }
                Parts::Lk { u, .. } => go(u, i, drop),
            }
        }
        Edit::ReverseRounds => match parts(&mut q).0 {
            Parts::Ipa(l, r) => {
                l.reverse();
                r.reverse();
            }
            Parts::Lh(l, r) => {
                l.reverse();
                r.reverse();
            }
            Parts::Lk { u, .. } => u.reverse(),
        },
    }
    if image(p) == image(&q) {
        return Ok(None);
    }
    Ok(Some((name, q)))
}

// ------------------------------------------------------------- C04
const QUAD: [Kind; 5] = [Kind::Ipa, Kind::Alm, Kind::Inner, Kind::Qesa, Kind::Copy];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tamper {
    c: PCase,
    e: Edit,
}
fn s_tamper(t: Tier) -> BoxedStrategy<Tamper> {
    let c = prop_oneof![2 => any_kind(&QUAD, shp(t), true), 1 => any_kind(&QUAD, shp(t), false)];
    (c, edit())
        .prop_map(|(mut c, e)| {
            c.crs.kind = CrsKind::Random;
            Tamper { c, e }
        })
        .boxed()
}
fn s_tamper_large(t: Tier) -> BoxedStrategy<Tamper> {
    (large(&QUAD, t), edit()).prop_map(|(c, e)| Tamper { c, e }).boxed()
}
/// Witnesses the masked argument cannot mask (see C09) are outside.
fn try_prove(st: &St, w: &Wit) -> Option<Proof> {
    lib(|| prove_raw(st, w, &mut st.transcript())).ok()
}
fn t_tamper(t: &Tamper) -> CaseResult {
    let (st, w) = t.c.build();
    let p = match try_prove(&st, &w) {
        Some(p) => p,
        None => return Ok(Info::new(false).tag("prover refused")),
    };
    ensure!(verify(&st, &p)?, "rejects-honest", "honest {:?} proof rejected (n={})", st.kind, st.n);
    let (name, q) = match apply_edit(&st, &w, &p, &t.e)? {
        Some(q) => q,
        None => return Ok(Info::new(false)),
    };
    ensure!(
        !verify(&st, &q)?,
        "accepts-altered",
        "an altered {:?} proof was accepted: {} {:?} (n={})",
        st.kind,
        name,
        t.e,
        st.n
    );
    Ok(Info::new(true).tag(format!("{:?} {}", st.kind, edit_name(&t.e))))
}
/// Every single value of one proof, each changed in turn.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sweep {
    c: PCase,
    seed: u64,
}
fn s_sweep(t: Tier) -> BoxedStrategy<Sweep> {
    let mut s = shp(t);
    s.max_lg = s.max_lg.min(4);
    (any_kind(&QUAD, s, true), any::<u64>().no_shrink())
        .prop_map(|(mut c, seed)| {
            c.crs.kind = CrsKind::Random;
            Sweep { c, seed }
        })
        .boxed()
}
fn t_sweep(t: &Sweep) -> CaseResult {
    let (st, w) = t.c.build();
    let p = match try_prove(&st, &w) {
        Some(p) => p,
        None => return Ok(Info::new(false).tag("prover refused")),
    };
    for (i, c) in comps(&p).iter().enumerate() {
        let mut q = p.clone();
        match &c.val {
            Val::S(s) => set(&mut q, &c.name, &Val::S(s + Scalar::one())),
            v => {
                let d = if t.seed & 1 == 0 { rp(t.seed ^ i as u64) } else { st.q };
                set(&mut q, &c.name, &Val::P(v.point().unwrap() + d))
            }
        }
        ensure!(
            !verify(&st, &q)?,
            "accepts-altered",
            "a {:?} proof with {} changed was accepted (n={})",
            st.kind,
            c.name,
            st.n
        );
    }
    Ok(Info::new(true).tag(format!("{:?} n={}", st.kind, st.n)))
}

// ------------------------------------------------------------- C05
#[derive(Clone, Debug, Serialize, Deserialize)]
enum BadEnc {
    Random(u64),
    /// p + k: non-canonical
    NonCanonical(u8),
    HighBit,
    /// negated encoding: odd, hence negative
    Odd,
    Flip(u8),
    Ones,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum LenOp {
    Pop,
    Dup(u16),
    PushRand(u64),
    PushZero,
    Clear,
    Remove(u16),
    Double,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Malform {
    Enc(u16, BadEnc),
    Enc2(u16, u16, BadEnc),
    /// list number, operation
    Len(u16, LenOp),
    Len2(u16, LenOp, u16, LenOp),
    /// the same operation on both sides of the rounds
    Both(LenOp),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MalCase {
    c: PCase,
    m: Malform,
}
fn s_malform(quad: bool) -> BoxedStrategy<Malform> {
    let enc = || {
        prop_oneof![
            3 => any::<u64>().no_shrink().prop_map(BadEnc::Random),
            1 => any::<u8>().prop_map(BadEnc::NonCanonical),
            1 => Just(BadEnc::HighBit),
            1 => Just(BadEnc::Odd),
            2 => any::<u8>().prop_map(BadEnc::Flip),
            1 => Just(BadEnc::Ones),
        ]
    };
    let len = || {
        prop_oneof![
            2 => Just(LenOp::Pop),
            2 => any::<u16>().prop_map(LenOp::Dup),
            1 => any::<u64>().no_shrink().prop_map(LenOp::PushRand),
            1 => Just(LenOp::PushZero),
            1 => Just(LenOp::Clear),
            1 => any::<u16>().prop_map(LenOp::Remove),
            1 => Just(LenOp::Double),
        ]
    };
    let enc_m = move || prop_oneof![
        3 => (any::<u16>(), enc()).prop_map(|(i, e)| Malform::Enc(i, e)),
        1 => (any::<u16>(), any::<u16>(), enc()).prop_map(|(i, j, e)| Malform::Enc2(i, j, e)),
    ];
    let len_m = move || prop_oneof![
        4 => (any::<u16>(), len()).prop_map(|(i, e)| Malform::Len(i, e)),
        2 => (any::<u16>(), len(), any::<u16>(), len()).prop_map(|(i, e, j, f)| Malform::Len2(i, e, j, f)),
        2 => len().prop_map(Malform::Both),
    ];
    if quad {
        prop_oneof![4 => enc_m(), 3 => len_m()].boxed()
    } else {
        len_m().boxed()
    }
}
const LMPA: [Kind; 4] = [Kind::LHalf, Kind::LK, Kind::SHalf, Kind::SK];
fn s_mal(t: Tier) -> BoxedStrategy<MalCase> {
    let special = any::<bool>();
    special
        .prop_flat_map(move |sp| {
            prop_oneof![
                7 => (any_kind(&QUAD, shp(t), sp), s_malform(true)),
                5 => (any_kind(&LMPA, shp(t), sp), s_malform(false)),
            ]
        })
        .prop_map(|(mut c, m)| {
            c.crs.kind = CrsKind::Random;
            MalCase { c, m }
        })
        .boxed()
}
fn s_mal_large(t: Tier) -> BoxedStrategy<MalCase> {
    prop_oneof![(large(&QUAD, t), s_malform(true)), (large(&LMPA, t), s_malform(false))]
        .prop_map(|(c, m)| MalCase { c, m })
        .boxed()
}
fn bad_bytes(old: &[u8; 32], e: &BadEnc) -> Option<[u8; 32]> {
    let invalid = |b: [u8; 32]| if CompressedRistretto(b).decompress().is_none() { Some(b) } else { None };
    let mut p = [0xffu8; 32];
    p[0] = 0xed;
    p[31] = 0x7f;
    match e {
        BadEnc::Random(s) => {
            let mut r = rng(*s, 9);
            loop {
                let b: [u8; 32] = r.gen();
                if let Some(b) = invalid(b) {
                    return Some(b);
                }
            }
        }
        BadEnc::NonCanonical(k) => {
            let mut b = p;
            b[0] = b[0].wrapping_add(k % 18);
            invalid(b)
        }
        BadEnc::HighBit => {
            let mut b = *old;
            b[31] |= 0x80;
            invalid(b)
        }
        BadEnc::Odd => {
            // p - old: the negated field element
            let mut b = [0u8; 32];
            let mut borrow = 0i32;
            for i in 0..32 {
                let v = p[i] as i32 - old[i] as i32 - borrow;
                borrow = (v < 0) as i32;
                b[i] = (v & 0xff) as u8;
            }
            invalid(b)
        }
        BadEnc::Flip(k) => {
            for d in 0..=255u8 {
                let k = k.wrapping_add(d);
                let mut b = *old;
                b[k as usize / 8] ^= 1 << (k % 8);
                if let Some(b) = invalid(b) {
                    return Some(b);
                }
            }
            None
        }
        BadEnc::Ones => invalid([0xff; 32]),
    }
}
trait Elem: Clone {
    fn rand(s: u64) -> Self;
    fn zero() -> Self;
}
impl Elem for CompressedRistretto {
    fn rand(s: u64) -> Self {
        rp(s).compress()
    }
    fn zero() -> Self {
        RistrettoPoint::identity().compress()
    }
}
impl Elem for RistrettoPoint {
    fn rand(s: u64) -> Self {
        rp(s)
    }
    fn zero() -> Self {
        RistrettoPoint::identity()
    }
}
impl Elem for Scalar {
    fn rand(s: u64) -> Self {
        rs(&mut rng(s, 5))
    }
    fn zero() -> Self {
        Scalar::zero()
    }
}
impl<T: Elem> Elem for Vec<T> {
    fn rand(s: u64) -> Self {
        vec![T::rand(s)]
    }
    fn zero() -> Self {
        vec![]
    }
}
fn lenop<T: Elem>(v: &mut Vec<T>, o: &LenOp) {
    match o {
        LenOp::Pop => {
            v.pop();
        }
        LenOp::Dup(i) => {
            if !v.is_empty() {
                let i = *i as usize % v.len();
                let x = v[i].clone();
                v.insert(i, x);
            }
        }
        LenOp::PushRand(s) => v.push(T::rand(*s)),
        LenOp::PushZero => v.push(T::zero()),
        LenOp::Clear => v.clear(),
        LenOp::Remove(i) => {
            if !v.is_empty() {
                let i = *i as usize % v.len();
                v.remove(i);
            }
        }
        LenOp::Double => {
            let w = v.clone();
            v.extend(w);
        }
    }
}
/// Apply to list number i; the lists are chosen evenly by kind of list.
fn len_at(p: &mut Proof, i: u16, o: &LenOp) -> String {
    let (ps, a) = parts(p);
    let sel = (i / 16) as usize;
    let mut kinds = vec![];
    match &ps {
        Parts::Ipa(..) => kinds.extend(["L", "R"].iter()),
        Parts::Lh(..) => kinds.extend(["L", "R", "L row", "R row"].iter()),
        Parts::Lk { .. } => kinds.extend(["u", "u block", "u entry", "A", "A row", "t", "w"].iter()),
    }
    if a.is_some() {
        kinds.push(&"a");
    }
    let k = *kinds[i as usize % 16 % kinds.len()];
    if k == "a" {
        lenop(a.unwrap(), o);
        return k.into();
    }
    match ps {
        Parts::Ipa(l, r) => lenop(if k == "L" { l } else { r }, o),
        Parts::Lh(l, r) => match k {
            "L" => lenop(l, o),
            "R" => lenop(r, o),
            _ => {
                let v = if k == "L row" { l } else { r };
                if !v.is_empty() {
                    let s = sel % v.len();
                    lenop(&mut v[s], o)
                }
            }
        },
        Parts::Lk { a, t, w, u } => match k {
            "u" => lenop(u, o),
            "u block" => {
                if !u.is_empty() {
                    let s = sel % u.len();
                    lenop(&mut u[s], o)
                }
            }
            "u entry" => {
                if !u.is_empty() {
                    let s = sel % u.len();
                    if !u[s].is_empty() {
                        let s2 = (sel / u.len()) % u[s].len();
                        lenop(&mut u[s][s2], o)
                    }
                }
            }
            "A" => lenop(a, o),
            "A row" => {
                if !a.is_empty() {
                    let s = sel % a.len();
                    lenop(&mut a[s], o)
                }
            }
            "t" => lenop(t, o),
            _ => lenop(w, o),
        },
    }
    k.into()
}
fn t_mal(c: &MalCase) -> CaseResult {
    let (st, w) = c.c.build();
    let p = match try_prove(&st, &w) {
        Some(p) => p,
        None => return Ok(Info::new(false).tag("prover refused")),
    };
    let mut q = p.clone();
    let name;
    match &c.m {
        Malform::Enc(..) | Malform::Enc2(..) => {
            let cs: Vec<Comp> = comps(&p).into_iter().filter(|c| matches!(c.val, Val::C(_))).collect();
            let (is, e): (Vec<u16>, &BadEnc) = match &c.m {
                Malform::Enc(i, e) => (vec![*i], e),
                Malform::Enc2(i, j, e) => (vec![*i, *j], e),
                _ => unreachable!(),
            };
            if cs.is_empty() {
                return Ok(Info::new(false));
            }
            let mut any = false;
            for i in is {
                let k = &cs[i as usize % cs.len()];
                if let Some(b) = bad_bytes(&k.val.bytes(), e) {
                    set(&mut q, &k.name, &Val::C(CompressedRistretto(b)));
                    any = true;
                }
            }
            if !any {
                return Ok(Info::new(false));
            }
            let s = format!("{:?}", e);
            name = format!("encoding {}", s.split('(').next().unwrap());
        }
        Malform::Len(i, o) => name = format!("length of {}", len_at(&mut q, *i, o)),
        Malform::Len2(i, o, j, o2) => {
            let a = len_at(&mut q, *i, o);
            let b = len_at(&mut q, *j, o2);
            name = format!("lengths of {} and {}", a, b)
        }
        Malform::Both(o) => {
            match parts(&mut q).0 {
                Parts::Ipa(l, r) => {
                    lenop(l, o);
                    lenop(r, o)
                }
                Parts::Lh(l, r) => {
                    for v in l.iter_mut().chain(r.iter_mut()) {
                        lenop(v, o)
                    }
                }
                Parts::Lk { a, t, u, .. } => {
                    // one row more or less everywhere
                    lenop(a, o);
                    lenop(t, o);
                    for b in u.iter_mut().flatten() {
                        lenop(b, o)
                    }
                }
            }
            name = "lengths throughout".to_string();
        }
    }
    if image(&p) == image(&q) {
        return Ok(Info::new(false));
    }
    match lib(|| verify_raw(&st, &q, &mut st.transcript())) {
        Err(m) => fail(
            "verifier-panics",
            format!("the {:?} verifier panicked on a malformed proof ({}; {:?}; n={}): {}", st.kind, name, c.m, st.n, m),
        ),
        Ok(true) => fail(
            "accepts-malformed",
            format!("the {:?} verifier accepted a malformed proof ({}; {:?}; m={}, n={}, k={})", st.kind, name, c.m, st.m, st.n, st.k),
        ),
        Ok(false) => Ok(Info::new(true).tag(format!("{:?} {}", st.kind, name))),
    }
}

// ------------------------------------------------------------- C07
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChalCase {
    c: PCase,
    i: u16,
    seed: u64,
}
fn s_chal(t: Tier) -> BoxedStrategy<ChalCase> {
    (prop_oneof![any_kind(&ALL, shp(t), true), any_kind(&ALL, shp(t), false)], any::<u16>(), any::<u64>().no_shrink())
        .prop_map(|(c, i, seed)| ChalCase { c, i, seed })
        .boxed()
}
fn s_chal_large(t: Tier) -> BoxedStrategy<ChalCase> {
    (large(&ALL, t), any::<u16>(), any::<u64>().no_shrink()).prop_map(|(c, i, seed)| ChalCase { c, i, seed }).boxed()
}
fn t_chal(c: &ChalCase) -> CaseResult {
    let (st, w) = c.c.build();
    let p = match lib(|| prove_log(&st, &w)) {
        Ok(Ok(p)) => p,
        _ => return Ok(Info::new(false).tag("prover refused")),
    };
    let v = verify_log(&st, &p.out)?;
    let (pc, vc) = (p.challenges(), v.challenges());
    ensure!(pc == vc, "challenges-differ", "prover and verifier of {:?} draw different challenges (n={})", st.kind, st.n);
    ensure!(p.state == v.state, "state-differs", "transcripts differ after an honest {:?} run (n={})", st.kind, st.n);
    ensure!(
        vc.len() == st.num_challenges(),
        "challenge-count",
        "{:?} draws {} challenges, {} expected (n={})",
        st.kind,
        vc.len(),
        st.num_challenges(),
        st.n
    );
    for i in 0..vc.len() {
        for j in 0..i {
            ensure!(vc[i] != vc[j], "challenges-repeat", "challenges {} and {} of a {:?} run are equal (n={})", j, i, st.kind, st.n);
        }
    }
    let cs = comps(&p.out);
    let k = &cs[c.i as usize % cs.len()];
    let mut q = p.out.clone();
    let close = c.seed % 3 == 0;
    let by = (c.seed / 3) as u8;
    let nv = match &k.val {
        Val::S(s) if close => Val::S(near_scalar(s, by)),
        Val::S(_) => Val::S(rs(&mut rng(c.seed, 4))),
        v if close => Val::P(near(&v.point().unwrap(), by)),
        _ => Val::P(rp(c.seed)),
    };
    set(&mut q, &k.name, &nv);
    let x = verify_log(&st, &q)?;
    let xc = x.challenges();
    for i in 0..vc.len().min(xc.len()) {
        if i < k.before {
            ensure!(
                xc[i] == vc[i],
                "earlier-challenge-changes",
                "changing {} changes challenge {} of a {:?} run, drawn before it (n={})",
                k.name,
                i,
                st.kind,
                st.n
            );
        } else {
            ensure!(
                xc[i] != vc[i],
                "challenge-not-bound",
                "challenge {} of a {:?} run does not depend on {} (n={}, m={})",
                i,
                st.kind,
                k.name,
                st.n,
                st.m
            );
        }
    }
    if k.absorbed() {
        ensure!(x.state != v.state, "state-not-bound", "the final transcript of a {:?} run does not depend on {}", st.kind, k.name);
    }
    let short: String = k.name.chars().take_while(|c| *c != '[').collect();
    Ok(Info::new(k.absorbed() && st.num_challenges() > 0).tag(format!("{:?} {}", st.kind, short)))
}

// ------------------------------------------------------------- C24
fn s_size(t: Tier) -> BoxedStrategy<PCase> {
    let mut s = shp(t);
    s.max_lg += 2;
    s.max_eqs = 12;
    any_kind(&ALL, s, true)
}
fn t_size(c: &PCase) -> CaseResult {
    let (st, w) = c.build();
    let p = match try_prove(&st, &w) {
        Some(p) => p,
        None => return Ok(Info::new(false).tag("prover refused")),
    };
    let cs = comps(&p);
    let lg = st.rounds();
    let count = |pre: &[&str]| {
        cs.iter().filter(|c| pre.iter().any(|p| c.name == *p || c.name.starts_with(&format!("{}[", p)))).count()
    };
    let points = cs.iter().filter(|c| c.val.is_point()).count();
    let scalars = cs.len() - points;
    let (want_p, want_s, got_p, got_s) = match st.kind {
        Kind::Ipa => (2 * lg, 2, points, scalars),
        Kind::Alm => (2 * lg + 1, 2, points, scalars),
        Kind::Inner | Kind::Qesa => (2 * lg + 3, 2, points, scalars),
        Kind::Copy => {
            // one value is stored but not needed by the verifier
            ensure!(points + 1 <= 2 * lg + 5, "proof-size", "a linked proof has {} group elements (n={})", points + 1, st.n);
            (points, 2, points, scalars)
        }
        Kind::LHalf => (2 * st.m * lg, 1, points, scalars),
        Kind::SHalf => (2 * st.m * lg + st.m, 1, points, scalars),
        Kind::LK | Kind::SK => {
            let a = if st.kind == Kind::SK { st.m } else { 0 };
            (lg * (2 * st.k - 1) * st.m + a, crate::attack::last_len(&st), count(&["u", "a"]), count(&["w"]))
        }
    };
    ensure!(
        want_p == got_p && want_s == got_s,
        "proof-size",
        "a {:?} proof has {} group elements and {} scalars, {} and {} expected (n={}, m={}, k={}, {} equations)",
        st.kind,
        got_p,
        got_s,
        want_p,
        want_s,
        st.n,
        st.m,
        st.k,
        st.gamma.len()
    );
    Ok(Info::new(lg > 0).tag(format!("{:?} n={}", st.kind, st.n)))
}

// ------------------------------------------------------------- C25
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Prove(PCase),
    Msg(u8, Vec<u8>),
    Chal(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Order {
    Skip(u16),
    Repeat(u16),
    Swap(u16, u16),
    Msg(u16, u16),
    Insert(u16, u8, Vec<u8>),
    /// start on a transcript with another name
    Name(u8),
    /// change one value of one proof
    Alter(u16, u16, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    ctx: Ctx,
    steps: Vec<Step>,
    ord: Order,
}
fn s_chain(t: Tier) -> BoxedStrategy<Chain> {
    let s = if t == Tier::Thorough {
        Shape { max_lg: 4, max_eqs: 2, max_m: 3, max_n: 16 }
    } else {
        Shape { max_lg: 3, max_eqs: 2, max_m: 2, max_n: 9 }
    };
    let max = if t == Tier::Thorough { 10 } else { 6 };
    let step = prop_oneof![
        4 => any_kind(&ALL, s, false).prop_map(|mut c| {
            c.lg = c.lg.max(1);
            c.d = c.d.max(1);
            c.crs.kind = CrsKind::Random;
            c.ctx = Ctx::none();
            Step::Prove(c)
        }),
        1 => (0u8..12, prop::collection::vec(any::<u8>(), 0..10)).prop_map(|(l, d)| Step::Msg(l, d)),
        1 => (0u8..12).prop_map(Step::Chal),
    ];
    let ord = prop_oneof![
        2 => any::<u16>().prop_map(Order::Skip),
        2 => any::<u16>().prop_map(Order::Repeat),
        2 => any::<(u16, u16)>().prop_map(|(a, b)| Order::Swap(a, b)),
        1 => any::<(u16, u16)>().prop_map(|(a, b)| Order::Msg(a, b)),
        1 => (any::<u16>(), 0u8..12, prop::collection::vec(any::<u8>(), 0..4)).prop_map(|(a, b, c)| Order::Insert(a, b, c)),
        1 => (1u8..12).prop_map(Order::Name),
        3 => (any::<u16>(), any::<u16>(), any::<u64>().no_shrink()).prop_map(|(a, b, c)| Order::Alter(a, b, c)),
    ];
    (ctx(), prop::collection::vec(step, 2..=max), ord)
        .prop_map(|(ctx, steps, ord)| Chain { ctx, steps, ord })
        .boxed()
}
enum Done {
    Proof(St, Proof),
    Msg(u8, Vec<u8>),
    Chal(u8),
}
fn run_step(d: &Done, t: &mut Transcript) -> Result<Option<bool>, Fail> {
    Ok(match d {
        Done::Proof(st, p) => Some(verify_on(st, p, t)?),
        Done::Msg(l, m) => {
            t.append_message(label(*l), m);
            None
        }
        Done::Chal(l) => {
            let mut b = [0u8; 64];
            t.challenge_bytes(label(*l), &mut b);
            None
        }
    })
}
fn t_chain(c: &Chain) -> CaseResult {
    let mut pt = c.ctx.transcript();
    let mut done = vec![];
    let mut states = vec![];
    for s in &c.steps {
        done.push(match s {
            Step::Prove(c) => {
                let (st, w) = c.build();
                let p = match lib(|| prove_raw(&st, &w, &mut pt)) {
                    Ok(p) => p,
                    Err(m) => return fail("panic:prove", format!("proving {:?} on a used transcript panicked: {}", st.kind, m)),
                };
                Done::Proof(st, p)
            }
            Step::Msg(l, m) => {
                pt.append_message(label(*l), m);
                Done::Msg(*l, m.clone())
            }
            Step::Chal(l) => {
                let mut b = [0u8; 64];
                pt.challenge_bytes(label(*l), &mut b);
                Done::Chal(*l)
            }
        });
        states.push(state(&pt));
    }
    let kind = |i: usize| match &done[i] {
        Done::Proof(st, _) => format!("{:?}", st.kind),
        Done::Msg(..) => "message".into(),
        Done::Chal(_) => "challenge".into(),
    };
    let mut vt = c.ctx.transcript();
    for (i, d) in done.iter().enumerate() {
        if let Some(ok) = run_step(d, &mut vt)? {
            ensure!(ok, "chain-rejects", "step {} ({}) of an honest chain of {} was rejected", i, kind(i), done.len());
        }
        ensure!(state(&vt) == states[i], "state-differs", "transcripts differ after step {} ({}) of an honest chain", i, kind(i));
    }
    // one deviation in the verification order
    let n = done.len();
    let mut seq: Vec<usize> = (0..n).collect();
    let mut ctx = c.ctx.clone();
    let mut msg: Option<(usize, Vec<u8>)> = None;
    let mut ins: Option<(usize, u8, Vec<u8>)> = None;
    let bad_from; // position in seq from which proofs must fail
    match &c.ord {
        Order::Skip(i) => {
            let i = *i as usize % n;
            seq.remove(i);
            bad_from = i;
        }
        Order::Repeat(i) => {
            let i = *i as usize % n;
            seq.insert(i, i);
            bad_from = i + 1;
        }
        Order::Swap(i, j) => {
            let (i, j) = (*i as usize % n, *j as usize % n);
            let (i, j) = (i.min(j), i.max(j));
            let same = match (&done[i], &done[j]) {
                (Done::Msg(a, b), Done::Msg(c, d)) => label(*a) == label(*c) && b == d,
                (Done::Chal(a), Done::Chal(b)) => label(*a) == label(*b),
                _ => false,
            };
            if i == j || same {
                return Ok(Info::new(false));
            }
            seq.swap(i, j);
            bad_from = i;
            // swapping neighbours with nothing before the first: the first of
            // them still sees an unexpected transcript, as does every later one
        }
        Order::Msg(i, b) => {
            let ms: Vec<usize> = (0..n).filter(|i| matches!(&done[*i], Done::Msg(_, m) if !m.is_empty())).collect();
            if ms.is_empty() {
                return Ok(Info::new(false));
            }
            let i = ms[*i as usize % ms.len()];
            if let Done::Msg(_, m) = &done[i] {
                let mut m = m.clone();
                let l = m.len();
                m[*b as usize % l] ^= 1 + (*b >> 8) as u8 % 255;
                msg = Some((i, m));
            }
            bad_from = i;
        }
        Order::Insert(i, l, m) => {
            let i = *i as usize % n;
            ins = Some((i, *l, m.clone()));
            bad_from = i;
        }
        Order::Name(l) => {
            let l2 = (ctx.label + l) % LABELS.len() as u8;
            if label(l2) == label(ctx.label) {
                return Ok(Info::new(false));
            }
            ctx.label = l2;
            bad_from = 0;
        }
        Order::Alter(i, b, s) => {
            let ps: Vec<usize> = (0..n).filter(|i| matches!(&done[*i], Done::Proof(..))).collect();
            if ps.is_empty() {
                return Ok(Info::new(false));
            }
            let i = ps[*i as usize % ps.len()];
            if let Done::Proof(_, p) = &mut done[i] {
                let cs: Vec<Comp> = comps(p).into_iter().filter(|c| c.absorbed()).collect();
                if cs.is_empty() {
                    return Ok(Info::new(false));
                }
                set(p, &cs[*b as usize % cs.len()].name, &Val::P(rp(*s)));
            }
            bad_from = i;
        }
    }
    let kind = |i: usize| match &done[i] {
        Done::Proof(st, _) => format!("{:?}", st.kind),
        Done::Msg(..) => "message".into(),
        Done::Chal(_) => "challenge".into(),
    };
    let mut vt = ctx.transcript();
    let mut later = 0;
    for (pos, i) in seq.iter().enumerate() {
        if let Some((j, l, m)) = &ins {
            if *j == pos {
                vt.append_message(label(*l), m);
            }
        }
        let r = match &msg {
            Some((j, m)) if j == i => {
                if let Done::Msg(l, _) = &done[*i] {
                    vt.append_message(label(*l), m);
                }
                None
            }
            _ => run_step(&done[*i], &mut vt)?,
        };
        if let Some(ok) = r {
            if pos < bad_from {
                ensure!(ok, "chain-rejects", "step {} of a chain was rejected before the deviation", i);
            } else {
                later += 1;
                ensure!(
                    !ok,
                    "chain-accepts",
                    "proof {} ({}) of a chain was accepted although an earlier step was changed: {:?}",
                    i,
                    kind(*i),
                    c.ord
                );
            }
        }
        // what was changed stays part of the history
        if pos >= bad_from && pos + 1 == n && seq.len() == n {
            ensure!(
                state(&vt) != states[n - 1],
                "history-lost",
                "after a chain of {} steps the transcript does not show that one was changed: {:?}",
                n,
                c.ord
            );
        }
    }
    let o = format!("{:?}", c.ord);
    Ok(Info::new(later > 0)
        .tag(o.split('(').next().unwrap().to_string())
        .tag(format!("{} proofs", done.iter().filter(|d| matches!(d, Done::Proof(..))).count())))
}

// ------------------------------------------------------------- C26
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DetCase {
    c: PCase,
    e: Option<Edit>,
    s1: u64,
    s2: u64,
    other: Option<PCase>,
}
fn s_det(t: Tier) -> BoxedStrategy<DetCase> {
    let mut s = shp(t);
    s.max_lg = s.max_lg.min(4);
    (
        any_kind(&ALL, s, true),
        prop::option::weighted(0.5, edit()),
        any::<u64>().no_shrink(),
        any::<u64>().no_shrink(),
        prop::option::weighted(0.3, any_kind(&ALL, s, true)),
    )
        .prop_map(|(c, e, s1, s2, other)| DetCase { c, e, s1, s2, other })
        .boxed()
}
fn s_det_large(t: Tier) -> BoxedStrategy<DetCase> {
    (large(&ALL, t), prop::option::weighted(0.5, edit()), any::<u64>().no_shrink(), any::<u64>().no_shrink())
        .prop_map(|(c, e, s1, s2)| DetCase { c, e, s1, s2, other: None })
        .boxed()
}
fn t_det(c: &DetCase) -> CaseResult {
    let (st, w) = c.c.build();
    let p = match try_prove(&st, &w) {
        Some(p) => p,
        None => return Ok(Info::new(false).tag("prover refused")),
    };
    // the proof, and another one for the same statement
    let mut twin = None;
    let p = match &c.e {
        None => {
            if let Ok(Some((_, q))) = apply_edit(&st, &w, &p, &Edit::Rand(c.s1 as u16, c.s2)) {
                twin = Some(q);
            }
            p
        }
        Some(e) => match apply_edit(&st, &w, &p, e) {
            Ok(Some((_, q))) => {
                twin = Some(p);
                q
            }
            _ => return Ok(Info::new(false)),
        },
    };
    let before = image(&p);
    // once on its own thread with a fresh random state, then repeatedly here
    let run = || {
        let mut t = st.transcript();
        let r = lib(|| verify_raw(&st, &p, &mut t));
        (r.map_err(|_| ()), state(&t))
    };
    rand::verif::set_seed(Some(c.s1));
    let d0 = rand::verif::draws();
    let a = run();
    let d1 = rand::verif::draws();
    ensure!(d1 == d0, "verifier-draws", "the {:?} verifier drew {} times from the random generator", st.kind, d1 - d0);
    let b = run();
    rand::verif::set_seed(Some(c.s2));
    let x = run();
    if let Some(o) = &c.other {
        // something unrelated in between
        let (st2, w2) = o.build();
        if let Some(p2) = try_prove(&st2, &w2) {
            let _ = lib(|| verify_raw(&st2, &p2, &mut st2.transcript()));
        }
    }
    let y = run();
    if let Some(q) = &twin {
        let _ = lib(|| verify_raw(&st, q, &mut st.transcript()));
    }
    let tw = run();
    rand::verif::set_seed(None);
    let z = run();
    let th = std::thread::scope(|s| s.spawn(|| run()).join().unwrap());
    for (n, o) in [("again", &b), ("with other randomness", &x), ("after another verification", &y), ("after another proof of the same statement", &tw), ("with system randomness", &z), ("on another thread", &th)] {
        ensure!(a.0 == o.0, "verdict-differs", "verifying the same {:?} proof {} gives {:?} instead of {:?}", st.kind, n, o.0, a.0);
        ensure!(a.1 == o.1, "state-differs", "verifying the same {:?} proof {} leaves another transcript", st.kind, n);
    }
    ensure!(before == image(&p), "proof-changed", "verification changed the {:?} proof", st.kind);
    Ok(Info::new(true).tag(format!("{:?} {}", st.kind, match &a.0 {
        Ok(true) => "accepted",
        Ok(false) => "rejected",
        Err(_) => "panicked",
    })))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "A case is an accepted proof and one edit of it; non-trivial if the edit changed a value or the list of rounds.",
            assumptions: vec!["generators are independent (random)", "the copy of C'_w inside a commitment-linked proof is not read by the verifier and not edited"],
            facets: vec![
                facet("edits", 20000, 200000, s_tamper, t_tamper),
                facet("every-value", 4000, 40000, s_sweep, t_sweep),
                facet("large", 128, 1500, s_tamper_large, t_tamper),
            ],
        },
        Prop {
            id: "C05",
            rule: "A case is an accepted proof made malformed (an invalid encoding, or wrong lengths); non-trivial if the proof was changed by it.",
            assumptions: vec!["callers pass consistent statements; only the proof is malformed"],
            facets: vec![
                facet("malformed", 24000, 240000, s_mal, t_mal),
                facet("large", 128, 1500, s_mal_large, t_mal),
            ],
        },
        Prop {
            id: "C07",
            rule: "A case is an honest run and one value of the proof replaced by a random one; non-trivial if that value has to be on the transcript and there are challenges.",
            assumptions: vec!["challenges are read from a logging copy of merlin 1.3.0"],
            facets: vec![
                facet("challenges", 12000, 120000, s_chal, t_chal),
                facet("large", 160, 2000, s_chal_large, t_chal),
            ],
        },
        Prop {
            id: "C24",
            rule: "A case is one proof of any protocol whose values are counted; non-trivial with at least one folding round.",
            assumptions: vec![],
            facets: vec![
                facet("sizes", 15000, 120000, s_size, t_size),
                facet("large", 120, 1500, |t| large(&ALL, t), t_size),
            ],
        },
        Prop {
            id: "C25",
            rule: "A case is a sequence of proofs, messages and challenges on one transcript and one deviation from its order; non-trivial if a proof follows the deviation.",
            assumptions: vec!["proofs of unmasked protocols in a chain have random witnesses and at least one round"],
            facets: vec![facet("chains", 8000, 60000, s_chain, t_chain)],
        },
        Prop {
            id: "C26",
            rule: "A case is a valid or edited proof verified seven times in different surroundings; non-trivial if there was a proof.",
            assumptions: vec!["randomness comes from rand 0.7.3 thread_rng, replaced by a counting copy"],
            facets: vec![
                facet("repeat", 5000, 50000, s_det, t_det),
                facet("large", 64, 700, s_det_large, t_det),
            ],
        },
    ]
}
