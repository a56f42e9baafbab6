//! C20 matrix operations, C22 power vectors and random matrices, C23 challenges.
use crate::eng::*;
use crate::gen::*;
use crate::attack::small;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use proptest::prelude::*;
use qesa::matrix::*;
use qesa::transcript::TranscriptProtocol;
use qesa::verif_hooks::math_utils;
use rand::Rng;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

// ------------------------------------------------------------- C20
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MatCase {
    m: u16,
    n: u16,
    a: VSpec,
    b: VSpec,
    v: VSpec,
    x: Sc,
    chunks: u8,
    /// rows of b, and length of one of its rows, off by this much
    dm: i8,
    dn: i8,
    row: u8,
    ints: u64,
}
fn s_mat(t: Tier) -> BoxedStrategy<MatCase> {
    let hi = if t == Tier::Thorough { 20u16 } else { 10 };
    let d = || sized(prop_oneof![1 => Just(1u16), 4 => 1..=hi].boxed(), 1, 36);
    mat_case((d(), d()).boxed())
}
fn s_mat_large(t: Tier) -> BoxedStrategy<MatCase> {
    let hi = if t == Tier::Thorough { 1100u16 } else { 540 };
    mat_case(
        prop_oneof![
            1 => (20u16..44, 20u16..44),
            1 => (1u16..4, sized((20..hi).boxed(), 20, 1200)),
            1 => (sized((20..hi).boxed(), 20, 1200), 1u16..4),
        ]
        .boxed(),
    )
}
fn mat_case(shape: BoxedStrategy<(u16, u16)>) -> BoxedStrategy<MatCase> {
    (
        shape,
        (vspec(), vspec(), vspec(), sc()),
        any::<u8>(),
        (prop_oneof![3 => Just(0i8), 1 => -3i8..4], prop_oneof![3 => Just(0i8), 1 => -3i8..4], any::<u8>()),
        any::<u64>().no_shrink(),
    )
        .prop_map(|((m, n), (a, b, v, x), chunks, (dm, dn, row), ints)| MatCase { m, n, a, b, v, x, chunks, dm, dn, row, ints })
        .boxed()
}
fn mat(v: &[Scalar], m: usize, n: usize) -> Mat {
    (0..m).map(|i| v[i * n..(i + 1) * n].to_vec()).collect()
}
fn pt(s: &Scalar) -> RistrettoPoint {
    s * &RISTRETTO_BASEPOINT_TABLE
}
fn pmat(a: &Mat) -> PMat {
    a.iter().map(|r| r.iter().map(pt).collect()).collect()
}
fn pvec(a: &[Scalar]) -> Vec<RistrettoPoint> {
    a.iter().map(pt).collect()
}
macro_rules! eq {
    ($name:expr, $got:expr, $exp:expr, $c:expr) => {{
        let g = must($name, || $got)?;
        ensure!(g == $exp, concat!("wrong:", $name), "{} is wrong for a {}x{} operand", $name, $c.m, $c.n);
    }};
}
fn t_mat(c: &MatCase) -> CaseResult {
    let (m, n) = (c.m as usize, c.n as usize);
    let (av, bv) = (c.a.vec(m * n), c.b.vec(m * n));
    let (a, b) = (mat(&av, m, n), mat(&bv, m, n));
    let v = c.v.vec(n);
    let x = c.x.val();
    let z = Scalar::zero();
    // definitions
    let scaled: Mat = (0..m).map(|i| (0..n).map(|j| x * a[i][j]).collect()).collect();
    let sum: Mat = (0..m).map(|i| (0..n).map(|j| a[i][j] + b[i][j]).collect()).collect();
    let tr: Mat = (0..n).map(|j| (0..m).map(|i| a[i][j]).collect()).collect();
    let mut prod = vec![z; m];
    for i in 0..m {
        for j in 0..n {
            prod[i] = prod[i] + a[i][j] * v[j];
        }
    }
    let row_sum: Vec<Scalar> = (0..n).map(|j| a[0][j] + b[0][j]).collect();
    let row_diff: Vec<Scalar> = (0..n).map(|j| a[0][j] - b[0][j]).collect();
    let vx: Vec<Scalar> = (0..n).map(|j| v[j] * x).collect();
    let cs = {
        let ds: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
        ds[c.chunks as usize % ds.len()]
    };
    let split: Vec<Mat> =
        (0..n / cs).map(|k| (0..m).map(|i| (0..cs).map(|j| a[i][k * cs + j]).collect()).collect()).collect();
    let pa = pmat(&a);
    let pb = pmat(&b);
    // scalar versions
    eq!("matrix_scalar_mul", matrix_scalar_mul(&a, &x), scaled, c);
    eq!("matrix_vector_mul", matrix_vector_mul(&a, &v), prod, c);
    eq!("row_row_add", row_row_add(&a[0], &b[0]), row_sum, c);
    eq!("row_row_sub", row_row_sub(&a[0], &b[0]), row_diff, c);
    eq!("matrix_matrix_add", matrix_matrix_add(&a, &b), sum, c);
    eq!("matrix_transpose", matrix_transpose(&a), tr, c);
    eq!("matrix_split", matrix_split(&a, cs), split, c);
    eq!("inner_product", math_utils::inner_product(&a[0], &v), prod[0], c);
    // generic versions on scalars
    eq!("matrix_scalar_mul_general", matrix_scalar_mul_general(&a, &x), scaled, c);
    eq!("matrix_vector_mul_general", matrix_vector_mul_general(&a, &v, z), prod, c);
    eq!("vector_scalar_mul_general", vector_scalar_mul_general(&v, &x), vx, c);
    eq!("row_row_add_general", row_row_add_general(&a[0], &b[0]), row_sum, c);
    eq!("matrix_matrix_add_general", matrix_matrix_add_general(&a, &b), sum, c);
    // group elements
    eq!("matrixpoint_scalar_mul", matrixpoint_scalar_mul(&pa, &x), pmat(&scaled), c);
    eq!("matrixpoint_vector_mul", matrixpoint_vector_mul(&pa, &v), pvec(&prod), c);
    eq!("vectorpoint_scalar_mul", vectorpoint_scalar_mul(&pvec(&v), &x), pvec(&vx), c);
    eq!("rowpoint_rowpoint_add", rowpoint_rowpoint_add(&pa[0], &pb[0]), pvec(&row_sum), c);
    eq!("matrixpoint_matrix_add", matrixpoint_matrix_add(&pa, &pb), pmat(&sum), c);
    eq!("matrixpoint_transpose", matrixpoint_transpose(&pa), pmat(&tr), c);
    eq!(
        "matrix_split (group)",
        matrix_split(&pa, cs),
        split.iter().map(|s| pmat(s)).collect::<Vec<_>>(),
        c
    );
    eq!("row_row_add_general (group)", row_row_add_general(&pa[0], &pb[0]), pvec(&row_sum), c);
    eq!("matrix_matrix_add_general (group)", matrix_matrix_add_general(&pa, &pb), pmat(&sum), c);
    // generic versions on machine integers
    let mut r = rng(c.ints, 6);
    let ia: Vec<Vec<i64>> = (0..m).map(|_| (0..n).map(|_| r.gen_range(-1000i64, 1000)).collect()).collect();
    let ib: Vec<Vec<i64>> = (0..m).map(|_| (0..n).map(|_| r.gen_range(-1000i64, 1000)).collect()).collect();
    let iv: Vec<i64> = (0..n).map(|_| r.gen_range(-1000i64, 1000)).collect();
    let ix = r.gen_range(-1000i64, 1000);
    let mut ip = vec![0i64; m];
    for i in 0..m {
        for j in 0..n {
            ip[i] += ia[i][j] * iv[j];
        }
    }
    let isc: Vec<Vec<i64>> = ia.iter().map(|r| r.iter().map(|y| y * ix).collect()).collect();
    let isum: Vec<Vec<i64>> = (0..m).map(|i| (0..n).map(|j| ia[i][j] + ib[i][j]).collect()).collect();
    eq!("matrix_vector_mul_general (integers)", matrix_vector_mul_general(&ia, &iv, 0i64), ip, c);
    eq!("matrix_scalar_mul_general (integers)", matrix_scalar_mul_general(&ia, &ix), isc, c);
    eq!("vector_scalar_mul_general (integers)", vector_scalar_mul_general(&iv, &ix), iv.iter().map(|y| y * ix).collect::<Vec<_>>(), c);
    eq!("matrix_matrix_add_general (integers)", matrix_matrix_add_general(&ia, &ib), isum, c);
    // the identity is the start value of the generic product
    let off: Vec<i64> = ip.iter().map(|y| y + 17).collect();
    eq!("matrix_vector_mul_general (offset)", matrix_vector_mul_general(&ia, &iv, 17i64), off, c);

    // operands that do not match
    let mut i = Info::new(m > 1 || n > 1)
        .tag(if m == 1 && n == 1 { "1x1" } else if m == 1 { "single row" } else if n == 1 { "single column" } else if m == n { "square" } else { "rectangular" });
    macro_rules! refuses {
        ($name:expr, $e:expr) => {
            ensure!(lib(|| $e).is_err(), concat!("accepts-mismatch:", $name), "{} accepted operands that do not match", $name);
        };
    }
    let m2 = (m as i64 + c.dm as i64).max(0) as usize;
    if m2 != m {
        i = i.tag("heights differ");
        let r0 = |k: usize| a[k % m].clone();
        let b2: Mat = (0..m2).map(r0).collect();
        let pb2 = pmat(&b2);
        refuses!("matrix_matrix_add", matrix_matrix_add(&a, &b2));
        refuses!("matrix_matrix_add_general", matrix_matrix_add_general(&a, &b2));
        refuses!("matrixpoint_matrix_add", matrixpoint_matrix_add(&pa, &pb2));
    }
    let n2 = (n as i64 + c.dn as i64).max(0) as usize;
    if n2 != n {
        i = i.tag("row lengths differ");
        let k = c.row as usize % m;
        let mut b2 = b.clone();
        b2[k].resize(n2, Scalar::one());
        let pb2 = pmat(&b2);
        refuses!("row_row_add", row_row_add(&a[k], &b2[k]));
        refuses!("row_row_add", row_row_add(&b2[k], &a[k]));
        refuses!("row_row_sub", row_row_sub(&a[k], &b2[k]));
        refuses!("row_row_sub", row_row_sub(&b2[k], &a[k]));
        refuses!("row_row_add_general", row_row_add_general(&a[k], &b2[k]));
        refuses!("rowpoint_rowpoint_add", rowpoint_rowpoint_add(&pa[k], &pb2[k]));
        refuses!("matrix_matrix_add", matrix_matrix_add(&a, &b2));
        refuses!("matrix_matrix_add_general", matrix_matrix_add_general(&b2, &a));
        refuses!("matrixpoint_matrix_add", matrixpoint_matrix_add(&pa, &pb2));
    }
    let bad = 1 + c.chunks as usize % (n + 3);
    if n % bad != 0 {
        i = i.tag("chunk size does not divide");
        refuses!("matrix_split", matrix_split(&a, bad));
        refuses!("matrix_split", matrix_split(&pa, bad));
    }
    Ok(i)
}

// ------------------------------------------------------------- C22
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PowCase {
    x: Sc,
    n: u16,
    xi: i8,
    ni: u8,
}
fn s_pow(t: Tier) -> BoxedStrategy<PowCase> {
    let hi = if t == Tier::Thorough { 2000u16 } else { 500 };
    (sc(), sized(prop_oneof![4 => Just(1u16), 8 => 1u16..10, 8 => 1..hi, 1 => hi..5 * hi].boxed(), 1, 5000), -3i8..=3, 1u8..39)
        .prop_map(|(x, n, xi, ni)| PowCase { x, n, xi, ni })
        .boxed()
}
/// x^e by squaring, to be independent of a running product.
fn pow(x: Scalar, mut e: u64) -> Scalar {
    let (mut r, mut b) = (Scalar::one(), x);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b;
        }
        b = b * b;
        e >>= 1;
    }
    r
}
fn t_pow(c: &PowCase) -> CaseResult {
    let (x, n) = (c.x.val(), c.n as usize);
    let ch = must("vandemonde_challenge", || math_utils::vandemonde_challenge(x, n))?;
    let ve = must("vandemonde_vector", || vandemonde_vector(x, n))?;
    let vg = must("vandemonde_vector_general", || vandemonde_vector_general(x, n, Scalar::one()))?;
    ensure!(ch.len() == n && ve.len() == n && vg.len() == n, "power-length", "a power vector of length {} has another length", n);
    for i in 0..n {
        ensure!(ch[i] == pow(x, i as u64 + 1), "wrong:vandemonde_challenge", "entry {} of a challenge expansion of length {} is not x^{}", i, n, i + 1);
        ensure!(ve[i] == pow(x, i as u64), "wrong:vandemonde_vector", "entry {} of a Vandermonde vector of length {} is not x^{}", i, n, i);
        ensure!(vg[i] == ve[i], "wrong:vandemonde_vector_general", "entry {} of a generic Vandermonde vector of length {} is not x^{}", i, n, i);
    }
    let vi = must("vandemonde_vector_general", || vandemonde_vector_general(c.xi as i64, c.ni as usize, 1i64))?;
    ensure!(
        vi == (0..c.ni as u32).map(|e| (c.xi as i64).pow(e)).collect::<Vec<_>>(),
        "wrong:vandemonde_vector_general",
        "generic Vandermonde vector of {} with {} entries is wrong",
        c.xi,
        c.ni
    );
    Ok(Info::new(n > 1).tag(format!("{:?}", c.x).split('(').next().unwrap().to_string()))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RandMat {
    m: u8,
    n: u8,
    seed: u64,
}
fn s_rm(t: Tier) -> BoxedStrategy<RandMat> {
    let hi = if t == Tier::Thorough { 24u8 } else { 12 };
    let near = || sized((1u16..4).boxed(), 1, 255).prop_map(|x| x as u8);
    let shape = prop_oneof![30 => (0..=hi, 0..=hi), 1 => (0u8..3, near()), 1 => (near(), 0u8..3), 1 => (0u8..3, any::<u8>()), 1 => (any::<u8>(), 0u8..3), 1 => (20u8..40, 20u8..40)];
    (shape, any::<u64>().no_shrink()).prop_map(|((m, n), seed)| RandMat { m, n, seed }).boxed()
}
fn t_rm(c: &RandMat) -> CaseResult {
    let (m, n) = (c.m as usize, c.n as usize);
    rand::verif::set_seed(Some(c.seed));
    let mut seen: HashSet<[u8; 32]> = HashSet::new();
    let mut diffs: HashSet<[u8; 32]> = HashSet::new();
    seen.insert(RistrettoPoint::identity().compress().0);
    for k in 0..60u64 {
        seen.insert(pt(&Scalar::from(k)).compress().0);
    }
    for _ in 0..2 {
        let r = must("rand_matrix", || rand_matrix(m, n))?;
        ensure!(r.len() == m && r.iter().all(|x| x.len() == n), "rand-shape", "a {}x{} random matrix has another shape", m, n);
        for row in &r {
            let mut last: Option<RistrettoPoint> = None;
            for p in row {
                ensure!(
                    seen.insert(p.compress().0) && !seen.contains(&(-p).compress().0),
                    "rand-repeats",
                    "an entry of a {}x{} random matrix is trivial or repeats within or between matrices",
                    m,
                    n
                );
                if let Some(l) = last {
                    ensure!(
                        diffs.insert((p - l).compress().0),
                        "rand-dependent",
                        "entries of a {}x{} random matrix depend on one another",
                        m,
                        n
                    );
                }
                last = Some(*p);
            }
        }
    }
    if n >= 1 {
        let mut bases: HashSet<[u8; 32]> = HashSet::new();
        for _ in 0..2 {
            let v = must("vandemonde_matrix", || vandemonde_matrix(m, n))?;
            ensure!(v.len() == m && v.iter().all(|x| x.len() == n), "rand-shape", "a {}x{} Vandermonde matrix has another shape", m, n);
            for row in &v {
                ensure!(row[0] == Scalar::one(), "wrong:vandemonde_matrix", "a row of a Vandermonde matrix does not start with 1");
                if n >= 2 {
                    for (j, y) in row.iter().enumerate() {
                        ensure!(*y == pow(row[1], j as u64), "wrong:vandemonde_matrix", "entry {} of a Vandermonde row is not x^{}", j, j);
                    }
                    ensure!(!small(&row[1]), "rand-base", "the base of a Vandermonde row is not full-size");
                    ensure!(bases.insert(row[1].to_bytes()), "rand-base", "two Vandermonde rows share a base ({}x{})", m, n);
                }
            }
        }
    }
    Ok(Info::new(m > 0 && n > 0).tag(if m * n > 1 { "several entries" } else { "trivial" }))
}

// ------------------------------------------------------------- C23
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum TOp {
    Append(u8, Vec<u8>),
    U64(u8, u64),
    Draw(u8),
    /// clone the transcript and go on with the clone
    Clone,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum TEdit {
    Name(u8),
    Label(u16, u8),
    Byte(u16, u16, u8),
    Truncate(u16),
    Extend(u16, u8),
    Drop(u16),
    Dup(u16),
    Swap(u16, u16),
    /// move the boundary between two neighbouring messages
    Shift(u16),
    Split(u16, u16),
    Insert(u16, u8, Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TrCase {
    name: u8,
    ops: Vec<TOp>,
    e: TEdit,
}
fn s_tr(t: Tier) -> BoxedStrategy<TrCase> {
    let max = if t == Tier::Thorough { 24 } else { 10 };
    let bytes = || prop_oneof![
        6 => prop::collection::vec(any::<u8>(), 0..40).boxed(),
        1 => prop::collection::vec(any::<u8>(), 150..400).boxed(),
        1 => sized((0u16..40).boxed(), 0, 3000)
            .prop_flat_map(|n| prop::collection::vec(any::<u8>(), n as usize))
            .boxed(),
    ];
    let op = prop_oneof![
        4 => (0u8..12, bytes()).prop_map(|(l, b)| TOp::Append(l, b)),
        1 => (0u8..12, any::<u64>()).prop_map(|(l, b)| TOp::U64(l, b)),
        4 => (0u8..12).prop_map(TOp::Draw),
        1 => Just(TOp::Clone),
    ];
    let i = || any::<u16>();
    let e = prop_oneof![
        1 => (1u8..12).prop_map(TEdit::Name),
        2 => (i(), 1u8..12).prop_map(|(a, b)| TEdit::Label(a, b)),
        2 => (i(), i(), 1u8..=255).prop_map(|(a, b, c)| TEdit::Byte(a, b, c)),
        1 => i().prop_map(TEdit::Truncate),
        1 => (i(), any::<u8>()).prop_map(|(a, b)| TEdit::Extend(a, b)),
        2 => i().prop_map(TEdit::Drop),
        1 => i().prop_map(TEdit::Dup),
        2 => (i(), i()).prop_map(|(a, b)| TEdit::Swap(a, b)),
        1 => i().prop_map(TEdit::Shift),
        1 => (i(), i()).prop_map(|(a, b)| TEdit::Split(a, b)),
        1 => (i(), 0u8..12, bytes()).prop_map(|(a, b, c)| TEdit::Insert(a, b, c)),
    ];
    (0u8..12, prop::collection::vec(op, 1..=max), e)
        .prop_map(|(name, mut ops, e)| {
            ops.push(TOp::Draw(4));
            TrCase { name, ops, e }
        })
        .boxed()
}
/// Value of 64 little-endian bytes modulo the group order, digit by digit.
fn reduce(b: &[u8; 64]) -> Scalar {
    let base = Scalar::from(256u64);
    let mut s = Scalar::zero();
    for x in b.iter().rev() {
        s = s * base + Scalar::from(*x);
    }
    s
}
/// Long histories and messages.
fn s_tr_long(t: Tier) -> BoxedStrategy<TrCase> {
    (s_tr(t), any::<u64>().no_shrink(), any::<bool>())
        .prop_map(|(mut c, seed, many)| {
            let mut r = rng(seed, 31);
            let mut ops = vec![];
            if many {
                for _ in 0..r.gen_range(60, 700) {
                    ops.push(match r.gen_range(0, 4) {
                        0 => TOp::Append(r.gen_range(0, 12), vec![r.gen()]),
                        1 => TOp::U64(r.gen_range(0, 12), r.gen()),
                        _ => TOp::Draw(r.gen_range(0, 12)),
                    });
                }
            } else {
                let n = r.gen_range(1000, 140_000);
                ops.push(TOp::Append(r.gen_range(0, 12), (0..n).map(|_| r.gen()).collect()));
            }
            ops.append(&mut c.ops);
            c.ops = ops;
            c
        })
        .boxed()
}
fn run_lib(name: u8, ops: &[TOp]) -> Result<Vec<Scalar>, Fail> {
    let mut t = Transcript::new(label(name));
    let mut out = vec![];
    for o in ops {
        match o {
            TOp::Append(l, b) => t.append_message(label(*l), b),
            TOp::U64(l, x) => t.append_u64(label(*l), *x),
            TOp::Draw(l) => out.push(must("challenge_scalar", || t.challenge_scalar(label(*l)))?),
            TOp::Clone => t = t.clone(),
        }
    }
    Ok(out)
}
fn run_model(name: u8, ops: &[TOp]) -> Vec<Scalar> {
    let mut t = Transcript::new(label(name));
    let mut out = vec![];
    for o in ops {
        match o {
            TOp::Append(l, b) => t.append_message(label(*l), b),
            TOp::U64(l, x) => t.append_message(label(*l), &x.to_le_bytes()),
            TOp::Draw(l) => {
                let mut b = [0u8; 64];
                t.challenge_bytes(label(*l), &mut b);
                out.push(reduce(&b));
            }
            TOp::Clone => {}
        }
    }
    out
}
/// What counts as equal transcripts.
fn canon(name: u8, ops: &[TOp]) -> Vec<(u8, Vec<u8>, Vec<u8>)> {
    let mut v = vec![(0u8, label(name).to_vec(), vec![])];
    for o in ops {
        match o {
            TOp::Append(l, b) => v.push((1, label(*l).to_vec(), b.clone())),
            TOp::U64(l, x) => v.push((1, label(*l).to_vec(), x.to_le_bytes().to_vec())),
            TOp::Draw(l) => v.push((2, label(*l).to_vec(), vec![])),
            TOp::Clone => {}
        }
    }
    v
}
fn t_tr(c: &TrCase) -> CaseResult {
    let got = run_lib(c.name, &c.ops)?;
    let exp = run_model(c.name, &c.ops);
    for i in 0..exp.len() {
        ensure!(got[i] == exp[i], "wrong-challenge", "challenge {} of a transcript is not the wide reduction of 64 transcript bytes", i);
        for j in 0..i {
            ensure!(got[i] != got[j], "challenge-repeats", "challenges {} and {} of one transcript are equal", j, i);
        }
        ensure!(!small(&got[i]), "challenge-small", "challenge {} is not full-size", i);
    }
    ensure!(run_lib(c.name, &c.ops)? == got, "challenge-differs", "equal transcripts give different challenges");
    // one edit
    let mut name = c.name;
    let mut ops = c.ops.clone();
    let n = ops.len();
    let apps: Vec<usize> = (0..n).filter(|i| matches!(ops[*i], TOp::Append(..))).collect();
    let pick = |i: u16| if apps.is_empty() { None } else { Some(apps[i as usize % apps.len()]) };
    let none = || Ok(Info::new(false));
    match &c.e {
        TEdit::Name(d) => name = (name + d) % 12,
        TEdit::Label(i, d) => match &mut ops[*i as usize % n] {
            TOp::Append(l, _) | TOp::U64(l, _) | TOp::Draw(l) => *l = (*l + d) % 12,
            TOp::Clone => return none(),
        },
        TEdit::Byte(i, j, x) => match pick(*i) {
            Some(k) => {
                if let TOp::Append(_, b) = &mut ops[k] {
                    if b.is_empty() {
                        return none();
                    }
                    let l = b.len();
                    b[*j as usize % l] ^= x;
                }
            }
            None => return none(),
        },
        TEdit::Truncate(i) | TEdit::Extend(i, _) => match pick(*i) {
            Some(k) => {
                if let TOp::Append(_, b) = &mut ops[k] {
                    match &c.e {
                        TEdit::Extend(_, x) => b.push(*x),
                        _ => {
                            b.pop();
                        }
                    }
                }
            }
            None => return none(),
        },
        TEdit::Drop(i) => {
            ops.remove(*i as usize % n);
        }
        TEdit::Dup(i) => {
            let i = *i as usize % n;
            let o = ops[i].clone();
            ops.insert(i, o);
        }
        TEdit::Swap(i, j) => ops.swap(*i as usize % n, *j as usize % n),
        TEdit::Shift(i) => {
            let ks: Vec<usize> =
                (1..n).filter(|k| matches!((&ops[k - 1], &ops[*k]), (TOp::Append(..), TOp::Append(_, b)) if !b.is_empty())).collect();
            if ks.is_empty() {
                return none();
            }
            let k = ks[*i as usize % ks.len()];
            let x = match &mut ops[k] {
                TOp::Append(_, b) => b.remove(0),
                _ => unreachable!(),
            };
            if let TOp::Append(_, b) = &mut ops[k - 1] {
                b.push(x);
            }
        }
        TEdit::Split(i, j) => match pick(*i) {
            Some(k) => {
                if let TOp::Append(l, b) = ops[k].clone() {
                    let at = *j as usize % (b.len() + 1);
                    ops[k] = TOp::Append(l, b[..at].to_vec());
                    ops.insert(k + 1, TOp::Append(l, b[at..].to_vec()));
                }
            }
            None => return none(),
        },
        TEdit::Insert(i, l, b) => ops.insert(*i as usize % n, TOp::Append(*l, b.clone())),
    }
    let (c1, c2) = (canon(c.name, &c.ops), canon(name, &ops));
    if c1 == c2 {
        return none();
    }
    let first = (0..c1.len().min(c2.len())).find(|i| c1[*i] != c2[*i]).unwrap_or(c1.len().min(c2.len()));
    let same = c1[..first].iter().filter(|x| x.0 == 2).count();
    let got2 = run_lib(name, &ops)?;
    ensure!(got[..same] == got2[..same], "earlier-challenge-changes", "a challenge depends on something that comes after it");
    // merlin binds the label of a challenge, so from `same` on all differ
    for x in &got[same..] {
        ensure!(!got2[same..].contains(x), "challenge-not-bound", "a challenge does not depend on the transcript before it ({:?})", c.e);
    }
    let later = got.len().min(got2.len()) > same;
    let s = format!("{:?}", c.e);
    Ok(Info::new(later).tag(s.split('(').next().unwrap().to_string()))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            rule: "A case is a shape, two matrices, a vector, a scalar, a chunk size and possibly mismatched operands; every operation is compared with its definition; non-trivial beyond 1x1.",
            assumptions: vec!["group operations are checked on multiples of the base point with known factors"],
            facets: vec![
                facet("operations", 12000, 120000, s_mat, t_mat),
                facet("large", 100, 1500, s_mat_large, t_mat),
            ],
        },
        Prop {
            id: "C22",
            rule: "A case is a base and a length, or a shape and a random stream; non-trivial beyond one entry.",
            assumptions: vec!["randomness comes from rand 0.7.3 thread_rng, replaced by a seedable copy"],
            facets: vec![
                facet("powers", 100000, 1000000, s_pow, t_pow),
                facet("random-matrices", 15000, 150000, s_rm, t_rm),
            ],
        },
        Prop {
            id: "C23",
            rule: "A case is a sequence of appends and draws and one edit of it; non-trivial if a challenge is drawn after the edit.",
            assumptions: vec!["merlin 1.3.0 is trusted as a transcript"],
            facets: vec![
                facet("sequences", 400000, 4000000, s_tr, t_tr),
                facet("long", 1500, 20000, s_tr_long, t_tr),
            ],
        },
    ]
}
