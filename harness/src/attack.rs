//! Reference verification equations, and cheating provers built on them.
use crate::lib;
use crate::eng::Fail;
use crate::gen::*;
use crate::proto::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use std::collections::BTreeSet;

pub fn powers(x: Scalar, n: usize) -> Vec<Scalar> {
    let mut v = Vec::with_capacity(n);
    let mut y = x;
    for _ in 0..n {
        v.push(y);
        y *= x;
    }
    v
}
pub fn tmul(g: &Mat, s: &[Scalar]) -> Vec<Scalar> {
    let c = g[0].len();
    let mut out = vec![Scalar::zero(); c];
    for (i, r) in g.iter().enumerate() {
        for j in 0..c {
            if r[j] != Scalar::zero() {
                out[j] += s[i] * r[j];
            }
        }
    }
    out
}
pub fn matvec(g: &Mat, w: &[Scalar]) -> Vec<Scalar> {
    g.iter()
        .map(|r| {
            let mut s = Scalar::zero();
            for j in 0..w.len() {
                if r[j] != Scalar::zero() {
                    s += r[j] * w[j];
                }
            }
            s
        })
        .collect()
}
pub fn prod(v: &[Scalar]) -> Scalar {
    v.iter().fold(Scalar::one(), |a, b| a * b)
}
/// The copy equations of a statement for a given alpha.
pub fn copy_eqs(st: &St, alpha: Scalar) -> Vec<Mat> {
    let d = st.n - 2;
    let pos = ref_positions(st.n, st.wsize, &st.sets).unwrap();
    let al = powers(alpha, st.sets.len());
    let used: BTreeSet<u16> = st.sets.iter().flatten().cloned().collect();
    let mut out = vec![];
    for u in used {
        let mut g = vec![vec![Scalar::zero(); d]; d];
        g[0][u as usize] = -Scalar::one();
        let mut it = pos.iter();
        for (ci, s) in st.sets.iter().enumerate() {
            for idx in s {
                let p = *it.next().unwrap() as usize;
                if *idx == u {
                    g[0][p] = al[ci];
                }
            }
        }
        out.push(g);
    }
    out
}
/// How the quadratic-system verifier expands its challenges. The first entry
/// of the list is the documented way; our own provers use whichever one an
/// honest run is accepted with, so that they stay able to cheat a verifier
/// that expands them differently.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Model {
    /// weights of the equations: x^1.., x^0.., x everywhere, 1 everywhere, reversed,
    /// or the powers in a way that leaves some out (see `irregular`)
    x: u32,
    /// what the first generator is divided by: weight 1, weight 0, 1
    fix: u8,
    /// s^1.., s^0.., s everywhere, 1 everywhere, reversed, or irregular
    s: u32,
    /// weights of the two blinding entries
    tail: u8,
}
pub const DOC: Model = Model { x: 0, fix: 0, s: 0, tail: 0 };
pub fn models() -> Vec<Model> {
    let mut v = vec![];
    for x in 0..5 {
        for fix in 0..3 {
            for s in 0..4 {
                for tail in 0..9 {
                    v.push(Model { x, fix, s, tail });
                }
            }
        }
    }
    // fewest deviations first
    v.sort_by_key(|m| [m.x, m.fix as u32, m.s, m.tail as u32].iter().filter(|q| **q != 0).count());
    v
}
/// Ways to expand a challenge into `n` weights that do not use `n` powers:
/// 1000 * way + number of powers.
pub fn irregular(n: usize) -> Vec<u32> {
    let mut ps: Vec<u64> = (1..=20).chain([24, 30, 31, 32, 33, 48, 50, 62, 63, 64, 65, 100, 126, 127, 128, 129]).collect();
    ps.extend(dict().iter().cloned());
    ps.retain(|p| *p > 0 && *p < n as u64 && *p < 1000);
    ps.sort();
    ps.dedup();
    let half = (n / 2) as u64;
    if half > 0 && !ps.contains(&half) {
        ps.push(half);
    }
    let mut v = vec![];
    for way in 1..=6 {
        v.extend(ps.iter().map(|p| 1000 * way + *p as u32));
    }
    v
}
fn expand(how: u32, x: Scalar, n: usize) -> Vec<Scalar> {
    let one = Scalar::one();
    let p = (how % 1000) as usize;
    let pw = |k: usize| powers(x, k.max(1));
    match how / 1000 {
        0 => {}
        // repeated from the start
        1 => return pw(p).into_iter().cycle().take(n).collect(),
        // the last one from there on
        2 => return (0..n).map(|i| pw(p)[i.min(p - 1)]).collect(),
        // nothing, or one, from there on
        3 => return (0..n).map(|i| if i < p { pw(p)[i] } else { Scalar::zero() }).collect(),
        4 => return (0..n).map(|i| if i < p { pw(p)[i] } else { one }).collect(),
        // the same for p in a row
        5 => {
            let w = pw(n / p + 1);
            return (0..n).map(|i| w[i / p]).collect();
        }
        // x^0 first, repeated
        _ => return std::iter::once(one).chain(pw(p)).take(p).cycle().take(n).collect(),
    }
    match how {
        0 => powers(x, n),
        1 => std::iter::once(one).chain(powers(x, n)).take(n).collect(),
        2 => vec![x; n],
        3 => vec![one; n],
        _ => powers(x, n).into_iter().rev().collect(),
    }
}
impl Model {
    pub fn with_equations_of(&self, m: &Model) -> Model {
        Model { x: m.x, ..*self }
    }
    /// This model with irregular weights for `n` generators and `e` equations.
    pub fn variants(&self, n: usize, e: usize) -> Vec<Model> {
        let mut v = vec![];
        for s in irregular(n - 2) {
            v.push(Model { s, ..*self });
        }
        for x in irregular(n.max(e)) {
            v.push(Model { x, ..*self });
        }
        v
    }
    pub fn fix(&self, x: Scalar) -> Scalar {
        match self.fix {
            0 => expand(self.x, x, 2)[1],
            1 => expand(self.x, x, 2)[0],
            _ => Scalar::one(),
        }
    }
    pub fn sp(&self, s: Scalar, b: Scalar, d: usize) -> Vec<Scalar> {
        let (z, one) = (Scalar::zero(), Scalar::one());
        let mut v = expand(self.s, s, d);
        let t = match self.tail {
            0 => [b, b * b],
            1 => [b, z],
            2 => [z, b],
            3 => [b, b],
            4 => [one, b],
            5 => [z, z],
            6 => [b * b, b],
            7 => [v[d - 1] * s, v[d - 1] * s * s],
            _ => [one, one],
        };
        v.extend(t);
        v
    }
    pub fn batch(&self, g: &[Mat], x: Scalar, d: usize) -> Mat {
        batch_with(g, &expand(self.x, x, g.len()), d)
    }
    /// Two equations, of `e`, with the same weight whatever the challenge (or
    /// one whose weight is zero, twice).
    pub fn weak_equations(&self, e: usize) -> Vec<(usize, usize)> {
        weak(&[expand(self.x, Scalar::from(7u8), e), expand(self.x, -Scalar::from(3u8), e)])
    }
    /// The same for entries of w''.
    pub fn weak_entries(&self, d: usize) -> Vec<(usize, usize)> {
        let f = |s: u8, b: u8| self.sp(Scalar::from(s), Scalar::from(b), d);
        let mut v = weak(&[f(7, 11), f(13, 5), f(17, 3)]);
        v.retain(|p| p.0 < d && p.1 < d);
        v
    }
}
fn weak(runs: &[Vec<Scalar>]) -> Vec<(usize, usize)> {
    let n = runs[0].len();
    let mut v = vec![];
    for i in 0..n {
        if runs.iter().all(|r| r[i] == Scalar::zero()) {
            v.push((i, i));
        }
        for j in i + 1..n {
            if runs.iter().all(|r| r[i] == r[j]) {
                v.push((i, j));
            }
        }
    }
    v
}
pub fn batch(g: &[Mat], x: Scalar, d: usize) -> Mat {
    batch_with(g, &powers(x, g.len()), d)
}
fn batch_with(g: &[Mat], xs: &[Scalar], d: usize) -> Mat {
    let mut out = vec![vec![Scalar::zero(); d]; d];
    for (m, c) in g.iter().zip(xs.iter()) {
        for i in 0..d {
            for j in 0..d {
                if m[i][j] != Scalar::zero() {
                    out[i][j] += c * m[i][j];
                }
            }
        }
    }
    out
}
/// Gamma' (blinding rows included) applied transposed to s'.
pub fn gpt(gamma: &Mat, sp: &[Scalar]) -> Vec<Scalar> {
    let d = gamma.len();
    let mut v = tmul(gamma, &sp[..d]);
    v.push(sp[d + 1]);
    v.push(-sp[d]);
    v
}

fn pt(p: &Proof, n: &str) -> Option<RistrettoPoint> {
    find(p, n).and_then(|v| v.point())
}
fn scal(p: &Proof, n: &str) -> Option<Scalar> {
    match find(p, n) {
        Some(Val::S(s)) => Some(s),
        _ => None,
    }
}

fn ipa_residual(
    p: &Proof,
    g: &[RistrettoPoint],
    h: &[RistrettoPoint],
    q: RistrettoPoint,
    pp: RistrettoPoint,
    t: Scalar,
    alpha: Scalar,
    xs: &[Scalar],
) -> Option<RistrettoPoint> {
    let q = alpha.invert() * q;
    let mut pf = pp - (alpha - Scalar::one()) * t * q;
    for (i, x) in xs.iter().enumerate() {
        pf = (x * x) * pt(p, &format!("L[{}]", i))? + x * pf + pt(p, &format!("R[{}]", i))?;
    }
    let n = g.len();
    let (a, b) = (scal(p, "a")?, scal(p, "b")?);
    let (mut cg, mut chh) = (vec![], vec![]);
    for j in 0..n {
        let (mut wg, mut wh) = (Scalar::one(), Scalar::one());
        let (mut jj, mut half) = (j, n / 2);
        for x in xs {
            if jj >= half {
                wg *= x;
                jj -= half;
            } else {
                wh *= x;
            }
            half /= 2;
        }
        cg.push(wg * a);
        chh.push(wh * b);
    }
    Some(pf - (msm(&cg, g) + msm(&chh, h) + a * b * q))
}

/// Weight of column j in the folded matrix of a linear-map argument.
pub fn col_weight(st: &St, j: usize, xs: &[Scalar]) -> Scalar {
    let mut w = Scalar::one();
    let mut j = j;
    let mut n = st.n;
    let k = if st.kind.kary() { st.k } else { 2 };
    for x in xs {
        n /= k;
        let dig = j / n;
        j %= n;
        for _ in 0..dig {
            w *= x;
        }
    }
    w
}
/// Weight of witness entry j in the folded witness.
pub fn wit_weight(st: &St, j: usize, xs: &[Scalar]) -> Scalar {
    let mut w = Scalar::one();
    let mut j = j;
    let mut n = st.n;
    for x in xs {
        if st.kind.kary() {
            n /= st.k;
            let dig = j / n;
            j %= n;
            for _ in 0..dig {
                w *= x.invert();
            }
        } else {
            n /= 2;
            if j < n {
                w *= x;
            } else {
                j -= n;
            }
        }
    }
    w
}
pub fn last_len(st: &St) -> usize {
    if st.kind.kary() {
        let mut n = st.n;
        while n >= st.k {
            n /= st.k;
        }
        n
    } else {
        1
    }
}
pub fn zpow(st: &St, l: usize, x: Scalar) -> Scalar {
    // z_l = x^(shift - l)
    let shift = st.k - 1;
    let (b, e) = if l <= shift { (x, shift - l) } else { (x.invert(), l - shift) };
    let mut r = Scalar::one();
    for _ in 0..e {
        r *= b;
    }
    r
}

/// Left minus right side of the verification equation(s) under the given
/// challenges: all identity iff an honest verifier accepts (k-ary: the last
/// equation only, with the proof's own middle terms).
pub fn residual(st: &St, p: &Proof, ch: &[Scalar]) -> Option<Vec<RistrettoPoint>> {
    if ch.len() != st.num_challenges() {
        return None;
    }
    match st.kind {
        Kind::Ipa => Some(vec![ipa_residual(p, &st.g, &st.h, st.q, st.p, st.t, ch[0], &ch[1..])?]),
        Kind::Alm => {
            let b = ch[0];
            let pp = b * st.p + pt(p, "C_r")? + b * b * st.t * st.q;
            Some(vec![ipa_residual(p, &st.g, &st.h, st.q, pp, b * b * st.t, ch[1], &ch[2..])?])
        }
        Kind::Inner | Kind::Qesa | Kind::Copy => {
            let d = st.n - 2;
            let (c1, eqs, ch) = if st.kind == Kind::Copy {
                let al = powers(ch[0], st.comms.len());
                let mut e = st.gamma.clone();
                e.extend(copy_eqs(st, ch[0]));
                (pt(p, "C_w")? + msm(&al, &st.comms), e, &ch[1..])
            } else {
                (pt(p, "C'_w")?, st.gamma.clone(), ch)
            };
            let (x, s, b2, be, al, xs) = (ch[0], ch[1], ch[2], ch[3], ch[4], &ch[5..]);
            let gam = batch(&eqs, x, d);
            let fix = x * x;
            let mut g = st.g.clone();
            g[0] = fix.invert() * g[0];
            let mut sp = powers(s, d);
            sp.extend(powers(b2, 2));
            let gs = gpt(&gam, &sp);
            let t = -ip(&sp[..d], &tmul(&gam, &sp[..d]));
            let cw = c1 - (fix - Scalar::one()) * g[0] + pt(p, "C''_w")? + msm(&gs, &st.h) - msm(&sp, &g);
            let pp = be * cw + pt(p, "C_r")? + be * be * t * st.q;
            Some(vec![ipa_residual(p, &g, &st.h, st.q, pp, be * be * t, al, xs)?])
        }
        Kind::LHalf | Kind::SHalf | Kind::LK | Kind::SK => {
            let zk = matches!(st.kind, Kind::SHalf | Kind::SK);
            let xs = if zk { &ch[1..] } else { ch };
            let mut out = vec![];
            let len = last_len(st);
            for j in 0..st.m {
                let mut t = st.tv[j];
                if zk {
                    t = ch[0] * t + pt(p, &format!("a[{}]", j))?;
                }
                for (i, x) in xs.iter().enumerate() {
                    if st.kind.kary() {
                        let mut nt = RistrettoPoint::identity();
                        for l in 0..2 * st.k - 1 {
                            nt += zpow(st, l, *x) * pt(p, &format!("u[{}][{}][{}]", i, l, j))?;
                        }
                        t = nt;
                    } else {
                        t = pt(p, &format!("L[{}][{}]", i, j))?
                            + x * t
                            + (x * x) * pt(p, &format!("R[{}][{}]", i, j))?;
                    }
                }
                let mut lhs = RistrettoPoint::identity();
                for c in 0..st.n {
                    let w = if st.kind.kary() {
                        scal(p, &format!("w[{}]", c % len))?
                    } else {
                        scal(p, "w")?
                    };
                    lhs += (col_weight(st, c, xs) * w) * st.a[j][c];
                }
                out.push(lhs - t);
            }
            Some(out)
        }
    }
}

/// Factor with which a prover message enters the residual (row j for linear
/// maps). None: not a message that can absorb an error.
fn coef(st: &St, name: &str, ch: &[Scalar]) -> Option<Scalar> {
    let idx = |s: &str| -> Option<usize> { s[s.find('[')? + 1..s.find(']')?].parse().ok() };
    match st.kind {
        Kind::LHalf | Kind::SHalf => {
            let xs = if st.kind == Kind::SHalf { &ch[1..] } else { ch };
            if name.starts_with('L') {
                Some(-prod(&xs[idx(name)? + 1..]))
            } else if name.starts_with('R') {
                let i = idx(name)?;
                Some(-xs[i] * xs[i] * prod(&xs[i + 1..]))
            } else if name.starts_with('a') {
                Some(-prod(xs))
            } else {
                None
            }
        }
        Kind::LK | Kind::SK => {
            // only the last round: later middle terms repeat the image
            let xs = if st.kind == Kind::SK { &ch[1..] } else { ch };
            let r = idx(name)?;
            let rest = &name[name.find(']')? + 1..];
            let l = idx(rest)?;
            if name.starts_with('u') && r + 1 == xs.len() && l + 1 != st.k {
                Some(-zpow(st, l, xs[r]))
            } else {
                None
            }
        }
        _ => {
            let base = st.num_challenges() - st.rounds();
            let xs = &ch[base..];
            if name.starts_with("L[") {
                let i = idx(name)?;
                Some(xs[i] * xs[i] * prod(&xs[i + 1..]))
            } else if name.starts_with("R[") {
                Some(prod(&xs[idx(name)? + 1..]))
            } else if name == "C_r" {
                Some(prod(xs))
            } else if name == "C'_w" || name == "C''_w" || name == "C_w" {
                Some(ch[base - 2] * prod(xs))
            } else {
                None
            }
        }
    }
}

/// A prover that learns all challenges of a rejected run and then puts the
/// error into one message it should have fixed before. Returns forged proofs
/// that satisfy the verification equation under the *old* challenges.
pub fn late_forge(st: &St, p: &Proof) -> Result<Vec<(String, Proof)>, Fail> {
    let run = verify_log(st, p)?;
    let ch = match canon(st, &run.challenges()) {
        Some(c) => c,
        None => return Ok(vec![]),
    };
    let res = match residual(st, p, &ch) {
        Some(r) => r,
        None => return Ok(vec![]),
    };
    let id = RistrettoPoint::identity();
    if res.iter().all(|r| *r == id) {
        return Ok(vec![]);
    }
    let mut groups: Vec<String> = vec![];
    for c in comps(p) {
        if !c.absorbed() {
            continue;
        }
        // group the rows of one linear-map message
        let base = if st.kind.lmpa() { c.name[..c.name.rfind('[').unwrap()].to_string() } else { c.name.clone() };
        if !groups.contains(&base) {
            groups.push(base);
        }
    }
    let mut out = vec![];
    for gname in groups {
        let c = match coef(st, &if st.kind.lmpa() { format!("{}[0]", gname) } else { gname.clone() }, &ch) {
            Some(c) => c,
            None => continue,
        };
        let mut f = p.clone();
        for (j, r) in res.iter().enumerate() {
            let name = if st.kind.lmpa() { format!("{}[{}]", gname, j) } else { gname.clone() };
            add_point(&mut f, &name, &(-(c.invert() * r)));
            if st.kind.kary() {
                add_point(&mut f, &format!("t[{}]", j), r);
            }
        }
        // the construction itself must be right
        let left = residual(st, &f, &ch);
        if left.map_or(false, |v| v.iter().all(|r| *r == id)) {
            out.push((gname, f));
        }
    }
    Ok(out)
}

/// Solve M x = y (M given by rows, overdetermined). Ok(None): inconsistent or
/// not of full column rank.
pub fn solve(mut rows: Vec<Vec<Scalar>>, mut y: Vec<Scalar>) -> Option<Vec<Scalar>> {
    let cols = rows[0].len();
    let z = Scalar::zero();
    let mut r = 0;
    for c in 0..cols {
        let piv = (r..rows.len()).find(|i| rows[*i][c] != z)?;
        rows.swap(r, piv);
        y.swap(r, piv);
        let inv = rows[r][c].invert();
        for j in c..cols {
            rows[r][j] *= inv;
        }
        y[r] *= inv;
        for i in 0..rows.len() {
            if i != r && rows[i][c] != z {
                let f = rows[i][c];
                for j in c..cols {
                    let v = rows[r][j];
                    rows[i][j] -= f * v;
                }
                let v = y[r];
                y[i] -= f * v;
            }
        }
        r += 1;
    }
    if (r..rows.len()).any(|i| y[i] != z) {
        return None;
    }
    Some(y[..cols].to_vec())
}
pub fn rank(mut rows: Vec<Vec<Scalar>>) -> usize {
    if rows.is_empty() {
        return 0;
    }
    let cols = rows[0].len();
    let z = Scalar::zero();
    let mut r = 0;
    for c in 0..cols {
        if let Some(piv) = (r..rows.len()).find(|i| rows[*i][c] != z) {
            rows.swap(r, piv);
            let inv = rows[r][c].invert();
            for i in r + 1..rows.len() {
                if rows[i][c] != z {
                    let f = rows[i][c] * inv;
                    for j in c..cols {
                        let v = rows[r][j];
                        rows[i][j] -= f * v;
                    }
                }
            }
            r += 1;
            if r == rows.len() {
                break;
            }
        }
    }
    r
}
/// Not a "full-size" random value: within 2^200 of 0 modulo the group order.
pub fn small(s: &Scalar) -> bool {
    let tiny = |s: &Scalar| s.to_bytes()[25..].iter().all(|b| *b == 0);
    tiny(s) || tiny(&-s)
}

/// How many bytes of the random stream each output depends on: counted up to
/// `enough`. None if the outputs are not a function of the stream.
pub fn influence(
    seed: u64,
    enough: usize,
    f: &dyn Fn() -> Result<Vec<[u8; 32]>, crate::eng::Fail>,
) -> Result<Option<Vec<usize>>, crate::eng::Fail> {
    rand::verif::set_seed(Some(seed));
    let base = f()?;
    let total = rand::verif::bytes();
    rand::verif::set_seed(Some(seed));
    if f()? != base || total == 0 {
        return Ok(None);
    }
    let mut n = vec![];
    // first with growing steps over bytes that tell nothing new, then one by one
    for most in [8u64, 1].iter() {
        n = vec![0usize; base.len()];
        let (mut at, mut step) = (0, 1);
        while at < total && n.iter().any(|x| *x < enough) {
            rand::verif::set_seed(Some(seed));
            rand::verif::set_flip(at);
            let other = f()?;
            let mut news = false;
            for (i, (x, y)) in base.iter().zip(other.iter()).enumerate() {
                if x != y {
                    news |= n[i] < enough;
                    n[i] += 1;
                }
            }
            step = if news { 1 } else { (step * 2).min(*most) };
            at += step;
        }
        if n.iter().all(|x| *x >= enough) {
            break;
        }
    }
    rand::verif::set_seed(Some(seed));
    Ok(Some(n))
}

/// How the challenges drawn before the folding rounds map to the documented
/// ones. Learned from honest runs, so that the cheating provers can also cheat
/// a verifier that draws them in another order or leaves some of them out.
#[derive(Clone, Debug, PartialEq)]
pub struct Layout {
    drawn: usize,
    /// n-th documented challenge: index of a drawn one, or a constant
    from: Vec<Result<usize, i8>>,
}
impl Layout {
    fn doc(p: usize) -> Layout {
        Layout { drawn: p, from: (0..p).map(Ok).collect() }
    }
    fn apply(&self, ch: &[Scalar], rounds: usize) -> Option<Vec<Scalar>> {
        if ch.len() != self.drawn + rounds {
            return None;
        }
        let mut v: Vec<Scalar> = self
            .from
            .iter()
            .map(|f| match f {
                Ok(i) => ch[*i],
                Err(c) if *c < 0 => -Scalar::from(-*c as u8),
                Err(c) => Scalar::from(*c as u8),
            })
            .collect();
        v.extend(&ch[self.drawn..]);
        Some(v)
    }
    fn candidates(p: usize, drawn: usize) -> Vec<Layout> {
        let mut out = vec![];
        if drawn == p {
            // one of them at another place
            out.push(Layout::doc(p));
            for i in 0..p {
                for j in 0..p {
                    let mut v: Vec<usize> = (0..p).collect();
                    let x = v.remove(i);
                    v.insert(j, x);
                    out.push(Layout { drawn, from: v.into_iter().map(Ok).collect() });
                    let mut v: Vec<usize> = (0..p).collect();
                    v.swap(i, j);
                    out.push(Layout { drawn, from: v.into_iter().map(Ok).collect() });
                }
            }
        } else if drawn + 1 == p {
            for i in 0..p {
                let fill: Vec<Result<usize, i8>> =
                    vec![Err(1), Err(0), Err(2), Err(-1)].into_iter().chain((0..drawn).map(Ok)).collect();
                for f in fill {
                    let mut v: Vec<Result<usize, i8>> = (0..drawn).map(Ok).collect();
                    v.insert(i, f);
                    out.push(Layout { drawn, from: v });
                }
            }
        } else if drawn == p + 1 {
            for i in 0..drawn {
                let v = (0..drawn).filter(|j| *j != i).map(Ok).collect();
                out.push(Layout { drawn, from: v });
            }
        }
        out
    }
}
fn learn(kind: Kind) -> Option<Layout> {
    use proptest::strategy::{Strategy, ValueTree};
    use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
    rand::verif::set_seed(Some(77));
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &[7u8; 32]);
    let mut runner = TestRunner::new_with_rng(Config::default(), rng);
    let s = any_kind(&[kind], Shape { max_lg: 4, max_eqs: 3, max_m: 2, max_n: 9 }, false);
    let mut fits: Option<Vec<Layout>> = None;
    let mut runs = 0;
    for _ in 0..60 {
        let c = s.new_tree(&mut runner).ok()?.current();
        let (st, w) = c.build();
        if w.full.iter().chain(w.w.iter()).chain(w.a.iter()).filter(|x| **x != Scalar::zero()).count() < 2 {
            continue;
        }
        let p = match lib(|| prove_raw(&st, &w, &mut st.transcript())) {
            Ok(p) => p,
            Err(_) => continue,
        };
        let v = match verify_log(&st, &p) {
            Ok(v) if v.out => v,
            _ => continue,
        };
        let (ch, r) = (v.challenges(), st.rounds());
        let pre = st.num_challenges() - r;
        let good = |l: &Layout| {
            let c = match l.apply(&ch, r) {
                Some(c) => c,
                None => return false,
            };
            lib(|| residual(&st, &p, &c).map_or(false, |x| x.iter().all(|y| *y == RistrettoPoint::identity()))).unwrap_or(false)
        };
        if ch.len() < r {
            return None;
        }
        let from = fits.unwrap_or_else(|| Layout::candidates(pre, ch.len() - r));
        let next: Vec<Layout> = from.into_iter().filter(|l| good(l)).collect();
        if next.is_empty() {
            return None;
        }
        fits = Some(next);
        runs += 1;
        if runs == 4 {
            break;
        }
    }
    fits.and_then(|f| f.into_iter().next())
}
/// The same for one size of statement, round challenges included: one of the
/// challenges, or several in a row, are not drawn but equal to others.
fn learn_size(kind: Kind, n: usize, k: usize, drawn: usize) -> Option<Layout> {
    use proptest::strategy::{Strategy, ValueTree};
    use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
    rand::verif::set_seed(Some(78));
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &[8u8; 32]);
    let mut runner = TestRunner::new_with_rng(Config::default(), rng);
    let s = pcase(kind, Shape { max_lg: 4, max_eqs: 3, max_m: 2, max_n: 9 }, false);
    let mut fits: Option<Vec<Layout>> = None;
    let mut runs = 0;
    for _ in 0..12 {
        let mut c = s.new_tree(&mut runner).ok()?.current();
        c.m = c.m.min(2);
        if kind.kary() {
            c.k = k as u8;
            c.d = 0;
            let mut m = n;
            while m >= k {
                m /= k;
                c.d += 1;
            }
            c.c = m as u8;
        } else {
            c.lg = n.trailing_zeros() as u8;
        }
        for e in c.eqs.iter_mut() {
            e.kind = EqKind::Sparse;
        }
        if c.n() != n {
            return None;
        }
        let (st, w) = c.build();
        let p = match lib(|| prove_raw(&st, &w, &mut st.transcript())) {
            Ok(p) => p,
            Err(_) => continue,
        };
        let v = match verify_log(&st, &p) {
            Ok(v) if v.out => v,
            _ => continue,
        };
        let (ch, total) = (v.challenges(), st.num_challenges());
        if ch.len() != drawn || drawn >= total || drawn == 0 {
            return None;
        }
        let gone = total - drawn;
        let from = fits.unwrap_or_else(|| {
            let mut out = vec![];
            for i in (0..=drawn).rev() {
                let mut fills: Vec<Vec<Result<usize, i8>>> = vec![vec![Err(1); gone]];
                for j in 0..drawn {
                    fills.push(vec![Ok(j); gone]);
                    if gone > 1 && j + gone <= drawn {
                        fills.push((j..j + gone).map(Ok).collect());
                        fills.push((j..j + gone).rev().map(Ok).collect());
                    }
                }
                for f in fills {
                    let mut v: Vec<Result<usize, i8>> = (0..i).map(Ok).collect();
                    v.extend(f);
                    v.extend((i..drawn).map(Ok));
                    out.push(Layout { drawn, from: v });
                }
            }
            out
        });
        let next: Vec<Layout> = from
            .into_iter()
            .filter(|l| {
                let c = match l.apply(&ch, 0) {
                    Some(c) => c,
                    None => return false,
                };
                lib(|| residual(&st, &p, &c).map_or(false, |x| x.iter().all(|y| *y == RistrettoPoint::identity())))
                    .unwrap_or(false)
            })
            .collect();
        if next.is_empty() {
            return None;
        }
        fits = Some(next);
        runs += 1;
        if runs == 2 {
            break;
        }
    }
    fits.and_then(|f| f.into_iter().next())
}
/// The documented challenges, given those drawn by a verification of `st`;
/// None if they do not have the expected structure.
pub fn canon(st: &St, ch: &[Scalar]) -> Option<Vec<Scalar>> {
    static L: [std::sync::OnceLock<Option<Layout>>; 9] = [const { std::sync::OnceLock::new() }; 9];
    static BY_SIZE: std::sync::Mutex<std::collections::BTreeMap<(usize, usize, usize, usize), Option<Layout>>> =
        std::sync::Mutex::new(std::collections::BTreeMap::new());
    let r = st.rounds();
    let pre = st.num_challenges() - r;
    let at = ALL.iter().position(|k| *k == st.kind).unwrap();
    let kind = st.kind;
    // on a thread of its own: the case's random stream stays as it is
    let l = L[at].get_or_init(|| std::thread::spawn(move || learn(kind)).join().ok().flatten());
    let c = match l {
        Some(l) => l.apply(ch, r),
        None => Layout::doc(pre).apply(ch, r),
    };
    if c.is_some() || ch.is_empty() || ch.len() >= pre + r {
        return c;
    }
    let (n, k, d) = (st.n, st.k, ch.len());
    let mut m = BY_SIZE.lock().unwrap();
    let l = m
        .entry((at, n, k, d))
        .or_insert_with(|| std::thread::spawn(move || learn_size(kind, n, k, d)).join().ok().flatten());
    l.as_ref().and_then(|l| l.apply(ch, 0))
}
