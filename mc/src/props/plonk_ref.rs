//! Independent PLONK reference: tables of selectors and wires, gate and copy
//! satisfaction, a transcript, a prover that does not mind being wrong, and a
//! verifier that works on discrete logarithms (the SRS secret is known here).
use super::kzg_p::{eval, g1};
use crate::util::fs;
use ark_bls12_381::{Fr, G1Affine};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain};
use ark_serialize::CanonicalSerialize;
use digest::Digest;
use kzg::commitment::KzgCommitment;
use kzg::srs::Srs;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::constraint::{CopyConstraints, GateConstraints};
use plonk::prover::Proof;
use plonk::types::Polynomial;
use rand::{rngs::StdRng, SeedableRng};
use std::collections::HashMap;

/// SRS for a known secret, computed once per thread, secret and size.
pub fn srs(tau: Fr, n: usize) -> Srs {
    thread_local! {
        static CACHE: std::cell::RefCell<HashMap<(Fr, usize), Srs>> = Default::default();
    }
    if let Some(s) = CACHE.with(|c| c.borrow().get(&(tau, n)).cloned()) {
        return s;
    }
    let s = Srs::new_from_secret(tau, n);
    CACHE.with(|c| c.borrow_mut().insert((tau, n), s.clone()));
    s
}

fn with_roots<T>(n: usize, f: impl FnOnce(&[Fr]) -> T) -> T {
    thread_local! {
        static ROOTS: std::cell::RefCell<HashMap<usize, std::rc::Rc<Vec<Fr>>>> = Default::default();
    }
    let r = ROOTS.with(|m| m.borrow_mut().entry(n).or_insert_with(|| GeneralEvaluationDomain::<Fr>::new(n).unwrap().elements().collect::<Vec<_>>().into()).clone());
    f(&r)
}
pub fn roots(n: usize) -> Vec<Fr> {
    with_roots(n, |r| r.to_vec())
}

/// Values of the polynomial with these coefficients on the powers of `w`, a
/// primitive root of order the (power of two) number of coefficients.
fn spread(a: &[Fr], w: Fr) -> Vec<Fr> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let half = |k: usize| -> Vec<Fr> { a.iter().skip(k).step_by(2).copied().collect() };
    let (e, o) = (spread(&half(0), w * w), spread(&half(1), w * w));
    let mut out = vec![Fr::zero(); n];
    let mut x = Fr::one();
    for i in 0..n / 2 {
        out[i] = e[i] + x * o[i];
        out[i + n / 2] = e[i] - x * o[i];
        x *= w;
    }
    out
}

/// Values of a polynomial on the n-th roots.
pub fn values(c: &[Fr], n: usize) -> Vec<Fr> {
    let mut f = vec![Fr::zero(); n];
    for (i, x) in c.iter().enumerate() {
        f[i % n] += x;
    }
    with_roots(n, |r| spread(&f, r[1 % n]))
}

/// Coefficients of the polynomial of degree < n with these values on the n-th roots.
pub fn interpolate(vals: &[Fr]) -> Vec<Fr> {
    let n = vals.len();
    assert!(n.is_power_of_two());
    let ninv = Fr::from(n as u64).inverse().unwrap();
    let w = with_roots(n, |r| r[n - 1]);
    spread(vals, w).into_iter().map(|x| x * ninv).collect()
}

// ------------------------------------------------------ polynomial helpers
pub type P = Vec<Fr>;
pub fn padd(a: &P, b: &P) -> P {
    (0..a.len().max(b.len()))
        .map(|i| a.get(i).copied().unwrap_or_default() + b.get(i).copied().unwrap_or_default())
        .collect()
}
pub fn pscale(a: &P, k: Fr) -> P {
    a.iter().map(|x| *x * k).collect()
}
pub fn pmul(a: &P, b: &P) -> P {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![Fr::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if x.is_zero() {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * y;
        }
    }
    r
}
/// Quotient by X^n - 1, forgetting the remainder.
pub fn pdivz(a: &P, n: usize) -> P {
    let mut r = a.clone();
    let mut q = vec![Fr::zero(); r.len().saturating_sub(n)];
    for i in (n..r.len()).rev() {
        q[i - n] = r[i];
        let c = r[i];
        r[i - n] += c;
    }
    q
}
fn psub(a: &P, b: &P) -> P {
    padd(a, &pscale(b, -Fr::one()))
}

// ----------------------------------------------------------------- tables
#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    pub n: usize,
    /// l, r, o, m, c
    pub q: [Vec<Fr>; 5],
    pub pi: Vec<Fr>,
    pub sig: [Vec<Fr>; 3],
    pub w: [Vec<Fr>; 3],
    pub k: [Fr; 2],
}

impl Table {
    /// An identity table of n rows: no gate, every cell its own image.
    pub fn empty(n: usize) -> Self {
        let k = [Fr::from(2u64), Fr::from(3u64)];
        let r = roots(n);
        let z = || vec![Fr::zero(); n];
        Table {
            n,
            q: [z(), z(), z(), z(), z()],
            pi: z(),
            sig: [r.clone(), r.iter().map(|x| *x * k[0]).collect(), r.iter().map(|x| *x * k[1]).collect()],
            w: [z(), z(), z()],
            k,
        }
    }
    pub fn label(&self, cell: (usize, usize)) -> Fr {
        let r = with_roots(self.n, |r| r[cell.1]);
        match cell.0 {
            0 => r,
            1 => r * self.k[0],
            _ => r * self.k[1],
        }
    }
    /// Read a compiled circuit back through its public accessors.
    pub fn read(c: &CompiledCircuit) -> Self {
        let ev = |p: &Polynomial| -> Vec<Fr> { values(&p.coeffs, c.size) };
        let (g, k) = (c.gate_constraints(), c.copy_constraints());
        Table {
            n: c.size,
            q: [ev(g.q_lx()), ev(g.q_rx()), ev(g.q_ox()), ev(g.q_mx()), ev(g.q_cx())],
            pi: ev(g.pi_x()),
            sig: [ev(k.s_sigma_1()), ev(k.s_sigma_2()), ev(k.s_sigma_3())],
            w: [ev(g.f_ax()), ev(g.f_bx()), ev(g.f_cx())],
            k: [*k.k1(), *k.k2()],
        }
    }
    pub fn compiled(&self) -> CompiledCircuit {
        let p = |v: &Vec<Fr>| Polynomial::from_coefficients_vec(interpolate(v));
        CompiledCircuit::new(
            GateConstraints::new(
                p(&self.w[0]),
                p(&self.w[1]),
                p(&self.w[2]),
                p(&self.q[0]),
                p(&self.q[1]),
                p(&self.q[2]),
                p(&self.q[3]),
                p(&self.q[4]),
                p(&self.pi),
            ),
            CopyConstraints::new(p(&self.sig[0]), p(&self.sig[1]), p(&self.sig[2]), self.k[0], self.k[1]),
            self.n,
        )
    }
    pub fn gate(&self, i: usize) -> Fr {
        let (a, b, c) = (self.w[0][i], self.w[1][i], self.w[2][i]);
        self.q[0][i] * a + self.q[1][i] * b + self.q[2][i] * c + self.q[3][i] * a * b + self.q[4][i] + self.pi[i]
    }
    pub fn gates_ok(&self) -> bool {
        (0..self.n).all(|i| self.gate(i).is_zero())
    }
    /// sigma as a map on cells (column, row); None where it points nowhere.
    pub fn sigma(&self) -> Vec<Option<(usize, usize)>> {
        let r = roots(self.n);
        let mut at = HashMap::new();
        for j in 0..3 {
            let k = [Fr::one(), self.k[0], self.k[1]][j];
            for (i, x) in r.iter().enumerate() {
                at.insert(*x * k, (j, i));
            }
        }
        (0..3).flat_map(|j| (0..self.n).map(move |i| (j, i))).map(|(j, i)| at.get(&self.sig[j][i]).copied()).collect()
    }
    /// The classes of cells sigma ties together (None if not a permutation).
    pub fn classes(&self) -> Option<Vec<usize>> {
        let s = self.sigma();
        let mut seen = vec![false; 3 * self.n];
        for t in &s {
            let (j, i) = (*t)?;
            if std::mem::replace(&mut seen[j * self.n + i], true) {
                return None;
            }
        }
        let mut cl = vec![usize::MAX; 3 * self.n];
        for start in 0..3 * self.n {
            let mut c = start;
            while cl[c] == usize::MAX {
                cl[c] = start;
                let (j, i) = s[c].unwrap();
                c = j * self.n + i;
            }
        }
        Some(cl)
    }
    pub fn copies_ok(&self) -> bool {
        match self.classes() {
            None => false,
            Some(cl) => (0..3 * self.n).all(|c| {
                let v = |c: usize| self.w[c / self.n][c % self.n];
                v(c) == v(cl[c])
            }),
        }
    }
    pub fn satisfied(&self) -> bool {
        self.gates_ok() && self.copies_ok()
    }
    pub fn show(&self) -> String {
        format!(
            "n={} qL={} qR={} qO={} qM={} qC={} pi={} a={} b={} c={} sigma={:?}",
            self.n,
            fs(&self.q[0]),
            fs(&self.q[1]),
            fs(&self.q[2]),
            fs(&self.q[3]),
            fs(&self.q[4]),
            fs(&self.pi),
            fs(&self.w[0]),
            fs(&self.w[1]),
            fs(&self.w[2]),
            self.sigma()
        )
    }
}

// -------------------------------------------------------------- transcript
pub struct Tr<D: Digest + Default> {
    data: Vec<u8>,
    _d: std::marker::PhantomData<D>,
}
impl<D: Digest + Default> Default for Tr<D> {
    fn default() -> Self {
        Tr { data: vec![], _d: Default::default() }
    }
}
impl<D: Digest + Default> Tr<D> {
    pub fn feed_bytes(&mut self, b: &[u8]) {
        let mut h = D::default();
        h.update(&self.data);
        h.update(b);
        self.data = h.finalize().to_vec();
    }
    pub fn feed(&mut self, p: &G1Affine) {
        let mut b = vec![];
        p.serialize_uncompressed(&mut b).unwrap();
        self.feed_bytes(&b)
    }
    pub fn feed_scalar(&mut self, x: Fr) {
        let mut b = vec![];
        x.serialize_uncompressed(&mut b).unwrap();
        self.feed_bytes(&b)
    }
    pub fn draw<const N: usize>(&self) -> [Fr; N] {
        let mut rng = StdRng::seed_from_u64(u64::from_le_bytes(self.data[..8].try_into().unwrap()));
        [0; N].map(|_| Fr::rand(&mut rng))
    }
}

// ------------------------------------------------------------------- proof
/// A proof with known discrete logarithms.
#[derive(Clone, Debug, PartialEq)]
pub struct Sp {
    /// a b c z t_lo t_mid t_hi w_z w_zw
    pub com: [Fr; 9],
    /// a b c s1 s2 z_w
    pub bar: [Fr; 6],
    pub u: Fr,
    pub degree: usize,
}

#[derive(Clone, Debug)]
pub struct Chal {
    pub beta: Fr,
    pub gamma: Fr,
    pub alpha: Fr,
    pub zeta: Fr,
    pub v: Fr,
    pub u: Fr,
}

/// Everything fixed about a circuit: discrete logs of its commitments.
#[derive(Clone, Debug)]
pub struct Fixed {
    pub n: usize,
    pub tau: Fr,
    /// l r o m c
    pub q: [Fr; 5],
    pub s: [Fr; 3],
    pub pi: Fr,
    pub pi_poly: P,
    pub k: [Fr; 2],
}
impl Fixed {
    pub fn of(t: &Table, tau: Fr) -> Self {
        let c = |v: &Vec<Fr>| eval(&interpolate(v), tau);
        let pi_poly = interpolate(&t.pi);
        Fixed {
            n: t.n,
            tau,
            q: [c(&t.q[0]), c(&t.q[1]), c(&t.q[2]), c(&t.q[3]), c(&t.q[4])],
            s: [c(&t.sig[0]), c(&t.sig[1]), c(&t.sig[2])],
            pi: eval(&pi_poly, tau),
            pi_poly,
            k: t.k,
        }
    }
    /// The transcript after the statement.
    pub fn statement<D: Digest + Default>(&self) -> Tr<D> {
        let mut t = Tr::<D>::default();
        for x in [self.q[3], self.q[0], self.q[1], self.q[2], self.q[4], self.s[0], self.s[1], self.s[2], self.pi] {
            t.feed(&g1(x));
        }
        t
    }
}

impl Sp {
    pub fn proof(&self) -> Proof {
        let c = |i: usize| KzgCommitment(g1(self.com[i]));
        Proof {
            a_commit: c(0),
            b_commit: c(1),
            c_commit: c(2),
            z_commit: c(3),
            t_lo_commit: c(4),
            t_mid_commit: c(5),
            t_hi_commit: c(6),
            w_ev_x_commit: c(7),
            w_ev_wx_commit: c(8),
            bar_a: self.bar[0],
            bar_b: self.bar[1],
            bar_c: self.bar[2],
            bar_s_sigma_1: self.bar[3],
            bar_s_sigma_2: self.bar[4],
            bar_z_w: self.bar[5],
            u: self.u,
            degree: self.degree,
        }
    }
    pub fn challenges<D: Digest + Default>(&self, f: &Fixed) -> Chal {
        let pts: Vec<G1Affine> = self.com.iter().map(|x| g1(*x)).collect();
        challenges_of::<D>(f, &pts, &self.bar)
    }
    /// The verifier's two sides without the u-parts: (evaluation part, D+F-E part).
    fn parts(&self, f: &Fixed, ch: &Chal) -> (Fr, Fr) {
        let [a, b, c, z, tl, tm, th, _, _] = self.com;
        let [ba, bb, bc, s1, s2, bz] = self.bar;
        let Chal { beta, gamma, alpha, zeta, v, .. } = *ch;
        let n = f.n as u64;
        // by the degree the proof claims
        let part = (self.degree as u64).wrapping_add(1);
        let zh = zeta.pow([n]) - Fr::one();
        let l1 = zh * (Fr::from(n) * (zeta - Fr::one())).inverse().unwrap();
        let pi = eval(&f.pi_poly, zeta);
        let r0 = pi - l1 * alpha * alpha - alpha * (ba + beta * s1 + gamma) * (bb + beta * s2 + gamma) * (bc + gamma) * bz;
        let d = f.q[3] * ba * bb + f.q[0] * ba + f.q[1] * bb + f.q[2] * bc + f.q[4]
            + z * ((ba + beta * zeta + gamma) * (bb + beta * f.k[0] * zeta + gamma) * (bc + beta * f.k[1] * zeta + gamma) * alpha
                + l1 * alpha * alpha)
            - f.s[2] * (ba + beta * s1 + gamma) * (bb + beta * s2 + gamma) * alpha * beta * bz
            - zh * (tl + zeta.pow([part]) * tm + zeta.pow([part.wrapping_mul(2)]) * th);
        let ff = d + v * a + v.pow([2]) * b + v.pow([3]) * c + v.pow([4]) * f.s[0] + v.pow([5]) * f.s[1];
        let e = -r0 + v * ba + v.pow([2]) * bb + v.pow([3]) * bc + v.pow([4]) * s1 + v.pow([5]) * s2;
        (ff - e, z - bz)
    }
    /// What the specification answers.
    pub fn accepted<D: Digest + Default>(&self, f: &Fixed) -> bool {
        if self.degree != f.n + 1 {
            return false;
        }
        let ch = self.challenges::<D>(f);
        if ch.u != self.u {
            return false;
        }
        let (p0, p1) = self.parts(f, &ch);
        let w = roots(f.n).get(1).copied().unwrap_or(Fr::one());
        let (w1, w2) = (self.com[7], self.com[8]);
        (w1 + ch.u * w2) * f.tau == w1 * ch.zeta + ch.u * w2 * ch.zeta * w + p0 + ch.u * p1
    }
    /// Choose the two opening commitments so that the left side is `l` times the
    /// right one (`None`: the right one vanishes), then the final challenge.
    pub fn skew<D: Digest + Default>(&mut self, f: &Fixed, l: Option<Fr>) {
        let ch = self.challenges::<D>(f);
        let (p0, p1) = self.parts(f, &ch);
        let w = roots(f.n).get(1).copied().unwrap_or(Fr::one());
        for (i, p, z) in [(7, p0, ch.zeta), (8, p1, ch.zeta * w)] {
            self.com[i] = match l {
                Some(l) => l * p * (f.tau - l * z).inverse().unwrap(),
                None => -p * z.inverse().unwrap(),
            };
        }
        self.u = self.challenges::<D>(f).u;
    }
    /// Choose the two opening commitments so that the equation holds (needs the
    /// secret), then the final challenge.
    pub fn complete<D: Digest + Default>(&mut self, f: &Fixed) {
        let ch = self.challenges::<D>(f);
        let (p0, p1) = self.parts(f, &ch);
        let w = roots(f.n).get(1).copied().unwrap_or(Fr::one());
        self.com[7] = p0 * (f.tau - ch.zeta).inverse().unwrap();
        self.com[8] = p1 * (f.tau - ch.zeta * w).inverse().unwrap();
        self.u = self.challenges::<D>(f).u;
    }
}

/// The challenges, from the points of a proof.
pub fn challenges_of<D: Digest + Default>(f: &Fixed, com: &[G1Affine], bar: &[Fr; 6]) -> Chal {
    let mut t = f.statement::<D>();
    for c in &com[..3] {
        t.feed(c);
    }
    let [beta, gamma] = t.draw();
    t.feed(&com[3]);
    let [alpha] = t.draw();
    for c in &com[4..7] {
        t.feed(c);
    }
    let [zeta] = t.draw();
    for x in bar {
        t.feed(&g1(*x));
    }
    let [v] = t.draw();
    for c in &com[7..9] {
        t.feed(c);
    }
    let [u] = t.draw();
    Chal { beta, gamma, alpha, zeta, v, u }
}

pub fn points_of(p: &Proof) -> Vec<G1Affine> {
    [
        &p.a_commit,
        &p.b_commit,
        &p.c_commit,
        &p.z_commit,
        &p.t_lo_commit,
        &p.t_mid_commit,
        &p.t_hi_commit,
        &p.w_ev_x_commit,
        &p.w_ev_wx_commit,
    ]
    .iter()
    .map(|c| c.0)
    .collect()
}
pub fn bars_of(p: &Proof) -> [Fr; 6] {
    [p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w]
}

/// How the reference prover cheats.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cheat {
    /// follow the protocol; remainders are silently dropped
    No,
    /// the permutation argument's polynomial is the constant one
    FlatZ,
    /// the permutation argument's polynomial is zero
    ZeroZ,
    /// the quotient is zero
    ZeroT,
    /// the gate part of the quotient is left out
    NoGateT,
    /// the permutation part of the quotient is left out
    NoPermT,
    /// the starting-value part of the quotient is left out
    NoStartT,
    /// no blinding at all
    NoBlind,
}

/// The paper's prover over a table, without any of its sanity checks.
pub fn prove_ref<D: Digest + Default>(t: &Table, tau: Fr, bl: &[Fr; 9], cheat: Cheat) -> (Sp, Chal, P) {
    let n = t.n;
    let f = Fixed::of(t, tau);
    let rt = roots(n);
    let w = rt[1];
    let blind = |p: P, b: Vec<Fr>| -> P {
        if cheat == Cheat::NoBlind {
            return p;
        }
        let mut zb = vec![Fr::zero(); n + b.len()];
        for (i, x) in b.iter().enumerate() {
            zb[i] -= *x;
            zb[i + n] += *x;
        }
        padd(&p, &zb)
    };
    let a = blind(interpolate(&t.w[0]), vec![bl[1], bl[0]]);
    let b = blind(interpolate(&t.w[1]), vec![bl[3], bl[2]]);
    let c = blind(interpolate(&t.w[2]), vec![bl[5], bl[4]]);
    let s: Vec<P> = t.sig.iter().map(|v| interpolate(v)).collect();
    let q: Vec<P> = t.q.iter().map(|v| interpolate(v)).collect();
    let mut tr = f.statement::<D>();
    for p in [&a, &b, &c] {
        tr.feed(&g1(eval(p, tau)));
    }
    let [beta, gamma] = tr.draw();
    let mut acc = vec![Fr::one()];
    for i in 0..n - 1 {
        let num = (t.w[0][i] + beta * rt[i] + gamma)
            * (t.w[1][i] + beta * t.k[0] * rt[i] + gamma)
            * (t.w[2][i] + beta * t.k[1] * rt[i] + gamma);
        let den = (t.w[0][i] + beta * t.sig[0][i] + gamma)
            * (t.w[1][i] + beta * t.sig[1][i] + gamma)
            * (t.w[2][i] + beta * t.sig[2][i] + gamma);
        acc.push(acc[i] * num * den.inverse().unwrap());
    }
    let z = match cheat {
        Cheat::FlatZ => vec![Fr::one()],
        Cheat::ZeroZ => vec![Fr::zero()],
        _ => blind(interpolate(&acc), vec![bl[8], bl[7], bl[6]]),
    };
    tr.feed(&g1(eval(&z, tau)));
    let [alpha] = tr.draw();
    let zw: P = z.iter().enumerate().map(|(i, x)| *x * w.pow([i as u64])).collect();
    let l1 = {
        let mut v = vec![Fr::zero(); n];
        v[0] = Fr::one();
        interpolate(&v)
    };
    let gate = [
        pmul(&pmul(&a, &b), &q[3]),
        pmul(&a, &q[0]),
        pmul(&b, &q[1]),
        pmul(&c, &q[2]),
        q[4].clone(),
        f.pi_poly.clone(),
    ]
    .iter()
    .fold(vec![], |x, y| padd(&x, y));
    let lin = |p: &P, k: Fr| padd(p, &vec![gamma, beta * k]);
    let sg = |p: &P, s: &P| padd(&padd(p, &pscale(s, beta)), &vec![gamma]);
    let perm1 = pmul(&pmul(&pmul(&lin(&a, Fr::one()), &lin(&b, t.k[0])), &lin(&c, t.k[1])), &z);
    let perm2 = pmul(&pmul(&pmul(&sg(&a, &s[0]), &sg(&b, &s[1])), &sg(&c, &s[2])), &zw);
    let perm = pscale(&psub(&perm1, &perm2), alpha);
    let start = pscale(&pmul(&psub(&z, &vec![Fr::one()]), &l1), alpha * alpha);
    let mut tt: P = vec![];
    if cheat != Cheat::ZeroT {
        if cheat != Cheat::NoGateT {
            tt = padd(&tt, &gate);
        }
        if cheat != Cheat::NoPermT {
            tt = padd(&tt, &perm);
        }
        if cheat != Cheat::NoStartT {
            tt = padd(&tt, &start);
        }
    }
    let quo = pdivz(&tt, n);
    let part = |i: usize| -> P { quo.iter().skip(i * (n + 2)).take(if i == 2 { usize::MAX } else { n + 2 }).copied().collect() };
    let ts = [part(0), part(1), part(2)];
    for p in &ts {
        tr.feed(&g1(eval(p, tau)));
    }
    let [zeta] = tr.draw();
    let bar = [eval(&a, zeta), eval(&b, zeta), eval(&c, zeta), eval(&s[0], zeta), eval(&s[1], zeta), eval(&z, zeta * w)];
    for x in bar {
        tr.feed(&g1(x));
    }
    let [v] = tr.draw();
    let zh = zeta.pow([n as u64]) - Fr::one();
    let l1z = eval(&l1, zeta);
    let [ba, bb, bc, s1, s2, bz] = bar;
    let r = [
        pscale(&q[3], ba * bb),
        pscale(&q[0], ba),
        pscale(&q[1], bb),
        pscale(&q[2], bc),
        q[4].clone(),
        vec![eval(&f.pi_poly, zeta)],
        pscale(&z, alpha * (ba + beta * zeta + gamma) * (bb + beta * t.k[0] * zeta + gamma) * (bc + beta * t.k[1] * zeta + gamma)),
        pscale(&padd(&pscale(&s[2], beta), &vec![bc + gamma]), -alpha * (ba + beta * s1 + gamma) * (bb + beta * s2 + gamma) * bz),
        pscale(&psub(&z, &vec![Fr::one()]), alpha * alpha * l1z),
        pscale(&ts[0], -zh),
        pscale(&ts[1], -zh * zeta.pow([n as u64 + 2])),
        pscale(&ts[2], -zh * zeta.pow([2 * n as u64 + 4])),
    ]
    .iter()
    .fold(vec![], |x, y| padd(&x, y));
    let mut w1: P = vec![];
    for (i, p) in [&r, &a, &b, &c, &s[0], &s[1]].iter().enumerate() {
        w1 = padd(&w1, &pscale(p, v.pow([i as u64])));
    }
    let open = |p: &P, x: Fr| super::kzg_p::quotient(p, x);
    let w1 = open(&w1, zeta);
    let w2 = open(&z, zeta * w);
    let com = [
        eval(&a, tau),
        eval(&b, tau),
        eval(&c, tau),
        eval(&z, tau),
        eval(&ts[0], tau),
        eval(&ts[1], tau),
        eval(&ts[2], tau),
        eval(&w1, tau),
        eval(&w2, tau),
    ];
    tr.feed(&g1(com[7]));
    tr.feed(&g1(com[8]));
    let [u] = tr.draw();
    (Sp { com, bar, u, degree: n + 1 }, Chal { beta, gamma, alpha, zeta, v, u }, r)
}
