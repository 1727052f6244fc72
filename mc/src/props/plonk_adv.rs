//! Attacks on weakened PLONK protocols. A `Var` is the protocol with one of its
//! safeguards gone: two constraints sharing a separator, a commitment absorbed
//! after the challenge it must precede, an opening left out of a batch, a
//! challenge with a fixed value, ... For each there is an attack, without use of
//! the setup secret, that proves a false statement to the weakened verifier. The
//! verifier under test must refuse every one of these proofs.
use super::kzg_p::{big, eval, g1, quotient};
use super::plonk_ref::*;
use crate::core::*;
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use plonk::verifier::verify;
use sha2::Sha256;

#[derive(Clone, Copy, Debug, PartialEq)]
enum It {
    /// q_m q_l q_r q_o q_c s1 s2 s3 pi
    Stmt(usize),
    Wire(usize),
    Z,
    T(usize),
    Bar(usize),
    W(usize),
}

const BETA: usize = 0;
const GAMMA: usize = 1;
const ALPHA: usize = 2;
const ZETA: usize = 3;
const V: usize = 4;
const U: usize = 5;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
    Own,
    Const(u64),
    /// another challenge, times a constant
    Times(usize, u64),
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Feed(It),
    /// draw these challenges (None: one value thrown away)
    Draw(Vec<Option<usize>>),
    /// forget everything absorbed so far
    Reset,
}

#[derive(Clone, Debug)]
struct Var {
    ops: Vec<Op>,
    src: [Src; 6],
    /// power of alpha in front of gate, permutation and start (None: not checked)
    coef: [Option<u64>; 3],
    /// factor of the l r o m c pi terms
    gate: [i64; 6],
    /// columns taking part in the permutation argument
    cols: [bool; 3],
    /// rows where gate and permutation are not checked
    exempt: [Option<usize>; 2],
    /// power of v in front of the openings of a b c s1 s2
    vexp: [Option<u64>; 5],
    /// the opening of z at the shifted point is checked
    zw: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Atk {
    /// the weakened protocol's own prover
    Honest,
    ZeroZ,
    FlatZ,
    SolvePS,
    SolveGS,
    SolveAll,
    WireLate(usize),
    TFix(usize),
    BarFix(usize),
    BarPair(usize, usize),
    StmtFix(usize),
    /// both openings after the last challenge
    WBoth,
    W1Late,
    W2Late,
    /// the shifted opening is not checked
    BzFree,
    /// the quotient before everything else
    TFirst,
}

/// What is false about the statement.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Lie {
    Gate,
    Copy,
    /// gates and copies
    Both,
    /// a copy inside one column
    Column(usize),
    /// a 3-cycle with these values: 0 for constant beta, 1 for gamma a multiple
    /// of beta, 2 for constant gamma; and the constant
    Cycle(usize, u64),
}

fn standard() -> Var {
    let mut ops = vec![];
    let f = |ops: &mut Vec<Op>, v: Vec<It>| ops.extend(v.into_iter().map(Op::Feed));
    let d = |ops: &mut Vec<Op>, v: &[usize]| ops.push(Op::Draw(v.iter().map(|x| Some(*x)).collect()));
    f(&mut ops, (0..9).map(It::Stmt).collect());
    f(&mut ops, (0..3).map(It::Wire).collect());
    d(&mut ops, &[BETA, GAMMA]);
    f(&mut ops, vec![It::Z]);
    d(&mut ops, &[ALPHA]);
    f(&mut ops, (0..3).map(It::T).collect());
    d(&mut ops, &[ZETA]);
    f(&mut ops, (0..6).map(It::Bar).collect());
    d(&mut ops, &[V]);
    f(&mut ops, (0..2).map(It::W).collect());
    d(&mut ops, &[U]);
    Var {
        ops,
        src: [Src::Own; 6],
        coef: [Some(0), Some(1), Some(2)],
        gate: [1; 6],
        cols: [true; 3],
        exempt: [None; 2],
        vexp: [Some(1), Some(2), Some(3), Some(4), Some(5)],
        zw: true,
    }
}

/// These items are absorbed right after the draw they should precede, or never.
fn late(items: &[It], never: bool) -> Var {
    let mut v = standard();
    v.ops.retain(|o| !matches!(o, Op::Feed(i) if items.contains(i)));
    if !never {
        let draw = match items[0] {
            It::Stmt(_) => ZETA,
            It::Wire(_) => BETA,
            It::Z => ALPHA,
            It::T(_) => ZETA,
            It::Bar(_) => V,
            It::W(_) => U,
        };
        let at = v.ops.iter().position(|o| matches!(o, Op::Draw(d) if d.contains(&Some(draw)))).unwrap();
        for (k, i) in items.iter().enumerate() {
            v.ops.insert(at + 1 + k, Op::Feed(*i));
        }
    }
    merge_draws(&mut v.ops);
    v
}

/// Draws with nothing absorbed in between are one draw.
fn merge_draws(ops: &mut Vec<Op>) {
    let mut i = 1;
    while i < ops.len() {
        if let (Op::Draw(a), Op::Draw(b)) = (ops[i - 1].clone(), ops[i].clone()) {
            ops[i - 1] = Op::Draw([a, b].concat());
            ops.remove(i);
        } else {
            i += 1;
        }
    }
    ops.retain(|o| !matches!(o, Op::Draw(d) if d.is_empty()));
}

/// A challenge that is not drawn for itself.
fn sourced(c: usize, s: Src, skip: bool) -> Var {
    let mut v = standard();
    v.src[c] = s;
    for o in &mut v.ops {
        if let Op::Draw(d) = o {
            if skip {
                d.iter_mut().filter(|x| **x == Some(c)).for_each(|x| *x = None);
            } else {
                d.retain(|x| *x != Some(c));
            }
        }
    }
    merge_draws(&mut v.ops);
    v
}

fn variants(n: usize) -> Vec<(String, Var, Atk, Lie)> {
    let mut r: Vec<(String, Var, Atk, Lie)> = vec![];
    let s = standard;
    // constraint separators
    let powers = [None, Some(0), Some(1), Some(2), Some(3)];
    for g in powers {
        for p in powers {
            for st in powers {
                let mut v = s();
                v.coef = [g, p, st];
                let mut add = |a, l| r.push((format!("alpha powers {:?}", v.coef), v.clone(), a, l));
                match (g, p, st) {
                    (_, None, _) => {
                        add(Atk::FlatZ, Lie::Copy);
                        if g.is_none() {
                            add(Atk::FlatZ, Lie::Gate)
                        }
                    }
                    (_, _, None) => {
                        add(Atk::ZeroZ, Lie::Copy);
                        if g.is_none() {
                            add(Atk::Honest, Lie::Gate)
                        }
                    }
                    (None, _, _) => add(Atk::Honest, Lie::Gate),
                    _ if g == p && p == st => {
                        add(Atk::SolveAll, Lie::Gate);
                        add(Atk::SolveAll, Lie::Copy);
                        add(Atk::SolveAll, Lie::Both);
                    }
                    _ if p == st => add(Atk::SolvePS, Lie::Copy),
                    _ if g == st => add(Atk::SolveGS, Lie::Gate),
                    _ => {}
                }
            }
        }
    }
    // gate terms
    for k in 0..6 {
        for c in [0, -1, 2] {
            let mut v = s();
            v.gate[k] = c;
            r.push((format!("gate terms {:?}", v.gate), v, Atk::Honest, Lie::Gate));
        }
    }
    // columns and rows left out
    for j in 0..3 {
        let mut v = s();
        v.cols[j] = false;
        r.push((format!("column {} outside the permutation", j), v, Atk::Honest, Lie::Column(j)));
    }
    for i in 0..n {
        for k in 0..2 {
            let mut v = s();
            v.exempt[k] = Some(i);
            r.push((format!("row {} exempt from {}", i, ["gates", "copies"][k]), v, Atk::Honest, [Lie::Gate, Lie::Copy][k]));
        }
    }
    // challenges with other sources
    for skip in [false, true] {
        for c in 0..4 {
            let l = if c == 0 { Lie::Copy } else { Lie::Cycle(0, c) };
            r.push((format!("beta is {} (skip {})", c, skip), sourced(BETA, Src::Const(c), skip), Atk::Honest, l));
            r.push((format!("gamma is {} (skip {})", c, skip), sourced(GAMMA, Src::Const(c), skip), Atk::Honest, Lie::Cycle(2, c)));
            if c > 0 {
                // beta = gamma / c is the same relation for c = 1 only
                r.push((format!("gamma is {} beta (skip {})", c, skip), sourced(GAMMA, Src::Times(BETA, c), skip), Atk::Honest, Lie::Cycle(1, c)));
            }
            for l in [Lie::Gate, Lie::Copy, Lie::Both] {
                if c > 0 {
                    r.push((format!("alpha is {} (skip {})", c, skip), sourced(ALPHA, Src::Const(c), skip), Atk::SolveAll, l));
                    for o in [BETA, GAMMA] {
                        r.push((format!("alpha is {} times challenge {}", c, o), sourced(ALPHA, Src::Times(o, c), skip), Atk::SolveAll, l));
                    }
                }
            }
        }
        r.push((format!("beta is gamma (skip {})", skip), sourced(BETA, Src::Times(GAMMA, 1), skip), Atk::Honest, Lie::Cycle(1, 1)));
        for o in [BETA, GAMMA, ALPHA] {
            r.push((format!("zeta is challenge {}", o), sourced(ZETA, Src::Times(o, 1), skip), Atk::TFix(0), Lie::Both));
            r.push((format!("v is challenge {}", o), sourced(V, Src::Times(o, 1), skip), Atk::BarFix(0), Lie::Both));
            r.push((format!("u is challenge {}", o), sourced(U, Src::Times(o, 1), skip), Atk::WBoth, Lie::Both));
        }
        r.push(("v is zeta".into(), sourced(V, Src::Times(ZETA, 1), skip), Atk::BarFix(1), Lie::Both));
        r.push(("u is zeta".into(), sourced(U, Src::Times(ZETA, 1), skip), Atk::WBoth, Lie::Both));
        r.push(("u is v".into(), sourced(U, Src::Times(V, 1), skip), Atk::WBoth, Lie::Both));
    }
    for c in 2..5 {
        r.push((format!("zeta is {}", c), sourced(ZETA, Src::Const(c), false), Atk::TFix(1), Lie::Both));
    }
    for c in 0..4 {
        if c > 0 {
            r.push((format!("v is {}", c), sourced(V, Src::Const(c), false), Atk::BarFix(2), Lie::Both));
        }
        r.push((format!("u is {}", c), sourced(U, Src::Const(c), false), if c == 0 { Atk::BzFree } else { Atk::WBoth }, Lie::Both));
    }
    let mut v = s();
    v.zw = false;
    r.push(("shifted opening left out".into(), v, Atk::BzFree, Lie::Both));
    // absorbed too late, or never
    for never in [false, true] {
        let w = if never { "never" } else { "late" };
        let mut add = |items: &[It], a, l| r.push((format!("{:?} absorbed {}", items, w), late(items, never), a, l));
        for k in 0..9 {
            add(&[It::Stmt(k)], Atk::StmtFix(k), Lie::Gate);
            add(&[It::Stmt(k)], Atk::StmtFix(k), Lie::Both);
        }
        add(&(0..9).map(It::Stmt).collect::<Vec<_>>(), Atk::StmtFix(4), Lie::Both);
        add(&(0..5).map(It::Stmt).collect::<Vec<_>>(), Atk::StmtFix(2), Lie::Both);
        add(&(5..8).map(It::Stmt).collect::<Vec<_>>(), Atk::StmtFix(6), Lie::Both);
        for j in 0..3 {
            add(&[It::Wire(j)], Atk::WireLate(j), Lie::Copy);
            add(&[It::T(j)], Atk::TFix(j), Lie::Gate);
            add(&[It::T(j)], Atk::TFix(j), Lie::Copy);
        }
        add(&[It::Wire(0), It::Wire(1), It::Wire(2)], Atk::WireLate(1), Lie::Copy);
        for l in [Lie::Gate, Lie::Copy, Lie::Both] {
            add(&[It::Z], Atk::SolveAll, l);
            add(&[It::T(0), It::T(1), It::T(2)], Atk::TFix(2), l);
            add(&[It::W(0), It::W(1)], Atk::WBoth, l);
            add(&[It::W(0)], Atk::W1Late, l);
            add(&[It::W(1)], Atk::W2Late, l);
            for j in 0..5 {
                add(&[It::Bar(j)], Atk::BarFix(j), l);
            }
            add(&(0..6).map(It::Bar).collect::<Vec<_>>(), Atk::BarFix(3), l);
            add(&(0..3).map(It::Bar).collect::<Vec<_>>(), Atk::BarFix(0), l);
            add(&(3..5).map(It::Bar).collect::<Vec<_>>(), Atk::BarFix(4), l);
        }
    }
    // openings sharing a separator, or left out
    for j in 0..5 {
        for e in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5)] {
            if e == Some(j as u64 + 1) {
                continue;
            }
            let mut v = s();
            v.vexp[j] = e;
            let a = match e {
                None | Some(0) => Atk::BarFix(j),
                Some(i) => Atk::BarPair(j, i as usize - 1),
            };
            for l in [Lie::Gate, Lie::Copy] {
                r.push((format!("v powers {:?}", v.vexp), v.clone(), a, l));
            }
        }
    }
    // each round's challenge from that round's messages alone
    for every in [false, true] {
        let mut v = s();
        let mut ops = vec![];
        for o in v.ops {
            let t = o == Op::Feed(It::T(0));
            if t || every && [It::Wire(0), It::Z, It::Bar(0), It::W(0)].map(Op::Feed).contains(&o) {
                ops.push(Op::Reset);
            }
            ops.push(o);
        }
        v.ops = ops;
        for l in [Lie::Gate, Lie::Copy, Lie::Both] {
            r.push((format!("transcript restarted ({})", every), v.clone(), Atk::TFirst, l));
        }
    }
    r
}

/// A false statement of this kind, for this variant.
fn false_table(n: usize, var: &Var, atk: Atk, lie: Lie) -> Table {
    let mut t = Table::empty(n);
    t.k = [Fr::from(5u64), Fr::from(7u64)];
    t.sig[1] = roots(n).iter().map(|x| *x * t.k[0]).collect();
    t.sig[2] = roots(n).iter().map(|x| *x * t.k[1]).collect();
    for i in 0..n {
        for (j, c) in [3u64, 11, 29].iter().enumerate() {
            t.w[j][i] = Fr::from(c * (i as u64 + 1) + j as u64);
            t.q[j][i] = Fr::from(c + 41 * i as u64);
        }
        t.q[3][i] = Fr::from(17 + i as u64);
        t.q[4][i] = Fr::from(19 * (i as u64 + 2));
        t.pi[i] = Fr::from(7 + i as u64);
    }
    let cyc: Vec<(usize, usize)> = match lie {
        Lie::Column(j) => vec![(j, 0), (j, n - 1)],
        _ => vec![(0, 0), (1, n - 1), (2, n / 2)],
    };
    let m = cyc.len();
    for i in 0..m {
        t.sig[cyc[i].0][cyc[i].1] = t.label(cyc[(i + 1) % m]);
        t.w[cyc[i].0][cyc[i].1] = Fr::from(77u64);
    }
    let l: Vec<Fr> = cyc.iter().map(|c| t.label(*c)).collect();
    match lie {
        Lie::Gate => {}
        Lie::Cycle(kind, c) => {
            let c = Fr::from(c);
            let w = match kind {
                0 => {
                    let w3 = Fr::from(40u64);
                    let w2 = w3 + c * (l[0] - l[1]);
                    vec![w2 + c * (l[2] - l[0]), w2, w3]
                }
                1 => (0..3).map(|i| Fr::from(9u64) * (l[i] + c) * (l[(i + 1) % 3] + c)).collect(),
                _ => (0..3).map(|i| Fr::from(9u64) * l[i] * l[(i + 1) % 3] - c).collect(),
            };
            for i in 0..3 {
                t.w[cyc[i].0][cyc[i].1] = w[i];
            }
        }
        _ => {
            // not the cell that is chosen last
            let c = cyc[if atk == Atk::WireLate(cyc[0].0) { 1 } else { 0 }];
            t.w[c.0][c.1] += Fr::one()
        }
    }
    if let Atk::WireLate(j) = atk {
        // no gate looks at the cell that will be chosen last
        let c = cyc.iter().find(|c| c.0 == j).unwrap();
        t.q[j][c.1] = Fr::zero();
        t.q[3][c.1] = Fr::zero();
    }
    // the variant's gates hold
    for i in 0..n {
        let by = if var.gate[5] != 0 { 5 } else { 4 };
        let g = gate(&t, var, i);
        let d = g * Fr::from(var.gate[by]).inverse().unwrap();
        if by == 5 {
            t.pi[i] -= d
        } else {
            t.q[4][i] -= d
        }
    }
    let distorted = var.gate != [1; 6];
    if matches!(lie, Lie::Gate | Lie::Both) && !distorted {
        let row = var.exempt[0].unwrap_or(if atk == Atk::SolveGS { 0 } else { 1 });
        t.q[4][row] += Fr::from(3u64);
    }
    t
}

fn gate(t: &Table, v: &Var, i: usize) -> Fr {
    let k = v.gate.map(Fr::from);
    let (a, b, c) = (t.w[0][i], t.w[1][i], t.w[2][i]);
    k[0] * t.q[0][i] * a + k[1] * t.q[1][i] * b + k[2] * t.q[2][i] * c + k[3] * t.q[3][i] * a * b + k[4] * t.q[4][i] + k[5] * t.pi[i]
}

struct Run<'a> {
    var: &'a Var,
    atk: Atk,
    t: Table,
    tau: Fr,
    rt: Vec<Fr>,
    bl: [Fr; 9],
    ch: [Option<Fr>; 6],
    wire: [Option<P>; 3],
    z: Option<P>,
    ts: Option<[P; 3]>,
    fixed_t: bool,
    bar: [Option<Fr>; 6],
    w: [Option<P>; 2],
    /// no root: try again with other blinders
    stuck: bool,
}

fn vanish(n: usize, b: &[Fr]) -> P {
    let mut r = vec![Fr::zero(); n + b.len()];
    for (i, x) in b.iter().enumerate() {
        r[i] -= *x;
        r[i + n] += *x;
    }
    r
}

impl Run<'_> {
    fn n(&self) -> usize {
        self.t.n
    }
    fn c(&self, k: usize) -> Fr {
        self.ch[k].unwrap()
    }
    fn lagrange(&self, i: usize) -> P {
        let mut l = vec![Fr::zero(); self.n()];
        l[i] = Fr::one();
        interpolate(&l)
    }
    fn k(&self, j: usize) -> Fr {
        [Fr::one(), self.t.k[0], self.t.k[1]][j]
    }
    /// numerator and denominator of the accumulator's step, per row
    fn steps(&self) -> (Vec<Fr>, Vec<Fr>) {
        let (b, g) = (self.c(BETA), self.c(GAMMA));
        let col = |i: usize, lab: &dyn Fn(usize) -> Fr| -> Fr {
            (0..3).filter(|j| self.var.cols[*j]).map(|j| self.t.w[j][i] + b * lab(j) + g).product()
        };
        (0..self.n()).map(|i| (col(i, &|j| self.k(j) * self.rt[i]), col(i, &|j| self.t.sig[j][i]))).unzip()
    }
    fn power(&self, k: usize) -> Fr {
        match self.var.coef[k] {
            None => Fr::zero(),
            Some(0) => Fr::one(),
            Some(e) => self.c(ALPHA).pow([e]),
        }
    }

    fn decide(&mut self, it: It) {
        match it {
            It::Stmt(_) => {}
            It::Wire(j) => self.decide_wire(j),
            It::Z => self.decide_z(),
            It::T(_) => self.decide_t(it),
            It::Bar(_) => self.decide_bar(it),
            It::W(k) => self.decide_w(k),
        }
    }
    fn decide_wire(&mut self, j: usize) {
        if self.wire[j].is_some() {
            return;
        }
        if self.atk == Atk::WireLate(j) {
            for o in (0..3).filter(|o| *o != j) {
                self.decide_wire(o);
            }
            // one cell of the column closes the product
            let (cyc, b, g) = (self.t.sigma(), self.c(BETA), self.c(GAMMA));
            let i = (0..self.n()).find(|i| cyc[j * self.n() + i] != Some((j, *i))).unwrap();
            let (lab, sig) = (self.k(j) * self.rt[i], self.t.sig[j][i]);
            self.t.w[j][i] = -b * lab - g + Fr::one();
            // its own numerator factor is one now
            let (nu, de) = self.steps();
            let a: Fr = nu.iter().product();
            let own = self.t.w[j][i] + b * sig + g;
            let d: Fr = de.iter().product::<Fr>() * own.inverse().unwrap();
            // (w + b lab + g) a = (w + b sig + g) d
            self.t.w[j][i] = ((b * sig + g) * d - (b * lab + g) * a) * (a - d).inverse().unwrap();
        }
        let b = &self.bl[2 * j..2 * j + 2];
        let mut p = padd(&interpolate(&self.t.w[j]), &vanish(self.n(), &[b[1], b[0]]));
        if self.atk == Atk::TFirst && j == 0 {
            // the gate equation at zeta, by choice of the first wire's value there
            self.decide_wire(1);
            self.decide_wire(2);
            let x = self.c(ZETA);
            let [bb, bc] = [1, 2].map(|o: usize| eval(self.wire[o].as_ref().unwrap(), x));
            let q: Vec<Fr> = self.t.q.iter().map(|v| eval(&interpolate(v), x)).collect();
            let rest = q[1] * bb + q[2] * bc + q[4] + eval(&interpolate(&self.t.pi), x);
            let goal = -rest * (q[0] + q[3] * bb).inverse().unwrap();
            let zh = x.pow([self.n() as u64]) - Fr::one();
            let d = (goal - eval(&p, x)) * zh.inverse().unwrap();
            p = padd(&p, &vanish(self.n(), &[d]));
        }
        self.wire[j] = Some(p);
    }
    fn decide_z(&mut self) {
        if self.z.is_some() {
            return;
        }
        for j in 0..3 {
            self.decide_wire(j);
        }
        let n = self.n();
        let inv = |x: Fr| x.inverse().unwrap();
        let (nu, de) = self.steps();
        let mut v = vec![Fr::one(); n];
        match self.atk {
            Atk::ZeroZ => return self.z = Some(vec![Fr::zero()]),
            Atk::FlatZ => return self.z = Some(vec![Fr::one()]),
            Atk::TFirst => {
                // one at zeta, and the step of the permutation argument from there
                let x = self.c(ZETA);
                let (b, g) = (self.c(BETA), self.c(GAMMA));
                let mut step = Fr::one();
                for j in 0..3 {
                    let w = eval(self.wire[j].as_ref().unwrap(), x);
                    step *= (w + b * self.k(j) * x + g) * inv(w + b * eval(&interpolate(&self.t.sig[j]), x) + g);
                }
                let y = x * self.rt[1];
                let slope = (step - Fr::one()) * inv(y - x);
                return self.z = Some(vec![Fr::one() - slope * x, slope]);
            }
            Atk::SolvePS => {
                let rest: Fr = (1..n).map(|i| nu[i] * inv(de[i])).product();
                v[0] = -rest * inv(de[0] - rest * (nu[0] + Fr::one()));
                v[1] = (v[0] * (nu[0] + Fr::one()) - Fr::one()) * inv(de[0]);
                for i in 1..n - 1 {
                    v[i + 1] = v[i] * nu[i] * inv(de[i]);
                }
            }
            Atk::SolveGS => {
                v[0] = Fr::one() - gate(&self.t, self.var, 0);
                for i in 0..n - 1 {
                    v[i + 1] = v[i] * nu[i] * inv(de[i]);
                }
            }
            Atk::SolveAll => {
                let same = self.var.coef[0] == self.var.coef[1] && self.var.coef[1] == self.var.coef[2];
                let [cg, cp, cs] = if same { [Fr::one(); 3] } else { [0, 1, 2].map(|k| self.power(k)) };
                let (cg, cs) = (cg * inv(cp), cs * inv(cp));
                // v_i = a_i v_0 + b_i
                let (mut a, mut b) = (vec![Fr::one()], vec![Fr::zero()]);
                for i in 0..n {
                    let first = if i == 0 { cs } else { Fr::zero() };
                    a.push((a[i] * nu[i] + first) * inv(de[i]));
                    b.push((b[i] * nu[i] - first + cg * gate(&self.t, self.var, i)) * inv(de[i]));
                }
                v[0] = b[n] * inv(Fr::one() - a[n]);
                for i in 1..n {
                    v[i] = a[i] * v[0] + b[i];
                }
            }
            _ => {
                let stop = self.var.exempt[1].unwrap_or(n - 1);
                for i in 0..stop {
                    v[i + 1] = v[i] * nu[i] * inv(de[i]);
                }
                for i in (stop + 1..n).rev() {
                    v[i] = v[(i + 1) % n] * de[i] * inv(nu[i]);
                }
            }
        }
        self.z = Some(padd(&interpolate(&v), &vanish(n, &[self.bl[8], self.bl[7], self.bl[6]])));
    }
    fn decide_t(&mut self, it: It) {
        self.decide_z();
        let n = self.n();
        if self.ts.is_none() {
            let [a, b, c] = [0, 1, 2].map(|j: usize| self.wire[j].clone().unwrap());
            let z = self.z.clone().unwrap();
            let zw: P = z.iter().enumerate().map(|(i, x)| *x * self.rt[1].pow([i as u64])).collect();
            let q: Vec<P> = self.t.q.iter().zip(self.var.gate).map(|(v, k)| pscale(&interpolate(v), Fr::from(k))).collect();
            let pi = pscale(&interpolate(&self.t.pi), Fr::from(self.var.gate[5]));
            let mut gate = [pmul(&pmul(&a, &b), &q[3]), pmul(&a, &q[0]), pmul(&b, &q[1]), pmul(&c, &q[2]), q[4].clone(), pi].iter().fold(vec![], |x, y| padd(&x, y));
            let (mut p1, mut p2) = (z.clone(), zw);
            for (j, w) in [&a, &b, &c].iter().enumerate() {
                if self.var.cols[j] {
                    p1 = pmul(&p1, &padd(w, &vec![self.c(GAMMA), self.c(BETA) * self.k(j)]));
                    p2 = pmul(&p2, &padd(w, &padd(&vec![self.c(GAMMA)], &pscale(&interpolate(&self.t.sig[j]), self.c(BETA)))));
                }
            }
            let mut perm = padd(&p1, &pscale(&p2, -Fr::one()));
            for (k, p) in [&mut gate, &mut perm].into_iter().enumerate() {
                if let Some(i) = self.var.exempt[k] {
                    *p = pmul(p, &vec![-self.rt[i], Fr::one()]);
                }
            }
            let start = pmul(&padd(&z, &vec![-Fr::one()]), &self.lagrange(0));
            let mut all: P = vec![];
            for (k, p) in [gate, perm, start].iter().enumerate() {
                if self.var.coef[k].is_some() {
                    all = padd(&all, &pscale(p, self.power(k)));
                }
            }
            let quo = pdivz(&all, n);
            let part = |i: usize| -> P { quo.iter().skip(i * (n + 2)).take(if i == 2 { usize::MAX } else { n + 2 }).copied().collect() };
            self.ts = Some([part(0), part(1), part(2)]);
        }
        if let Atk::TFix(k) = self.atk {
            if it == It::T(k) && !self.fixed_t {
                self.fixed_t = true;
                let x = self.c(ZETA);
                let d = eval(&self.lin(&self.bars()), x);
                let zh = x.pow([n as u64]) - Fr::one();
                let at = x.pow([(k * (n + 2)) as u64]);
                let t = self.ts.as_mut().unwrap();
                t[k] = padd(&t[k], &vec![d * (zh * at).inverse().unwrap()]);
            }
        }
    }
    fn sig(&self, j: usize) -> P {
        interpolate(&self.t.sig[j])
    }
    /// The polynomials opened at zeta besides the combination: a b c s1 s2.
    fn opened(&self, j: usize) -> P {
        if j < 3 {
            self.wire[j].clone().unwrap()
        } else {
            self.sig(j - 3)
        }
    }
    /// Evaluations: as decided, honest where not yet.
    fn bars(&self) -> [Fr; 6] {
        let x = self.c(ZETA);
        std::array::from_fn(|j| match self.bar[j] {
            Some(b) => b,
            None if j < 5 => eval(&self.opened(j), x),
            None => eval(self.z.as_ref().unwrap(), x * self.rt[1]),
        })
    }
    /// The verifier's combination without openings, as a polynomial.
    fn lin(&self, bar: &[Fr; 6]) -> P {
        let n = self.n() as u64;
        let x = self.c(ZETA);
        let (be, g) = (self.c(BETA), self.c(GAMMA));
        let k = self.var.gate.map(Fr::from);
        let [ba, bb, bc, s1, s2, bz] = *bar;
        let q: Vec<P> = self.t.q.iter().map(|v| interpolate(v)).collect();
        let off = |kind: usize| match self.var.exempt[kind] {
            Some(i) => x - self.rt[i],
            None => Fr::one(),
        };
        let (cg, cp, cs) = (self.power(0) * off(0), self.power(1) * off(1), self.power(2));
        let mut r = [
            pscale(&q[3], k[3] * ba * bb),
            pscale(&q[0], k[0] * ba),
            pscale(&q[1], k[1] * bb),
            pscale(&q[2], k[2] * bc),
            pscale(&q[4], k[4]),
            vec![k[5] * eval(&interpolate(&self.t.pi), x)],
        ]
        .iter()
        .fold(vec![], |x, y| padd(&x, &pscale(y, cg)));
        let z = self.z.as_ref().unwrap();
        let mut nu = cp;
        let mut de = cp * bz;
        for (j, (w, s)) in [(ba, Some(s1)), (bb, Some(s2)), (bc, None)].into_iter().enumerate() {
            if self.var.cols[j] {
                nu *= w + be * self.k(j) * x + g;
                if let Some(s) = s {
                    de *= w + be * s + g;
                }
            }
        }
        r = padd(&r, &pscale(z, nu));
        if self.var.cols[2] {
            r = padd(&r, &pscale(&padd(&pscale(&self.sig(2), be), &vec![bc + g]), -de));
        } else {
            r = padd(&r, &vec![-de]);
        }
        let l1 = eval(&self.lagrange(0), x);
        r = padd(&r, &pscale(&padd(z, &vec![-Fr::one()]), cs * l1));
        let zh = x.pow([n]) - Fr::one();
        if let Some(ts) = &self.ts {
            for (i, t) in ts.iter().enumerate() {
                r = padd(&r, &pscale(t, -zh * x.pow([i as u64 * (n + 2)])));
            }
        }
        r
    }
    fn vpow(&self, j: usize) -> Fr {
        match self.var.vexp[j] {
            None => Fr::zero(),
            Some(0) => Fr::one(),
            Some(e) => self.c(V).pow([e]),
        }
    }
    fn decide_bar(&mut self, it: It) {
        let It::Bar(j) = it else { return };
        if self.bar[j].is_some() {
            return;
        }
        for k in 0..3 {
            self.decide_t(It::T(k));
        }
        let x = self.c(ZETA);
        let n = self.n();
        match self.atk {
            Atk::StmtFix(k) => {
                // one value of the statement's polynomial: R is linear in it
                let at = |d: Fr, me: &mut Self| -> Fr {
                    let v = match k {
                        0 => &mut me.t.q[3],
                        1..=3 => &mut me.t.q[k - 1],
                        4 => &mut me.t.q[4],
                        5..=7 => &mut me.t.sig[k - 5],
                        _ => &mut me.t.pi,
                    };
                    v[n - 1] += d;
                    eval(&me.lin(&me.bars()), x)
                };
                let f0 = at(Fr::zero(), self);
                if !f0.is_zero() {
                    let f1 = at(Fr::one(), self);
                    at(-f0 * (f1 - f0).inverse().unwrap() - Fr::one(), self);
                }
            }
            Atk::BarFix(i) if i == j => {
                let f = |y: Fr| {
                    let mut b = self.bars();
                    b[j] = y;
                    eval(&self.lin(&b), x) + self.vpow(j) * (eval(&self.opened(j), x) - y)
                };
                let (f0, f1) = (f(Fr::zero()), f(Fr::one()));
                return self.bar[j] = Some(-f0 * (f1 - f0).inverse().unwrap());
            }
            Atk::BarPair(i, k) if i == j || k == j => {
                let honest = self.bars();
                let f = |d: Fr| {
                    let mut b = honest;
                    b[i] += d;
                    b[k] -= d;
                    eval(&self.lin(&b), x)
                };
                let one = Fr::one();
                let two = one + one;
                let (f0, f1, f2) = (f(Fr::zero()), f(one), f(two));
                let half = two.inverse().unwrap();
                let qa = (f2 - two * f1 + f0) * half;
                let qb = f1 - f0 - qa;
                let d = if qa.is_zero() {
                    -f0 * qb.inverse().unwrap()
                } else {
                    match (qb.square() - two.double() * qa * f0).sqrt() {
                        None => {
                            self.stuck = true;
                            return self.bar[j] = Some(honest[j]);
                        }
                        Some(r) => (r - qb) * (two * qa).inverse().unwrap(),
                    }
                };
                self.bar[i] = Some(honest[i] + d);
                self.bar[k] = Some(honest[k] - d);
                return;
            }
            Atk::W1Late | Atk::BzFree if j == 5 => {
                let f = |y: Fr| {
                    let mut b = self.bars();
                    b[5] = y;
                    eval(&self.lin(&b), x)
                };
                let (f0, f1) = (f(Fr::zero()), f(Fr::one()));
                return self.bar[5] = Some(-f0 * (f1 - f0).inverse().unwrap());
            }
            _ => {}
        }
        self.bar[j] = Some(self.bars()[j]);
    }
    /// What the two openings are about: (at zeta, at zeta w).
    fn claims(&self) -> (P, P) {
        let b = self.bars();
        let mut p0 = self.lin(&b);
        for j in 0..5 {
            if self.var.vexp[j].is_some() {
                p0 = padd(&p0, &pscale(&padd(&self.opened(j), &vec![-b[j]]), self.vpow(j)));
            }
        }
        let p1 = if self.var.zw { padd(self.z.as_ref().unwrap(), &vec![-b[5]]) } else { vec![] };
        (p0, p1)
    }
    fn decide_w(&mut self, k: usize) {
        if self.w[k].is_some() {
            return;
        }
        for j in 0..6 {
            self.decide_bar(It::Bar(j));
        }
        let (p0, p1) = self.claims();
        let x = self.c(ZETA);
        let y = x * self.rt[1];
        let open = |p: &P, at: Fr| -> P { quotient(p, at) };
        let inv = |x: Fr| x.inverse().unwrap();
        let w = match (self.atk, k) {
            (Atk::WBoth, 0) | (Atk::W2Late, 1) => {
                // whatever is left after the other opening
                self.decide_w(1 - k);
                let (own, other) = if k == 0 { (x, y) } else { (y, x) };
                let u = self.c(U);
                let mut all = padd(&p0, &pscale(&p1, u));
                let o = pmul(self.w[1 - k].as_ref().unwrap(), &vec![-other, Fr::one()]);
                all = padd(&all, &pscale(&o, if k == 0 { -u } else { -Fr::one() }));
                let q = open(&all, own);
                if k == 0 { q } else { pscale(&q, inv(u)) }
            }
            (Atk::WBoth, _) => {
                // what is claimed at the first point
                let u = self.c(U);
                vec![(eval(&p0, x) + u * eval(&p1, x)) * inv(u * (x - y))]
            }
            (Atk::W2Late, _) => vec![eval(&p0, y) * inv(y - x)],
            (Atk::W1Late, 1) => vec![eval(&p1, x) * inv(x - y)],
            (Atk::W1Late, _) => {
                self.decide_w(1);
                let u = self.c(U);
                let o = pmul(self.w[1].as_ref().unwrap(), &vec![-y, Fr::one()]);
                open(&padd(&padd(&p0, &pscale(&p1, u)), &pscale(&o, -u)), x)
            }
            (Atk::BzFree, 1) => vec![],
            (_, 0) => open(&p0, x),
            _ => open(&p1, y),
        };
        self.w[k] = Some(w);
    }
    fn value(&self, it: It) -> Fr {
        let at = |p: &P| eval(p, self.tau);
        match it {
            It::Stmt(k) => at(&interpolate(match k {
                0 => &self.t.q[3],
                1..=3 => &self.t.q[k - 1],
                4 => &self.t.q[4],
                5..=7 => &self.t.sig[k - 5],
                _ => &self.t.pi,
            })),
            It::Wire(j) => at(self.wire[j].as_ref().unwrap()),
            It::Z => at(self.z.as_ref().unwrap()),
            It::T(k) => at(&self.ts.as_ref().unwrap()[k]),
            It::Bar(j) => self.bar[j].unwrap(),
            It::W(k) => at(self.w[k].as_ref().unwrap()),
        }
    }
    fn sources(&mut self) {
        for _ in 0..2 {
            for k in 0..6 {
                match self.var.src[k] {
                    Src::Const(c) => self.ch[k] = Some(Fr::from(c)),
                    Src::Times(o, c) => self.ch[k] = self.ch[o].map(|x| x * Fr::from(c)),
                    Src::Own => {}
                }
            }
        }
    }
    fn play(&mut self) {
        if self.atk == Atk::TFirst {
            // the quotient is nothing, which settles zeta
            self.ts = Some([vec![], vec![], vec![]]);
            let mut tr = Tr::<Sha256>::default();
            (0..3).for_each(|_| tr.feed(&g1(Fr::zero())));
            self.ch[ZETA] = Some(tr.draw::<1>()[0]);
        }
        self.sources();
        let mut tr = Tr::<Sha256>::default();
        let var = self.var;
        for o in &var.ops {
            match o {
                Op::Feed(it) => {
                    self.decide(*it);
                    tr.feed(&g1(self.value(*it)));
                }
                Op::Reset => tr = Tr::default(),
                Op::Draw(d) => {
                    let vals: [Fr; 6] = tr.draw();
                    for (k, v) in d.iter().zip(vals) {
                        if let Some(k) = k {
                            self.ch[*k] = Some(v);
                        }
                    }
                    self.sources();
                }
            }
        }
        for it in [It::W(0), It::W(1)] {
            self.decide(it);
        }
    }
    /// The weakened verifier's equation, as polynomials.
    fn fooled(&self) -> bool {
        let (p0, p1) = self.claims();
        let (x, u) = (self.c(ZETA), self.c(U));
        let y = x * self.rt[1];
        let left = padd(
            &pmul(self.w[0].as_ref().unwrap(), &vec![-x, Fr::one()]),
            &pscale(&pmul(self.w[1].as_ref().unwrap(), &vec![-y, Fr::one()]), u),
        );
        let right = padd(&p0, &pscale(&p1, u));
        padd(&left, &pscale(&right, -Fr::one())).iter().all(|c| c.is_zero())
    }
}

pub fn weakened(ctx: &mut Ctx, n: usize) {
    let all = variants(n);
    let k = ctx.choose(all.len());
    let (name, var, atk, lie) = &all[k];
    ctx.note(|| format!("n={} weakened protocol: {}; attack {:?} on a false {:?}", n, name, atk, lie));
    let tau = big();
    let mut done = None;
    for round in 0..24u64 {
        let mut run = Run {
            var,
            atk: *atk,
            t: false_table(n, var, *atk, *lie),
            tau,
            rt: roots(n),
            bl: std::array::from_fn(|i| Fr::from(101 + 7 * i as u64 + 1000 * round)),
            ch: [None; 6],
            wire: [None, None, None],
            z: None,
            ts: None,
            fixed_t: false,
            bar: [None; 6],
            w: [None, None],
            stuck: false,
        };
        run.play();
        if !run.stuck {
            done = Some(run);
            break;
        }
    }
    let Some(run) = done else {
        ctx.fail("reference", format!("explorer bug: no root for {}", name));
    };
    // the wires the adversary settled on do not satisfy the statement
    if run.t.satisfied() {
        ctx.fail("reference", format!("explorer bug: {} {:?} {:?} is satisfied: {}", name, atk, lie, run.t.show()));
    }
    if !run.fooled() {
        ctx.fail("reference", format!("explorer bug: {:?} does not fool the protocol with {}", atk, name));
    }
    let items: Vec<It> = (0..3).map(It::Wire).chain([It::Z]).chain((0..3).map(It::T)).chain((0..2).map(It::W)).collect();
    let sp = Sp { com: std::array::from_fn(|i| run.value(items[i])), bar: run.bars(), u: run.c(U), degree: n + 1 };
    let f = Fixed::of(&run.t, tau);
    if sp.accepted::<Sha256>(&f) {
        ctx.fail("reference", format!("explorer bug: the full protocol accepts {:?} with {}", atk, name));
    }
    let cc = run.t.compiled();
    ctx.step((name.clone(), format!("{:?}{:?}", atk, lie), format!("{:?}", sp)));
    let r = ctx.must("verify", || verify::<Sha256>(&cc, srs(tau, n), sp.proof()));
    ctx.check(r.is_err(), "forged", || format!("a forged proof is accepted: the attack {:?} for protocols with '{}' proves the false statement ({:?}) {}", atk, name, lie, run.t.show()));
    // the final challenge as the full protocol has it, everything else as is
    let mut sp2 = sp.clone();
    sp2.u = sp.challenges::<Sha256>(&f).u;
    let r = ctx.must("verify", || verify::<Sha256>(&cc, srs(tau, n), sp2.proof()));
    if !sp2.accepted::<Sha256>(&f) {
        ctx.check(r.is_err(), "forged", || format!("a forged proof is accepted: the attack {:?} for protocols with '{}' and the right final challenge proves the false statement ({:?}) {}", atk, name, lie, run.t.show()));
    }
    ctx.outcome("forgery refused");
}
