//! Nova: relaxed R1CS, folding, NIFS proofs, the augmented circuit, IVC.
use super::kzg_p::{big, eval, g1};
use super::plonk_ref::{srs, Tr};
use super::Prop;
use crate::core::*;
use crate::util::*;
use ark_bls12_381::{Fq, Fr};
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use ark_serialize::CanonicalSerialize;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use nova::circuit::{AugmentedCircuit, FCircuit, State};
use nova::ivc::{IVCProof, ZkIVCProof, IVC};
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::{create_trivial_pair, is_r1cs_satisfied, FInstance, FWitness, R1CS};
use nova::transcript::Transcript;
use sha2::{Digest, Sha256, Sha512};
use std::marker::PhantomData;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "N01",
            bounds: "every R1CS of one constraint over one witness, one public and the scalar entry with coefficients {0,1} (quick) / {0,1,-1} (thorough) x all assignments from {0,1,2}; a family of R1CS of 1..5 constraints, 0..5 variables, 0..2 public entries: satisfying relaxed pairs and every single change (every pair, thorough) of a witness, error, public entry, scalar, commitment or length; 6 (12 thorough) larger shapes of up to 65 (130) constraints and 40 (128) variables with every entry changed in turn and every adjacent pair of errors changed to cancel; values of every magnitude; every value replaced by those that differ in one word",
            assumptions: &["KZG commitments are recomputed from the SRS secret"],
            scenarios: n01,
        },
        Prop {
            id: "N02",
            bounds: "every pair of (satisfying or not) relaxed pairs over the R1CS family x scalars {0,1,2} x challenges {0,1,-1,2,large}; chains of up to 4 (6 thorough) folds in every order, trivial pairs included; chains of 18 (70) folds on either side; shapes of up to 65 (130) constraints; values and challenges of every magnitude",
            assumptions: &["the reference folds vectors of field elements directly"],
            scenarios: n02,
        },
        Prop {
            id: "N03",
            bounds: "honest and simulated folding proofs over the R1CS family, transcripts with 0..2 earlier messages, Sha256 and Sha512; every single change (every pair, thorough) of the proof, the three instances and the cross-term commitment, with nothing, the folded instance, the openings or everything recomputed to match; shapes of up to 65 (130) constraints; 4..17 (70) public entries, each changed or swapped in each instance; the reference decides in the exponent; every component replaced by close values (one word changed; equal y), before and after the openings are fixed; values of every magnitude; the two public halves of the verification one after the other, or the second alone",
            assumptions: &["Fiat-Shamir coincidences of probability 2^-64 are not covered"],
            scenarios: n03,
        },
        Prop {
            id: "N04",
            bounds: "every history of up to 4 (6 thorough) steps over witnesses from a 3-value alphabet x 5 step functions x R1CS with fewer, as many and more constraints than variables x two initial states; histories of 34 and 66 (260 thorough) steps; relations of 40 rows and of 40 variables; witnesses and states of every magnitude",
            assumptions: &["fresh transcripts per step, as the example does"],
            scenarios: n04,
        },
        Prop {
            id: "N05",
            bounds: "honest and simulated IVC proofs at steps 0..4; every single change (every pair, thorough) of the proof and of the verifier's view (step, initial and current state, trivial instance), with nothing, the hash, the openings or everything recomputed to match; every proof judged at every other step; one verifier (set up, or having done the steps itself, the next one included) that sees an honest proof, one with any single change, recomputed to match or not, and the honest one again; proofs at steps 5..17 (65 thorough) under every single change; step numbers around 2^8, 2^16, 2^32 and 2^64 confused with one another; witnesses outside the relation; the reference decides in the exponent; every component and state replaced by close values; states of every magnitude",
            assumptions: &["Fiat-Shamir coincidences of probability 2^-64 are not covered"],
            scenarios: n05,
        },
        Prop {
            id: "N06",
            bounds: "every sequence of up to 5 (6 thorough) operations out of 12, the last two out of 21 (runs with honest, different, missing and wrong arguments, every component of the running instance included; moving to the next step) against a state machine; one run of 70 (300 thorough) steps per step function with wrong arguments at every step; the public hash under every one-field change, up to 33 public entries, values up to full size; states of every magnitude; arguments and hashes replaced by close values",
            assumptions: &["SHA-256 of the sha2 crate"],
            scenarios: n06,
        },
        Prop {
            id: "N07",
            bounds: "the trivial pair of every size up to 6x3, and sizes up to 33 (130 thorough), against every R1CS of N01 and the R1CS family, folded in both positions with satisfying and unsatisfying pairs under challenges {0,1,-1,2,large}",
            assumptions: &["the reference folds vectors of field elements directly"],
            scenarios: n07,
        },
        Prop {
            id: "N08",
            bounds: "every pair of vectors of length 0..3 over {0,1,-1} (length 4 and {0,1,-1,2} thorough) including all pairs of different lengths; every matrix of up to 2x2 (2x3 thorough) over the alphabet times every vector; matrices and vectors of every size up to 12x12 (40x40) in 4 patterns; integers up to 2^64-1; every length 0..260 (1030 thorough) with a change at every place; entries that differ in one word",
            assumptions: &["the reference uses the field's own addition and multiplication"],
            scenarios: n08,
        },
    ]
}

// --------------------------------------------------------------- relations
pub fn fr(v: i64) -> Fr {
    if v < 0 {
        -Fr::from(v.unsigned_abs())
    } else {
        Fr::from(v as u64)
    }
}

#[derive(Clone, Debug)]
pub struct Rel {
    pub m: usize,
    pub nv: usize,
    pub nio: usize,
    pub abc: [Vec<Vec<Fr>>; 3],
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pair {
    pub w: Vec<Fr>,
    pub e: Vec<Fr>,
    pub x: Vec<Fr>,
    pub u: Fr,
}

impl Rel {
    pub fn lib(&self) -> R1CS<Fr> {
        R1CS {
            matrix_a: self.abc[0].clone(),
            matrix_b: self.abc[1].clone(),
            matrix_c: self.abc[2].clone(),
            num_io: self.nio,
            num_vars: self.nv,
        }
    }
    pub fn rows(&self, k: usize, z: &[Fr]) -> Vec<Fr> {
        self.abc[k].iter().map(|r| r.iter().zip(z).map(|(a, b)| *a * *b).sum()).collect()
    }
    /// A z o B z - u C z
    pub fn gap(&self, w: &[Fr], x: &[Fr], u: Fr) -> Vec<Fr> {
        let z: Vec<Fr> = w.iter().chain(x).copied().chain([u]).collect();
        let (a, b, c) = (self.rows(0, &z), self.rows(1, &z), self.rows(2, &z));
        (0..self.m).map(|i| a[i] * b[i] - u * c[i]).collect()
    }
    fn holds(&self, p: &Pair) -> bool {
        p.w.len() == self.nv && p.x.len() == self.nio && p.e.len() == self.m && self.gap(&p.w, &p.x, p.u) == p.e
    }
    pub fn cross(&self, p: &Pair, q: &Pair) -> Vec<Fr> {
        let z = |p: &Pair| -> Vec<Fr> { p.w.iter().chain(&p.x).copied().chain([p.u]).collect() };
        let (y, z) = (z(p), z(q));
        let r = |k: usize, z: &[Fr]| self.rows(k, z);
        (0..self.m)
            .map(|i| r(0, &y)[i] * r(1, &z)[i] + r(0, &z)[i] * r(1, &y)[i] - p.u * r(2, &z)[i] - q.u * r(2, &y)[i])
            .collect()
    }
}

pub fn fold(r: Fr, p: &Pair, q: &Pair, t: &[Fr]) -> Pair {
    let at = |v: &Vec<Fr>, i: usize| v.get(i).copied().unwrap_or_default();
    let lin = |a: &Vec<Fr>, b: &Vec<Fr>| a.iter().zip(b).map(|(a, b)| *a + r * *b).collect();
    Pair {
        w: lin(&p.w, &q.w),
        x: lin(&p.x, &q.x),
        u: p.u + r * q.u,
        e: (0..t.len()).map(|i| at(&p.e, i) + r * t[i] + r * r * at(&q.e, i)).collect(),
    }
}

impl Pair {
    pub fn wit(&self) -> FWitness {
        FWitness { e: self.e.clone(), w: self.w.clone() }
    }
    pub fn fi(&self, tau: Fr) -> Fi {
        Fi { e: eval(&self.e, tau), u: self.u, w: eval(&self.w, tau), x: self.x.clone() }
    }
}

/// A committed instance by its discrete logarithms.
#[derive(Clone, Debug, PartialEq)]
pub struct Fi {
    pub e: Fr,
    pub u: Fr,
    pub w: Fr,
    pub x: Vec<Fr>,
}
pub fn com(x: Fr) -> KzgCommitment {
    KzgCommitment(g1(x))
}
impl Fi {
    pub fn lib(&self) -> FInstance {
        FInstance { com_e: com(self.e), u: self.u, com_w: com(self.w), x: self.x.clone() }
    }
    fn fold(r: Fr, p: &Fi, q: &Fi, t: Fr) -> Fi {
        Fi {
            e: p.e + r * t + r * r * q.e,
            u: p.u + r * q.u,
            w: p.w + r * q.w,
            x: p.x.iter().zip(&q.x).map(|(a, b)| *a + r * *b).collect(),
        }
    }
    fn is(&self, f: &FInstance) -> bool {
        f.com_e == com(self.e) && f.com_w == com(self.w) && f.u == self.u && f.x == self.x
    }
}

pub fn scheme(tau: Fr, n: usize) -> KzgScheme {
    KzgScheme::new(srs(tau, n))
}

/// R1CS of assorted shapes; k selects the coefficients.
pub fn relation(k: usize, m: usize, nv: usize, nio: usize) -> Rel {
    let cols = nv + nio + 1;
    let cell = |t: usize, i: usize, j: usize| -> Fr {
        match k {
            // sparse: one entry per row
            0 => fr(((i + t * 2 + 1) % cols == j) as i64),
            // dense and signed
            1 => fr(((3 * i + 5 * j + 7 * t + i * j) % 7) as i64 - 3),
            // constants only
            2 => fr((j + 1 == cols) as i64 * (i as i64 + t as i64 + 1)),
            // large
            3 => big() * fr((i + 2 * j + 3 * t + 1) as i64),
            // nothing at all
            4 => Fr::zero(),
            // only linear rows: B = 1
            _ => match t {
                1 => fr((j + 1 == cols) as i64),
                _ => fr(((i + j + t) % 3) as i64 - 1),
            },
        }
    };
    Rel { m, nv, nio, abc: [0, 1, 2].map(|t| (0..m).map(|i| (0..cols).map(|j| cell(t, i, j)).collect()).collect()) }
}
pub const RELATIONS: usize = 6;
pub const SHAPES: [(usize, usize, usize); 9] =
    [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 0), (3, 2, 1), (2, 3, 2), (4, 4, 1), (5, 2, 2), (3, 0, 2)];

fn vals(p: usize, n: usize, salt: usize) -> Vec<Fr> {
    (0..n)
        .map(|i| match p {
            0 => fr((2 * i + salt + 2) as i64),
            1 => Fr::zero(),
            2 => fr(-(i as i64) - 1 - salt as i64),
            _ => big() * fr((i + 3 * salt + 1) as i64),
        })
        .collect()
}

/// Sizes around the powers of two and beyond.
const LARGE: [(usize, usize, usize); 12] = [
    (9, 7, 1),
    (8, 16, 3),
    (17, 4, 9),
    (33, 31, 2),
    (5, 40, 5),
    (65, 10, 1),
    (16, 16, 16),
    (31, 33, 0),
    (3, 64, 17),
    (64, 65, 1),
    (100, 20, 3),
    (130, 128, 2),
];

/// A relaxed pair that holds: any witness, with the error it needs.
pub fn pair(rel: &Rel, pat: usize, u: Fr, salt: usize) -> Pair {
    let (w, x) = (vals(pat, rel.nv, salt), vals(pat, rel.nio, salt + 7));
    let e = rel.gap(&w, &x, u);
    Pair { w, x, u, e }
}

fn show(r: &Rel, p: &Pair) -> String {
    let m = |m: &Vec<Vec<Fr>>| m.iter().map(|r| fs(r)).collect::<Vec<_>>().join(";");
    format!(
        "A={} B={} C={} ({} vars, {} io) w={} x={} u={} e={}",
        m(&r.abc[0]),
        m(&r.abc[1]),
        m(&r.abc[2]),
        r.nv,
        r.nio,
        fs(&p.w),
        fs(&p.x),
        fs(&[p.u]),
        fs(&p.e)
    )
}

fn pick_relation(ctx: &mut Ctx, shapes: usize, kinds: usize) -> Rel {
    let (m, nv, nio) = SHAPES[ctx.choose(shapes)];
    relation(ctx.choose(kinds), m, nv, nio)
}

// --------------------------------------------------------------------- N01
fn judge_sat(ctx: &mut Ctx, rel: &Rel, p: &Pair, fi: &Fi, what: &str) {
    let tau = big();
    let n = [rel.m, rel.nv, p.w.len(), p.e.len(), 2].into_iter().max().unwrap();
    let spec = rel.holds(p) && *fi == Fi { e: eval(&p.e, tau), w: eval(&p.w, tau), ..fi.clone() };
    let r = ctx.must("is_r1cs_satisfied", || is_r1cs_satisfied(&rel.lib(), &fi.lib(), &p.wit(), &scheme(tau, n)));
    ctx.step((show(rel, p), format!("{:?}", fi)));
    ctx.note(|| format!("{}: {} -> {:?}", what, show(rel, p), r));
    if r.is_ok() != spec {
        ctx.fail(if spec { "rejected" } else { "accepted" }, format!("{}: the relation {}, is_r1cs_satisfied says {:?}: {} for {:?}", what, if spec { "holds" } else { "does not hold" }, r, show(rel, p), fi));
    }
    ctx.outcome(if spec { "holds" } else { "does not hold" });
}

fn tiny_relation(ctx: &mut Ctx, alphabet: &[i64]) -> Rel {
    let mut row = || -> Vec<Fr> { (0..3).map(|_| fr(*ctx.pick(alphabet))).collect() };
    Rel { m: 1, nv: 1, nio: 1, abc: [vec![row()], vec![row()], vec![row()]] }
}

fn n01(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("every-one-row-relation", 0, move |ctx| {
            let rel = tiny_relation(ctx, if quick { &[0, 1] } else { &[0, 1, -1] });
            let a: &[i64] = if quick { &[1, 2] } else { &[0, 1, 2] };
            let p = Pair {
                w: vec![fr(*ctx.pick(a))],
                x: vec![fr(*ctx.pick(a))],
                u: fr(*ctx.pick(a)),
                e: vec![fr(*ctx.pick(&[0, 1, -1]))],
            };
            let fi = p.fi(big());
            judge_sat(ctx, &rel, &p, &fi, "tiny");
        }),
        scenario("holding-and-changed", if quick { 1 } else { 2 }, move |ctx| {
            let rel = pick_relation(ctx, SHAPES.len(), RELATIONS);
            let u = fr(*ctx.pick(if quick { &[0, 1, 2][..] } else { &[0, 1, -1, 2] }));
            let mut p = pair(&rel, if quick { ctx.choose(2) * 3 } else { ctx.choose(4) }, u, 0);
            let mut q = p.fi(big());
            let mut what = String::new();
            for _ in 0..if quick { 1 } else { 2 } {
                let d = ctx.dev(1 + rel.nv + rel.m + rel.nio + 1 + 8);
                if d == 0 {
                    continue;
                }
                let d = d - 1;
                what += &format!(" change {}", d);
                let (a, b, c) = (rel.nv, rel.nv + rel.m, rel.nv + rel.m + rel.nio);
                if d < a {
                    p.w[d] += Fr::one();
                } else if d < b {
                    if d - a < p.e.len() {
                        p.e[d - a] += Fr::one();
                    }
                } else if d < c {
                    if d - b < p.x.len() {
                        p.x[d - b] += Fr::one();
                    }
                } else {
                    match d - c {
                        0 => p.u += Fr::one(),
                        1 => p.w.push(Fr::one()),
                        2 => drop(p.w.pop()),
                        3 => p.e.push(Fr::zero()),
                        4 => drop(p.e.pop()),
                        5 => p.x.push(Fr::zero()),
                        6 => drop(p.x.pop()),
                        7 => q.e += Fr::one(),
                        _ => q.w += Fr::one(),
                    }
                }
            }
            // the instance either follows the change or keeps the old commitments
            let follow = ctx.choose(if ctx.devs() > 0 { 3 } else { 1 });
            let (we, ww) = (q.e - p.fi(big()).e, q.w - p.fi(big()).w);
            let _ = (we, ww);
            let mut fi = p.fi(big());
            match follow {
                1 => (fi.e, fi.w) = (q.e, q.w),
                2 => std::mem::swap(&mut fi.e, &mut fi.w),
                _ => {}
            }
            judge_sat(ctx, &rel, &p, &fi, &format!("changed:{}", what));
        }),
        scenario("compensating-changes", 0, move |ctx| {
            // two rows, two entries: errors that cancel in a sum
            let rel = pick_relation(ctx, SHAPES.len(), RELATIONS);
            let mut p = pair(&rel, 0, fr(*ctx.pick(&[1, 2])), 0);
            let i = ctx.choose(rel.m);
            let j = ctx.choose(rel.m);
            if i >= j {
                ctx.prune();
            }
            p.e[i] += Fr::one();
            p.e[j] -= Fr::one();
            let fi = p.fi(big());
            judge_sat(ctx, &rel, &p, &fi, "cancelling");
        }),
        scenario("large-relations", 0, move |ctx| {
            // more constraints and variables; one entry changed, at every place
            let (m, nv, nio) = *ctx.pick(if quick { &LARGE[..6] } else { &LARGE[..] });
            let rel = relation(*ctx.pick(&[1, 3]), m, nv, nio);
            let mut p = pair(&rel, *ctx.pick(&[0, 3]), fr(*ctx.pick(&[1, 2])), 0);
            let d = ctx.choose(2 + nv + m + nio + m.saturating_sub(1));
            let (a, b, c) = (2 + nv, 2 + nv + m, 2 + nv + m + nio);
            match d {
                0 => {}
                1 => p.u += Fr::one(),
                d if d < a => p.w[d - 2] += Fr::one(),
                d if d < b => p.e[d - a] += Fr::one(),
                d if d < c => p.x[d - b] += Fr::one(),
                d => {
                    // two errors that cancel in a sum
                    p.e[d - c] += Fr::one();
                    p.e[d - c + 1] -= Fr::one();
                }
            }
            let fi = p.fi(big());
            judge_sat(ctx, &rel, &p, &fi, "large");
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // one coefficient or entry of every magnitude, its error to match;
            // or one entry then replaced by one that differs in a single word
            let mut rel = relation(ctx.choose(2), 3, 2, 1);
            let v = *ctx.pick(&wide::<_, 4>());
            let (mut w, mut x, mut u) = (vals(0, 2, 0), vals(0, 1, 7), fr(2));
            let role = ctx.choose(if quick { 5 } else { 7 });
            match role {
                0 => w[0] = v,
                1 => x[0] = v,
                2 => u = v,
                3 => rel.abc[0][1][1] = v,
                4 => rel.abc[2][2][3] = v,
                5 => rel.abc[1][0][2] = v,
                _ => w[1] = v,
            }
            let e = rel.gap(&w, &x, u);
            let p = Pair { w, x, u, e };
            let fi = p.fi(big());
            judge_sat(ctx, &rel, &p, &fi, "holds");
            let mut q = p.clone();
            q.e[role % 3] += v;
            let fi = q.fi(big());
            judge_sat(ctx, &rel, &q, &fi, "error off by that much");
        }),
        scenario("close-values", 0, move |ctx| {
            // entries that differ from the right ones in a single word, the
            // commitments following or not
            let rel = relation(ctx.choose(2), 3, 2, 1);
            let p = pair(&rel, *ctx.pick(&[0, 3]), fr(*ctx.pick(&[1, 2])), 0);
            let mut q = p.clone();
            let mut fi = p.fi(big());
            let slots: Vec<&mut Fr> = q.w.iter_mut().chain(&mut q.e).chain(&mut q.x).chain([&mut q.u, &mut fi.e, &mut fi.w]).collect();
            let n = slots.len();
            let k = ctx.choose(n);
            let x = slots.into_iter().nth(k).unwrap();
            let mut to = if quick { nearest(*x) } else { near(*x) };
            to.extend([*x * cube_root::<Fr>(), -*x]);
            *x = *ctx.pick(&to);
            if ctx.flag() {
                if k + 2 >= n {
                    ctx.prune();
                }
                fi = q.fi(big());
            } else {
                fi.x = q.x.clone();
                fi.u = q.u;
            }
            judge_sat(ctx, &rel, &q, &fi, &format!("close value in slot {}", k));
        }),
    ]
}

// --------------------------------------------------------------------- N02
const RS: [i64; 4] = [0, 1, -1, 2];
fn pick_r(ctx: &mut Ctx) -> Fr {
    let k = ctx.choose(5);
    RS.get(k).map(|r| fr(*r)).unwrap_or(big())
}

type Nf = NIFS<Sha256>;

/// One fold through the library with a given challenge, against the reference.
fn fold_checked(ctx: &mut Ctx, rel: &Rel, p: &Pair, q: &Pair, r: Fr) -> Pair {
    let tau = big();
    let z = |p: &Pair| -> Vec<Fr> { p.w.iter().chain(&p.x).copied().chain([p.u]).collect() };
    let t = ctx.must("compute_t", || Nf::compute_t(&rel.lib(), p.u, q.u, &z(p), &z(q)));
    let want_t = rel.cross(p, q);
    ctx.check(t == want_t, "cross-term", || format!("cross term {} instead of {} for {} and {}", fs(&t), fs(&want_t), show(rel, p), show(rel, q)));
    let w = ctx.must("fold_witness", || Nf::fold_witness(r, &p.wit(), &q.wit(), &t));
    let want = fold(r, p, q, &want_t);
    ctx.check(w.w == want.w && w.e == want.e, "witness", || {
        format!("folding with r={} gives w={} e={} instead of w={} e={}: {} and {}", fs(&[r]), fs(&w.w), fs(&w.e), fs(&want.w), fs(&want.e), show(rel, p), show(rel, q))
    });
    let ct = com(eval(&want_t, tau));
    let (a, b) = (p.fi(tau).lib(), q.fi(tau).lib());
    let fi = ctx.must("fold_instance", || Nf::fold_instance(r, &a, &b, &ct));
    let vi = ctx.must("verifier", || Nf::verifier(r, &a, &b, &ct));
    let wi = want.fi(tau);
    ctx.check(wi.is(&fi), "instance", || format!("folding with r={}: the prover's instance is not that of the folded witness: {} and {}", fs(&[r]), show(rel, p), show(rel, q)));
    ctx.check(wi.is(&vi), "verifier-instance", || format!("folding with r={}: the verifier's instance is not the prover's: {} and {}", fs(&[r]), show(rel, p), show(rel, q)));
    want
}

fn fold_and_judge(ctx: &mut Ctx, rel: &Rel, p: &Pair, q: &Pair, r: Fr) -> Pair {
    let f = fold_checked(ctx, rel, p, q, r);
    let n = rel.m.max(rel.nv).max(2);
    let holds = rel.holds(&f);
    let fi = f.fi(big()).lib();
    let s = ctx.must("is_r1cs_satisfied", || is_r1cs_satisfied(&rel.lib(), &fi, &f.wit(), &scheme(big(), n)));
    ctx.check(s.is_ok() == holds, "judged", || format!("the folded pair {} is judged {:?}", show(rel, &f), s));
    let padded = |p: &Pair| {
        let mut p = p.clone();
        p.e.resize(rel.m, Fr::zero());
        p
    };
    if rel.holds(&padded(p)) && rel.holds(&padded(q)) && !holds {
        ctx.fail("lost", format!("two holding pairs fold (r={}) into one that does not hold: {} and {}", fs(&[r]), show(rel, p), show(rel, q)));
    }
    ctx.step((show(rel, &f), holds));
    f
}

fn n02(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("one-fold", 0, move |ctx| {
            let rel = pick_relation(ctx, SHAPES.len(), RELATIONS);
            let us: &[i64] = if quick { &[0, 1, 2] } else { &[0, 1, -1, 2] };
            let pats: &[usize] = if quick { &[0, 3] } else { &[0, 1, 2, 3] };
            let mut p = pair(&rel, *ctx.pick(pats), fr(*ctx.pick(us)), 0);
            let q = pair(&rel, *ctx.pick(&[0, 2]), fr(*ctx.pick(us)), 1);
            match ctx.choose(3) {
                0 => {}
                1 => p.e[0] += Fr::one(),
                _ => {
                    if let Some(w) = p.w.first_mut() {
                        *w += Fr::one()
                    }
                }
            }
            let r = pick_r(ctx);
            let both = rel.holds(&p) && rel.holds(&q);
            fold_and_judge(ctx, &rel, &p, &q, r);
            ctx.outcome(if both { "both hold" } else { "one does not hold" });
        }),
        scenario("every-one-row-relation", 0, move |ctx| {
            let rel = tiny_relation(ctx, &[0, 1]);
            let a: &[i64] = if quick { &[2] } else { &[0, 1, 2] };
            let p = pair_of(&rel, fr(*ctx.pick(a)), fr(3), fr(*ctx.pick(&[0, 1])));
            let q = pair_of(&rel, fr(5), fr(*ctx.pick(a)), fr(*ctx.pick(&[1, 2])));
            let r = pick_r(ctx);
            fold_and_judge(ctx, &rel, &p, &q, r);
        }),
        scenario("chains", 0, move |ctx| {
            // a history of folds, the running pair on either side
            let rel = pick_relation(ctx, if quick { 7 } else { SHAPES.len() }, 2);
            let depth = ctx.range(2, if quick { 3 } else { 5 });
            let mut run = pair(&rel, 0, fr(*ctx.pick(&[0, 1])), 0);
            for k in 0..depth {
                let fresh = pair(&rel, [0, 3][k % 2], fr(1), k + 1);
                let r = *ctx.pick(&[fr(1), big()]);
                run = if ctx.flag() { fold_and_judge(ctx, &rel, &run, &fresh, r) } else { fold_and_judge(ctx, &rel, &fresh, &run, r) };
            }
            ctx.outcome("chain holds");
        }),
        scenario("long-chains", 0, move |ctx| {
            // many folds: the running pair on the left, on the right, in turns
            let (m, nv, nio) = *ctx.pick(&[(2, 2, 1), (9, 5, 2), (4, 17, 3), (33, 20, 1)]);
            let rel = relation(*ctx.pick(&[1, 5]), m, nv, nio);
            let order = ctx.choose(3);
            let r = *ctx.pick(&[fr(1), fr(2), big()]);
            let mut run = Pair { w: vec![Fr::zero(); nv], x: vec![Fr::zero(); nio], u: Fr::zero(), e: vec![Fr::zero(); m] };
            for k in 0..if quick { 18 } else { 70 } {
                let fresh = pair(&rel, [0, 3, 2][k % 3], fr(if k % 4 == 3 { 2 } else { 1 }), k + 1);
                run = if order == 0 || order == 2 && k % 2 == 0 { fold_and_judge(ctx, &rel, &run, &fresh, r) } else { fold_and_judge(ctx, &rel, &fresh, &run, r) };
            }
            ctx.outcome("long chain holds");
        }),
        scenario("large-relations", 0, move |ctx| {
            let (m, nv, nio) = *ctx.pick(if quick { &LARGE[..9] } else { &LARGE[..] });
            let rel = relation(*ctx.pick(&[1, 3, 5]), m, nv, nio);
            let p = pair(&rel, *ctx.pick(&[0, 3]), fr(*ctx.pick(&[0, 1, 2])), 0);
            let q = pair(&rel, *ctx.pick(&[0, 2]), fr(*ctx.pick(&[1, 2])), 1);
            let r = *ctx.pick(&[fr(2), big()]);
            fold_and_judge(ctx, &rel, &p, &q, r);
            ctx.outcome("large");
        }),
        scenario("prover", 0, move |ctx| {
            // the prover's own fold, its challenge drawn from the transcript
            let rel = pick_relation(ctx, SHAPES.len(), RELATIONS);
            let p = pair(&rel, ctx.choose(4), fr(*ctx.pick(&[0, 1, 2])), 0);
            let q = pair(&rel, ctx.choose(4), fr(*ctx.pick(&[0, 1, 2])), 1);
            let tau = big();
            let s = scheme(tau, rel.m.max(rel.nv).max(2));
            let mut t = Transcript::<Sha256>::default();
            let (w, fi, ct, r) = ctx.must("prover", || Nf::prover(&rel.lib(), &p.wit(), &q.wit(), &p.fi(tau).lib(), &q.fi(tau).lib(), &s, &mut t));
            let want_t = rel.cross(&p, &q);
            let want = fold(r, &p, &q, &want_t);
            ctx.step((show(&rel, &want), fs(&[r])));
            ctx.check(w.w == want.w && w.e == want.e, "prover-witness", || format!("the prover folds {} and {} into w={} e={}, not {}", show(&rel, &p), show(&rel, &q), fs(&w.w), fs(&w.e), show(&rel, &want)));
            ctx.check(ct == com(eval(&want_t, tau)), "prover-cross-term", || format!("commitment to the cross term of {} and {}", show(&rel, &p), show(&rel, &q)));
            ctx.check(want.fi(tau).is(&fi), "prover-instance", || format!("the prover's folded instance of {} and {}", show(&rel, &p), show(&rel, &q)));
            let ok = ctx.must("is_r1cs_satisfied", || is_r1cs_satisfied(&rel.lib(), &fi, &w, &s));
            ctx.check(ok.is_ok(), "lost", || format!("the prover folds the holding {} and {} into a pair that does not hold", show(&rel, &p), show(&rel, &q)));
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // one entry of either pair, or the challenge, of every magnitude
            let rel = relation(ctx.choose(2), 3, 2, 1);
            let v = *ctx.pick(&wide::<_, 4>());
            let mut r = fr(3);
            let (mut w, mut x, mut u) = (vals(0, 2, 0), vals(0, 1, 7), fr(2));
            let q = pair(&rel, 2, fr(1), 1);
            let role = ctx.choose(4);
            match role {
                0 => w[1] = v,
                1 => x[0] = v,
                2 => u = v,
                _ => r = v,
            }
            let e = rel.gap(&w, &x, u);
            let p = Pair { w, x, u, e };
            if role < 3 && ctx.flag() {
                fold_and_judge(ctx, &rel, &q, &p, r);
            } else {
                fold_and_judge(ctx, &rel, &p, &q, r);
            }
            ctx.outcome("folded");
        }),
    ]
}

fn pair_of(rel: &Rel, w: Fr, x: Fr, u: Fr) -> Pair {
    let e = rel.gap(&[w], &[x], u);
    Pair { w: vec![w], x: vec![x], u, e }
}

// --------------------------------------------------------------------- N03
#[derive(Clone, Debug, PartialEq)]
pub struct Np {
    pub r: Fr,
    pub z: Fr,
    /// (quotient, value) for E and W
    pub e: (Fr, Fr),
    pub w: (Fr, Fr),
}
impl Np {
    pub fn lib(&self) -> NIFSProof {
        let o = |p: (Fr, Fr)| KzgOpening(g1(p.0), p.1);
        NIFSProof { r: self.r, opening_point: self.z, opening_e: o(self.e), opening_w: o(self.w) }
    }
}

/// Everything a folding verifier sees.
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub f: [Fi; 3],
    pub t: Fr,
    pub np: Np,
    /// what both transcripts absorbed before
    pub before: Vec<Fr>,
}

impl Case {
    fn transcript<D: Digest + Default>(&self) -> Tr<D> {
        let mut tr = Tr::<D>::default();
        for b in &self.before {
            tr.feed_scalar(*b);
        }
        tr
    }
    fn draw_r<D: Digest + Default>(&self, tr: &mut Tr<D>) -> Fr {
        for f in &self.f[..2] {
            tr.feed(&g1(f.e));
            tr.feed_scalar(f.u);
            tr.feed(&g1(f.w));
            for x in &f.x {
                tr.feed_scalar(*x);
            }
        }
        tr.feed(&g1(self.t));
        tr.draw::<1>()[0]
    }
    fn draw_z<D: Digest + Default>(&self, tr: &mut Tr<D>) -> Fr {
        tr.feed(&g1(self.f[2].e));
        tr.feed(&g1(self.f[2].w));
        tr.draw::<1>()[0]
    }
    fn folded(&self) -> Fi {
        Fi::fold(self.np.r, &self.f[0], &self.f[1], self.t)
    }
    fn accepted<D: Digest + Default>(&self, tau: Fr) -> bool {
        let mut tr = self.transcript::<D>();
        let r = self.draw_r(&mut tr);
        let z = self.draw_z(&mut tr);
        let open = |c: Fr, o: (Fr, Fr)| c - o.1 == (tau - z) * o.0;
        self.np.r == r && self.np.z == z && self.f[2] == self.folded() && open(self.f[2].e, self.np.e) && open(self.f[2].w, self.np.w)
    }
    /// Make it match: 1 the folded instance, 2 also the opening point and quotients, 3 the challenge as well.
    fn mend<D: Digest + Default>(&mut self, level: usize, tau: Fr) {
        if level == 0 {
            return;
        }
        let mut tr = self.transcript::<D>();
        let r = self.draw_r(&mut tr);
        if level == 3 {
            self.np.r = r;
        }
        self.f[2] = self.folded();
        if level == 1 {
            return;
        }
        self.np.z = self.draw_z(&mut tr);
        let q = (tau - self.np.z).inverse().unwrap();
        self.np.e.0 = (self.f[2].e - self.np.e.1) * q;
        self.np.w.0 = (self.f[2].w - self.np.w.1) * q;
    }
    fn verify<D: Digest + Default>(&self, ctx: &mut Ctx, tau: Fr, before: &[Fr]) -> bool {
        let mut t = Transcript::<D>::default();
        for b in before {
            t.feed_scalar_num(*b);
        }
        let f = self.f.clone().map(|f| f.lib());
        ctx.must("verify", || NIFS::<D>::verify(&self.np.lib(), &f[0], &f[1], &f[2], &com(self.t), &scheme(tau, 2), &mut t)).is_ok()
    }
}

/// An honest case, computed from vectors, or a simulated one from bare numbers.
pub fn simulated(k: usize, nx: usize, before: Vec<Fr>, tau: Fr) -> Case {
    let v = |i: usize| match k {
        0 => fr((i * i + 13 * i + 5) as i64),
        1 => big() * fr(i as i64 + 1),
        _ => fr((i % 2) as i64),
    };
    let f = |s: usize| Fi { e: v(s), u: v(s + 1), w: v(s + 2), x: (0..nx).map(|j| v(s + 3 + j)).collect() };
    let mut c = Case {
        f: [f(1), f(11), f(21)],
        t: v(31),
        np: Np { r: Fr::zero(), z: Fr::zero(), e: (v(32), v(33)), w: (v(34), v(35)) },
        before,
    };
    c.mend::<Sha256>(3, tau);
    c
}

fn change_fi(f: &mut Fi, part: usize, how: usize) -> bool {
    let x = match part {
        0 => &mut f.e,
        1 => &mut f.u,
        2 => &mut f.w,
        _ => match f.x.first_mut() {
            Some(x) => x,
            None => return false,
        },
    };
    change(x, how)
}
fn change(x: &mut Fr, how: usize) -> bool {
    let old = *x;
    match how {
        0 => *x += Fr::one(),
        1 => *x = -*x,
        _ => *x = Fr::zero(),
    }
    *x != old
}

const CASE_CHANGES: usize = 12 * 3 + 7 * 3 + 6 + 4;
pub fn change_case(c: &mut Case, d: usize) -> bool {
    if d < 36 {
        return change_fi(&mut c.f[d / 12], d / 3 % 4, d % 3);
    }
    let d = d - 36;
    if d < 21 {
        let x = match d / 3 {
            0 => &mut c.t,
            1 => &mut c.np.r,
            2 => &mut c.np.z,
            3 => &mut c.np.e.0,
            4 => &mut c.np.e.1,
            5 => &mut c.np.w.0,
            _ => &mut c.np.w.1,
        };
        return change(x, d % 3);
    }
    match d - 21 {
        k @ 0..=2 => c.f[k].x.push(Fr::zero()),
        k @ 3..=5 => return c.f[k - 3].x.pop().is_some(),
        6 => c.f.swap(0, 1),
        7 => c.f.swap(1, 2),
        8 => std::mem::swap(&mut c.np.e, &mut c.np.w),
        _ => std::mem::swap(&mut c.np.r, &mut c.np.z),
    }
    true
}

/// Every scalar and discrete logarithm of a case; `true` for the latter.
pub fn slots_of(c: &mut Case) -> Vec<(&mut Fr, bool)> {
    let np = &mut c.np;
    let mut v = vec![(&mut c.t, true), (&mut np.e.0, true), (&mut np.e.1, false), (&mut np.w.0, true), (&mut np.w.1, false), (&mut np.r, false), (&mut np.z, false)];
    for f in c.f.iter_mut() {
        v.extend([(&mut f.e, true), (&mut f.u, false), (&mut f.w, true)]);
        v.extend(f.x.iter_mut().map(|x| (x, false)));
    }
    v
}

fn judge_case<D: Digest + Default>(ctx: &mut Ctx, c: &Case, before: &[Fr], what: &str) {
    let tau = big();
    let mut view = c.clone();
    view.before = before.to_vec();
    let spec = view.accepted::<D>(tau);
    let ok = c.verify::<D>(ctx, tau, before);
    ctx.step((format!("{:?}", c), fs(before)));
    ctx.note(|| format!("{}: {:?} -> spec {} verify {}", what, c, spec, ok));
    if ok != spec {
        ctx.fail(if spec { "rejected" } else { "accepted" }, format!("{}: the specification {} this folding, verify {}: {:?}", what, if spec { "accepts" } else { "rejects" }, if ok { "accepts" } else { "rejects" }, c));
    }
    ctx.outcome(if spec { "accepted" } else { "rejected" });
}

fn n03(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let devs = if quick { 1 } else { 2 };
    let changed = move |ctx: &mut Ctx, mut c: Case| {
        let mut what = vec![];
        for _ in 0..devs {
            let d = ctx.dev(1 + CASE_CHANGES);
            if d > 0 {
                if !change_case(&mut c, d - 1) {
                    ctx.prune();
                }
                what.push(format!("change {}", d - 1));
            }
        }
        let mend = ctx.choose(4);
        c.mend::<Sha256>(mend, big());
        let before = c.before.clone();
        judge_case::<Sha256>(ctx, &c, &before, &format!("{} mended {}", what.join(" and "), mend));
    };
    vec![
        scenario("honest", 0, move |ctx| {
            let rel = if ctx.flag() {
                let (m, nv, nio) = *ctx.pick(if quick { &LARGE[..6] } else { &LARGE[..] });
                relation(1, m, nv, nio)
            } else {
                pick_relation(ctx, SHAPES.len(), RELATIONS)
            };
            let p = pair(&rel, *ctx.pick(&[0, 1, 3]), fr(*ctx.pick(&[0, 1])), 0);
            let q = pair(&rel, *ctx.pick(&[0, 2]), fr(*ctx.pick(&[1, 2])), 1);
            let before: Vec<Fr> = (0..ctx.choose(3)).map(|i| fr(i as i64 + 40)).collect();
            macro_rules! go {
                ($d:ty) => {{
                    let tau = big();
                    let s = scheme(tau, rel.m.max(rel.nv).max(2));
                    let mut t = Transcript::<$d>::default();
                    let mut v = Transcript::<$d>::default();
                    for b in &before {
                        t.feed_scalar_num(*b);
                        v.feed_scalar_num(*b);
                    }
                    let (a, b) = (p.fi(tau).lib(), q.fi(tau).lib());
                    let (w, fi, ct, r) = ctx.must("prover", || NIFS::<$d>::prover(&rel.lib(), &p.wit(), &q.wit(), &a, &b, &s, &mut t));
                    let proof = ctx.must("prove", || NIFS::<$d>::prove(r, &w, &fi, &s, &mut t));
                    let vi = ctx.must("verifier", || NIFS::<$d>::verifier(r, &a, &b, &ct));
                    ctx.step((show(&rel, &p), show(&rel, &q), fs(&[r])));
                    let ok = ctx.must("verify", || NIFS::<$d>::verify(&proof, &a, &b, &vi, &ct, &s, &mut v));
                    ctx.check(ok.is_ok(), "honest-rejected", || format!("honest folding of {} and {} rejected: {:?}", show(&rel, &p), show(&rel, &q), ok));
                    // and it is the proof the specification expects
                    let t = eval(&rel.cross(&p, &q), tau);
                    let mut c = Case { f: [p.fi(tau), q.fi(tau), p.fi(tau)], t, np: Np { r, z: Fr::zero(), e: Default::default(), w: Default::default() }, before: before.clone() };
                    c.mend::<$d>(3, tau);
                    let f = fold(c.np.r, &p, &q, &rel.cross(&p, &q));
                    c.np.e.1 = eval(&f.e, c.np.z);
                    c.np.w.1 = eval(&f.w, c.np.z);
                    c.mend::<$d>(2, tau);
                    let want = c.np.lib();
                    let same = want.r == proof.r && want.opening_point == proof.opening_point
                        && want.opening_e.0 == proof.opening_e.0 && want.opening_e.1 == proof.opening_e.1
                        && want.opening_w.0 == proof.opening_w.0 && want.opening_w.1 == proof.opening_w.1;
                    ctx.check(same, "proof", || format!("the proof for {} and {} is not the specified one: {:?}", show(&rel, &p), show(&rel, &q), c));
                }};
            }
            if ctx.flag() {
                go!(Sha512)
            } else {
                go!(Sha256)
            }
            ctx.outcome("accepted");
        }),
        scenario("simulated-and-changed", devs, move |ctx| {
            let k = ctx.choose(if quick { 3 } else { 1 });
            let nx = ctx.choose(if quick { 3 } else { 2 });
            let before: Vec<Fr> = (0..ctx.choose(if quick { 2 } else { 1 })).map(|i| fr(i as i64 + 40)).collect();
            changed(ctx, simulated(k, nx, before, big()))
        }),
        // the two halves of the verifier, each on its own
        scenario("halves", 1, move |ctx| {
            let tau = big();
            let k = ctx.choose(3);
            let nx = ctx.choose(3);
            let before: Vec<Fr> = (0..ctx.choose(2)).map(|i| fr(i as i64 + 40)).collect();
            let mut c = simulated(k, nx, before, tau);
            let d = ctx.dev(1 + CASE_CHANGES);
            if d > 0 && !change_case(&mut c, d - 1) {
                ctx.prune();
            }
            c.mend::<Sha256>(ctx.choose(4), tau);
            // the opening half after the challenge, or right away
            let after = ctx.flag();
            let f = c.f.clone().map(|f| f.lib());
            let mut t = Transcript::<Sha256>::default();
            for b in &c.before {
                t.feed_scalar_num(*b);
            }
            let mut tr = c.transcript::<Sha256>();
            if after {
                let r = c.draw_r(&mut tr);
                let got = ctx.must("verify_challenge", || NIFS::<Sha256>::verify_challenge(c.np.r, &f[0], &f[1], &com(c.t), &mut t));
                ctx.check(got.is_ok() == (c.np.r == r), "challenge", || format!("the challenge half says {:?} of {:?}", got, c));
            }
            let z = c.draw_z(&mut tr);
            if !after && ctx.flag() {
                c.np.z = z;
                let q = (tau - z).inverse().unwrap();
                c.np.e.0 = (c.f[2].e - c.np.e.1) * q;
                c.np.w.0 = (c.f[2].w - c.np.w.1) * q;
                if let side @ 1.. = ctx.choose(5) {
                    *[&mut c.np.e.0, &mut c.np.e.1, &mut c.np.w.0, &mut c.np.w.1][side - 1] += Fr::one();
                }
            }
            let open = |c: Fr, o: (Fr, Fr)| c - o.1 == (tau - z) * o.0;
            let want = c.np.z == z && open(c.f[2].e, c.np.e) && open(c.f[2].w, c.np.w);
            let got = ctx.must("verify_opening", || NIFS::<Sha256>::verify_opening(&c.np.lib(), &f[2], &scheme(tau, 2), &mut t));
            ctx.step((format!("{:?}", c), after));
            ctx.note(|| format!("{:?}, challenge first {}: {:?}", c, after, got));
            ctx.check(got.is_ok() == want, "opening", || format!("the opening half (challenge first: {}) says {:?} of {:?}", after, got, c));
            ctx.outcome(format!("opening {}", if want { "accepted" } else { "rejected" }));
        }),
        scenario("honest-and-changed", devs, move |ctx| {
            let rel = relation(1, 3, 2, 1);
            let tau = big();
            let p = pair(&rel, 0, Fr::one(), 0);
            let q = if ctx.flag() { pair(&rel, 0, fr(2), 1) } else { Pair { w: vec![Fr::zero(); 2], x: vec![Fr::zero()], u: Fr::zero(), e: vec![Fr::zero(); 3] } };
            let t = rel.cross(&p, &q);
            let mut c = Case { f: [p.fi(tau), q.fi(tau), p.fi(tau)], t: eval(&t, tau), np: Np { r: Fr::zero(), z: Fr::zero(), e: Default::default(), w: Default::default() }, before: vec![] };
            c.mend::<Sha256>(3, tau);
            let f = fold(c.np.r, &p, &q, &t);
            (c.np.e.1, c.np.w.1) = (eval(&f.e, c.np.z), eval(&f.w, c.np.z));
            c.mend::<Sha256>(2, tau);
            changed(ctx, c)
        }),
        scenario("special-commitments-changed", 1, move |ctx| {
            // identity commitments, equal ones, zero scalars and zero openings
            let tau = big();
            let mut c = simulated(0, 1, vec![], tau);
            match ctx.choose(4) {
                0 => (c.f[0].e, c.f[1].e, c.t) = Default::default(),
                1 => (c.f[0].e, c.f[1].e) = Default::default(),
                2 => (c.f[1].e, c.t) = Default::default(),
                _ => {}
            }
            match ctx.choose(4) {
                0 => (c.f[0].w, c.f[1].w) = Default::default(),
                1 => c.f[1].w = Fr::zero(),
                2 => (c.f[0].w, c.f[1].w) = (c.f[0].e, c.f[1].e),
                _ => {}
            }
            match ctx.choose(3) {
                0 => (c.f[0].u, c.f[1].u, c.f[0].x[0], c.f[1].x[0]) = Default::default(),
                1 => (c.f[0].u, c.f[1].u, c.f[1].x[0]) = (Fr::zero(), Fr::one(), Fr::zero()),
                _ => {}
            }
            if ctx.flag() {
                (c.np.e.1, c.np.w.1) = Default::default();
            }
            c.mend::<Sha256>(3, tau);
            let d = ctx.dev(1 + CASE_CHANGES);
            if d > 0 && !change_case(&mut c, d - 1) {
                ctx.prune();
            }
            let mend = if d == 0 { 0 } else { ctx.choose(3) };
            c.mend::<Sha256>(mend, tau);
            judge_case::<Sha256>(ctx, &c, &[], &format!("special commitments, change {} mended {}", d, mend));
        }),
        scenario("many-public-entries", 0, move |ctx| {
            // each public entry counts, in each of the three instances
            let nx = *ctx.pick(if quick { &[4, 9, 17][..] } else { &[4, 5, 8, 9, 16, 17, 33, 70] });
            let mut c = simulated(ctx.choose(2), nx, vec![], big());
            let d = ctx.choose(1 + 3 * nx + 3 * (nx - 1));
            if d > 3 * nx {
                let d = d - 1 - 3 * nx;
                c.f[d / (nx - 1)].x.swap(d % (nx - 1), d % (nx - 1) + 1);
            } else if d > 0 {
                c.f[(d - 1) / nx].x[(d - 1) % nx] += Fr::one();
            }
            let mend = ctx.choose(4);
            c.mend::<Sha256>(mend, big());
            judge_case::<Sha256>(ctx, &c, &[], &format!("{} public entries, change {} mended {}", nx, d, mend));
        }),
        scenario("transcript-histories", 0, move |ctx| {
            // prover and verifier must have absorbed the same messages before
            let hist = |ctx: &mut Ctx| -> Vec<Fr> { (0..ctx.choose(3)).map(|_| fr(*ctx.pick(&[0, 1]))).collect() };
            let a = hist(ctx);
            let b = hist(ctx);
            let c = simulated(ctx.choose(2), 1, a, big());
            judge_case::<Sha256>(ctx, &c, &b, "other history");
        }),
        scenario("sizes-and-values", 0, move |ctx| {
            // simulated proofs with components from a small alphabet
            let v = [Fr::zero(), Fr::one(), -Fr::one()];
            let mut c = simulated(0, 1, vec![], big());
            let i = ctx.choose(19);
            let j = i + ctx.choose(19 - i);
            let (x, y) = (*ctx.pick(&v), *ctx.pick(&v));
            for (k, x) in [(i, x), (j, y)] {
                let slots: [&mut Fr; 19] = [
                    &mut c.t,
                    &mut c.np.e.1,
                    &mut c.np.w.1,
                    &mut c.np.e.0,
                    &mut c.np.w.0,
                    &mut c.np.r,
                    &mut c.np.z,
                ]
                .into_iter()
                .chain(c.f.iter_mut().flat_map(|f| [&mut f.e, &mut f.u, &mut f.w, &mut f.x[0]]))
                .collect::<Vec<_>>()
                .try_into()
                .unwrap();
                *slots.into_iter().nth(k).unwrap() = x;
            }
            let lvl = if ctx.flag() { 3 } else { 0 };
            c.mend::<Sha256>(lvl, big());
            judge_case::<Sha256>(ctx, &c, &[], "small values");
        }),
        scenario("close-values", 0, move |ctx| {
            let nx = ctx.range(1, 2);
            let mut c = simulated(ctx.choose(2), nx, vec![], big());
            let n = slots_of(&mut c).len();
            let k = ctx.choose(n);
            let (old, point) = slots_of(&mut c).into_iter().map(|(x, p)| (*x, p)).nth(k).unwrap();
            let to = close_to(old, point, quick);
            if to.is_empty() {
                ctx.prune();
            }
            let v = *ctx.pick(&to);
            *slots_of(&mut c).into_iter().nth(k).unwrap().0 = v;
            let mend = ctx.choose(4);
            c.mend::<Sha256>(mend, big());
            judge_case::<Sha256>(ctx, &c, &[], &format!("slot {} from {} to {}, mended {}", k, old, v, mend));
        }),
        scenario("close-values-after-the-fact", 0, move |ctx| {
            // everything recomputed to match a changed component, which is then restored
            let mut c = simulated(ctx.choose(2), 1, vec![], big());
            let n = slots_of(&mut c).len();
            let k = ctx.choose(n);
            let (old, point) = slots_of(&mut c).into_iter().map(|(x, p)| (*x, p)).nth(k).unwrap();
            let to = close_to(old, point, quick);
            if to.is_empty() {
                ctx.prune();
            }
            let v = *ctx.pick(&to);
            *slots_of(&mut c).into_iter().nth(k).unwrap().0 = v;
            c.mend::<Sha256>(2 + ctx.choose(2), big());
            *slots_of(&mut c).into_iter().nth(k).unwrap().0 = old;
            if ctx.flag() {
                c.mend::<Sha256>(1, big());
            }
            judge_case::<Sha256>(ctx, &c, &[], &format!("made for {} in slot {}, shown with {}", v, k, old));
        }),
        scenario("every-magnitude", 0, move |ctx| {
            let mut c = simulated(0, 1, vec![], big());
            let n = slots_of(&mut c).len();
            let k = ctx.choose(n);
            *slots_of(&mut c).into_iter().nth(k).unwrap().0 = *ctx.pick(&wide::<_, 4>());
            c.mend::<Sha256>(if quick || ctx.flag() { 3 } else { 2 }, big());
            judge_case::<Sha256>(ctx, &c, &[], "component of any magnitude");
        }),
    ]
}

// --------------------------------------------------------------------- IVC
fn to_base(x: Fr) -> Fq {
    Fq::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le())
}
fn to_scalar(x: Fq) -> Fr {
    Fr::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le())
}
pub fn fq(v: i64) -> Fq {
    if v < 0 {
        -Fq::from(v.unsigned_abs())
    } else {
        Fq::from(v as u64)
    }
}

/// Step functions.
#[derive(Clone, Copy)]
pub struct F(pub usize);
impl F {
    fn step(&self, z: Fq, w: &[Fr]) -> Fq {
        let x = w.first().copied().unwrap_or_default();
        match self.0 {
            0 => z + to_base(x * x * x + x + fr(5)),
            1 => z * z + to_base(x),
            2 => w.iter().enumerate().map(|(i, x)| to_base(*x) * fq(i as i64 + 1)).sum::<Fq>() - z,
            3 => fq(7),
            _ => z,
        }
    }
}
impl FCircuit for F {
    fn run(&self, z_i: &State, w_i: &FWitness) -> State {
        State { state: self.step(z_i.state, &w_i.w) }
    }
}

fn hash_ref(i: Fq, z0: Fq, zi: Fq, u: &Fi) -> Fq {
    let mut b = vec![];
    i.serialize_uncompressed(&mut b).unwrap();
    z0.serialize_uncompressed(&mut b).unwrap();
    zi.serialize_uncompressed(&mut b).unwrap();
    g1(u.e).serialize_uncompressed(&mut b).unwrap();
    u.u.serialize_uncompressed(&mut b).unwrap();
    g1(u.w).serialize_uncompressed(&mut b).unwrap();
    for x in &u.x {
        x.serialize_uncompressed(&mut b).unwrap();
    }
    Fq::from_le_bytes_mod_order(&Sha256::digest(&b))
}

pub type Aug = AugmentedCircuit<Sha256, F>;
pub type Ivc = IVC<Sha256, F>;

/// R1CS for IVC (one public entry): 0 the repository's cubic, 1..3 satisfiable
/// whatever the public hash, with as many, more and fewer rows than variables,
/// 4 and 5 with many.
pub fn ivc_relation(k: usize) -> Rel {
    let r = |v: &[&[i64]]| -> Vec<Vec<Fr>> { v.iter().map(|r| r.iter().map(|x| fr(*x)).collect()).collect() };
    match k {
        0 => Rel {
            m: 4,
            nv: 4,
            nio: 1,
            abc: [
                r(&[&[1, 0, 0, 0, 0, 0], &[0, 1, 0, 0, 0, 0], &[1, 0, 1, 0, 0, 0], &[0, 0, 0, 1, 0, 5]]),
                r(&[&[1, 0, 0, 0, 0, 0], &[1, 0, 0, 0, 0, 0], &[0, 0, 0, 0, 0, 1], &[0, 0, 0, 0, 0, 1]]),
                r(&[&[0, 1, 0, 0, 0, 0], &[0, 0, 1, 0, 0, 0], &[0, 0, 0, 1, 0, 0], &[0, 0, 0, 0, 1, 0]]),
            ],
        },
        1 => Rel { m: 2, nv: 2, nio: 1, abc: [r(&[&[1, 0, 0, 0], &[0, 0, 1, 0]]), r(&[&[1, 0, 0, 0], &[0, 0, 0, 1]]), r(&[&[0, 1, 0, 0], &[0, 0, 1, 0]])] },
        2 => Rel {
            m: 3,
            nv: 2,
            nio: 1,
            abc: [
                r(&[&[1, 0, 0, 0], &[0, 1, 0, 3], &[0, 0, 1, 0]]),
                r(&[&[1, 0, 0, 0], &[0, 0, 0, 1], &[0, 0, 0, 1]]),
                r(&[&[0, 1, 0, 0], &[0, 1, 0, 3], &[0, 0, 1, 0]]),
            ],
        },
        3 => Rel { m: 1, nv: 3, nio: 1, abc: [r(&[&[1, 0, 0, 0, 0]]), r(&[&[0, 1, 0, 0, 0]]), r(&[&[0, 0, 1, 0, 0]])] },
        4 => {
            // many rows: the square, and the public entry left alone
            let rows = |a: [i64; 4], b: [i64; 4]| (0..40).map(|i| (if i % 3 == 0 { a } else { b }).map(fr).to_vec()).collect();
            Rel { m: 40, nv: 2, nio: 1, abc: [rows([1, 0, 0, 0], [0, 0, 1, 0]), rows([1, 0, 0, 0], [0, 0, 0, 1]), rows([0, 1, 0, 0], [0, 0, 1, 0])] }
        }
        _ => {
            // many variables: the powers of the first
            let unit = |j: usize| (0..42).map(|i| fr((i == j) as i64)).collect::<Vec<_>>();
            let rows = |f: &dyn Fn(usize) -> usize| (0..39).map(|i| unit(f(i))).collect();
            Rel { m: 39, nv: 40, nio: 1, abc: [rows(&|_| 0), rows(&|i| i), rows(&|i| i + 1)] }
        }
    }
}
pub fn ivc_witness(k: usize, x: Fr) -> Vec<Fr> {
    match k {
        0 => vec![x, x * x, x * x * x, x * x * x + x],
        1 | 2 | 4 => vec![x, x * x],
        3 => vec![x, x + Fr::one(), x * x + x],
        _ => (1..=40u64).map(|i| x.pow([i])).collect(),
    }
}

/// The specification's IVC run: everything by value.
#[derive(Clone, Debug)]
struct Spec {
    rel: usize,
    f: usize,
    z0: Fq,
    zi: Fq,
    i: u64,
    /// running pair, the trivial one at first
    big: Pair,
    trivial: Pair,
}
#[derive(Clone, Debug)]
pub struct Proof5 {
    pub u: Fi,
    pub big_u: Fi,
    pub t: Fr,
    pub np: Np,
}

impl Spec {
    fn new(rel: usize, f: usize, z0: Fq) -> Self {
        let nv = ivc_relation(rel).nv;
        let trivial = Pair { w: vec![Fr::zero(); nv], e: vec![Fr::zero(); nv], x: vec![Fr::zero()], u: Fr::zero() };
        Spec { rel, f, z0, zi: z0, i: 0, big: trivial.clone(), trivial }
    }
    fn rel(&self) -> Rel {
        ivc_relation(self.rel)
    }
    /// The next step's strict pair, once moved past the current one.
    fn fresh(&self, w: Vec<Fr>, tau: Fr) -> Pair {
        let h = hash_ref(Fq::from(self.i), self.z0, self.zi, &self.big.fi(tau));
        Pair { w, e: vec![Fr::zero(); self.rel().m], x: vec![to_scalar(h)], u: Fr::one() }
    }
    fn prove(&self, u: &Pair, tau: Fr) -> (Pair, Proof5) {
        let t = self.rel().cross(u, &self.big);
        let mut c = Case {
            f: [u.fi(tau), self.big.fi(tau), u.fi(tau)],
            t: eval(&t, tau),
            np: Np { r: Fr::zero(), z: Fr::zero(), e: Default::default(), w: Default::default() },
            before: vec![],
        };
        c.mend::<Sha256>(3, tau);
        let f = fold(c.np.r, u, &self.big, &t);
        (c.np.e.1, c.np.w.1) = (eval(&f.e, c.np.z), eval(&f.w, c.np.z));
        c.mend::<Sha256>(2, tau);
        (f, Proof5 { u: c.f[0].clone(), big_u: c.f[1].clone(), t: c.t, np: c.np })
    }
}

/// What an IVC verifier goes by.
#[derive(Clone, Debug)]
pub struct View {
    pub i: Fq,
    pub z0: Fq,
    pub zi: Fq,
    /// the error commitment of the trivial instance
    pub zero: Fr,
}
#[derive(Clone, Debug)]
pub struct Judged {
    pub view: View,
    pub p: Proof5,
    pub no_t: bool,
    pub no_proof: bool,
}
impl Judged {
    fn case(&self) -> Case {
        let (a, b) = (self.p.u.clone(), self.p.big_u.clone());
        let f = Fi::fold(self.p.np.r, &a, &b, self.p.t);
        Case { f: [a, b, f], t: self.p.t, np: self.p.np.clone(), before: vec![] }
    }
    fn accepted(&self, tau: Fr) -> bool {
        let v = &self.view;
        if v.i.is_zero() {
            return v.z0 == v.zi;
        }
        let h = to_scalar(hash_ref(v.i, v.z0, v.zi, &self.p.big_u));
        !self.no_t && !self.no_proof && self.p.u.x == [h] && self.p.u.e == v.zero && self.p.u.u.is_one() && self.case().accepted::<Sha256>(tau)
    }
    fn mend(&mut self, level: usize, tau: Fr) {
        if level >= 1 {
            let h = to_scalar(hash_ref(self.view.i, self.view.z0, self.view.zi, &self.p.big_u));
            self.p.u.x = vec![h];
        }
        if level >= 2 {
            let mut c = self.case();
            c.mend::<Sha256>(level, tau);
            self.p.np = c.np;
        }
    }
    fn verify(&self, ctx: &mut Ctx, f: usize, tau: Fr) -> Result<(), String> {
        let trivial = Fi { e: self.view.zero, u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
        let mut a = Aug::new(F(f), &trivial.lib(), &State { state: self.view.z0 });
        a.i = self.view.i;
        a.z_i = State { state: self.view.zi };
        self.verify_by(ctx, &mut Ivc { scheme: scheme(tau, 2), augmented_circuit: a })
    }
    fn verify_by(&self, ctx: &mut Ctx, ivc: &mut Ivc) -> Result<(), String> {
        let zk = ZkIVCProof {
            u_i: self.p.u.lib(),
            big_u_i: self.p.big_u.lib(),
            com_t: (!self.no_t).then(|| com(self.p.t)),
            folded_u_proof: (!self.no_proof).then(|| self.p.np.lib()),
        };
        let mut t = Transcript::<Sha256>::default();
        ctx.must("verify", || ivc.verify(&zk, &mut t))
    }
}

fn wide_base() -> Vec<Fq> {
    wide()
}

fn state_is(ctx: &mut Ctx, a: &Aug, s: &Spec, when: &str) {
    ctx.check(a.i == Fq::from(s.i) && a.z_i.state == s.zi && a.z_0.state == s.z0, "state", || {
        format!("{}: step {} state {} (initial {}), the specification has step {} state {} (initial {})", when, a.i, a.z_i.state, a.z_0.state, s.i, s.zi, s.z0)
    });
}

fn n04(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let history = move |ctx: &mut Ctx, rel: usize, f: usize, z0: Fq, steps: usize, alphabet: &[Fr]| {
        let tau = big();
        let k = ivc_relation(rel);
        let size = k.m.max(k.nv).max(2) + ctx.choose(2);
        let s = scheme(tau, size);
        let (tw, ti) = ctx.must("create_trivial_pair", || create_trivial_pair(1, k.nv, &s));
        let mut spec = Spec::new(rel, f, z0);
        let mut ivc = Ivc { scheme: scheme(tau, size), augmented_circuit: Aug::new(F(f), &ti, &State { state: z0 }) };
        let mut ip = IVCProof::trivial_ivc_proof(&ti, &tw);
        let mut zk = ZkIVCProof::trivial_zk_ivc_proof(&ti);
        let mut w = ivc_witness(rel, if alphabet.is_empty() { fr(5) } else { *ctx.pick(alphabet) });
        let first = FWitness::new(&w, k.m).commit(&s, &[Fr::zero()]);
        let mut folded = (tw, ti);
        let mut big_next = spec.trivial.fi(tau);
        for step in 0..=steps {
            // the step computes F and hashes what comes next
            let want_z = F(f).step(spec.zi, &w);
            let got = if step == 0 {
                let fw = FWitness::new(&w, k.m);
                ctx.must("run", || ivc.augmented_circuit.run(&first, None, &fw, None))
            } else {
                let ct = zk.com_t.clone();
                ctx.must("run", || ivc.augmented_circuit.run(&ip.u_i, Some(&ip.big_u_i), &ip.w_i, ct.as_ref()))
            };
            let h = match got {
                Ok(h) => h,
                Err(e) => ctx.fail("run-refused", format!("step {} of an honest run refused: {}", step, e)),
            };
            let want_h = hash_ref(Fq::from(spec.i + 1), z0, want_z, &big_next);
            ctx.check(h == want_h, "hash", || format!("step {}: public hash {} instead of {}", step, h, want_h));
            ctx.step((step, rel, f, want_z.to_string(), h.to_string()));
            let mut v = Transcript::<Sha256>::default();
            let ok = ctx.must("verify", || ivc.verify(&zk, &mut v));
            ctx.check(ok.is_ok(), "honest-rejected", || format!("the honest proof of step {} is rejected: {:?}", step, ok));
            if step == steps {
                break;
            }
            ctx.must("next_step", || ivc.augmented_circuit.next_step());
            spec.zi = want_z;
            spec.i += 1;
            state_is(ctx, &ivc.augmented_circuit, &spec, "after next_step");
            // the next pair, and its fold into the running one
            w = ivc_witness(rel, if alphabet.is_empty() { fr(step as i64 * 7 - 3) } else { *ctx.pick(alphabet) });
            let p = spec.fresh(w.clone(), tau);
            let fw = FWitness::new(&w, k.m);
            let mut fi = fw.commit(&s, &p.x);
            fi.x = p.x.clone();
            ip = IVCProof::new(&fi, &fw, &folded.1, &folded.0);
            let mut t = Transcript::<Sha256>::default();
            let (bw, bu, proof) = ctx.must("prove", || ivc.prove(&k.lib(), &ip, &mut t));
            let (want, want_p) = spec.prove(&p, tau);
            ctx.check(bw.w == want.w && bw.e == want.e, "folded-witness", || format!("step {}: folded witness w={} e={} instead of {}", step, fs(&bw.w), fs(&bw.e), show(&k, &want)));
            ctx.check(want.fi(tau).is(&bu), "folded-instance", || format!("step {}: folded instance is not that of {}", step, show(&k, &want)));
            let same = match (&proof.com_t, &proof.folded_u_proof) {
                (Some(ct), Some(n)) => {
                    let q = want_p.np.lib();
                    *ct == com(want_p.t) && n.r == q.r && n.opening_point == q.opening_point && n.opening_e.0 == q.opening_e.0 && n.opening_e.1 == q.opening_e.1 && n.opening_w.0 == q.opening_w.0 && n.opening_w.1 == q.opening_w.1
                }
                _ => false,
            };
            ctx.check(same && want_p.u.is(&proof.u_i) && want_p.big_u.is(&proof.big_u_i), "proof", || format!("step {}: the proof is not the specified one", step));
            if rel != 0 {
                // the relation leaves the hash alone: running pairs hold
                let mut e = bw.clone();
                e.e.resize(k.m, Fr::zero());
                let r = ctx.must("is_r1cs_satisfied", || is_r1cs_satisfied(&k.lib(), &bu, &e, &s));
                ctx.check(r.is_ok(), "running-pair", || format!("step {}: the running pair does not hold: {}", step, show(&k, &want)));
            }
            big_next = want.fi(tau);
            spec.big = want;
            folded = (bw, bu);
            zk = proof;
        }
        ctx.outcome(format!("{} steps accepted", steps));
    };
    vec![
        scenario("histories", 0, move |ctx| {
            let rel = ctx.choose(4);
            let f = ctx.choose(if quick { 3 } else { 5 });
            let z0 = *ctx.pick(&[fq(0), fq(-3)]);
            let steps = ctx.range(0, if quick { 2 } else { 3 });
            history(ctx, rel, f, z0, steps, &[fr(3), fr(0), fr(-4)]);
        }),
        scenario("long-histories", 0, move |ctx| {
            let rel = ctx.choose(4);
            let f = ctx.choose(5);
            let steps = if quick { ctx.range(3, 4) } else { ctx.range(4, 7) };
            let al = if steps < 5 { vec![fr(1), fr(-2)] } else { vec![fr(4)] };
            history(ctx, rel, f, fq(1), steps, &al);
        }),
        scenario("very-long-histories", 0, move |ctx| {
            let rel = ctx.choose(6);
            let f = ctx.choose(if quick { 2 } else { 5 });
            let steps = *ctx.pick(if rel > 3 { if quick { &[12usize][..] } else { &[12usize, 40] } } else if quick { &[34usize, 66] } else { &[34usize, 66, 130, 260] });
            history(ctx, rel, f, fq(2), steps, &[]);
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // witnesses or initial states of every magnitude
            let rel = if quick { 1 } else { ctx.choose(4) };
            let f = ctx.choose(if quick { 3 } else { 5 });
            if ctx.flag() {
                let z0 = *ctx.pick(&wide_base());
                history(ctx, rel, f, z0, 1, &[fr(3)]);
            } else {
                let v = *ctx.pick(&wide::<_, 4>());
                history(ctx, rel, f, fq(1), 2, &[v]);
            }
        }),
    ]
}

// --------------------------------------------------------------------- N05
/// An honest proof at step `s` and the verifier's view of it.
pub fn honest_at(rel: usize, f: usize, s: usize, tau: Fr) -> Judged {
    honest_seen(rel, f, s, tau, &mut |_, _, _| {})
}
/// The same; `step` sees the step number, the proof so far and the witness of each step.
fn honest_seen(rel: usize, f: usize, s: usize, tau: Fr, step: &mut dyn FnMut(usize, &Proof5, &[Fr])) -> Judged {
    let mut spec = Spec::new(rel, f, fq(2));
    let mut w = ivc_witness(rel, fr(3));
    let mut p = Proof5 {
        u: spec.trivial.fi(tau),
        big_u: spec.trivial.fi(tau),
        t: Fr::zero(),
        np: Np { r: Fr::zero(), z: Fr::zero(), e: Default::default(), w: Default::default() },
    };
    for k in 0..s {
        step(k, &p, &w);
        spec.zi = F(f).step(spec.zi, &w);
        spec.i += 1;
        w = ivc_witness(rel, fr(k as i64 * 5 - 4));
        let q = spec.fresh(w.clone(), tau);
        let (folded, proof) = spec.prove(&q, tau);
        p = proof;
        if k + 1 < s {
            spec.big = folded;
        }
    }
    step(s, &p, &w);
    Judged { view: View { i: Fq::from(spec.i), z0: spec.z0, zi: spec.zi, zero: Fr::zero() }, p, no_t: s == 0, no_proof: s == 0 }
}

/// An honest proof, and a verifier that did the steps itself; `next`: the one after, too.
fn worked(ctx: &mut Ctx, rel: usize, f: usize, s: usize, next: bool) -> (Judged, Ivc) {
    let tau = big();
    let trivial = Fi { e: Fr::zero(), u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
    let mut a = Aug::new(F(f), &trivial.lib(), &State { state: fq(2) });
    let j = honest_seen(rel, f, s, tau, &mut |k, p, w| {
        if k == s && !next {
            return;
        }
        let w = FWitness { e: vec![], w: w.to_vec() };
        let r = if k == 0 { ctx.must("run", || a.run(&trivial.lib(), None, &w, None)) } else { ctx.must("run", || a.run(&p.u.lib(), Some(&p.big_u.lib()), &w, Some(&com(p.t)))) };
        ctx.check(r.is_ok(), "run-refused", || format!("step {} of an honest run refused: {:?}", k, r));
        if k < s {
            ctx.must("next_step", || a.next_step());
        }
    });
    (j, Ivc { scheme: scheme(tau, 2), augmented_circuit: a })
}

fn judge_ivc(ctx: &mut Ctx, j: &Judged, f: usize, what: &str) {
    judge_by(ctx, j, f, None, what)
}
fn judge_by(ctx: &mut Ctx, j: &Judged, f: usize, by: Option<&mut Ivc>, what: &str) {
    let tau = big();
    let spec = j.accepted(tau);
    let r = match by {
        None => j.verify(ctx, f, tau),
        Some(ivc) => j.verify_by(ctx, ivc),
    };
    ctx.step(format!("{:?}", j));
    ctx.note(|| format!("{}: {:?} -> spec {}, verify {:?}", what, j, spec, r));
    if r.is_ok() != spec {
        ctx.fail(if spec { "rejected" } else { "accepted" }, format!("{}: the specification {} this proof, verify says {:?}: {:?}", what, if spec { "accepts" } else { "rejects" }, r, j));
    }
    ctx.outcome(if spec { "accepted" } else { "rejected" });
}

const IVC_CHANGES: usize = 24 + 21 + 4 + 2 + 8 + 3;
pub fn change_ivc(j: &mut Judged, d: usize) -> bool {
    if d < 24 {
        let f = if d < 12 { &mut j.p.u } else { &mut j.p.big_u };
        return change_fi(f, d / 3 % 4, d % 3);
    }
    let d = d - 24;
    if d < 21 {
        let x = match d / 3 {
            0 => &mut j.p.t,
            1 => &mut j.p.np.r,
            2 => &mut j.p.np.z,
            3 => &mut j.p.np.e.0,
            4 => &mut j.p.np.e.1,
            5 => &mut j.p.np.w.0,
            _ => &mut j.p.np.w.1,
        };
        return change(x, d % 3);
    }
    match d - 21 {
        0 => j.p.u.x.push(Fr::zero()),
        1 => j.p.big_u.x.push(Fr::zero()),
        2 => return j.p.u.x.pop().is_some(),
        3 => return j.p.big_u.x.pop().is_some(),
        4 => j.no_t = true,
        5 => j.no_proof = true,
        6 => j.view.i += Fq::one(),
        7 => j.view.i -= Fq::one(),
        8 => j.view.z0 += Fq::one(),
        9 => j.view.zi += Fq::one(),
        10 => j.view.zi = j.view.z0,
        11 => std::mem::swap(&mut j.view.z0, &mut j.view.zi),
        12 => j.view.zero += Fr::one(),
        13 => std::mem::swap(&mut j.p.u, &mut j.p.big_u),
        14 => j.p.big_u = j.p.u.clone(),
        15 => j.p.u = j.p.big_u.clone(),
        _ => j.p.u.x.insert(0, Fr::zero()),
    }
    true
}

fn n05(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let devs = if quick { 1 } else { 2 };
    vec![
        scenario("honest-and-changed", devs, move |ctx| {
            let rel = if quick { ctx.choose(4) } else { 1 };
            let f = if quick { ctx.choose(2) } else { 0 };
            let s = ctx.range(0, if quick { 3 } else { 2 });
            let mut j = honest_at(rel, f, s, big());
            let mut what = vec![format!("step {}", s)];
            for _ in 0..devs {
                let d = ctx.dev(1 + IVC_CHANGES);
                if d > 0 {
                    if !change_ivc(&mut j, d - 1) {
                        ctx.prune();
                    }
                    what.push(format!("change {}", d - 1));
                }
            }
            let lvl = ctx.choose(4);
            j.mend(lvl, big());
            judge_ivc(ctx, &j, f, &format!("{} mended {}", what.join(", "), lvl));
        }),
        scenario("one-verifier", 0, move |ctx| {
            // one verifier, which may have done the steps itself, and several proofs
            let rel = 1 + if quick { 0 } else { ctx.choose(3) };
            let f = if quick { 0 } else { ctx.choose(2) };
            let s = ctx.range(1, if quick { 2 } else { 4 });
            let (mut ivc, honest) = match ctx.choose(3) {
                0 => {
                    let j = honest_at(rel, f, s, big());
                    let trivial = Fi { e: j.view.zero, u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
                    let mut a = Aug::new(F(f), &trivial.lib(), &State { state: j.view.z0 });
                    (a.i, a.z_i) = (j.view.i, State { state: j.view.zi });
                    (Ivc { scheme: scheme(big(), 2), augmented_circuit: a }, j)
                }
                k => {
                    let (j, ivc) = worked(ctx, rel, f, s, k == 2);
                    (ivc, j)
                }
            };
            if ctx.flag() {
                judge_by(ctx, &honest, f, Some(&mut ivc), "first");
            }
            let mut j = honest.clone();
            let view = format!("{:?}", j.view);
            if !change_ivc(&mut j, ctx.choose(IVC_CHANGES)) || format!("{:?}", j.view) != view {
                ctx.prune();
            }
            j.mend(ctx.choose(4), big());
            judge_by(ctx, &j, f, Some(&mut ivc), "the verifier has seen others");
            judge_by(ctx, &honest, f, Some(&mut ivc), "again");
        }),
        scenario("other-steps", 0, move |ctx| {
            // every proof against every other step's view, other histories included
            let rel = ctx.choose(4);
            let f = ctx.choose(5);
            let (s, t) = (ctx.range(0, 4), ctx.range(0, 4));
            let mut j = honest_at(rel, f, s, big());
            j.view = honest_at(rel, if ctx.flag() { f } else { (f + 1) % 5 }, t, big()).view;
            judge_ivc(ctx, &j, f, "judged at another step");
        }),
        scenario("later-steps", 0, move |ctx| {
            let rel = ctx.choose(4);
            let f = ctx.choose(5);
            let s = *ctx.pick(if quick { &[5, 6, 9, 17][..] } else { &[5, 6, 7, 8, 9, 12, 16, 17, 33, 65] });
            let mut j = honest_at(rel, f, s, big());
            let d = ctx.choose(1 + IVC_CHANGES);
            if d > 0 && !change_ivc(&mut j, d - 1) {
                ctx.prune();
            }
            let lvl = if d == 0 { 0 } else { ctx.choose(2) * 3 };
            j.mend(lvl, big());
            judge_ivc(ctx, &j, f, &format!("step {}, change {} mended {}", s, d, lvl));
        }),
        scenario("step-numbers", 0, move |ctx| {
            // a hash for one step number, judged at another
            const STEPS: [u64; 10] = [1, 2, 255, 256, 257, 65535, 65537, (1 << 32) - 1, (1 << 32) + 1, u64::MAX];
            let mut j = honest_at(1, 0, 2, big());
            j.view.i = Fq::from(*ctx.pick(&STEPS));
            if ctx.flag() {
                j.view.i += Fq::from(2u64).pow([64]);
            }
            j.mend(3, big());
            j.view.i = Fq::from(*ctx.pick(&STEPS));
            if ctx.flag() {
                j.view.i += Fq::from(2u64).pow([64]);
            }
            judge_ivc(ctx, &j, 0, "made for one step, judged at another");
        }),
        scenario("nothing-done-yet", 0, move |ctx| {
            // at step 0 only the state matters
            let mut j = honest_at(1, 0, *ctx.pick(&[0, 1, 2]), big());
            j.view.i = Fq::zero();
            j.view.z0 = fq(*ctx.pick(&[0, 1, 2]));
            j.view.zi = fq(*ctx.pick(&[0, 1, 2]));
            j.no_t = ctx.flag();
            j.no_proof = ctx.flag();
            judge_ivc(ctx, &j, 0, "step 0");
        }),
        scenario("outside-the-relation", 0, move |ctx| {
            // witnesses that break the relation, folded and proved as usual
            let rel = 1 + ctx.choose(3);
            let s = ctx.range(1, if quick { 2 } else { 4 });
            let bad = ctx.choose(ivc_relation(rel).nv);
            let tau = big();
            let mut spec = Spec::new(rel, 0, fq(2));
            let mut w = ivc_witness(rel, fr(3));
            let mut last = None;
            for k in 0..s {
                spec.zi = F(0).step(spec.zi, &w);
                spec.i += 1;
                w = ivc_witness(rel, fr(k as i64 + 5));
                if k + 1 == s {
                    w[bad] += Fr::one();
                }
                let q = spec.fresh(w.clone(), tau);
                let (folded, p) = spec.prove(&q, tau);
                spec.big = folded;
                last = Some(p);
            }
            let k = spec.rel();
            let holds = k.holds(&spec.big);
            let j = Judged { view: View { i: Fq::from(spec.i), z0: spec.z0, zi: spec.zi, zero: Fr::zero() }, p: last.unwrap(), no_t: false, no_proof: false };
            ctx.step(format!("{:?}", j));
            let r = j.verify(ctx, 0, tau);
            if r.is_ok() && !holds {
                ctx.fail("relation-unchecked", format!("an IVC proof at step {} whose folded witness does not satisfy the R1CS is accepted: {}", s, show(&k, &spec.big)));
            }
            ctx.outcome("rejected");
        }),
        scenario("state-never-computed", 0, move |ctx| {
            // a state the step function does not reach, with the hash to match
            let rel = 1 + ctx.choose(3);
            let s = ctx.range(1, 2);
            let tau = big();
            let mut j = honest_at(rel, 3, s, tau); // constant step function: the state is always 7
            j.view.zi = fq(*ctx.pick(&[0, 8]));
            j.mend(3, tau);
            ctx.step(format!("{:?}", j));
            let r = j.verify(ctx, 3, tau);
            ctx.check(r.is_err(), "state-unproved", || format!("a proof for state {} at step {} is accepted although the step function only yields 7", j.view.zi, s));
            ctx.outcome("rejected");
        }),
        scenario("close-values", 0, move |ctx| {
            let rel = if quick { 1 } else { ctx.choose(4) };
            let s = ctx.range(0, if quick { 2 } else { 3 });
            let mut j = honest_at(rel, 0, s, big());
            let made_for = ctx.flag();
            let lvl = if made_for { 1 + ctx.choose(3) } else { ctx.choose(4) };
            // scalars and points of the proof, then the verifier's view
            fn scalars(j: &mut Judged) -> Vec<(&mut Fr, bool)> {
                let p = &mut j.p;
                let mut v = vec![(&mut j.view.zero, true), (&mut p.t, true), (&mut p.np.e.0, true), (&mut p.np.e.1, false), (&mut p.np.w.0, true), (&mut p.np.w.1, false), (&mut p.np.r, false), (&mut p.np.z, false)];
                for f in [&mut p.u, &mut p.big_u] {
                    v.extend([(&mut f.e, true), (&mut f.u, false), (&mut f.w, true)]);
                    v.extend(f.x.iter_mut().map(|x| (x, false)));
                }
                v
            }
            let n = scalars(&mut j).len();
            let k = ctx.choose(n + 3);
            let what;
            if k < n {
                let (old, point) = scalars(&mut j).into_iter().map(|(x, p)| (*x, p)).nth(k).unwrap();
                let to = close_to(old, point, quick);
                if to.is_empty() {
                    ctx.prune();
                }
                let v = *ctx.pick(&to);
                *scalars(&mut j).into_iter().nth(k).unwrap().0 = v;
                j.mend(lvl, big());
                if made_for {
                    match scalars(&mut j).into_iter().nth(k) {
                        Some((x, _)) => *x = old,
                        None => ctx.prune(),
                    }
                }
                what = format!("component {} from {} to {}", k, old, v);
            } else {
                fn view(j: &mut Judged, k: usize) -> &mut Fq {
                    [&mut j.view.i, &mut j.view.z0, &mut j.view.zi].into_iter().nth(k).unwrap()
                }
                let old = *view(&mut j, k - n);
                let v = *ctx.pick(&if quick { nearest(old) } else { near(old) });
                *view(&mut j, k - n) = v;
                j.mend(lvl, big());
                if made_for {
                    *view(&mut j, k - n) = old;
                }
                what = format!("view {} from {} to {}", k - n, old, v);
            }
            judge_ivc(ctx, &j, 0, &format!("step {}, {}, mended {}{}", s, what, lvl, if made_for { ", changed back" } else { "" }));
        }),
        scenario("states-of-every-magnitude", 0, move |ctx| {
            // initial state, current state and step number at both ends of the field
            let mut j = honest_at(1, 0, ctx.range(0, 1), big());
            let v = *ctx.pick(&wide_base());
            match ctx.choose(3) {
                0 => j.view.z0 = v,
                1 => j.view.zi = v,
                _ => j.view.i = v,
            }
            if ctx.flag() {
                j.mend(3, big());
            }
            judge_ivc(ctx, &j, 0, "state of any magnitude");
        }),
    ]
}

// --------------------------------------------------------------------- N06
struct Model {
    f: usize,
    i: u64,
    z0: Fq,
    zi: Fq,
    next: Option<(Fq, Fq)>,
    h: Option<Fq>,
    trivial: Fi,
    /// the running instance in the present hash, and in the next
    running: Fi,
    to_run: Fi,
}

#[derive(Clone, Debug)]
struct Args {
    u: Fi,
    big_u: Option<Fi>,
    w: Vec<Fr>,
    t: Option<Fr>,
}

impl Model {
    fn run(&mut self, a: &Args) -> Result<Fq, ()> {
        let mut u1 = self.trivial.clone();
        if self.i > 0 {
            let (big, t) = (a.big_u.as_ref().ok_or(())?, a.t.ok_or(())?);
            let h = self.h.ok_or(())?;
            if a.u.x != [to_scalar(h)] || a.u.e != self.trivial.e || !a.u.u.is_one() || *big != self.running {
                return Err(());
            }
            let mut c = Case { f: [a.u.clone(), big.clone(), a.u.clone()], t, np: Np { r: Fr::zero(), z: Fr::zero(), e: Default::default(), w: Default::default() }, before: vec![] };
            c.mend::<Sha256>(3, super::kzg_p::big());
            u1 = c.f[2].clone();
        }
        let z = F(self.f).step(self.zi, &a.w);
        let h = hash_ref(Fq::from(self.i + 1), self.z0, z, &u1);
        self.next = Some((z, h));
        self.to_run = u1;
        Ok(h)
    }
    fn at(f: usize, z0: Fq) -> Model {
        let trivial = Fi { e: Fr::zero(), u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
        Model { f, i: 0, z0, zi: z0, next: None, h: None, trivial: trivial.clone(), running: trivial.clone(), to_run: trivial }
    }
    /// Move on, if there is something to move to.
    fn next_step(&mut self) -> bool {
        let Some((z, h)) = self.next.take() else { return false };
        (self.zi, self.h, self.i) = (z, Some(h), self.i + 1);
        self.running = self.to_run.clone();
        true
    }
    /// Right arguments, and the k-th wrong running instance.
    fn good(&self, k: i64, w: Vec<Fr>) -> Args {
        let h = self.h.map(to_scalar).unwrap_or(fr(99));
        Args { u: Fi { e: Fr::zero(), u: Fr::one(), w: fr(10 + k), x: vec![h] }, big_u: Some(self.running.clone()), w, t: Some(fr(31)) }
    }
    fn other(&self, k: usize) -> Fi {
        let mut u = self.running.clone();
        match k {
            0 => u.e += Fr::one(),
            1 => u.u += Fr::one(),
            2 => u.w += Fr::one(),
            3 => u.x[0] += Fr::one(),
            4 => u.x.push(Fr::zero()),
            5 => u.x.clear(),
            6 => u = self.trivial.clone(),
            7 => std::mem::swap(&mut u.e, &mut u.w),
            _ => u = Fi { e: fr(21), u: fr(22), w: fr(23), x: vec![fr(24)] },
        }
        u
    }
}

fn n06(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("operation-sequences", 0, move |ctx| {
            let trivial = Fi { e: Fr::zero(), u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
            let f = ctx.choose(2);
            let mut m = Model::at(f, fq(4));
            let mut a = Aug::new(F(f), &trivial.lib(), &State { state: fq(4) });
            let depth = if quick { 5 } else { 6 };
            let mut hist = vec![];
            for k in 0..depth {
                let op = if k + 2 < depth { ctx.choose(13) } else { ctx.choose(22) };
                if op == 12 {
                    break;
                }
                hist.push(op);
                if op == 0 {
                    let r = guard(|| a.next_step());
                    match (m.next_step(), r) {
                        (true, Ok(())) => {}
                        (false, Err(_)) => {
                            ctx.step(&hist);
                            ctx.outcome("moved without a run: refused");
                            return;
                        }
                        (true, Err(e)) => ctx.fail("next-panicked", format!("{:?}: next_step after a run panicked: {}", hist, e)),
                        (false, Ok(())) => ctx.fail("next-without-run", format!("{:?}: moved on without a run", hist)),
                    }
                } else {
                    let h = m.h.map(to_scalar).unwrap_or(fr(99));
                    let mut g = m.good(k as i64, vec![fr(3), fr(-1)]);
                    match op {
                        1 => {}
                        2 => g.w = vec![fr(5)],
                        3 => g.u.x[0] += Fr::one(),
                        4 => g.u.x.push(h),
                        5 => g.u.x.insert(0, fr(1)),
                        6 => g.u.x.clear(),
                        7 => g.big_u = None,
                        8 => g.t = None,
                        9 => g.u.e = Fr::one(),
                        10 => g.u.u = Fr::zero(),
                        11 => g.u.u = fr(2),
                        _ => g.big_u = Some(m.other(op - 13)),
                    }
                    let before = m.next;
                    let want = m.run(&g);
                    let w = FWitness { e: vec![], w: g.w.clone() };
                    let (u, b, t) = (g.u.lib(), g.big_u.as_ref().map(|b| b.lib()), g.t.map(com));
                    let got = ctx.must("run", || a.run(&u, b.as_ref(), &w, t.as_ref()));
                    if want.is_err() {
                        m.next = before;
                    }
                    match (want, got) {
                        (Ok(x), Ok(y)) => ctx.check(x == y, "hash", || format!("{:?}: run returns {} instead of {} for {:?}", hist, y, x, g)),
                        (Err(()), Err(_)) => {}
                        (Ok(_), Err(e)) => ctx.fail("run-refused", format!("{:?}: run refuses {:?}: {}", hist, g, e)),
                        (Err(()), Ok(_)) => ctx.fail("run-accepted", format!("{:?}: run accepts {:?}", hist, g)),
                    }
                }
                let same = a.i == Fq::from(m.i)
                    && a.z_0.state == m.z0
                    && a.z_i.state == m.zi
                    && a.h_i == m.h
                    && a.z_i1.as_ref().map(|z| z.state) == m.next.map(|n| n.0)
                    && a.h_i1 == m.next.map(|n| n.1);
                ctx.check(same, "state", || {
                    format!("after {:?}: i={} z_i={} next={:?} h_i={:?} h_i1={:?}, the model has i={} z_i={} next={:?} h={:?}", hist, a.i, a.z_i.state, a.z_i1, a.h_i, a.h_i1, m.i, m.zi, m.next, m.h)
                });
                ctx.step((m.i, m.zi.to_string(), m.next.map(|n| n.1.to_string()), op));
            }
            ctx.outcome(format!("step {} reached", m.i));
        }),
        scenario("long-run", 0, move |ctx| {
            // one long honest run; wrong arguments refused at every step of it
            let f = ctx.choose(5);
            let pat = ctx.choose(if quick { 2 } else { 4 });
            let trivial = Fi { e: Fr::zero(), u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
            let mut m = Model::at(f, fq(4));
            let mut a = Aug::new(F(f), &trivial.lib(), &State { state: fq(4) });
            let steps = if quick { 70 } else { 300 };
            for k in 0..steps {
                let h = m.h.map(to_scalar).unwrap_or(fr(99));
                let good = m.good(k, vals(pat, 1 + k as usize % 5, k as usize));
                for bad in 0..12 {
                    let mut g = good.clone();
                    match (bad + k as usize) % 12 {
                        0 => {}
                        1 => g.u.x[0] += Fr::one(),
                        2 => g.u.x.push(h),
                        3 => g.u.x.clear(),
                        4 => g.big_u = None,
                        5 => g.t = None,
                        6 => g.u.e = Fr::one(),
                        7 => g.u.u = Fr::zero(),
                        8 => g.u.u = fr(2),
                        9 => g.w = vec![],
                        10 => g.u.x[0] = Fr::zero(),
                        _ => g.big_u = Some(m.other(k as usize % 9)),
                    }
                    if k > 8 && bad > 2 && bad != 11 {
                        continue;
                    }
                    if bad == 11 {
                        g = good.clone();
                    }
                    let before = m.next;
                    let want = m.run(&g);
                    if want.is_err() {
                        m.next = before;
                    }
                    let got = ctx.must("run", || a.run(&g.u.lib(), g.big_u.as_ref().map(|b| b.lib()).as_ref(), &FWitness { e: vec![], w: g.w.clone() }, g.t.map(com).as_ref()));
                    ctx.check(got.clone().ok() == want.ok(), "run", || format!("step {} of a long run: {:?} instead of {:?} for {:?}", k, got, want, g));
                }
                ctx.must("next_step", || a.next_step());
                m.next_step();
                let same = a.i == Fq::from(m.i) && a.z_0.state == m.z0 && a.z_i.state == m.zi && a.h_i == m.h && a.z_i1.is_none() && a.h_i1.is_none();
                ctx.check(same, "state", || format!("after {} steps: i={} z_i={} h_i={:?}, the model has i={} z_i={} h={:?}", k + 1, a.i, a.z_i.state, a.h_i, m.i, m.zi, m.h));
                ctx.step((k, m.zi.to_string()));
            }
            ctx.outcome(format!("{} steps", steps));
        }),
        scenario("long-hashes", 0, move |ctx| {
            // many public entries and large values: every entry moves the hash
            let nx = *ctx.pick(&[0, 3, 8, 9, 33]);
            let mut u = Fi { e: fr(5), u: vals(3, 1, 2)[0], w: big(), x: vals(*ctx.pick(&[0, 3]), nx, 1) };
            let mut i = Fq::from(*ctx.pick(&[0u64, 255, 256, 65536, 1 << 32, u64::MAX]));
            let (z0, mut zi) = (to_base(big()), fq(-1));
            let old = hash_ref(i, z0, zi, &u);
            let d = ctx.choose(nx + 4);
            match d {
                0 => {}
                1 => i += Fq::from(2u64).pow([64]),
                2 => zi += Fq::from(2u64).pow([256]),
                3 => u.u += Fr::from(2u64).pow([128]),
                d => u.x[d - 4] += Fr::from(2u64).pow([200]),
            }
            let h = ctx.must("hash_io", || Aug::hash_io(i, &State { state: z0 }, &State { state: zi }, &u.lib()));
            ctx.step((d, nx, h.to_string()));
            ctx.check((h == old) == (d == 0), "hash-blind", || format!("the public hash does not see change {} of {:?}", d, u));
            ctx.check(h == hash_ref(i, z0, zi, &u), "hash", || format!("public hash {} of {:?}", h, u));
        }),
        scenario("without-a-hash", 0, move |ctx| {
            // a circuit set to a later step by hand
            let trivial = Fi { e: Fr::zero(), u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
            let mut a = Aug {
                f_circuit: F(0),
                i: fq(*ctx.pick(&[1, 2])),
                trivial_instance: trivial.lib(),
                z_0: State { state: fq(1) },
                z_i: State { state: fq(2) },
                z_i1: None,
                h_i: None,
                h_i1: None,
                phantom_data_t: PhantomData,
            };
            let u = Fi { e: Fr::zero(), u: Fr::one(), w: fr(1), x: if ctx.flag() { vec![] } else { vec![Fr::zero()] } };
            let r = ctx.must("run", || a.run(&u.lib(), Some(&trivial.lib()), &FWitness { e: vec![], w: vec![fr(1)] }, Some(&com(fr(1)))));
            ctx.step(format!("{:?}", r));
            ctx.check(r.is_err() && a.z_i1.is_none() && a.h_i1.is_none(), "run-accepted", || format!("a later step runs without a hash to compare with: {:?}", r));
        }),
        scenario("public-hash", 0, move |ctx| {
            // the hash is the specified one, and every field moves it
            let f0 = Fi { e: fr(5), u: fr(6), w: fr(7), x: vec![fr(8), fr(9)] };
            let mut v = (fq(3), fq(4), fq(5), f0);
            let old = hash_ref(v.0, v.1, v.2, &v.3);
            let d = ctx.choose(13);
            match d {
                0 => {}
                1 => v.0 += Fq::one(),
                2 => v.1 += Fq::one(),
                3 => v.2 += Fq::one(),
                4 => v.3.e += Fr::one(),
                5 => v.3.u += Fr::one(),
                6 => v.3.w += Fr::one(),
                7 => v.3.x[0] += Fr::one(),
                8 => v.3.x[1] += Fr::one(),
                9 => v.3.x.push(Fr::zero()),
                10 => drop(v.3.x.pop()),
                11 => std::mem::swap(&mut v.1, &mut v.2),
                _ => std::mem::swap(&mut v.3.e, &mut v.3.w),
            }
            let s = |z: Fq| State { state: z };
            let h = ctx.must("hash_io", || Aug::hash_io(v.0, &s(v.1), &s(v.2), &v.3.lib()));
            ctx.step((d, h.to_string()));
            ctx.check((h == old) == (d == 0), "hash-blind", || format!("the public hash does not see change {} of {:?}", d, v));
            ctx.check(h == hash_ref(v.0, v.1, v.2, &v.3), "hash", || format!("public hash {} of {:?}", h, v));
        }),
        scenario("close-arguments", 0, move |ctx| {
            // arguments that agree with the right ones in all words but one
            let trivial = Fi { e: Fr::zero(), u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
            let f = ctx.choose(2);
            let mut m = Model::at(f, fq(4));
            let mut a = Aug::new(F(f), &trivial.lib(), &State { state: fq(4) });
            let steps = ctx.range(1, if quick { 2 } else { 4 });
            for k in 0..=steps {
                let mut g = m.good(k as i64, vec![fr(3), fr(-1)]);
                if k == steps {
                    let slot = ctx.choose(6);
                    let b = g.big_u.as_mut().unwrap();
                    let x = match slot {
                        0 => &mut g.u.x[0],
                        1 => &mut g.u.u,
                        2 => &mut b.x[0],
                        3 => &mut b.u,
                        4 => &mut b.e,
                        _ => &mut b.w,
                    };
                    *x = *ctx.pick(&near(*x));
                }
                let before = m.next;
                let want = m.run(&g);
                if want.is_err() {
                    m.next = before;
                }
                let got = ctx.must("run", || a.run(&g.u.lib(), g.big_u.as_ref().map(|b| b.lib()).as_ref(), &FWitness { e: vec![], w: g.w.clone() }, g.t.map(com).as_ref()));
                ctx.step((k, format!("{:?}", g)));
                ctx.check(got.clone().ok() == want.ok(), "run", || format!("step {}: {:?} instead of {:?} for {:?}", k, got, want, g));
                if k < steps {
                    ctx.must("next_step", || a.next_step());
                    m.next_step();
                } else {
                    ctx.check(got.is_err() && a.z_i1.is_none() && a.h_i1.is_none(), "state", || format!("step {}: a refused run leaves something behind", k));
                }
            }
            ctx.outcome("refused");
        }),
        scenario("states-of-every-magnitude", 0, move |ctx| {
            // two steps from a state of any size, and the hashes of both
            let trivial = Fi { e: Fr::zero(), u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
            let f = ctx.choose(5);
            let z0 = *ctx.pick(&wide_base());
            let mut m = Model::at(f, z0);
            let mut a = Aug::new(F(f), &trivial.lib(), &State { state: z0 });
            for k in 0..2 {
                let g = m.good(k, vec![big(), fr(-1)]);
                let want = m.run(&g);
                let got = ctx.must("run", || a.run(&g.u.lib(), g.big_u.as_ref().map(|b| b.lib()).as_ref(), &FWitness { e: vec![], w: g.w.clone() }, g.t.map(com).as_ref()));
                ctx.step((k, z0.to_string()));
                ctx.check(got.clone().ok() == want.ok(), "run", || format!("from {}, step {}: {:?} instead of {:?}", z0, k, got, want));
                ctx.must("next_step", || a.next_step());
                m.next_step();
                let same = a.i == Fq::from(m.i) && a.z_0.state == m.z0 && a.z_i.state == m.zi && a.h_i == m.h;
                ctx.check(same, "state", || format!("from {}, after {} steps: i={} z_i={}, the model has z_i={}", z0, k + 1, a.i, a.z_i.state, m.zi));
            }
            ctx.outcome("as specified");
        }),
        scenario("close-hashes", 0, move |ctx| {
            // the hash sees every word of everything it is made from
            let f0 = Fi { e: fr(5), u: big(), w: fr(7), x: vec![big() + fr(8), fr(9)] };
            let mut v = (to_base(big()), fq(4), fq(-5), f0);
            let old = hash_ref(v.0, v.1, v.2, &v.3);
            let slot = ctx.choose(8);
            let same;
            match slot {
                0..=2 => {
                    let x = [&mut v.0, &mut v.1, &mut v.2].into_iter().nth(slot).unwrap();
                    let to = *ctx.pick(&near(*x));
                    same = *x == to;
                    *x = to;
                }
                _ => {
                    let (x, point) = match slot {
                        3 => (&mut v.3.e, true),
                        4 => (&mut v.3.u, false),
                        5 => (&mut v.3.w, true),
                        k => (&mut v.3.x[k - 6], false),
                    };
                    let to = *ctx.pick(&close_to(*x, point, false));
                    same = *x == to;
                    *x = to;
                }
            }
            let s = |z: Fq| State { state: z };
            let h = ctx.must("hash_io", || Aug::hash_io(v.0, &s(v.1), &s(v.2), &v.3.lib()));
            ctx.step((slot, h.to_string()));
            ctx.check((h == old) == same, "hash-blind", || format!("the public hash does not see a close change of component {} of {:?}", slot, v));
            ctx.check(h == hash_ref(v.0, v.1, v.2, &v.3), "hash", || format!("public hash {} of {:?}", h, v));
            ctx.outcome("seen");
        }),
    ]
}

// --------------------------------------------------------------------- N07
fn n07(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("satisfies-every-relation", 0, move |ctx| {
            let tau = big();
            let (rel, what) = if ctx.flag() {
                (tiny_relation(ctx, if quick { &[0, 1] } else { &[0, 1, -1] }), "tiny")
            } else {
                let n = if ctx.flag() { ctx.range(1, 6) } else { *ctx.pick(if quick { &[9, 17, 33][..] } else { &[7, 8, 9, 15, 16, 17, 33, 65, 130] }) };
                let x = *ctx.pick(&[0, 1, 2, 3, 9]);
                (relation(ctx.choose(RELATIONS), n, n, x), "family")
            };
            let s = scheme(tau, rel.m.max(2));
            let (w, u) = ctx.must("create_trivial_pair", || create_trivial_pair(rel.nio, rel.nv, &s));
            ctx.step((what, show(&rel, &Pair { w: w.w.clone(), e: w.e.clone(), x: u.x.clone(), u: u.u })));
            let zero = |v: &Vec<Fr>| v.iter().all(|x| x.is_zero());
            ctx.check(w.w.len() == rel.nv && u.x.len() == rel.nio && zero(&w.w) && zero(&w.e) && zero(&u.x), "not-trivial", || format!("trivial pair for {} variables and {} public entries: {:?} {:?}", rel.nv, rel.nio, w, u));
            let bare = ctx.must("new_trivial_witness", || FWitness::new_trivial_witness(rel.nv));
            ctx.check(bare.w.len() == rel.nv && bare.e.len() == rel.nv && zero(&bare.w) && zero(&bare.e), "not-trivial", || format!("trivial witness of length {}: {:?}", rel.nv, bare));
            let r = ctx.must("is_r1cs_satisfied", || is_r1cs_satisfied(&rel.lib(), &u, &w, &s));
            ctx.check(r.is_ok(), "unsatisfied", || format!("the trivial pair does not satisfy {}: {:?}", show(&rel, &Pair { w: w.w.clone(), e: w.e.clone(), x: u.x.clone(), u: u.u }), r));
            ctx.outcome("satisfies");
        }),
        scenario("folds-with-everything", 0, move |ctx| {
            let rel = if ctx.flag() {
                pick_relation(ctx, SHAPES.len(), RELATIONS)
            } else {
                let (m, nv, nio) = *ctx.pick(&LARGE[..6]);
                relation(1, m, nv, nio)
            };
            let tau = big();
            let s = scheme(tau, rel.m.max(rel.nv).max(2));
            let (w, u) = ctx.must("create_trivial_pair", || create_trivial_pair(rel.nio, rel.nv, &s));
            let t = Pair { w: w.w, e: w.e, x: u.x.clone(), u: u.u };
            ctx.check(t.fi(tau).is(&u), "trivial-commitment", || format!("the trivial instance does not commit to the trivial witness: {:?}", u));
            let mut p = pair(&rel, *ctx.pick(if quick { &[0, 3][..] } else { &[0, 1, 2, 3] }), fr(*ctx.pick(&[0, 1, 2])), 0);
            if ctx.flag() {
                p.e[0] += Fr::one();
            }
            let r = pick_r(ctx);
            let holds = rel.holds(&p);
            let first = ctx.flag();
            let f = if first { fold_and_judge(ctx, &rel, &t, &p, r) } else { fold_and_judge(ctx, &rel, &p, &t, r) };
            if holds {
                ctx.check(rel.holds(&f), "lost", || format!("folding the trivial pair with {} under r={} does not hold", show(&rel, &p), fs(&[r])));
            } else if !first || !r.is_zero() {
                ctx.check(!rel.holds(&f), "repaired", || format!("folding the trivial pair with {} under r={} holds", show(&rel, &p), fs(&[r])));
            }
            ctx.outcome(if holds { "holds" } else { "does not hold" });
        }),
    ]
}

// --------------------------------------------------------------------- N08
fn n08(tier: Tier) -> Vec<Scenario> {
    use nova::utils::*;
    let quick = tier == Tier::Quick;
    let letters: &'static [i64] = if quick { &[0, 1, -1] } else { &[0, 1, -1, 2] };
    fn vector(ctx: &mut Ctx, n: usize, letters: &[i64]) -> Vec<Fr> {
        (0..n).map(|_| fr(*ctx.pick(letters))).collect()
    }
    fn pattern(style: usize, i: usize) -> Fr {
        match style {
            0 => Fr::from(i as u64 + 1),
            1 => -Fr::from(3 * i as u64 + 2),
            2 => Fr::from((i as u64 + 5).wrapping_mul(0x9E37_79B9_7F4A_7C15)).square().square(),
            _ => Fr::from((i % 3 == 1) as u64),
        }
    }
    fn elementwise(ctx: &mut Ctx, a: &[Fr], b: &[Fr]) {
        let (la, lb) = (a.len(), b.len());
        let show = |a: &[Fr], b: &[Fr]| format!("{} and {}", fs(a), fs(b));
        let r = ctx.must("vec_equal", || vec_equal(a, b));
        ctx.check(r == (a == b), "equal", || format!("{} are called {}", show(a, b), if r { "equal" } else { "different" }));
        let (sum, diff) = (guard(|| vec_add(a, b)), guard(|| vec_sub(a, b)));
        if la != lb {
            ctx.check(sum.is_err(), "add-lengths", || format!("{} are added to {:?}", show(a, b), sum));
            ctx.check(diff.is_err(), "sub-lengths", || format!("{} are subtracted to {:?}", show(a, b), diff));
            ctx.outcome("lengths refused");
            return;
        }
        let had = guard(|| hadamard_product(a, b));
        let want = |f: fn(Fr, Fr) -> Fr| -> Vec<Fr> { a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect() };
        for (what, got, want) in [("sum", &sum, want(|x, y| x + y)), ("difference", &diff, want(|x, y| x - y)), ("entrywise product", &had, want(|x, y| x * y))] {
            ctx.check(got.as_ref() == Ok(&want), what, || format!("{} of {} is {:?}", what, show(a, b), got));
        }
        let u = b.first().copied().unwrap_or(fr(5));
        let r = ctx.must("vector_elem_product", || vector_elem_product(a, u));
        let w: Vec<Fr> = a.iter().map(|x| *x * u).collect();
        ctx.check(r == w, "multiple", || format!("{} times {} is {}", fs(a), fs(&[u]), fs(&r)));
        ctx.outcome("as defined");
    }
    fn product(ctx: &mut Ctx, m: &[Vec<Fr>], z: &[Fr]) {
        let r = ctx.must("matrix_vector_product", || matrix_vector_product(m, z));
        let w: Vec<Fr> = m.iter().map(|row| row.iter().zip(z).map(|(a, b)| *a * *b).sum()).collect();
        ctx.check(r == w, "matrix", || format!("{:?} times {} is {}", m.iter().map(|r| fs(r)).collect::<Vec<_>>(), fs(z), fs(&r)));
        ctx.outcome("matrix");
    }
    let top = if quick { 3 } else { 4 };
    vec![
        scenario("small-vectors", 0, move |ctx| {
            let (la, lb) = (ctx.range(0, top), ctx.range(0, top));
            let (a, b) = (vector(ctx, la, letters), vector(ctx, lb, letters));
            ctx.step((fs(&a), fs(&b)));
            ctx.note(|| format!("{} {}", fs(&a), fs(&b)));
            elementwise(ctx, &a, &b);
        }),
        scenario("small-matrices", 0, move |ctx| {
            let (rows, cols) = (ctx.range(0, 2), ctx.range(0, if quick { 2 } else { 3 }));
            let l3 = &letters[..3];
            let m: Vec<Vec<Fr>> = (0..rows).map(|_| vector(ctx, cols, l3)).collect();
            let z = vector(ctx, cols, l3);
            ctx.step((m.iter().map(|r| fs(r)).collect::<Vec<_>>(), fs(&z)));
            product(ctx, &m, &z);
        }),
        scenario("every-size", 0, move |ctx| {
            let top = if quick { 12 } else { 40 };
            let (rows, cols) = (ctx.range(0, top), ctx.range(0, top));
            let style = ctx.choose(4);
            let z: Vec<Fr> = (0..cols).map(|i| pattern((style + 1) % 4, i)).collect();
            let m: Vec<Vec<Fr>> = (0..rows).map(|i| (0..cols).map(|j| pattern(style, i * cols + j)).collect()).collect();
            ctx.step((rows, cols, style));
            product(ctx, &m, &z);
            // one entry different, at every place
            for i in 0..cols {
                let mut y = z.clone();
                y[i] += Fr::one();
                elementwise(ctx, &z, &y);
            }
            let x: Vec<Fr> = (0..rows).map(|i| pattern(style, i)).collect();
            elementwise(ctx, &z, &x);
        }),
        scenario("integers", 0, move |ctx| {
            const VALUES: &[usize] = &[0, 1, 2, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, usize::MAX];
            let n = ctx.range(0, 3);
            let v: Vec<usize> = (0..n).map(|_| *ctx.pick(VALUES)).collect();
            let rows = ctx.range(0, 2);
            let m: Vec<Vec<usize>> = (0..rows).map(|i| v.iter().rev().map(|x| x.wrapping_add(i)).take(n.saturating_sub(i)).collect()).collect();
            ctx.step((format!("{:?}", v), rows));
            let lift = |v: &[usize]| -> Vec<Fr> { v.iter().map(|x| Fr::from(*x as u128)).collect() };
            let r: Vec<Fr> = ctx.must("to_f_vec", || to_f_vec(v.clone()));
            ctx.check(r == lift(&v), "to_f_vec", || format!("{:?} becomes {}", v, fs(&r)));
            let r: Vec<Vec<Fr>> = ctx.must("to_f_matrix", || to_f_matrix(&m));
            ctx.check(r == m.iter().map(|x| lift(x)).collect::<Vec<_>>(), "to_f_matrix", || format!("{:?} becomes {:?}", m, r.iter().map(|x| fs(x)).collect::<Vec<_>>()));
            ctx.outcome("lifted");
        }),
        scenario("every-length-and-place", 0, move |ctx| {
            // long vectors, one entry different at every place of them
            let n = ctx.range(0, if quick { 260 } else { 1030 });
            let style = ctx.choose(if quick { 1 } else { 2 }) * 2;
            let z: Vec<Fr> = (0..n).map(|i| pattern(style, i)).collect();
            let o: Vec<Fr> = (0..n).map(|i| pattern(3 - style, i)).collect();
            ctx.step((n, style));
            let r = ctx.must("vec_equal", || vec_equal(&z, &z.clone()));
            ctx.check(r, "equal", || format!("a vector of {} entries is not equal to itself", n));
            let mut y = z.clone();
            for i in 0..n {
                y[i] += Fr::one();
                let r = ctx.must("vec_equal", || vec_equal(&z, &y)) || ctx.must("vec_equal", || vec_equal(&y, &z));
                ctx.check(!r, "equal", || format!("vectors of {} entries that differ at {} are called equal", n, i));
                y[i] = z[i];
            }
            elementwise(ctx, &z, &o);
            let m = vec![z.clone(), o.clone()];
            product(ctx, &m, &o);
        }),
        scenario("close-entries", 0, move |ctx| {
            // entries that agree in all words but one; entries of every magnitude
            let v = *ctx.pick(&wide::<_, 4>());
            let n = ctx.range(1, 3);
            let at = ctx.choose(n);
            let mut a: Vec<Fr> = (0..n).map(|i| pattern(2, i)).collect();
            a[at] = v;
            for y in near(v) {
                let mut b = a.clone();
                b[at] = y;
                ctx.step((n, at, y.to_string()));
                elementwise(ctx, &a, &b);
                product(ctx, &[a.clone(), b.clone()], &b);
            }
            ctx.outcome("close entries");
        }),
    ]
}
