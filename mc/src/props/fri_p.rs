//! FRI low-degree proofs (crate `fri`).
use super::Prop;
use crate::core::*;
use crate::util::*;
use ark_ff::{FftField, Field, One, PrimeField, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::DenseUVPolynomial;
use fri::fiat_shamir::transcript::Transcript;
use fri::fields::goldilocks::Fq;
use fri::prover::{generate_proof, Decommitment, Proof};
use fri::verifier::verify;
use sha2_11::Sha256;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "F01",
            bounds: "F_17: every polynomial over a 4-value alphabet of length<=4 (5 thorough) x blowup {1,2,4} x queries {1,3} x every verifier challenge (17 per layer up to 2 layers, 4 values above) via a programmable random oracle; F_97/F_193/F_257 and Goldilocks: every length 1..40 (130 thorough) x 5 blowups x 6 query counts x 8 coefficient patterns; lengths around 64..4096 with blowups up to 32 and up to 300 queries; blowups of every power of two up to 2^13 (2^17 thorough) and their neighbours; 66000 queries",
            assumptions: &[
                "domain sizes stay within the field's two-adicity",
                "the programmable oracle answers only the transcript hash; Merkle hashing is the library's own SHA-256",
            ],
            scenarios: f01,
        },
        Prop {
            id: "F02",
            bounds: "domains 2..16 (32 thorough), 1..3 queries (5 thorough), an adversary with every combination of at most 2 deviations (3 on domains<=4; thorough 4 on domains<=4 and 3 on domain 8), and 1 deviation up to domain 256 (1024 thorough) and 260 queries, out of: committed leaf, claimed root, over-deep tree, opened value/index/path/tree at each query and layer, consistent opening from another commitment, constant, list lengths, domain size, coset, query count, equations repaired by solving for a main/symmetric value opened in 3 ways; committed polynomials of 9 special shapes (zero, constant, even, odd, monomial, equal coefficients, ..) under every single (double thorough) deviation; deviations by every power of two; the library's proofs for domains 512..4096 (32768 thorough) and of up to 1100 queries, one component of one opening changed in 12 ways",
            assumptions: &[
                "SHA-256 reduced to the 64-bit Goldilocks field has no collision among the few thousand trees built",
                "the adversary's trees are built with the prover's own Merkle code through the public API",
            ],
            scenarios: f02,
        },
        Prop {
            id: "F03",
            bounds: "every length 1..20 (70 thorough) x 4 blowups x queries {1,2,7} x 8 coefficient patterns and lengths around 32..1024 with up to 130 queries on Goldilocks; domains of more than 2^16 points, 66000 queries; every polynomial of length<=3 over a 4-value alphabet on F_17 with every first-layer challenge",
            assumptions: &["the reference draws challenges with the library's own transcript (its behaviour is T01's subject)"],
            scenarios: f03,
        },
        Prop {
            id: "F04",
            bounds: "every table of evaluations of size 2,4 over a 3-value alphabet and of size 8 over a 2-value alphabet; every single-entry change and every swap on size 16/32 tables; changes and exchanges at five distances on tables of 32..2048; 2^18 (2^20 thorough) one-value tables of sizes 2 and 4 with pairwise distinct roots; every bit of nodes at every height takes both values",
            assumptions: &["no accidental 64-bit collision among the tables enumerated"],
            scenarios: f04,
        },
        Prop {
            id: "F05",
            bounds: "every pair of 70 (210 thorough) boundary values (0..17, powers of two and their neighbours, values around the modulus, its half and its root) under +,-,*,/,-x,x^2,1/x,x^y,conversions; every two-power order 2^0..2^33; every coset and subgroup of size up to 2^12 (2^17 thorough) element by element, all six prime divisors of p-1 for the generator",
            assumptions: &["the reference computes on 128-bit integers modulo 2^64-2^32+1"],
            scenarios: f05,
        },
    ]
}

// ---------------------------------------------------------------- reference

pub fn horner<F: PrimeField>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::zero(), |a, k| a * x + k)
}

fn root_of_unity<F: PrimeField>(n: usize) -> F {
    F::get_root_of_unity(n as u64).expect("domain within two-adicity")
}

/// Evaluations of `coeffs` on coset * <w_n>.
fn table<F: PrimeField>(coeffs: &[F], coset: F, n: usize) -> Vec<F> {
    let w: F = root_of_unity(n);
    let mut x = coset;
    (0..n)
        .map(|_| {
            let v = horner(coeffs, x);
            x *= w;
            v
        })
        .collect()
}

/// Value of the folded function at index `i` of the half-size domain, from the
/// two points that map onto it.
fn fold_at<F: PrimeField>(a: F, b: F, w: F, r: F) -> F {
    let two = F::from(2u64);
    (a + b) / two + r * ((a - b) / (two * w))
}

fn fold_table<F: PrimeField>(t: &[F], coset: F, r: F) -> Vec<F> {
    let n = t.len();
    let w: F = root_of_unity(n);
    (0..n / 2).map(|i| fold_at(t[i], t[i + n / 2], coset * w.pow([i as u64]), r)).collect()
}

fn fold_coeffs<F: PrimeField>(c: &[F], r: F) -> Vec<F> {
    (0..c.len().div_ceil(2)).map(|i| c[2 * i] + r * c.get(2 * i + 1).copied().unwrap_or(F::zero())).collect()
}

/// The challenges a verifier derives from the commitments and the constant.
fn challenges<T: digest_11::Digest + Default, F: PrimeField>(roots: &[F], konst: F, q: usize, domain: usize) -> (Vec<F>, Vec<usize>) {
    let mut t = Transcript::<T, F>::new(F::zero());
    let rs = roots
        .iter()
        .map(|r| {
            t.digest(*r);
            t.generate_a_challenge()
        })
        .collect();
    t.digest(konst);
    let pos = t.generate_challenge_list_usize(q).into_iter().map(|v| if domain == 0 { v } else { v % domain }).collect();
    (rs, pos)
}

fn domain_of(len: usize, blowup: usize) -> usize {
    (len.max(1) * blowup).next_power_of_two()
}

fn pattern<F: PrimeField>(k: usize, len: usize) -> Vec<F> {
    let one = F::one();
    (0..len)
        .map(|i| match k {
            0 => F::from((i + 1) as u64),
            1 => one,
            2 => {
                if i + 1 == len {
                    F::from(3u64)
                } else {
                    F::zero()
                }
            }
            3 => -one,
            4 => {
                if i % 3 == 0 {
                    F::from((i * i + 7) as u64)
                } else {
                    F::zero()
                }
            }
            5 => F::from((i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 3),
            6 => F::zero(), // the zero polynomial, whatever the length asked for
            _ => {
                if i == 0 {
                    F::from(9u64)
                } else {
                    F::zero()
                } // a constant given with trailing zero coefficients
            }
        })
        .collect()
}
const PATTERNS: usize = 8;

fn shape_ok<F: PrimeField>(ctx: &mut Ctx, p: &Proof<F>, domain: usize, q: usize) {
    let layers = domain.ilog2() as usize;
    let ok = p.domain_size == domain && p.number_of_queries == q && p.layers_root.len() == layers;
    ctx.check(ok, "shape", || format!("domain {} queries {} layers {} for expected domain {} queries {}", p.domain_size, p.number_of_queries, p.layers_root.len(), domain, q));
}

// --------------------------------------------------------------------- F01

fn complete<T: digest_11::Digest + Default, F: PrimeField>(ctx: &mut Ctx, coeffs: Vec<F>, blowup: usize, q: usize) {
    let poly = DensePolynomial::from_coefficients_vec(coeffs.clone());
    let proof = ctx.must("generate_proof", || generate_proof::<T, F>(poly, blowup, q));
    ctx.step((fs(&proof.layers_root), fs(&[proof.const_val]), proof.domain_size, q));
    let d = proof.decommitment_list.len();
    let res = ctx.must("verify", || verify::<T, F>(proof));
    ctx.step((res.is_ok(), d));
    if let Err(e) = res {
        ctx.fail("rejected", format!("honest proof for {} blowup {} queries {} rejected: {}", fs(&coeffs), blowup, q, e));
    }
}

fn f01(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let seeds17 = seeds_for::<F17>(17);
    let mut v = vec![scenario("f17-every-challenge", 0, move |ctx| {
        let alphabet: Vec<F17> = [0u64, 1, 16, 5].iter().map(|x| F17::from(*x)).collect();
        let maxlen = if quick { 4 } else { 5 };
        let len = ctx.range(1, maxlen);
        let blowup = *ctx.pick(&[1usize, 2, 4]);
        let domain = domain_of(len, blowup);
        if domain > 16 {
            ctx.prune()
        }
        let coeffs: Vec<F17> = (0..len).map(|i| if i + 1 == len { *ctx.pick(&alphabet[1..]) } else { *ctx.pick(&alphabet) }).collect();
        let layers = domain.ilog2() as usize;
        if quick && layers > 2 && len > 3 {
            // keep the product of polynomials and challenges in budget
            if coeffs[0] != alphabet[1] {
                ctx.prune()
            }
        }
        let q = *ctx.pick(&[1usize, 3]);
        let mut script = vec![0u64];
        for l in 0..layers {
            let s = if layers <= 2 || (l == 0 && !quick) { *ctx.pick(&seeds17) } else { seeds17[*ctx.pick(&[0usize, 1, 16, 4])] };
            script.push(s);
        }
        script.push(seeds17[*ctx.pick(&[1usize, 6, 11])]);
        ctx.note(|| format!("poly {} blowup {} queries {} oracle {:?}", fs(&coeffs), blowup, q, script));
        oracle_reset(script);
        complete::<Ro11, F17>(ctx, coeffs, blowup, q);
        ctx.outcome(format!("domain {}", domain));
    })];
    v.push(scenario("f17-constants-and-zero", 0, move |ctx| {
        let c = ctx.choose(17);
        let pad = ctx.choose(3);
        let blowup = *ctx.pick(&[1usize, 2, 4, 8, 16]);
        let q = *ctx.pick(&[1usize, 2, 5]);
        let mut coeffs = vec![F17::from(c as u64)];
        coeffs.resize(1 + pad, F17::zero());
        oracle_reset(vec![]);
        ctx.note(|| format!("poly {} blowup {} queries {}", fs(&coeffs), blowup, q));
        complete::<Ro11, F17>(ctx, coeffs, blowup, q);
        ctx.outcome(format!("const {} blowup {}", c == 0, blowup));
    }));
    fn dims<F: PrimeField>(name: &str, maxlen: usize, maxdom: usize) -> Scenario {
        scenario(name, 0, move |ctx| {
            let len = ctx.range(1, maxlen);
            let blowup = *ctx.pick(&[1usize, 2, 3, 4, 8]);
            if domain_of(len, blowup) > maxdom {
                ctx.prune()
            }
            let q = *ctx.pick(&[1usize, 2, 3, 10, 33, 64]);
            let k = ctx.choose(PATTERNS);
            let coeffs = pattern::<F>(k, len);
            ctx.note(|| format!("length {} pattern {} blowup {} queries {}", len, k, blowup, q));
            complete::<Sha256, F>(ctx, coeffs, blowup, q);
            ctx.outcome(format!("domain {}", domain_of(len, blowup)));
        })
    }
    v.push(scenario("blowups", 0, move |ctx| {
        // every power-of-two blow-up, and some others, of short polynomials
        let len = *ctx.pick(&[1usize, 2, 3, 5, 16]);
        let k = ctx.choose(if quick { 14 } else { 18 });
        let blowup = ((1usize << k) + [0usize, 1, 2][ctx.choose(3)]).saturating_sub(1);
        if blowup == 0 || domain_of(len, blowup) > if quick { 1 << 14 } else { 1 << 18 } {
            ctx.prune()
        }
        let q = *ctx.pick(&[1usize, 20]);
        let coeffs = pattern::<Fq>(ctx.choose(2), len);
        ctx.note(|| format!("length {} blowup {} queries {}", len, blowup, q));
        complete::<Sha256, Fq>(ctx, coeffs, blowup, q);
        ctx.outcome(format!("domain {}", domain_of(len, blowup)));
    }));
    v.push(scenario("very-many-queries", 0, move |ctx| {
        let len = *ctx.pick(&[1usize, 2, 3, 8]);
        let blowup = *ctx.pick(&[1usize, 2]);
        let q = *ctx.pick(if quick { &[255usize, 256, 257, 1000, 4097, 66_000][..] } else { &[255usize, 256, 257, 511, 1000, 1025, 2049, 4097, 10_000, 66_000] });
        ctx.note(|| format!("length {} blowup {} queries {}", len, blowup, q));
        complete::<Sha256, Fq>(ctx, pattern::<Fq>(0, len), blowup, q);
        ctx.outcome(format!("domain {}", domain_of(len, blowup)));
    }));
    v.push(dims::<F97>("f97-dimensions", 32, 32));
    v.push(dims::<F193>("f193-dimensions", if quick { 24 } else { 64 }, 64));
    v.push(dims::<F257>("f257-dimensions", if quick { 24 } else { 200 }, 256));
    v.push(dims::<Fq>("goldilocks-dimensions", if quick { 40 } else { 130 }, if quick { 256 } else { 1024 }));
    v.push(scenario("goldilocks-large", 0, move |ctx| {
        let len = *ctx.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 1025, 2047, 4096]);
        let blowup = *ctx.pick(&[1usize, 2, 4, 5, 16, 32]);
        if domain_of(len, blowup) > if quick { 1 << 13 } else { 1 << 16 } {
            ctx.prune()
        }
        let q = *ctx.pick(&[1usize, 5, 100, 300]);
        let k = *ctx.pick(&[0usize, 2, 4]);
        if quick && (len * blowup > 1100 && q == 300 || k > 0 && q > 5) {
            ctx.prune()
        }
        let coeffs = pattern::<Fq>(k, len);
        ctx.note(|| format!("length {} pattern {} blowup {} queries {}", len, k, blowup, q));
        complete::<Sha256, Fq>(ctx, coeffs, blowup, q);
        ctx.outcome(format!("domain {}", domain_of(len, blowup)));
    }));
    if !quick {
        v.push(scenario("f17-every-polynomial", 0, move |ctx| {
            let len = ctx.range(1, 3);
            let blowup = *ctx.pick(&[1usize, 2, 4]);
            let coeffs: Vec<F17> = (0..len).map(|_| F17::from(ctx.choose(17) as u64)).collect();
            let q = 2;
            oracle_reset(vec![0, seeds17_static(ctx.choose(17))]);
            complete::<Ro11, F17>(ctx, coeffs, blowup, q);
        }));
    }
    v
}

fn seeds17_static(i: usize) -> u64 {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<u64>> = OnceLock::new();
    S.get_or_init(|| seeds_for::<F17>(17))[i]
}

// --------------------------------------------------------------------- F03

fn content<T: digest_11::Digest + Default, F: PrimeField>(ctx: &mut Ctx, coeffs: Vec<F>, blowup: usize, q: usize) -> Proof<F> {
    let poly = DensePolynomial::from_coefficients_vec(coeffs.clone());
    let coeffs: Vec<F> = poly.coeffs.clone();
    let proof = ctx.must("generate_proof", || generate_proof::<T, F>(poly, blowup, q));
    let domain = domain_of(coeffs.len(), blowup);
    shape_ok(ctx, &proof, domain, q);
    ctx.check(proof.coset == F::GENERATOR, "coset", || format!("coset {} is not the field generator", proof.coset));
    let (rs, pos) = challenges::<T, F>(&proof.layers_root, proof.const_val, q, domain);
    let mut c = coeffs.clone();
    let mut coset = proof.coset;
    let mut tables = vec![];
    let mut n = domain;
    for r in &rs {
        tables.push(table(&c, coset, n));
        ctx.step((fs(tables.last().unwrap()), fs(&[*r])));
        c = fold_coeffs(&c, *r);
        coset = coset.square();
        n /= 2;
    }
    let konst = c.first().copied().unwrap_or(F::zero());
    ctx.check(c.iter().skip(1).all(|x| x.is_zero()), "fold-end", || "reference folding did not end in a constant".into());
    ctx.check(proof.const_val == konst, "constant", || format!("final constant {} expected {}", proof.const_val, konst));
    ctx.check(proof.decommitment_list.len() == q, "openings", || format!("{} decommitments for {} queries", proof.decommitment_list.len(), q));
    for (j, d) in proof.decommitment_list.iter().enumerate() {
        let l = tables.len();
        ctx.check(
            d.evaluations.len() == l && d.sym_evaluations.len() == l && d.auth_paths.len() == l && d.sym_auth_paths.len() == l,
            "openings",
            || format!("query {} opens {} layers of {}", j, d.evaluations.len(), l),
        );
        for i in 0..l {
            let n = tables[i].len();
            let idx = pos[j] % n;
            let sym = (idx + n / 2) % n;
            let good = d.evaluations[i] == tables[i][idx]
                && d.sym_evaluations[i] == tables[i][sym]
                && d.auth_paths[i].index == idx
                && d.auth_paths[i].leaf_val == tables[i][idx]
                && d.sym_auth_paths[i].index == sym
                && d.sym_auth_paths[i].leaf_val == tables[i][sym];
            ctx.check(good, "opening-content", || {
                format!(
                    "query {} layer {}: opened ({}, {}) at ({}, {}), expected ({}, {}) at ({}, {})",
                    j, i, d.evaluations[i], d.sym_evaluations[i], d.auth_paths[i].index, d.sym_auth_paths[i].index, tables[i][idx], tables[i][sym], idx, sym
                )
            });
        }
        ctx.step((j, pos[j]));
    }
    proof
}

fn f03(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let seeds17 = seeds_for::<F17>(17);
    vec![
        scenario("f17-content", 0, move |ctx| {
            let alphabet: Vec<F17> = [0u64, 1, 16, 5].iter().map(|x| F17::from(*x)).collect();
            let len = ctx.range(1, 3);
            let blowup = *ctx.pick(&[1usize, 2, 4]);
            let coeffs: Vec<F17> = (0..len).map(|_| *ctx.pick(&alphabet)).collect();
            let s0 = *ctx.pick(&seeds17);
            let s1 = seeds17[*ctx.pick(&[0usize, 1, 16, 7])];
            let q = *ctx.pick(&[1usize, 2]);
            ctx.note(|| format!("poly {} blowup {} queries {}", fs(&coeffs), blowup, q));
            oracle_reset(vec![0, s0, s1, seeds17[3], seeds17[9]]);
            content::<Ro11, F17>(ctx, coeffs, blowup, q);
            ctx.outcome(format!("len {} blowup {}", len, blowup));
        }),
        scenario("goldilocks-large", 0, move |ctx| {
            let len = *ctx.pick(&[31usize, 33, 63, 64, 65, 127, 129, 255, 257, 511, 513, 1025]);
            let blowup = *ctx.pick(&[1usize, 2, 8]);
            let q = *ctx.pick(&[1usize, 40, 130]);
            let k = *ctx.pick(&[0usize, 5]);
            if quick && (len * blowup > 600 && q > 1 || len * blowup > 2100) {
                ctx.prune()
            }
            ctx.note(|| format!("length {} pattern {} blowup {} queries {}", len, k, blowup, q));
            content::<Sha256, Fq>(ctx, pattern::<Fq>(k, len), blowup, q);
            ctx.outcome(format!("domain {}", domain_of(len, blowup)));
        }),
        scenario("wide", 0, move |ctx| {
            // domains whose positions need more than 16 bits; very many queries
            let (len, blowup, q) = *ctx.pick(if quick { &[(1usize, 1usize << 17, 3usize), (2, 1 << 16, 3), (2, 2, 66_000), (5, 1, 3000)][..] } else { &[(1usize, 1 << 17, 3), (1, 1 << 18, 3), (2, 1 << 17, 20), (3, 1 << 15, 5), (2, 2, 66_000), (8, 1, 66_000), (5, 1, 3000)] });
            ctx.note(|| format!("length {} blowup {} queries {}", len, blowup, q));
            content::<Sha256, Fq>(ctx, pattern::<Fq>(0, len), blowup, q);
            ctx.outcome(format!("domain {}", domain_of(len, blowup)));
        }),
        scenario("goldilocks-content", 0, move |ctx| {
            let len = ctx.range(1, if quick { 20 } else { 70 });
            let blowup = *ctx.pick(&[1usize, 2, 3, 4]);
            let q = *ctx.pick(&[1usize, 2, 7]);
            let k = ctx.choose(PATTERNS);
            let coeffs = pattern::<Fq>(k, len);
            ctx.note(|| format!("length {} pattern {} blowup {} queries {}", len, k, blowup, q));
            let p = content::<Sha256, Fq>(ctx, coeffs.clone(), blowup, q);
            // the commitments are a function of the committed table alone: commit the
            // first layer's table again inside a proof with other parameters
            if let Some(r0) = p.layers_root.first() {
                let again = generate_proof::<Sha256, Fq>(DensePolynomial::from_coefficients_vec(coeffs), blowup, q + 1);
                ctx.check(again.layers_root.first() == Some(r0), "root-stable", || "first commitment depends on the number of queries".into());
            }
            ctx.outcome(format!("domain {}", p.domain_size));
        }),
    ]
}

// ------------------------------------------------------------ adversary kit

/// A committed table: its root and, per position, an authentication path.
struct Tree {
    size: usize,
    root: Fq,
    table: Vec<Fq>,
    /// one single-path decommitment per position (the path type has no public name)
    paths: Vec<Decommitment<Fq>>,
}

fn interpolate(t: &[Fq], coset: Fq) -> Vec<Fq> {
    // inverse DFT, then undo the coset shift
    let n = t.len();
    let w: Fq = root_of_unity(n);
    let winv = w.inverse().unwrap();
    let ninv = Fq::from(n as u64).inverse().unwrap();
    let cinv = coset.inverse().unwrap();
    (0..n)
        .map(|k| {
            let mut s = Fq::zero();
            for (i, v) in t.iter().enumerate() {
                s += *v * winv.pow([(i * k) as u64]);
            }
            s * ninv * cinv.pow([k as u64])
        })
        .collect()
}

thread_local! {
    static TREES: RefCell<HashMap<Vec<Fq>, Rc<Tree>>> = RefCell::new(HashMap::new());
}

/// Commit to an arbitrary table using the real prover.
fn commit(ctx: &mut Ctx, t: &[Fq]) -> Rc<Tree> {
    if let Some(x) = TREES.with(|m| m.borrow().get(t).cloned()) {
        return x;
    }
    let n = t.len();
    let poly = DensePolynomial::from_coefficients_vec(interpolate(t, Fq::GENERATOR));
    let len = poly.coeffs.len().max(1);
    let blowup = n / len.next_power_of_two();
    let mut paths: Vec<Option<Decommitment<Fq>>> = vec![None; n];
    let mut q = 4 * n;
    let root;
    loop {
        let p = ctx.must("generate_proof", || generate_proof::<Sha256, Fq>(poly.clone(), blowup, q));
        if p.domain_size != n || p.layers_root.is_empty() {
            ctx.fail("tree", format!("a table of size {} was committed as domain {}", n, p.domain_size));
        }
        for d in &p.decommitment_list {
            for (path, _v) in d.auth_paths.iter().take(1).zip(&d.evaluations).chain(d.sym_auth_paths.iter().take(1).zip(&d.sym_evaluations)) {
                if path.index >= n || path.leaf_val != t[path.index] {
                    let m = format!("leaf {} of the committed tree is {}", path.index, path.leaf_val);
                    ctx.fail("tree", m);
                }
                paths[path.index] = Some(Decommitment { evaluations: vec![], auth_paths: vec![path.clone()], sym_evaluations: vec![], sym_auth_paths: vec![] });
            }
        }
        if paths.iter().all(|p| p.is_some()) {
            root = p.layers_root[0];
            break;
        }
        q *= 4;
        if q > 1 << 20 {
            ctx.fail("tree", "query positions never cover the domain");
        }
    }
    let tree = Rc::new(Tree { size: n, root, table: t.to_vec(), paths: paths.into_iter().map(|p| p.unwrap()).collect() });
    TREES.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 20_000 {
            m.clear();
        }
        m.insert(t.to_vec(), tree.clone())
    });
    tree
}

/// One opened position, with where its path really comes from.
#[derive(Clone)]
struct Opening {
    value: Fq,
    path: Decommitment<Fq>,
    // provenance
    root: Fq,
    size: usize,
    index: usize,
    leaf: Fq,
}

impl Opening {
    fn of(t: &Tree, i: usize) -> Opening {
        Opening { value: t.table[i], path: t.paths[i].clone(), root: t.root, size: t.size, index: i, leaf: t.table[i] }
    }
    /// Does this opening authenticate `value` at `index` under `root` in a tree of `size` leaves?
    fn good(&self, root: Fq, size: usize, index: usize) -> bool {
        let p = &self.path.auth_paths[0];
        self.root == root && self.size == size && self.index == index && p.index == index && p.leaf_val == self.leaf && self.value == self.leaf
    }
}

#[derive(Clone)]
struct AdvQuery {
    main: Vec<Opening>,
    sym: Vec<Opening>,
    drop: [usize; 4], // entries missing at the end of evals, paths, sym evals, sym paths
}

struct Adv {
    domain: usize,
    coset: Fq,
    q: usize,
    roots: Vec<Fq>,
    konst: Fq,
    queries: Vec<AdvQuery>,
}

impl Adv {
    fn proof(&self) -> Proof<Fq> {
        let take = |n: usize, d: usize| n.saturating_sub(d);
        Proof {
            domain_size: self.domain,
            coset: self.coset,
            number_of_queries: self.q,
            layers_root: self.roots.clone(),
            const_val: self.konst,
            decommitment_list: self
                .queries
                .iter()
                .map(|a| Decommitment {
                    evaluations: a.main.iter().take(take(a.main.len(), a.drop[0])).map(|o| o.value).collect(),
                    auth_paths: a.main.iter().take(take(a.main.len(), a.drop[1])).map(|o| o.path.auth_paths[0].clone()).collect(),
                    sym_evaluations: a.sym.iter().take(take(a.sym.len(), a.drop[2])).map(|o| o.value).collect(),
                    sym_auth_paths: a.sym.iter().take(take(a.sym.len(), a.drop[3])).map(|o| o.path.auth_paths[0].clone()).collect(),
                })
                .collect(),
        }
    }

    /// The protocol's acceptance condition, from provenance alone.
    fn reference(&self) -> Result<(), String> {
        let l = self.roots.len();
        if l >= 32 || self.domain != 1usize << l {
            return Err("domain size does not match the number of layers".into());
        }
        if self.coset.is_zero() {
            return Err("zero coset".into());
        }
        if self.queries.len() != self.q {
            return Err("number of decommitments".into());
        }
        let (rs, pos) = challenges::<Sha256, Fq>(&self.roots, self.konst, self.q, self.domain);
        for (a, p) in self.queries.iter().zip(pos) {
            if a.drop != [0; 4] || a.main.len() != l || a.sym.len() != l {
                return Err("layers opened".into());
            }
            let mut n = self.domain;
            let mut coset = self.coset;
            for i in 0..l {
                let idx = p % n;
                let sym = (idx + n / 2) % n;
                if !a.main[i].good(self.roots[i], n, idx) || !a.sym[i].good(self.roots[i], n, sym) {
                    return Err(format!("layer {} opening", i));
                }
                let w = coset * root_of_unity::<Fq>(n).pow([idx as u64]);
                let f = fold_at(a.main[i].value, a.sym[i].value, w, rs[i]);
                let next = if i + 1 < l { a.main[i + 1].value } else { self.konst };
                if f != next {
                    return Err(format!("layer {} folding", i));
                }
                n /= 2;
                coset = coset.square();
            }
        }
        Ok(())
    }
}

/// How many shapes the committed polynomial of `adversary` takes.
const SHAPES: usize = 9;

/// `one` is what every wrong value is off by.
fn adversary(ctx: &mut Ctx, n: usize, q: usize, which: usize, one: Fq) {
    let layers = n.ilog2() as usize;
    let base: Vec<Fq> = (0..n).map(|i| Fq::from(((i + 1 + which) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 5)).collect();
    let base: Vec<Fq> = match which {
        0 => base,
        1 => base[..n / 2].to_vec(),
        // nothing, a constant, only even or odd powers, one power, small and the same coefficients
        2 => vec![],
        3 => base[..1].to_vec(),
        4 => base.iter().enumerate().map(|(i, c)| if i % 2 == 0 { *c } else { Fq::zero() }).collect(),
        5 => base.iter().enumerate().map(|(i, c)| if i % 2 == 1 { *c } else { Fq::zero() }).collect(),
        6 => (0..n).map(|i| if i + 1 == n { Fq::one() } else { Fq::zero() }).collect(),
        7 => vec![-Fq::one(); n],
        // only multiples of four
        _ => base.iter().enumerate().map(|(i, c)| if i % 4 == 0 { *c } else { Fq::zero() }).collect(),
    };
    let other: Vec<Fq> = (0..n).map(|i| Fq::from(((i + 77) as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F) >> 5)).collect();
    let g = Fq::GENERATOR;
    let mut coset = g;
    let mut size = n;
    let mut cur = table(&base, g, n);
    let mut trees: Vec<Rc<Tree>> = vec![];
    let mut roots = vec![];
    let mut rs = vec![];
    let mut story: Vec<String> = vec![];
    let mut tr = Transcript::<Sha256, Fq>::new(Fq::zero());
    for i in 0..layers {
        // what is committed
        let d = ctx.dev(size + 2);
        let tree = if d == 0 {
            commit(ctx, &cur)
        } else if d <= size {
            story.push(format!("layer {} commits a wrong value at {}", i, d - 1));
            cur[d - 1] += one;
            commit(ctx, &cur)
        } else {
            story.push(format!("layer {} commits into a tree twice as deep", i));
            let mut t = cur.clone();
            t.extend(table(&other, coset, size));
            commit(ctx, &t)
        };
        // what is claimed
        let d = ctx.dev(4);
        let root = match d {
            0 => tree.root,
            1 => {
                story.push(format!("layer {} claims another tree's root", i));
                let t = table(&other, coset, size);
                commit(ctx, &t).root
            }
            2 => {
                story.push(format!("layer {} claims root 0", i));
                Fq::zero()
            }
            _ => {
                story.push(format!("layer {} claims root+1", i));
                tree.root + one
            }
        };
        tr.digest(root);
        let r = tr.generate_a_challenge();
        roots.push(root);
        rs.push(r);
        trees.push(tree);
        cur = fold_table(&cur[..size], coset, r);
        coset = coset.square();
        size /= 2;
        ctx.step((i, fs(&cur)));
    }
    let honest_const = cur[0];
    // a second, fold-consistent family of openings from layer i0 on
    let mut alt: Option<(usize, Vec<Rc<Tree>>, Fq)> = None;
    let mut options = vec![];
    for i0 in 0..layers {
        let m = n >> i0;
        for e in 0..m {
            options.push((i0, Some(e)));
        }
        options.push((i0, None));
    }
    let d = ctx.dev(options.len() + 1);
    if d > 0 {
        let (i0, e) = options[d - 1];
        story.push(format!("openings from layer {} on come from another commitment ({:?})", i0, e));
        let m = n >> i0;
        let mut c = g;
        for _ in 0..i0 {
            c = c.square();
        }
        let mut t = trees[i0].table[..m].to_vec();
        match e {
            Some(e) => t[e] += one,
            None => t = table(&other[..m], c, m),
        }
        let mut v = vec![];
        let mut i = i0;
        while t.len() > 1 {
            v.push(commit(ctx, &t));
            t = fold_table(&t, c, rs[i]);
            c = c.square();
            i += 1;
        }
        alt = Some((i0, v, t[0]));
    }
    // the constant
    let d = ctx.dev(6);
    let konst = match d {
        0 => match &alt {
            Some((_, _, k)) => *k,
            None => honest_const,
        },
        1 => honest_const + one,
        2 => Fq::zero(),
        3 => honest_const,
        4 => trees[layers - 1].table[0],
        _ => trees[layers - 1].table[1],
    };
    if d > 0 {
        story.push(format!("constant variant {}", d));
    }
    // parameters claimed in the proof
    let domains: Vec<usize> = vec![n, 0, 1, 2, 3, n - 1, n + 1, 2 * n, n / 2, 4 * n, 1 << 33, usize::MAX];
    let dd = ctx.dev(domains.len());
    let domain = domains[dd];
    if dd > 0 {
        story.push(format!("domain size {}", domain));
    }
    let cosets = [g, Fq::zero(), Fq::one(), -g, g.square()];
    let dc = ctx.dev(cosets.len());
    let pcoset = cosets[dc];
    if dc > 0 {
        story.push(format!("coset {}", pcoset));
    }
    let dq = ctx.dev(3);
    let q_claim = match dq {
        0 => q,
        1 => q + 1,
        _ => q - 1,
    };
    if dq > 0 {
        story.push(format!("claims {} queries", q_claim));
    }
    if dq == 2 && q_claim == 0 {
        // no query at all: recorded separately (see the zero-queries scenario)
        ctx.prune()
    }
    tr.digest(konst);
    let pos: Vec<usize> = tr.generate_challenge_list_usize(q).into_iter().map(|v| v % n).collect();
    // openings
    let mut queries = vec![];
    for (j, p) in pos.iter().enumerate() {
        let mut a = AdvQuery { main: vec![], sym: vec![], drop: [0; 4] };
        for i in 0..layers {
            let m = n >> i;
            let idx = p % m;
            let sym = (idx + m / 2) % m;
            let src: &Tree = match &alt {
                Some((i0, v, _)) if i >= *i0 => &v[i - i0],
                _ => &trees[i],
            };
            let mut o = [Opening::of(src, idx), Opening::of(src, sym)];
            let d = ctx.dev(2 * 8 + 2);
            if d > 0 {
                story.push(format!("query {} layer {} opening variant {}", j, i, d));
                if d == 17 {
                    o.swap(0, 1);
                } else {
                    let (side, kind) = ((d - 1) % 2, (d - 1) / 2);
                    let at = [idx, sym][side];
                    let x = &mut o[side];
                    match kind {
                        0 => x.value += one,
                        1 => {
                            x.value += one;
                            x.path.auth_paths[0].leaf_val += one;
                        }
                        2 => x.path.auth_paths[0].leaf_val += one,
                        3 => {
                            // a genuine path, but in a tree with another leaf there
                            let mut t = src.table.clone();
                            t[at] += one;
                            let t = commit(ctx, &t);
                            *x = Opening::of(&t, at);
                        }
                        4 => *x = Opening::of(src, (at + 1) % m),
                        5 => x.path.auth_paths[0].index = (at + 1) % m,
                        6 => {
                            // same leaf value, path of another tree
                            let mut t = src.table.clone();
                            t[(at + 1) % m] += one;
                            let t = commit(ctx, &t);
                            *x = Opening::of(&t, at);
                        }
                        _ => x.path.auth_paths[0].index = at + m,
                    }
                }
            }
            let [m0, s0] = o;
            a.main.push(m0);
            a.sym.push(s0);
        }
        let d = ctx.dev(8);
        if d > 0 {
            story.push(format!("query {} list shape {}", j, d));
            match d {
                1..=4 => a.drop[d - 1] = 1,
                5 => {
                    a.main.pop();
                    a.sym.pop();
                }
                6 => {
                    let (x, y) = (a.main[layers - 1].clone(), a.sym[layers - 1].clone());
                    a.main.push(x);
                    a.sym.push(y);
                }
                _ => {
                    a.main.clear();
                    a.sym.clear();
                }
            }
        }
        queries.push(a);
    }
    // An adversary that makes the folding equations hold: every broken equation is
    // repaired by solving it for one of the two opened values, and the solved value
    // is opened in one of three ways. Or one query is forged from a layer down to
    // the first one so that its equations keep holding.
    let d = ctx.dev(1 + 6 + q * layers * 3);
    if d > 0 {
        let (how, repair) = if d <= 6 { ((d - 1) / 2, Some((d - 1) % 2)) } else { ((d - 7) % 3, None) };
        let place = |ctx: &mut Ctx, x: &mut Opening, value: Fq| {
            if x.value == value {
                return;
            }
            x.value = value;
            match how {
                0 => {}
                1 => x.path.auth_paths[0].leaf_val = value,
                _ => {
                    let at = x.path.auth_paths[0].index;
                    let mut t = vec![Fq::zero(); x.size];
                    if at < t.len() {
                        t[at] = value;
                        t[(at + 1) % x.size] += one;
                        let t = commit(ctx, &t);
                        *x = Opening::of(&t, at);
                    }
                }
            }
        };
        let (fj, fi) = ((d.max(7) - 7) / 3 / layers, (d.max(7) - 7) / 3 % layers);
        for (j, a) in queries.iter_mut().enumerate() {
            if a.main.len() != layers || (repair.is_none() && j != fj) {
                continue;
            }
            for i in (0..layers).rev() {
                if repair.is_none() && i > fi {
                    continue;
                }
                let m = n >> i;
                let w = g.pow([1u64 << i]) * root_of_unity::<Fq>(m).pow([(pos[j] % m) as u64]);
                let next = if i + 1 < layers { a.main[i + 1].value } else { konst };
                if repair.is_none() && i == fi {
                    let v = a.sym[i].value + one;
                    place(ctx, &mut a.sym[i], v);
                }
                let (x, y) = (a.main[i].value, a.sym[i].value);
                if fold_at(x, y, w, rs[i]) == next {
                    continue;
                }
                // next * 2w = (r + w) x - (r - w) y
                let two_w = w + w;
                if repair == Some(1) {
                    let v = (rs[i] + w) * x - next * two_w;
                    let v = v / (rs[i] - w);
                    place(ctx, &mut a.sym[i], v);
                } else {
                    let v = (rs[i] - w) * y + next * two_w;
                    let v = v / (rs[i] + w);
                    place(ctx, &mut a.main[i], v);
                }
            }
        }
        story.push(match repair {
            Some(side) => format!("equations repaired through {} values, opening style {}", ["main", "symmetric"][side], how),
            None => format!("query {} forged up to layer {}, opening style {}", fj, fi, how),
        });
    }
    let d = ctx.dev(6);
    match d {
        0 => {}
        1 => {
            queries.pop();
        }
        2 => queries.clear(),
        3 => {
            let x = queries[0].clone();
            queries.push(x);
        }
        4 => {
            roots.pop();
        }
        _ => {
            let x = roots[0];
            roots.push(x);
        }
    }
    if d > 0 {
        story.push(format!("proof shape {}", d));
    }
    let adv = Adv { domain, coset: pcoset, q: q_claim, roots, konst, queries };
    let want = adv.reference();
    let proof = adv.proof();
    ctx.note(|| format!("domain {} queries {}: {}", n, q, if story.is_empty() { "honest".into() } else { story.join(", ") }));
    let got = ctx.must("verify", || verify::<Sha256, Fq>(proof));
    ctx.step((got.is_ok(), format!("{:?}", want), n, q, &story));
    match (&got, &want) {
        (Ok(()), Err(e)) => ctx.fail("accepts", format!("verifier accepts although the protocol rejects ({}); domain {} queries {}: {}", e, n, q, story.join(", "))),
        (Err(e), Ok(())) => ctx.fail("rejects", format!("verifier rejects ({}) a proof the protocol accepts; domain {} queries {}: {}", e, n, q, story.join(", "))),
        _ => {}
    }
    ctx.outcome(match want {
        Ok(()) => format!("accepted with {} deviations", ctx.devs()),
        Err(e) => format!("rejected: {}", e),
    });
}

/// The library's proof for a fixed polynomial, domain `n`.
fn deep_proof(ctx: &mut Ctx, n: usize, blowup: usize, q: usize) -> std::rc::Rc<Proof<Fq>> {
    use std::{cell::RefCell, rc::Rc};
    thread_local! {
        static SEEN: RefCell<Vec<((usize, usize, usize), Rc<Proof<Fq>>)>> = Default::default();
    }
    if let Some(p) = SEEN.with(|s| s.borrow().iter().find(|(k, _)| *k == (n, blowup, q)).map(|x| x.1.clone())) {
        return p;
    }
    let coeffs: Vec<Fq> = (0..n / blowup).map(|i| Fq::from((i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 3)).collect();
    let p = ctx.must("generate_proof", || generate_proof::<Sha256, Fq>(DensePolynomial::from_coefficients_vec(coeffs), blowup, q));
    let layers = n.ilog2() as usize;
    let whole = p.layers_root.len() == layers
        && p.decommitment_list.len() == q
        && p.decommitment_list.iter().all(|d| d.evaluations.len() == layers && d.auth_paths.len() == layers && d.sym_evaluations.len() == layers && d.sym_auth_paths.len() == layers);
    ctx.check(whole, "shape", || format!("domain {} blowup {} queries {}: the prover's proof is not of that shape", n, blowup, q));
    let p = Rc::new(p);
    SEEN.with(|s| s.borrow_mut().push(((n, blowup, q), p.clone())));
    p
}

fn f02(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let mut v = vec![];
    let mut add = |name: String, bound: u32, ns: Vec<usize>, qs: Vec<usize>, ws: usize| {
        v.push(scenario(&name, bound, move |ctx| {
            let n = *ctx.pick(&ns);
            let q = *ctx.pick(&qs);
            let w = ctx.choose(ws);
            adversary(ctx, n, q, w, Fq::one());
        }));
    };
    if quick {
        add("adversary-3-deviations".into(), 3, vec![2, 4], vec![1, 2], 2);
        add("adversary-2-deviations-wide".into(), 2, vec![2, 4, 8, 16], vec![1, 2, 3], 2);
        add("adversary-1-deviation-wide".into(), 1, vec![2, 4, 8, 16, 32, 64], vec![1, 2, 3, 8, 16], 2);
        add("adversary-1-deviation-large".into(), 1, vec![128, 256], vec![1], 1);
        add("adversary-1-deviation-many-queries".into(), 1, vec![2, 8], vec![40, 130, 260], 1);
    } else {
        add("adversary-4-deviations".into(), 4, vec![2, 4], vec![1, 2], 2);
        add("adversary-3-deviations-8".into(), 3, vec![8], vec![1, 2], 2);
        add("adversary-2-deviations-wide".into(), 2, vec![2, 4, 8, 16, 32], vec![1, 2, 3, 5], 2);
        add("adversary-1-deviation-wide".into(), 1, vec![2, 4, 8, 16, 32, 64, 128, 256], vec![1, 2, 3, 8, 16], 2);
        add("adversary-1-deviation-large".into(), 1, vec![512, 1024], vec![1], 1);
        add("adversary-1-deviation-many-queries".into(), 1, vec![2, 4, 8], vec![40, 130, 260], 1);
    }
    // committed polynomials of special form: layers of zeros, equal pairs, opposite pairs
    let (ns, qs, bound) = if quick { (vec![2usize, 4, 8, 16], vec![1usize, 2], 1) } else { (vec![2, 4, 8], vec![1, 2], 2) };
    v.push(scenario("special-polynomials", bound, move |ctx| {
        let n = *ctx.pick(&ns);
        let q = *ctx.pick(&qs);
        let w = ctx.choose(SHAPES);
        adversary(ctx, n, q, w, Fq::one());
    }));
    // honest proofs of large domains, one component of one layer changed
    v.push(scenario("deep", 0, move |ctx| {
        let n = *ctx.pick(if quick { &[8usize, 512, 1024, 4096][..] } else { &[2usize, 8, 16, 512, 1024, 2048, 4096, 8192, 32768][..] });
        // (few layers: many queries)
        let few = n <= 16;
        let q = *ctx.pick(if few { &[257usize, 600, 1100] } else { &[1usize, 3, 5] });
        let blowup = if few { 1 } else { *ctx.pick(&[1usize, 4]) };
        let layers = n.ilog2() as usize;
        let mut p = (*deep_proof(ctx, n, blowup, q)).clone();
        let j = if few { *ctx.pick(&[0usize, 1, 200, 255, 256, 300, 512, 1024, q - 1]) } else { ctx.choose(q) };
        if j >= q {
            ctx.prune()
        }
        let i = ctx.choose(layers);
        let side = ctx.choose(2);
        let kind = ctx.choose(12);
        if side == 1 && kind >= 8 || n == 2 && matches!(kind, 6 | 9) {
            ctx.prune()
        }
        let (m, one) = (n >> i, Fq::one());
        let elsewhere = p.decommitment_list[j].auth_paths[(i + 1) % layers].clone();
        let other = (j + 1) % q;
        let (x, y) = (p.decommitment_list[other].evaluations[i], p.decommitment_list[other].auth_paths[i].clone());
        let d = &mut p.decommitment_list[j];
        let (value, path) = if side == 0 { (&mut d.evaluations[i], &mut d.auth_paths[i]) } else { (&mut d.sym_evaluations[i], &mut d.sym_auth_paths[i]) };
        let mut changed = true;
        match kind {
            0 => changed = false,
            1 => *value += one,
            2 => path.leaf_val += one,
            3 => {
                *value += one;
                path.leaf_val += one;
            }
            4 => path.index ^= 1,
            5 => path.index += m,
            6 => *path = elsewhere,
            7 => {
                // what another query opens there
                changed = *value != x || path.index != y.index;
                *value = x;
                *path = y;
            }
            8 => p.layers_root[i] += one,
            9 => {
                p.layers_root.swap(i, (i + 1) % layers);
            }
            10 => p.const_val += one,
            _ => {
                let d = &mut p.decommitment_list[j];
                std::mem::swap(&mut d.evaluations[i], &mut d.sym_evaluations[i]);
                std::mem::swap(&mut d.auth_paths[i], &mut d.sym_auth_paths[i]);
            }
        }
        let got = ctx.must("verify", || verify::<Sha256, Fq>(p));
        ctx.step((n, q, blowup, j, i, side, kind, got.is_ok()));
        ctx.note(|| format!("domain {} blowup {} queries {}: query {} layer {} side {} change {}: {:?}", n, blowup, q, j, i, side, kind, got));
        ctx.check(got.is_ok() != changed, if changed { "accepts" } else { "rejects" }, || {
            format!("domain {} blowup {} queries {}: query {} layer {} side {} change {}: {:?}", n, blowup, q, j, i, side, kind, got)
        });
        ctx.outcome(format!("domain {} changed {}", n, changed));
    }));
    // changes that leave most bits of a value as they were
    let ns = if quick { vec![4usize, 8] } else { vec![2, 4, 8, 16, 32] };
    v.push(scenario("close-values", 1, move |ctx| {
        let n = *ctx.pick(&ns);
        let q = *ctx.pick(&[1usize, 2]);
        let k = if quick { ctx.choose(16) * 4 + 3 } else { ctx.choose(64) };
        let w = ctx.choose(3);
        let by = Fq::from(1u64 << k);
        let by = if ctx.choose(2) == 0 { by } else { -by };
        adversary(ctx, n, q, w, by);
    }));
    // The two soundness parameters the verifier takes from the proof itself.
    v.push(scenario("prover-chosen-parameters", 0, |ctx| {
        let which = ctx.choose(2);
        let n = *ctx.pick(&[4usize, 8]);
        let coeffs: Vec<Fq> = (0..n).map(|i| Fq::from(3 * i as u64 + 1)).collect();
        if which == 0 {
            let mut p = generate_proof::<Sha256, Fq>(DensePolynomial::from_coefficients_vec(coeffs[..n / 2].to_vec()), 2, 3);
            p.number_of_queries = 0;
            p.decommitment_list.clear();
            p.const_val = Fq::from(42u64);
            let got = ctx.must("verify", || verify::<Sha256, Fq>(p));
            ctx.check(got.is_err(), "f02:zero-queries", || "a proof that claims 0 queries and opens nothing is accepted for an arbitrary constant".into());
        } else {
            // the codeword claimed at rate 1/2 is an arbitrary function on the whole domain
            let mut p = generate_proof::<Sha256, Fq>(DensePolynomial::from_coefficients_vec(coeffs), 1, 3);
            p.number_of_queries = 3;
            let got = ctx.must("verify", || verify::<Sha256, Fq>(p));
            ctx.check(got.is_err(), "f02:no-degree-bound", || {
                "verify takes no degree or rate: a function of full degree on the domain (no codeword at any rate < 1) is accepted".into()
            });
        }
    }));
    v
}

// --------------------------------------------------------------------- F04

fn first_root(ctx: &mut Ctx, t: &[Fq]) -> Fq {
    let poly = DensePolynomial::from_coefficients_vec(interpolate(t, Fq::GENERATOR));
    let len = poly.coeffs.len().max(1);
    let blowup = t.len() / len.next_power_of_two();
    let p = ctx.must("generate_proof", || generate_proof::<Sha256, Fq>(poly, blowup, 1));
    ctx.check(p.domain_size == t.len() && !p.layers_root.is_empty(), "tree", || format!("table of size {} committed as domain {}", t.len(), p.domain_size));
    p.layers_root[0]
}

fn f04(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    // all tables of a small space: the map table -> root is injective
    fn injective(name: &'static str, n: usize, letters: u64) -> Scenario {
        use std::sync::Mutex;
        let seen: Mutex<HashMap<String, Vec<u64>>> = Mutex::new(HashMap::new());
        scenario(name, 0, move |ctx| {
            let t: Vec<u64> = (0..n).map(|_| ctx.choose(letters as usize) as u64).collect();
            let vals: Vec<Fq> = t.iter().map(|x| if *x == 2 { -Fq::one() } else { Fq::from(*x) }).collect();
            let r = first_root(ctx, &vals);
            ctx.step(r.to_string());
            ctx.note(|| format!("table {:?} root {}", t, r));
            let key = format!("{}", r);
            let clash = {
                let mut m = seen.lock().unwrap();
                match m.get(&key) {
                    Some(o) if *o != t => Some(o.clone()),
                    _ => {
                        m.insert(key, t.clone());
                        None
                    }
                }
            };
            if let Some(o) = clash {
                ctx.fail("collision", format!("tables {:?} and {:?} have the same root", o, t));
            }
            ctx.outcome("distinct root");
        })
    }
    vec![
        // 2^18 tables at once: any two of them may be the pair a shortened hash confuses
        scenario("no-two-alike", 0, move |ctx| {
            let (width, count) = (1 << ctx.range(1, 2), if quick { 1u64 << 18 } else { 1 << 20 });
            let roots: Vec<(u64, u64)> = {
                let parts = 8u64;
                let shares: Vec<Result<Vec<(u64, u64)>, String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..parts)
                        .map(|k| {
                            sc.spawn(move || {
                                (k * count / parts..(k + 1) * count / parts)
                                    .map(|x| {
                                        let poly = DensePolynomial::from_coefficients_vec(vec![Fq::from(x + 1)]);
                                        (gval(generate_proof::<Sha256, Fq>(poly, width, 1).layers_root[0]), x + 1)
                                    })
                                    .collect()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().map_err(|_| "panicked".to_string())).collect()
                });
                let mut all = vec![];
                for s in shares {
                    match s {
                        Ok(v) => all.extend(v),
                        Err(e) => ctx.fail("prover", format!("committing to a constant: {}", e)),
                    }
                }
                all
            };
            let mut roots = roots;
            roots.sort();
            ctx.step((width, roots[0], roots.len()));
            ctx.note(|| format!("{} constant tables of size {}", roots.len(), width));
            for w in roots.windows(2) {
                ctx.check(w[0].0 != w[1].0, "collision", || format!("the tables of {} entries {} and of {} entries {} have root {}", width, w[0].1, width, w[1].1, w[0].0));
            }
            ctx.outcome("distinct roots");
        }),
        // no part of a node is fixed: every bit of every node takes both values
        scenario("every-bit-of-a-node", 0, move |ctx| {
            let n = *ctx.pick(&[2usize, 4, 8, 16, 32]);
            let count = 200u64;
            let depth = n.ilog2() as usize;
            let (mut ones, mut zeros) = (vec![0u64; depth + 1], vec![0u64; depth + 1]);
            let mut seen = 0;
            for k in 0..count {
                let t: Vec<Fq> = (0..n as u64).map(|i| Fq::from((i + 1 + 1000 * k).wrapping_mul(0x9E37_79B9_7F4A_7C15))).collect();
                let poly = DensePolynomial::from_coefficients_vec(interpolate(&t, Fq::GENERATOR));
                let blowup = n / poly.coeffs.len().max(1).next_power_of_two();
                let p = ctx.must("generate_proof", || generate_proof::<Sha256, Fq>(poly, blowup, 1));
                ctx.step((n, k, gval(p.layers_root[0])));
                let mut note = |level: usize, v: u64| {
                    ones[level] |= v;
                    zeros[level] |= !v;
                };
                note(depth, gval(p.layers_root[0]));
                // the neighbours on the opened path, where the proof shows them
                let shown = format!("{:?}", p.decommitment_list[0].auth_paths[0]);
                let list = shown.find('[').and_then(|a| shown[a..].find(']').map(|b| shown[a + 1..a + b].to_string()));
                let list: Vec<u64> = list.map(|l| l.split(',').filter_map(|x| x.trim().parse().ok()).collect()).unwrap_or_default();
                if list.len() == depth {
                    seen += 1;
                    for (level, v) in list.into_iter().enumerate() {
                        note(level, v);
                    }
                }
            }
            for level in (if seen == count { 0 } else { depth })..=depth {
                ctx.check(ones[level] == u64::MAX && zeros[level] == u64::MAX, "fixed-bits", || {
                    format!("nodes at height {} of trees with {} leaves keep bits {:x}", level, n, !(ones[level] & zeros[level]))
                });
            }
            ctx.note(|| format!("size {}", n));
            ctx.outcome("no bit is fixed");
        }),
        injective("tables-of-2", 2, 3),
        injective("tables-of-4", 4, 3),
        if quick { injective("tables-of-8", 8, 2) } else { injective("tables-of-8", 8, 3) },
        scenario("large-tables", 0, move |ctx| {
            let n = *ctx.pick(if quick { &[32usize, 64, 128, 256, 512, 1024, 2048][..] } else { &[32usize, 64, 128, 256, 512, 1024, 2048, 4096][..] });
            let base: Vec<Fq> = (0..n as u64).map(|i| Fq::from((i + 3).wrapping_mul(0x9E37_79B9_7F4A_7C15))).collect();
            // an entry, and the entry it is exchanged with (0: it is changed instead)
            let a = ctx.choose(n);
            let b = *ctx.pick(&[0usize, 1, 2, n / 4, n / 2]);
            let mut t = base.clone();
            if b == 0 {
                t[a] += Fq::one();
            } else {
                t.swap(a, (a + b) % n);
            }
            if quick && n > 64 && a % 7 > 1 || n > 256 && a % (n / 16 + 1) > 1 && a + 2 < n {
                ctx.prune()
            }
            let (r0, r1) = (first_root(ctx, &base), first_root(ctx, &t));
            ctx.step((n, a, b, r1.to_string()));
            ctx.note(|| format!("size {} positions {} {}", n, a, (a + b) % n));
            ctx.check(r0 != r1, "binding", || format!("size {}: tables differing at {} and {} get root {}", n, a, (a + b) % n, r0));
            ctx.outcome(format!("size {} {}", n, if b == 0 { "changed" } else { "swapped" }));
        }),
        scenario("change-one-or-swap-two", 0, move |ctx| {
            let n = *ctx.pick(if quick { &[2usize, 4, 8, 16][..] } else { &[2usize, 4, 8, 16, 32][..] });
            let style = ctx.choose(3);
            let base: Vec<Fq> = (0..n)
                .map(|i| match style {
                    0 => Fq::from(i as u64 + 1),
                    1 => Fq::from(((i as u64) + 3).wrapping_mul(0x9E37_79B9_7F4A_7C15)),
                    _ => Fq::from(if i == 0 { 1u64 } else { 0 }),
                })
                .collect();
            let a = ctx.choose(n);
            let b = ctx.choose(n);
            let mut t = base.clone();
            if a == b {
                t[a] += Fq::one();
            } else {
                t.swap(a, b);
            }
            let (r0, r1) = (first_root(ctx, &base), first_root(ctx, &t));
            ctx.step((n, style, a, b, r1.to_string()));
            ctx.note(|| format!("size {} style {} positions {} {}", n, style, a, b));
            ctx.check((r0 == r1) == (base == t), "binding", || format!("size {} style {}: tables differing at {} and {} get roots {} {}", n, style, a, b, r0, r1));
            ctx.outcome(format!("size {} {}", n, if a == b { "changed" } else { "swapped" }));
        }),
    ]
}

// --------------------------------------------------------------------- F05
const GOLD: u64 = 0xffff_ffff_0000_0001;
fn gmul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % GOLD as u128) as u64
}
fn gadd(a: u64, b: u64) -> u64 {
    ((a as u128 + b as u128) % GOLD as u128) as u64
}
fn gpow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = gmul(r, b);
        }
        b = gmul(b, b);
        e >>= 1;
    }
    r
}
fn gval(x: Fq) -> u64 {
    x.into_bigint().0[0]
}

fn f05(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let mut words: Vec<u64> = (0..=17).collect();
    for k in (if quick { (4..64).step_by(4) } else { (4..64).step_by(1) }).chain([31, 33, 63]) {
        words.extend([(1u64 << k).wrapping_sub(1), 1 << k, (1 << k) + 1]);
    }
    words.extend([GOLD - 2, GOLD - 1, GOLD, GOLD + 1, GOLD / 2, GOLD / 2 + 1, u64::MAX, u64::MAX - 1, 0x1234_5678_9abc_def0]);
    words.sort();
    words.dedup();
    let n = words.len();
    vec![
        scenario("arithmetic", 0, move |ctx| {
            let (a, b) = (words[ctx.choose(n)], words[ctx.choose(n)]);
            let (x, y) = ctx.must("from", || (Fq::from(a), Fq::from(b)));
            let (u, v) = ((a as u128 % GOLD as u128) as u64, (b as u128 % GOLD as u128) as u64);
            ctx.step((a, b));
            ctx.note(|| format!("a={} b={}", a, b));
            let mut eq = |what: &str, got: u64, want: u64| ctx.check(got == want, "arithmetic", || format!("{} of {} and {} is {} instead of {}", what, a, b, got, want));
            eq("reduction", gval(x), u);
            eq("sum", gval(x + y), gadd(u, v));
            eq("difference", gval(x - y), gadd(u, GOLD - v));
            eq("product", gval(x * y), gmul(u, v));
            eq("negation", gval(-x), (GOLD - u) % GOLD);
            eq("doubling", gval(x.double()), gadd(u, u));
            eq("square", gval(x.square()), gmul(u, u));
            eq("power", gval(x.pow([b])), gpow(u, b));
            eq("inverse", x.inverse().map(gval).unwrap_or(0), gpow(u, GOLD - 2));
            if v != 0 {
                eq("quotient", gval(x / y), gmul(u, gpow(v, GOLD - 2)));
            }
            eq("equality", (x == y) as u64, (u == v) as u64);
            let bytes = ((a as u128) << 64 | b as u128).to_le_bytes();
            eq("16 bytes", gval(Fq::from_le_bytes_mod_order(&bytes)), (((a as u128) << 64 | b as u128) % GOLD as u128) as u64);
            eq("legendre", x.legendre().is_qnr() as u64, (gpow(u, GOLD / 2) == GOLD - 1) as u64);
            ctx.outcome("as in the reference");
        }),
        scenario("parameters", 0, move |ctx| {
            let g = gval(Fq::GENERATOR);
            let primes = [2u64, 3, 5, 17, 257, 65537];
            let q = *ctx.pick(&primes);
            ctx.step((g, q));
            let m = Fq::MODULUS.0[0];
            ctx.check(m == GOLD, "modulus", || format!("modulus {}", m));
            ctx.check(Fq::TWO_ADICITY == 32, "two-adicity", || format!("two-adicity {}", Fq::TWO_ADICITY));
            ctx.check(gpow(g, (GOLD - 1) / q) != 1 && g != 0, "generator", || format!("{} does not generate the multiplicative group: its {}-th of the group order is trivial", g, q));
            ctx.outcome("generates");
        }),
        scenario("roots-of-unity", 0, move |ctx| {
            let k = ctx.range(0, 33) as u32;
            let r = ctx.must("get_root_of_unity", || Fq::get_root_of_unity(1u64 << k));
            ctx.step((k, r.map(gval)));
            if k == 33 {
                ctx.check(r.is_none(), "root", || "there is a root of unity of order 2^33".into());
                ctx.outcome("none");
                return;
            }
            let Some(w) = r else { ctx.fail("root", format!("no root of unity of order 2^{}", k)) };
            let w = gval(w);
            let half = if k == 0 { GOLD - 1 } else { gpow(w, 1 << (k - 1)) };
            ctx.check(half == GOLD - 1 && gpow(w, 1 << k) == 1, "root", || format!("{} has not order 2^{}", w, k));
            if k > 0 {
                let l = Fq::get_root_of_unity(1u64 << (k - 1)).map(gval);
                ctx.check(l == Some(gmul(w, w)), "tower", || format!("the square of the root of order 2^{} is not the one of order 2^{}", k, k - 1));
            }
            ctx.outcome("exact order");
        }),
        scenario("domains", 0, move |ctx| {
            use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
            let k = ctx.range(0, if quick { 12 } else { 17 });
            let n = 1usize << k;
            let Some(d) = ctx.must("domain", || GeneralEvaluationDomain::<Fq>::new(n)) else { ctx.fail("domain", format!("no domain of size {}", n)) };
            let h: Vec<u64> = d.elements().map(gval).collect();
            let g = gval(Fq::GENERATOR);
            ctx.step(n);
            let set: std::collections::HashSet<u64> = h.iter().copied().collect();
            ctx.check(h.len() == n && set.len() == n && h[0] == 1, "domain", || format!("domain of size {} has {} elements", n, set.len()));
            for (i, x) in h.iter().enumerate() {
                ctx.check(h[(i + n / 2) % n] == if n == 1 { 1 } else { GOLD - x }, "symmetry", || format!("element {} of the domain of size {} is not opposite", i, n));
                ctx.check(!set.contains(&gmul(g, *x)), "coset", || format!("the coset of size {} meets the subgroup at {}", n, i));
            }
            // evaluation and interpolation are inverse
            let c: Vec<Fq> = (0..n as u64).map(|i| Fq::from(i.wrapping_mul(0x9E37_79B9_7F4A_7C15))).collect();
            let e = d.fft(&c);
            let back = d.ifft(&e);
            ctx.check(back == c, "interpolation", || format!("interpolation on the domain of size {} does not invert evaluation", n));
            for i in [0, n / 3, n / 2, n - 1] {
                ctx.check(e[i] == horner(&c, Fq::from(h[i])), "evaluation", || format!("evaluation {} on the domain of size {}", i, n));
            }
            ctx.outcome("domain and coset");
        }),
    ]
}
