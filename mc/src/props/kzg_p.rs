//! KZG polynomial commitments (crate `kzg`).
use super::Prop;
use crate::core::*;
use crate::util::*;
use ark_bls12_381::{Bls12_381, Fr, G1Projective};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use ark_poly::DenseUVPolynomial;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use kzg::types::{G1Point, G2Point, Poly};
use ark_ec::Group;
use rand::rngs::{OsRng, StdRng};
use rand::{RngCore, SeedableRng};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "K01",
            bounds: "SRS sizes 1,2,3,5,8 (and 16,33 for dense patterns) x secrets {2,5,-3,large} x every coefficient vector of length<=4 over a 4-value alphabet (incl. zero, leading/trailing zeros) and patterned vectors of every length up to the SRS capacity x 7 points incl. the secret itself; lengths around 32, 64, .. 4096 (16384 thorough); coefficients and points of every magnitude (about 100 values: each choice of non-zero words, powers of two and neighbours) in every place of a small vector",
            assumptions: &["BLS12-381 arithmetic and pairing of arkworks"],
            scenarios: k01,
        },
        Prop {
            id: "K02",
            bounds: "every (secret, commitment, witness, value, point) with discrete logs in a 6-value alphabet (9 values thorough), and every one-component change of honest openings of polynomials of length 1..6, 35, 70, 260 under setups up to 300; every component replaced by the values that differ from it in one machine word, points by their negation and by those of equal y; openings whose one pairing is a power of the other by each of the 12 conjugating exponents, 0 or 2",
            assumptions: &["the reference decides in the exponent, knowing the secret and all discrete logs"],
            scenarios: k02,
        },
        Prop {
            id: "K03",
            bounds: "every assignment of per-item defects in {0,1,-1,2,-2} for batches of 0..3 items (0..4 thorough), one or two cancelling defects at every position of batches up to 12, every defect ratio 1..=256, each under several verifier random streams; every single bit of the verifier's random stream flipped; batches around 16, 32, .. 1024 (4096 thorough) with defects at six places and cancelling ones at distances up to 512; every combination of list lengths 0..3; values of every magnitude; batches with every pair of items repeated or changed; items whose one pairing is a conjugate of the other",
            assumptions: &["the verifier's random stream is fixed before and independent of the batch; a 2^-128 cancellation does not occur"],
            scenarios: k03,
        },
        Prop {
            id: "K04",
            bounds: "every pair of polynomials of length<=3 over a 4-value alphabet x scalars; aggregation of 0..6 commitments (0..16 thorough) and around 32, 64, .. 2048 at 6 challenges; pairs of polynomials of 10 lengths up to 1025; scalars, challenges and values of every magnitude",
            assumptions: &["BLS12-381 group arithmetic of arkworks"],
            scenarios: k04,
        },
        Prop {
            id: "K05",
            bounds: "sizes 0..12 (0..64 thorough) and around 16, 32, .. 1024 x 6 secrets, 2049 and 4097; entropy streams 0..7; polynomials of every degree from 0 to capacity+3; secrets of every magnitude; drawn secrets compared with all small discrete logs",
            assumptions: &["entropy is answered by the explorer"],
            scenarios: k05,
        },
    ]
}

pub fn big() -> Fr {
    // 2^200 + 12345, a scalar using most limbs
    Fr::from(2u64).pow([200u64]) + Fr::from(12345u64)
}

pub fn g1(x: Fr) -> G1Point {
    thread_local! {
        static SEEN: std::cell::RefCell<std::collections::HashMap<Fr, G1Point>> = Default::default();
    }
    SEEN.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 100_000 {
            m.clear();
        }
        *m.entry(x).or_insert_with(|| (G1Point::generator() * x).into_affine())
    })
}
pub fn g2(x: Fr) -> G2Point {
    (G2Point::generator() * x).into_affine()
}

pub fn eval(c: &[Fr], x: Fr) -> Fr {
    c.iter().rev().fold(Fr::zero(), |a, k| a * x + k)
}

/// Coefficients of (p(X) - p(z)) / (X - z) by synthetic division.
pub fn quotient(c: &[Fr], z: Fr) -> Vec<Fr> {
    if c.is_empty() {
        return vec![];
    }
    let mut q = vec![Fr::zero(); c.len() - 1];
    let mut acc = Fr::zero();
    for i in (0..c.len() - 1).rev() {
        acc = acc * z + c[i + 1];
        q[i] = acc;
    }
    q
}

/// Factors between two exponents of the target group that comparisons of parts of
/// the two elements cannot see: the powers of the Frobenius map, inversion among
/// them (the order of the group divides the twelfth cyclotomic polynomial at the
/// curve's parameter); and 0, 2.
pub fn conjugates() -> Vec<Fr> {
    let x = -Fr::from(0xd201_0000_0001_0000u64);
    let mut v: Vec<Fr> = (0..12).map(|k| x.pow([k as u64])).collect();
    assert!(v[6] == -Fr::one() && v[11] * x == Fr::one());
    v.extend([Fr::zero(), Fr::from(2u64)]);
    v
}

fn secrets() -> [Fr; 4] {
    [Fr::from(2u64), Fr::from(5u64), -Fr::from(3u64), big()]
}

fn points(s: Fr) -> [Fr; 7] {
    [Fr::zero(), Fr::one(), -Fr::one(), Fr::from(2u64), s, Fr::from(7u64), big() + Fr::one()]
}

// --------------------------------------------------------------------- K01

fn open_and_check(ctx: &mut Ctx, scheme: &KzgScheme, s: Fr, coeffs: &[Fr], z: Fr) {
    let want_c = g1(eval(coeffs, s));
    let want_y = eval(coeffs, z);
    let want_w = g1(eval(&quotient(coeffs, z), s));
    let poly = Poly::from_coefficients_slice(coeffs);
    let c = ctx.must("commit", || scheme.commit(&poly));
    ctx.check(c.0 == want_c && *c.inner() == want_c, "commit", || format!("commitment to {} is not [p(s)]", fs(coeffs)));
    let cv = ctx.must("commit_vector", || scheme.commit_vector(coeffs));
    ctx.check(cv == c, "commit-vector", || format!("vector commitment to {} differs from the polynomial's", fs(coeffs)));
    ctx.step(fs(&[want_c.x().copied().unwrap_or_default()]));
    let o = ctx.must("open", || scheme.open(&poly, z));
    ctx.check(o.1 == want_y && o.clone().eval() == want_y, "value", || format!("{} opened at {} to {} instead of {}", fs(coeffs), z, o.1, want_y));
    ctx.check(o.0 == want_w, "witness", || format!("{} opened at {}: witness is not the quotient's commitment", fs(coeffs), z));
    let ov = ctx.must("open_vector", || scheme.open_vector(coeffs, z));
    ctx.check(ov.1 == want_y && ov.0 == want_w, "vector-opening", || format!("vector opening of {} at {} is wrong", fs(coeffs), z));
    let ok = ctx.must("verify", || scheme.verify(&c, &o, z));
    ctx.check(ok, "rejected", || format!("honest opening of {} at {} rejected", fs(coeffs), z));
    let ok = ctx.must("batch_verify", || scheme.batch_verify(&[c.clone()], &[z], &[ov.clone()], &mut StdRng::seed_from_u64(7)));
    ctx.check(ok, "rejected-batch", || format!("honest opening of {} at {} rejected by batch verification", fs(coeffs), z));
    ctx.step((fs(&[want_y, z]), fs(coeffs)));
}

fn patterned(k: usize, len: usize) -> Vec<Fr> {
    (0..len)
        .map(|i| match k {
            0 => Fr::from(i as u64 + 1),
            1 => {
                if i + 1 == len {
                    Fr::one()
                } else {
                    Fr::zero()
                }
            }
            2 => -Fr::from(i as u64 + 2),
            _ => big() * Fr::from(i as u64 + 1),
        })
        .collect()
}

fn k01(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("every-short-vector", 0, move |ctx| {
            let s = *ctx.pick(&secrets()[..if quick { 2 } else { 4 }]);
            let len = ctx.range(0, if quick { 3 } else { 4 });
            let alphabet = [Fr::zero(), Fr::one(), -Fr::one(), Fr::from(5u64)];
            let coeffs: Vec<Fr> = (0..len).map(|_| *ctx.pick(&alphabet)).collect();
            let z = *ctx.pick(&points(s));
            let size = *ctx.pick(&[1usize, 3]);
            ctx.note(|| format!("coefficients {} at {} secret {}", fs(&coeffs), z, s));
            let scheme = KzgScheme::new(Srs::new_from_secret(s, size));
            open_and_check(ctx, &scheme, s, &coeffs, z);
            ctx.outcome(format!("length {} value-zero {}", len, eval(&coeffs, z).is_zero()));
        }),
        scenario("patterned-to-capacity", 0, move |ctx| {
            let s = *ctx.pick(&secrets());
            let size = *ctx.pick(if quick { &[1usize, 2, 5, 8, 16][..] } else { &[1usize, 2, 5, 8, 16, 33, 64][..] });
            let len = ctx.range(1, size + 3);
            if quick && size == 16 && len % 3 != 1 {
                ctx.prune()
            }
            let k = ctx.choose(4);
            let z = points(s)[*ctx.pick(&[1usize, 4, 6])];
            let coeffs = patterned(k, len);
            ctx.note(|| format!("pattern {} length {} of capacity {} at {}", k, len, size + 3, z));
            let scheme = KzgScheme::new(Srs::new_from_secret(s, size));
            open_and_check(ctx, &scheme, s, &coeffs, z);
            ctx.outcome(format!("size {}", size));
        }),
        scenario("roots-and-repeated-factors", 0, move |ctx| {
            // products of (X - a): opening at a root gives 0
            let s = *ctx.pick(&secrets()[..2]);
            let roots = [Fr::zero(), Fr::one(), -Fr::one(), Fr::from(7u64)];
            let n = ctx.range(1, 3);
            let mut c = vec![Fr::from(3u64)];
            for _ in 0..n {
                let a = *ctx.pick(&roots);
                let mut d = vec![Fr::zero(); c.len() + 1];
                for (i, x) in c.iter().enumerate() {
                    d[i + 1] += x;
                    d[i] -= *x * a;
                }
                c = d;
            }
            let z = *ctx.pick(&roots);
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 4));
            ctx.note(|| format!("{} at {}", fs(&c), z));
            open_and_check(ctx, &scheme, s, &c, z);
            ctx.outcome(format!("root {}", eval(&c, z).is_zero()));
        }),
        scenario("large", 0, move |ctx| {
            let size = *ctx.pick(if quick { &[31usize, 62, 64, 126, 129, 254, 257, 510, 1022, 2046, 2049, 4097][..] } else { &[31usize, 62, 64, 126, 129, 254, 257, 510, 513, 1022, 1025, 2046, 2049, 4094, 4097, 8190, 8193, 16385][..] });
            let len = size + 3 - ctx.choose(3);
            let s = big();
            let k = ctx.choose(if quick { 2 } else { 4 });
            let z = points(s)[*ctx.pick(&[1usize, 6])];
            let coeffs = patterned(k, len);
            ctx.note(|| format!("pattern {} length {} of capacity {} at {}", k, len, size + 3, z));
            let scheme = KzgScheme::new(Srs::new_from_secret(s, size));
            open_and_check(ctx, &scheme, s, &coeffs, z);
            ctx.outcome(format!("size {}", size));
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // one coefficient, the point or the secret of every magnitude
            let v = *ctx.pick(&wide::<_, 4>());
            let role = ctx.choose(6);
            let mut coeffs = vec![Fr::from(6u64), -Fr::from(2u64), Fr::from(9u64), Fr::one()];
            let (mut s, mut z) = (Fr::from(5u64), Fr::from(7u64));
            match role {
                0..=3 => coeffs[role] = v,
                4 => z = v,
                _ => s = v,
            }
            if !quick && ctx.flag() {
                coeffs.iter_mut().for_each(|c| *c *= big());
            }
            ctx.note(|| format!("coefficients {} at {} secret {}", fs(&coeffs), z, s));
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 2));
            open_and_check(ctx, &scheme, s, &coeffs, z);
            ctx.outcome("ok");
        }),
        scenario("commit-every-magnitude", 0, move |ctx| {
            let v = *ctx.pick(&wide::<_, 4>());
            let scheme = KzgScheme::new(Srs::new_from_secret(*ctx.pick(&[Fr::from(5u64), big()]), 0));
            let c = ctx.must("commit_para", || scheme.commit_para(v));
            ctx.step(v.to_string());
            ctx.check(c.0 == g1(v), "commit-para", || format!("commit_para({}) is not [{}]", v, v));
            ctx.outcome("ok");
        }),
        scenario("commit-parameter", 0, move |ctx| {
            let s = *ctx.pick(&secrets());
            let v = *ctx.pick(&points(s));
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 2));
            let c = ctx.must("commit_para", || scheme.commit_para(v));
            ctx.step(v.to_string());
            ctx.check(c.0 == g1(v), "commit-para", || format!("commit_para({}) is not [{}]", v, v));
            ctx.check(c == scheme.commit_vector(&[v]), "commit-para", || "commit_para differs from committing the constant".into());
            ctx.outcome("ok");
        }),
    ]
}

// --------------------------------------------------------------------- K02

fn k02(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("all-discrete-logs", 0, move |ctx| {
            let s = *ctx.pick(if quick { &[2i64, 5] } else { &[2i64, 5] });
            let s = Fr::from(s);
            let mut al = vec![Fr::zero(), Fr::one(), Fr::from(2u64), -Fr::one(), Fr::from(5u64), big()];
            if !quick {
                al.extend([Fr::from(3u64), -Fr::from(2u64), Fr::from(10u64)]);
            }
            let w = *ctx.pick(&al);
            let z = *ctx.pick(&al);
            let y = *ctx.pick(&al);
            // every commitment of the alphabet, and the one that makes it right
            let mut cs = al.clone();
            let exact = y + w * (s - z);
            cs.push(exact);
            cs.push(-exact);
            let c = *ctx.pick(&cs);
            let want = c - y == w * (s - z);
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 1));
            let (cm, op) = (KzgCommitment(g1(c)), KzgOpening(g1(w), y));
            let got = ctx.must("verify", || scheme.verify(&cm, &op, z));
            ctx.step((fs(&[c, w, y, z, s]), got));
            ctx.note(|| format!("secret {} commitment {} witness {} value {} point {}: {}", s, c, w, y, z, got));
            ctx.check(got == want, if got { "accepts" } else { "rejects" }, || {
                format!("secret {}: commitment [{}] witness [{}] value {} at {}: verify says {}, the equation says {}", s, c, w, y, z, got, want)
            });
            ctx.outcome(if want { "accepted" } else { "rejected" });
        }),
        scenario("conjugate-pairings", 0, move |ctx| {
            // one pairing is a power of the other
            let s = *ctx.pick(&secrets());
            let l = *ctx.pick(&conjugates());
            let z = *ctx.pick(&[Fr::zero(), Fr::from(7u64)]);
            let y = *ctx.pick(&[Fr::zero(), Fr::from(4u64), big()]);
            let mut b = *ctx.pick(&[Fr::one(), Fr::from(3u64), -big()]);
            let mut w = l * b * (s - z).inverse().unwrap();
            if ctx.flag() {
                (w, b) = (b * (s - z).inverse().unwrap(), l * b);
            }
            let c = y + b;
            let want = b == w * (s - z);
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 1));
            let got = ctx.must("verify", || scheme.verify(&KzgCommitment(g1(c)), &KzgOpening(g1(w), y), z));
            ctx.step((fs(&[c, w, y, z, s]), got));
            ctx.note(|| format!("secret {} commitment {} witness {} value {} point {}: {}", s, c, w, y, z, got));
            ctx.check(got == want, if got { "accepts" } else { "rejects" }, || {
                format!("secret {}: commitment [{}] witness [{}] value {} at {}: verify says {}, the equation says {}", s, c, w, y, z, got, want)
            });
            ctx.outcome(if want { "accepted" } else { "rejected" });
        }),
        scenario("close-values", 0, move |ctx| {
            // values and points that agree with the right ones in all words but one
            let s = *ctx.pick(&secrets());
            let coeffs = patterned(ctx.choose(if quick { 2 } else { 4 }), *ctx.pick(&[1usize, 3]));
            let z = *ctx.pick(&[Fr::from(7u64), big() + Fr::one()]);
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 4));
            let poly = Poly::from_coefficients_slice(&coeffs);
            let (mut c, mut o) = (scheme.commit(&poly), scheme.open(&poly, z));
            let mut at = z;
            let role = ctx.choose(4);
            let (lc, lw) = (eval(&coeffs, s), eval(&quotient(&coeffs, z), s));
            let old = [o.1, z, lc, lw][role];
            let v = *ctx.pick(&if quick { nearest(old) } else { near(old) });
            let (mut nc, mut nw) = (lc, lw);
            match role {
                0 => o.1 = v,
                1 => at = v,
                2 => (nc, c) = (v, KzgCommitment(g1(v))),
                _ => (nw, o.0) = (v, g1(v)),
            }
            let want = nc - o.1 == nw * (s - at);
            let got = ctx.must("verify", || scheme.verify(&c, &o, at));
            ctx.step((role, got, v.to_string()));
            ctx.note(|| format!("{} at {}: {} becomes {}: {}", fs(&coeffs), z, old, v, got));
            ctx.check(got == want, if got { "accepts" } else { "rejects" }, || {
                format!("opening of {} at {} with component {} changed from {} to {}: verify says {}, expected {}", fs(&coeffs), z, role, old, v, got, want)
            });
            ctx.outcome(format!("component {} {}", role, want));
        }),
        scenario("honest-opening-one-change", 0, move |ctx| {
            let s = *ctx.pick(&secrets());
            let (size, len) = *ctx.pick(&[(4usize, 1usize), (4, 2), (4, 3), (4, 4), (4, 5), (4, 6), (40, 35), (300, 70), (300, 260)]);
            let k = ctx.choose(if quick { 2 } else { 4 });
            if quick && size > 4 && (k != 0 || s != big()) {
                ctx.prune()
            }
            let coeffs = patterned(k, len);
            let z = points(s)[*ctx.pick(&[0usize, 1, 3, 6])];
            let scheme = KzgScheme::new(Srs::new_from_secret(s, size));
            let poly = Poly::from_coefficients_slice(&coeffs);
            let mut c = scheme.commit(&poly);
            let mut o = scheme.open(&poly, z);
            let mut at = z;
            let (mut dc, mut dw) = (Fr::zero(), Fr::zero());
            let what = ctx.choose(10);
            match what {
                0 => {}
                1 => o.1 += Fr::one(),
                2 => o.1 = -o.1,
                3 => {
                    dw = Fr::one();
                    o.0 = (o.0 + G1Point::generator()).into();
                }
                4 => {
                    let w = eval(&quotient(&coeffs, z), s);
                    dw = -w - w;
                    o.0 = -o.0;
                }
                5 => {
                    dc = Fr::one();
                    c = KzgCommitment((c.0 + G1Point::generator()).into());
                }
                6 => {
                    dc = -eval(&coeffs, s) - eval(&coeffs, s);
                    c = -c;
                }
                7 => at += Fr::one(),
                8 => at = -at,
                _ => {
                    let w = eval(&quotient(&coeffs, z), s);
                    dw = -w;
                    o.0 = G1Point::zero();
                }
            }
            let want = eval(&coeffs, s) + dc - o.1 == (eval(&quotient(&coeffs, z), s) + dw) * (s - at);
            let got = ctx.must("verify", || scheme.verify(&c, &o, at));
            ctx.step((k, len, what, got, z.to_string(), s.to_string()));
            ctx.note(|| format!("pattern {} length {} at {} change {}: {}", k, len, z, what, got));
            ctx.check(got == want, if got { "accepts" } else { "rejects" }, || {
                format!("pattern {} length {} at {}, change {}: verify says {}, expected {}", k, len, z, what, got, want)
            });
            ctx.outcome(format!("change {} {}", what, want));
        }),
    ]
}

// --------------------------------------------------------------------- K03

/// Verifier randomness: an independent stream per `seed`.
fn stream(seed: u64) -> impl RngCore {
    StdRng::seed_from_u64(0xB00C + seed)
}

/// A stream of one byte, with at most one bit flipped.
struct Repeated {
    byte: u8,
    flip: Option<usize>,
    used: usize,
}
impl RngCore for Repeated {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.byte;
            if let Some(f) = self.flip.filter(|f| f / 8 == self.used) {
                *b ^= 1 << (f % 8);
            }
            self.used += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

struct Item {
    c: Fr,
    w: Fr,
    y: Fr,
    z: Fr,
}

/// An item whose pairing defect c - y - w (s - z) is `d`.
fn item(i: usize, s: Fr, d: Fr, place: usize) -> Item {
    let w = Fr::from(3 + i as u64);
    let z = Fr::from(10 + (i as u64) * 7);
    let y = Fr::from(100 + i as u64);
    let c = y + w * (s - z);
    match place {
        0 => Item { c: c + d, w, y, z },
        1 => Item { c, w, y: y - d, z },
        _ => {
            // the defect sits in the witness
            let k = (s - z).inverse().unwrap();
            Item { c, w: w - d * k, y, z }
        }
    }
}

fn batch(ctx: &mut Ctx, s: Fr, items: &[Item], seed: u64) -> bool {
    let scheme = KzgScheme::new(Srs::new_from_secret(s, 1));
    let cs: Vec<KzgCommitment> = items.iter().map(|i| KzgCommitment(g1(i.c))).collect();
    let zs: Vec<Fr> = items.iter().map(|i| i.z).collect();
    let os: Vec<KzgOpening> = items.iter().map(|i| KzgOpening(g1(i.w), i.y)).collect();
    ctx.must("batch_verify", || scheme.batch_verify(&cs, &zs, &os, &mut stream(seed)))
}

fn k03(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("every-defect-assignment", 0, move |ctx| {
            let m = ctx.range(0, if quick { 3 } else { 4 });
            let s = *ctx.pick(&secrets()[..if quick { 1 } else { 2 }]);
            let seed = ctx.choose(2) as u64;
            let place = ctx.choose(3);
            let ds: Vec<i64> = (0..m).map(|_| *ctx.pick(&[0i64, 1, -1, 2, -2])).collect();
            let items: Vec<Item> = ds.iter().enumerate().map(|(i, d)| item(i, s, Fr::from(*d), place)).collect();
            let want = ds.iter().all(|d| *d == 0);
            let got = batch(ctx, s, &items, seed);
            ctx.step((ds.clone(), place, seed, got));
            ctx.note(|| format!("defects {:?} in component {}: {}", ds, place, got));
            ctx.check(got == want, if got { "accepts" } else { "rejects" }, || format!("batch with defects {:?} (component {}): {}", ds, place, got));
            ctx.outcome(format!("size {} {}", m, if want { "all valid" } else { "some invalid" }));
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // one defect of every magnitude next to valid items; or none
            let s = *ctx.pick(&secrets()[..if quick { 1 } else { 4 }]);
            let mut al = wide::<_, 4>();
            al.insert(0, Fr::zero());
            let d = *ctx.pick(&al);
            let place = ctx.choose(3);
            let m = *ctx.pick(&[1usize, 3]);
            let at = ctx.choose(m);
            let items: Vec<Item> = (0..m).map(|i| item(i, s, if i == at { d } else { Fr::zero() }, place)).collect();
            let got = batch(ctx, s, &items, 6);
            ctx.step((m, place, d.to_string(), got));
            ctx.note(|| format!("defect {} in component {} at {} of {}: {}", d, place, at, m, got));
            ctx.check(got == d.is_zero(), if got { "accepts" } else { "rejects" }, || format!("batch of {} with the defect {} at {} (component {}): {}", m, d, at, place, got));
            ctx.outcome(format!("valid {}", d.is_zero()));
        }),
        scenario("conjugate-pairings", 0, move |ctx| {
            // one pairing is a power of the other, by items all alike or by one of them
            let s = *ctx.pick(&secrets()[..if quick { 2 } else { 4 }]);
            let l = *ctx.pick(&conjugates());
            let m = *ctx.pick(&[1usize, 2, 3]);
            let all = ctx.flag();
            let other = ctx.flag();
            let items: Vec<Item> = (0..m)
                .map(|i| {
                    let mut it = item(i, s, Fr::zero(), 0);
                    if all || i == 0 {
                        // c - y + z w = l w s, or l times as much is w s
                        let side = it.w * s;
                        it.w *= if other { l } else { Fr::one() };
                        it.c = it.y - it.z * it.w + if other { side } else { l * side };
                    }
                    it
                })
                .collect();
            let want = items.iter().all(|i| i.c - i.y == i.w * (s - i.z));
            let got = batch(ctx, s, &items, 3);
            ctx.step((fs(&items.iter().flat_map(|i| [i.c, i.w, i.y, i.z]).collect::<Vec<_>>()), got));
            ctx.note(|| format!("secret {} factor {} on {} of {} items: {}", s, l, if all { m } else { 1 }, m, got));
            ctx.check(got == want, if got { "accepts" } else { "rejects" }, || format!("secret {}: pairings of {} of {} items off by the factor {}: {} instead of {}", s, if all { m } else { 1 }, m, l, got, want));
            ctx.outcome(if want { "accepted" } else { "rejected" });
        }),
        scenario("every-pair-of-items", 0, move |ctx| {
            // items over a small alphabet of discrete logs: equal, overlapping,
            // with shared commitments, points, witnesses or values
            let s = Fr::from(5u64);
            let n = |x: i64| if x < 0 { -Fr::from(-x as u64) } else { Fr::from(x as u64) };
            let (cs, zs, ws, ys): (&[i64], &[i64], &[i64], &[i64]) =
                if quick { (&[3, 9], &[2, 5, 7], &[1, 0, -3], &[3, 0]) } else { (&[3, 9, 0], &[2, 5, 7, 0], &[1, 0, -3], &[3, 0, 9]) };
            let total = cs.len() * zs.len() * ws.len() * ys.len();
            let nth = |k: usize| -> Item {
                let (c, k) = (cs[k % cs.len()], k / cs.len());
                let (z, k) = (zs[k % zs.len()], k / zs.len());
                Item { c: n(c), z: n(z), w: n(ws[k % ws.len()]), y: n(ys[k / ws.len()]) }
            };
            let (a, b) = (ctx.choose(total), ctx.choose(total));
            // a third item between, in front or behind: one of the two again, or none
            let again = ctx.choose(if quick { 1 } else { 3 });
            let mut items = vec![nth(a), nth(b)];
            if again > 0 {
                items.push(nth(if again == 1 { a } else { b }));
            }
            let want = items.iter().all(|i| i.c - i.y == i.w * (s - i.z));
            let got = batch(ctx, s, &items, 8);
            ctx.step((a, b, again, got));
            let show = || items.iter().map(|i| format!("(commitment [{}] point {} witness [{}] value {})", i.c, i.z, i.w, i.y)).collect::<Vec<_>>().join(" ");
            ctx.note(|| format!("{}: {}", show(), got));
            ctx.check(got == want, if got { "accepts" } else { "rejects" }, || format!("secret 5, batch {}: {}", show(), got));
            ctx.outcome(if want { "all valid" } else { "some invalid" });
        }),
        scenario("large-batches", 0, move |ctx| {
            let m = *ctx.pick(if quick { &[1usize, 4, 7, 12][..] } else { &[1usize, 2, 4, 7, 12, 33][..] });
            let s = big();
            let a = ctx.choose(m + 1); // m: no defect
            let b = ctx.choose(m + 1);
            if b < a {
                ctx.prune()
            }
            let place = ctx.choose(3);
            let mut ds = vec![Fr::zero(); m];
            if a < m {
                ds[a] += Fr::one();
            }
            if b < m && b != a {
                ds[b] -= Fr::one();
            }
            let items: Vec<Item> = ds.iter().enumerate().map(|(i, d)| item(i, s, *d, place)).collect();
            let want = ds.iter().all(|d| d.is_zero());
            let got = batch(ctx, s, &items, 5);
            ctx.step((m, a, b, place, got));
            ctx.note(|| format!("{} items, defects at {} and {}: {}", m, a, b, got));
            ctx.check(got == want, if got { "accepts" } else { "rejects" }, || format!("batch of {} with defects +1 at {} and -1 at {} (component {}): {}", m, a, b, place, got));
            ctx.outcome(format!("size {} valid {}", m, want));
        }),
        scenario("very-large-batches", 0, move |ctx| {
            let m = *ctx.pick(if quick { &[16usize, 17, 32, 33, 64, 65, 100, 128, 129, 257, 513, 1025][..] } else { &[16usize, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1000, 1025, 2049, 4097][..] });
            let s = big();
            // +1 at one item, -1 so far behind it (0: no second defect)
            let at = *ctx.pick(&[m, 0, 1, m / 2, m - 2, m - 1]);
            let behind = if at == m { 0 } else { *ctx.pick(&[0usize, 1, 2, 8, 16, 32, 64, 128, 256, 512]) };
            if at < m && at + behind >= m {
                ctx.prune()
            }
            let mut ds = vec![Fr::zero(); m];
            if at < m {
                ds[at] += Fr::one();
                if behind > 0 {
                    ds[at + behind] -= Fr::one();
                }
            }
            let items: Vec<Item> = ds.iter().enumerate().map(|(i, d)| item(i, s, *d, i % 3)).collect();
            let got = batch(ctx, s, &items, 3);
            ctx.step((m, at, behind, got));
            ctx.note(|| format!("{} items, defect at {}, cancelling {} behind: {}", m, at, behind, got));
            ctx.check(got == (at == m), if got { "accepts" } else { "rejects" }, || format!("batch of {} with a defect at {} and the opposite one {} behind: {}", m, at, behind, got));
            ctx.outcome(format!("size {} valid {}", m, at == m));
        }),
        scenario("lists-of-different-lengths", 0, move |ctx| {
            let s = big();
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 1));
            let n: Vec<usize> = (0..3).map(|_| ctx.choose(4)).collect();
            let good = (0..4).map(|i| item(i, s, Fr::zero(), 0)).collect::<Vec<_>>();
            let cs: Vec<KzgCommitment> = good[..n[0]].iter().map(|i| KzgCommitment(g1(i.c))).collect();
            let zs: Vec<Fr> = good[..n[1]].iter().map(|i| i.z).collect();
            let os: Vec<KzgOpening> = good[..n[2]].iter().map(|i| KzgOpening(g1(i.w), i.y)).collect();
            let got = guard(|| scheme.batch_verify(&cs, &zs, &os, &mut stream(2)));
            ctx.step((n.clone(), got.is_ok()));
            let same = n[0] == n[1] && n[1] == n[2];
            ctx.note(|| format!("lengths {:?}: {:?}", n, got));
            ctx.check((got == Ok(true)) == same, if same { "rejects" } else { "accepts" }, || format!("valid commitments, points and openings in lists of lengths {:?}: {:?}", n, got));
            ctx.outcome(if same { "accepted" } else { "refused" });
        }),
        scenario("defect-ratios", 0, move |ctx| {
            // small or structured random coefficients would let some ratio cancel
            let k = ctx.range(1, if quick { 64 } else { 256 });
            let sign = ctx.flag();
            let seed = ctx.choose(if quick { 4 } else { 16 }) as u64;
            let s = Fr::from(5u64);
            let d = if sign { Fr::from(k as u64) } else { -Fr::from(k as u64) };
            let items = [item(0, s, Fr::one(), 0), item(1, s, d, 0)];
            let got = batch(ctx, s, &items, seed);
            ctx.step((k, sign, seed, got));
            ctx.note(|| format!("defects 1 and {}{}: {}", if sign { "" } else { "-" }, k, got));
            ctx.check(!got, "accepts", || format!("defects 1 and {} cancel under stream {}", d, seed));
            ctx.outcome("rejected");
        }),
        scenario("weights-carry-the-entropy", 0, move |ctx| {
            // a random stream of one repeated byte gives two independent
            // draws the same weight, so opposite defects cancel under it;
            // flipping one bit of the stream has to tell the weights apart
            let byte = *ctx.pick(if quick { &[0x5Au8][..] } else { &[0x5A, 0x01, 0x2C] });
            let scheme = KzgScheme::new(Srs::new_from_secret(Fr::from(5u64), 1));
            let items = [item(0, Fr::from(5u64), Fr::one(), 0), item(1, Fr::from(5u64), -Fr::one(), 0)];
            let cs: Vec<KzgCommitment> = items.iter().map(|i| KzgCommitment(g1(i.c))).collect();
            let zs: Vec<Fr> = items.iter().map(|i| i.z).collect();
            let os: Vec<KzgOpening> = items.iter().map(|i| KzgOpening(g1(i.w), i.y)).collect();
            let run = |flip: Option<usize>| -> Result<(bool, usize), String> {
                let mut rng = Repeated { byte, flip, used: 0 };
                guard(|| scheme.batch_verify(&cs, &zs, &os, &mut rng)).map(|ok| (ok, rng.used))
            };
            let Ok((true, used)) = run(None) else {
                // weights that are not drawn alike: nothing to compare here
                ctx.step("other weights");
                ctx.outcome("rejected under the repeated byte");
                return;
            };
            let mut effective = 0;
            for bit in 0..used * 8 {
                if let Ok((ok, _)) = run(Some(bit)) {
                    effective += !ok as usize;
                    ctx.step((byte, bit, ok));
                }
            }
            ctx.note(|| format!("byte {:#x}: {} bytes drawn, {} bits matter", byte, used, effective));
            ctx.check(effective >= 64, "narrow", || format!("two opposite errors cancel unless one of {} bits of the verifier's randomness differs ({} bytes are drawn)", effective, used));
            ctx.outcome("weights carry the entropy");
        }),
        scenario("valid-items-sharing-points", 0, move |ctx| {
            // real polynomials; equal points, equal polynomials, point = secret, zero polynomial
            let s = Fr::from(5u64);
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 4));
            let polys = [vec![], vec![Fr::from(3u64)], vec![Fr::one(), Fr::from(2u64), Fr::from(9u64)]];
            let zs = [Fr::zero(), Fr::from(5u64), Fr::from(8u64)];
            let m = ctx.range(1, if quick { 2 } else { 3 });
            let mut cs = vec![];
            let mut pts = vec![];
            let mut os = vec![];
            let mut sizes = vec![];
            for _ in 0..m {
                let p = Poly::from_coefficients_slice(ctx.pick(&polys));
                let z = *ctx.pick(&zs);
                cs.push(scheme.commit(&p));
                os.push(ctx.must("open", || scheme.open(&p, z)));
                pts.push(z);
                sizes.push(p.coeffs.len());
            }
            let got = ctx.must("batch_verify", || scheme.batch_verify(&cs, &pts, &os, &mut stream(1)));
            ctx.step((fs(&pts), sizes, got));
            ctx.check(got, "rejects", || format!("valid batch at points {} rejected", fs(&pts)));
            // swap two points: valid only if it changes nothing
            if m == 2 {
                pts.swap(0, 1);
                let each = (0..m).all(|i| scheme.verify(&cs[i], &os[i], pts[i]));
                let got = ctx.must("batch_verify", || scheme.batch_verify(&cs, &pts, &os, &mut stream(1)));
                ctx.step((fs(&pts), got));
                ctx.check(got == each, "differs", || format!("points swapped {}: batch {} individually {}", fs(&pts), got, each));
            }
            ctx.outcome(format!("size {}", m));
        }),
    ]
}

// --------------------------------------------------------------------- K04

fn k04(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("linear-operations", 0, move |ctx| {
            let s = *ctx.pick(&secrets()[1..if quick { 2 } else { 4 }]);
            let al = [Fr::zero(), Fr::one(), -Fr::one(), Fr::from(5u64)];
            let maxlen = if quick { 2 } else { 3 };
            let mk = |ctx: &mut Ctx| -> Vec<Fr> {
                let n = ctx.range(0, maxlen);
                (0..n).map(|_| *ctx.pick(&al)).collect()
            };
            let p = mk(ctx);
            let q = mk(ctx);
            let k = *ctx.pick(&[Fr::zero(), Fr::one(), -Fr::one(), big()]);
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 2));
            let (pp, qq) = (Poly::from_coefficients_slice(&p), Poly::from_coefficients_slice(&q));
            let (c, d) = (scheme.commit(&pp), scheme.commit(&qq));
            let (pv, qv) = (eval(&p, s), eval(&q, s));
            ctx.note(|| format!("p {} q {} factor {}", fs(&p), fs(&q), k));
            let sum = c.clone() + d.clone();
            ctx.check(sum.0 == g1(pv + qv) && sum == scheme.commit(&(&pp + &qq)), "add", || format!("{} + {}", fs(&p), fs(&q)));
            let dif = c.clone() - d.clone();
            ctx.check(dif.0 == g1(pv - qv) && dif == scheme.commit(&(&pp - &qq)), "sub", || format!("{} - {}", fs(&p), fs(&q)));
            ctx.check((-c.clone()).0 == g1(-pv), "neg", || format!("-{}", fs(&p)));
            ctx.check((&c * k).0 == g1(pv * k) && (c.clone() * k).0 == g1(pv * k), "mul", || format!("{} * {}", fs(&p), k));
            ctx.step((fs(&p), fs(&q), k.to_string()));
            let z = *ctx.pick(&[Fr::zero(), Fr::from(4u64), s]);
            let (o1, o2) = (ctx.must("open", || scheme.open(&pp, z)), ctx.must("open", || scheme.open(&qq, z)));
            let o = o1 + o2;
            ctx.check(o.1 == eval(&p, z) + eval(&q, z), "opening-add-value", || format!("{} + {} at {}", fs(&p), fs(&q), z));
            ctx.check(o.0 == g1(eval(&quotient(&p, z), s) + eval(&quotient(&q, z), s)), "opening-add", || format!("openings of {} and {} at {}: witness of the sum", fs(&p), fs(&q), z));
            let ok = ctx.must("verify", || scheme.verify(&sum, &o, z));
            ctx.check(ok, "opening-add", || format!("sum of openings of {} and {} at {} does not open the sum", fs(&p), fs(&q), z));
            ctx.step((fs(&[o.1, z]),));
            ctx.outcome("ok");
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // scalars and discrete logs of every magnitude
            let v = *ctx.pick(&wide::<_, 4>());
            let l = *ctx.pick(&[Fr::one(), Fr::zero(), -Fr::from(5u64), big()]);
            let c = KzgCommitment(g1(l));
            ctx.step((v.to_string(), l.to_string()));
            ctx.note(|| format!("[{}] and the scalar {}", l, v));
            let (a, b) = (ctx.must("mul", || &c * v), ctx.must("mul", || c.clone() * v));
            ctx.check(a.0 == g1(l * v) && b == a, "mul", || format!("[{}] * {} is neither [{}] nor the same both ways", l, v, l * v));
            let d = KzgCommitment(g1(v));
            let (x, y, n) = (c.clone() + d.clone(), c.clone() - d.clone(), -d.clone());
            ctx.check(x.0 == g1(l + v) && y.0 == g1(l - v) && n.0 == g1(-v), "operators", || format!("sum, difference or negation of [{}] and [{}]", l, v));
            let logs = [l, Fr::from(3u64), v, -l];
            let cs: Vec<KzgCommitment> = logs.iter().map(|l| KzgCommitment(g1(*l))).collect();
            let refs: Vec<&KzgCommitment> = cs.iter().collect();
            for at in [v, Fr::from(2u64)] {
                let got = ctx.must("aggregate_commitments", || KzgScheme::aggregate_commitments(&refs, &at));
                ctx.check(got.0 == g1(eval(&logs, at)), "aggregate", || format!("{} with challenge {}: not the sum of v^i C_i", fs(&logs), at));
            }
            let o = KzgOpening(g1(l), v) + KzgOpening(g1(v), l + l);
            ctx.check(o.0 == g1(l + v) && o.1 == v + l + l, "openings", || format!("sum of openings of [{}] to {} and [{}] to {}", l, v, v, l + l));
            ctx.outcome("ok");
        }),
        scenario("long-polynomials", 0, move |ctx| {
            let s = big();
            const LENGTHS: [usize; 10] = [0, 1, 17, 33, 65, 129, 130, 257, 513, 1025];
            let (n, m) = (*ctx.pick(&LENGTHS), *ctx.pick(&LENGTHS));
            let (p, q) = (patterned(0, n), patterned(if n == m { 2 } else { 3 }, m));
            let scheme = KzgScheme::new(Srs::new_from_secret(s, 1023));
            let (pp, qq) = (Poly::from_coefficients_slice(&p), Poly::from_coefficients_slice(&q));
            let (c, d) = (ctx.must("commit", || scheme.commit(&pp)), ctx.must("commit", || scheme.commit(&qq)));
            let z = Fr::from(4u64);
            let o = ctx.must("open", || scheme.open(&pp, z)) + ctx.must("open", || scheme.open(&qq, z));
            let (pv, qv) = (eval(&p, s), eval(&q, s));
            let sum = c.clone() + d.clone();
            ctx.step((n, m));
            ctx.note(|| format!("lengths {} and {}", n, m));
            ctx.check(sum.0 == g1(pv + qv) && (c.clone() - d.clone()).0 == g1(pv - qv) && (-c.clone()).0 == g1(-pv) && (&c * Fr::from(9u64)).0 == g1(pv * Fr::from(9u64)), "long", || format!("operators on commitments to polynomials of lengths {} and {}", n, m));
            ctx.check(o.1 == eval(&p, z) + eval(&q, z) && o.0 == g1(eval(&quotient(&p, z), s) + eval(&quotient(&q, z), s)) && scheme.verify(&sum, &o, z), "long-openings", || format!("sum of openings of polynomials of lengths {} and {}", n, m));
            ctx.outcome("ok");
        }),
        scenario("aggregation", 0, move |ctx| {
            let few = if quick { 6 } else { 16 };
            let i = ctx.range(0, few + 12);
            let m = if i <= few { i } else { [17usize, 31, 32, 33, 64, 65, 128, 129, 257, 513, 1025, 2049][i - few - 1] };
            let v = *ctx.pick(&[Fr::zero(), Fr::one(), -Fr::one(), Fr::from(2u64), Fr::from(u64::MAX), big()]);
            let k = ctx.choose(3);
            let logs: Vec<Fr> = (0..m)
                .map(|i| match k {
                    0 => Fr::from(i as u64 + 1),
                    1 => Fr::from((i % 2) as u64),
                    _ => -Fr::from(7 * i as u64 + 3),
                })
                .collect();
            let cs: Vec<KzgCommitment> = logs.iter().map(|l| KzgCommitment(g1(*l))).collect();
            let refs: Vec<&KzgCommitment> = cs.iter().collect();
            let got = ctx.must("aggregate_commitments", || KzgScheme::aggregate_commitments(&refs, &v));
            let want = eval(&logs, v);
            ctx.step((m, v.to_string(), k));
            ctx.note(|| format!("{} commitments at {}", m, v));
            ctx.check(got.0 == g1(want), "aggregate", || format!("{} commitments with challenge {}: not the sum of v^i C_i", m, v));
            ctx.outcome(format!("{} commitments", m));
        }),
    ]
}

// --------------------------------------------------------------------- K05

/// The discrete logarithm of `p` when it is below 2^32.
fn small_log(p: G1Point) -> Option<u64> {
    const B: usize = 1 << 16;
    static BABY: std::sync::OnceLock<std::collections::HashMap<G1Point, u64>> = std::sync::OnceLock::new();
    let g = G1Projective::generator();
    let baby = BABY.get_or_init(|| {
        let mut v = Vec::with_capacity(B);
        let mut c = G1Projective::zero();
        for _ in 0..B {
            v.push(c);
            c += g;
        }
        G1Projective::normalize_batch(&v).into_iter().zip(0..).collect()
    });
    let giant = g * Fr::from(B as u64);
    let mut v = Vec::with_capacity(B);
    let mut c = G1Projective::from(p);
    for _ in 0..B {
        v.push(c);
        c -= giant;
    }
    G1Projective::normalize_batch(&v).iter().zip(0..).find_map(|(q, k)| baby.get(q).map(|b| b + k * B as u64))
}

fn k05(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("powers-of-the-secret", 0, move |ctx| {
            let few = if quick { 12 } else { 64 };
            let i = ctx.range(0, few + 16);
            let size = if i <= few { i } else { [13usize, 14, 29, 30, 61, 62, 64, 125, 126, 254, 256, 510, 1022, 2046, 2049, 4097][i - few - 1] };
            let s = *ctx.pick(&[Fr::from(2u64), Fr::from(5u64), -Fr::from(3u64), big(), Fr::one(), -Fr::one()]);
            if quick && size > 1022 && s != big() {
                ctx.prune()
            }
            let srs = ctx.must("new_from_secret", || Srs::new_from_secret(s, size));
            let pts = srs.g1_points();
            ctx.note(|| format!("size {} secret {}: {} points", size, s, pts.len()));
            ctx.check(pts.len() == size + 3, "length", || format!("size {} gives {} points", size, pts.len()));
            let mut cur = Fr::one();
            for (i, p) in pts.iter().enumerate() {
                ctx.check(*p == g1(cur), "powers", || format!("point {} of size {} is not [s^{}]", i, size, i));
                cur *= s;
            }
            ctx.check(srs.g2() == g2(Fr::one()) && srs.g2s() == g2(s), "g2", || "G2 part is not ([1], [s])".into());
            ctx.step((size, s.to_string()));
            ctx.outcome("ok");
        }),
        scenario("secrets-of-every-magnitude", 0, move |ctx| {
            let s = *ctx.pick(&wide::<_, 4>());
            let size = *ctx.pick(&[0usize, 3]);
            let srs = ctx.must("new_from_secret", || Srs::new_from_secret(s, size));
            let pts = srs.g1_points();
            ctx.check(pts.len() == size + 3, "length", || format!("size {} gives {} points", size, pts.len()));
            let mut cur = Fr::one();
            for (i, p) in pts.iter().enumerate() {
                ctx.check(*p == g1(cur), "powers", || format!("secret {}: point {} of size {} is not [s^{}]", s, i, size, i));
                cur *= s;
            }
            ctx.check(srs.g2() == g2(Fr::one()) && srs.g2s() == g2(s), "g2", || format!("secret {}: the G2 part is not ([1], [s])", s));
            ctx.step((size, s.to_string()));
            ctx.outcome("ok");
        }),
        scenario("random-setup", 0, move |ctx| {
            let size = *ctx.pick(&[0usize, 1, 4, 9, 62, 130, 255]);
            let stream = ctx.choose(if size > 9 { 1 } else { 8 }) as u64;
            let mk = |seed: u64| fresh_thread(seed, || Srs::new(size));
            let (a, b, other) = (mk(stream), mk(stream), mk(stream + 100));
            let (Ok(a), Ok(b), Ok(other)) = (a, b, other) else { ctx.fail("panic:new", "Srs::new panicked") };
            let pts = a.g1_points();
            ctx.check(a == b, "deterministic", || "same entropy, different setup".into());
            ctx.check(a != other && a.g2s() != other.g2s(), "fresh", || "different entropy, same setup".into());
            ctx.check(pts.len() == size + 3 && pts[0] == g1(Fr::one()) && a.g2() == g2(Fr::one()), "shape", || format!("size {}", size));
            for w in pts.windows(2) {
                ctx.check(Bls12_381::pairing(w[1], a.g2()) == Bls12_381::pairing(w[0], a.g2s()), "powers", || "consecutive points are not related by the secret".into());
            }
            let g = G1Point::generator();
            let weak = [Fr::zero(), Fr::one(), -Fr::one()].iter().any(|x| pts[1] == (G1Projective::from(g) * x).into_affine());
            ctx.check(!weak, "weak", || "the random secret is 0, 1 or -1".into());
            // nor a narrow draw from the same entropy
            let narrow = fresh_thread(stream, || {
                let mut v = vec![];
                for bits in [8u32, 16, 32, 64, 128] {
                    getrandom::mc_seed(stream);
                    let mut draws: [Box<dyn RngCore>; 2] = [Box::new(StdRng::from_entropy()), Box::new(OsRng)];
                    for d in draws.iter_mut() {
                        let (lo, hi) = (d.next_u64(), d.next_u64());
                        let x = (lo as u128 | (hi as u128) << 64) & (u128::MAX >> (128 - bits));
                        v.push(Fr::from(x));
                    }
                }
                for t in 0..3 {
                    // a fresh thread's own generator, its first draw
                    v.push(std::thread::scope(|s| s.spawn(move || {
                        getrandom::mc_seed(stream);
                        match t {
                            0 => Fr::from(rand::random::<u32>()),
                            1 => Fr::from(rand::random::<u64>()),
                            _ => Fr::from(rand::random::<u128>()),
                        }
                    }).join().unwrap()));
                }
                v
            });
            for x in narrow.unwrap_or_default() {
                ctx.check(pts[1] != g1(x), "narrow", || format!("the random secret is the narrow value {}", x));
            }
            ctx.check(small_log(pts[1]).is_none(), "small", || format!("the random secret is only {:?}", small_log(pts[1])));
            ctx.step((size, stream, pts[1].to_string()));
            ctx.note(|| format!("size {} stream {}", size, stream));
            ctx.outcome("ok");
        }),
        scenario("capacity", 0, move |ctx| {
            let few = if quick { 6 } else { 20 };
            let i = ctx.range(0, few + 5);
            let size = if i <= few { i } else { [14usize, 30, 62, 126, 254][i - few - 1] };
            let s = *ctx.pick(&[Fr::from(5u64), big()]);
            let deg = if i <= few { ctx.range(0, size + 6) } else { size + ctx.choose(6) };
            let api = ctx.choose(3);
            let coeffs: Vec<Fr> = (0..=deg).map(|i| if i == deg { Fr::one() } else { Fr::from((i % 3) as u64) }).collect();
            let poly = Poly::from_coefficients_slice(&coeffs);
            let scheme = KzgScheme::new(Srs::new_from_secret(s, size));
            let cap = size + 2; // largest degree a setup for `size` supports
            let z = Fr::from(9u64);
            let r = guard(|| match api {
                0 => scheme.commit(&poly).0,
                1 => scheme.commit_vector(&coeffs).0,
                _ => scheme.open(&poly, z).0,
            });
            // an opening commits to the quotient only
            let (need, want) = if api == 2 { (deg.max(1) - 1, g1(eval(&quotient(&coeffs, z), s))) } else { (deg, g1(eval(&coeffs, s))) };
            ctx.step((size, deg, api, r.is_ok()));
            ctx.note(|| format!("size {} degree {} api {}: {}", size, deg, api, if r.is_ok() { "done" } else { "refused" }));
            match r {
                Ok(p) => {
                    ctx.check(need <= cap, "over-capacity", || format!("degree {} accepted by a setup for {}", deg, size));
                    ctx.check(p == want, "wrong", || format!("degree {} with a setup for {}: wrong point", deg, size));
                    ctx.outcome("done")
                }
                Err(e) => {
                    ctx.check(need > cap, "refused", || format!("degree {} refused by a setup for {}: {}", deg, size, e));
                    ctx.outcome("refused")
                }
            }
        }),
    ]
}
