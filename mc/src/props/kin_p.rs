//! Kin: calls that differ from one another in one argument, by little.
//!
//! `run(fix, b, v)` makes the call with the b-th arguments, of which one is
//! replaced by its v-th close value (v = 0: none). Sizes go up to the ones for
//! which it would pay to keep something.
use super::history_p::{bytes, coms, fail_as, fri_sig, inst, poly, sig, wit, yes, Gq, Kept, Nf};
use super::kzg_p::{big, eval, g1, quotient};
use super::nova_p as nv;
use super::plonk_p as pp;
use super::plonk_ref::*;
use crate::core::guard;
use crate::util::*;
use ark_bls12_381::Fr;
use ark_ff::{Fp, FpConfig, One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::DenseUVPolynomial;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use rand::SeedableRng;
use sha2::Sha256;

/// Values close to x: as many of them agree with x in all words but one.
pub const ALTS: usize = 10;
fn alt<P: FpConfig<N>, const N: usize>(x: Fp<P, N>, h: usize) -> Fp<P, N> {
    let mut v = nearest(x);
    v.extend([-x, x * cube_root::<Fp<P, N>>()]);
    v[h % v.len()]
}
/// Replace one of the slots; false if there is no v-th replacement.
fn swap_in<P: FpConfig<N>, const N: usize>(slots: &mut [&mut Fp<P, N>], v: usize) -> bool {
    if v == 0 {
        return true;
    }
    match slots.get_mut((v - 1) / ALTS) {
        Some(x) => {
            **x = alt(**x, (v - 1) % ALTS);
            true
        }
        None => false,
    }
}
/// Some places of a list.
fn places<T>(v: &mut [T], at: [usize; 4]) -> Vec<&mut T> {
    let n = v.len();
    v.iter_mut().enumerate().filter(|(i, _)| at.iter().any(|a| a % n == *i)).map(|x| x.1).collect()
}
fn all_but_bits(k: usize) -> Fr {
    big() + Fr::from(k as u64 * 1_000_003)
}

pub struct Kin {
    pub name: &'static str,
    pub bases: usize,
    /// variants of each base (without the base itself)
    pub variants: usize,
    pub run: fn(&mut Kept, usize, usize) -> Option<String>,
}

fn setup(_: &mut Kept, b: usize, v: usize) -> Option<String> {
    let mut s = all_but_bits(1);
    swap_in(&mut [&mut s], v).then(|| {
        let s = Srs::new_from_secret(s, [2, 3, 33, 130][b]);
        sig((s.g1_points().iter().map(bytes).collect::<Vec<_>>(), bytes(&s.g2()), bytes(&s.g2s())))
    })
}
fn list(n: usize) -> Vec<Fr> {
    (0..n).map(|i| all_but_bits(i + 2)).collect()
}
fn commit(f: &mut Kept, b: usize, v: usize) -> Option<String> {
    let n = [4, 5, 40][b];
    let (mut c, mut tau) = (list(n), big());
    let mut slots = places(&mut c, [0, 1, n / 2, n - 1]);
    slots.push(&mut tau);
    if !swap_in(&mut slots, v) {
        return None;
    }
    let s = f.scheme(tau, 64);
    let p = fail_as(guard(|| s.commit(&poly(&c))), |c| coms(&[&c]));
    Some(format!("{} {} {}", p, fail_as(guard(|| s.commit_vector(&c)), |c| coms(&[&c])), fail_as(guard(|| s.commit_para(c[0])), |c| coms(&[&c]))))
}
fn open(f: &mut Kept, b: usize, v: usize) -> Option<String> {
    let n = [4, 5, 40][b];
    let (mut c, mut tau, mut z) = (list(n), big(), all_but_bits(77));
    let mut slots = places(&mut c, [0, n / 2, n - 1, 0]);
    slots.push(&mut tau);
    slots.push(&mut z);
    if !swap_in(&mut slots, v) {
        return None;
    }
    let s = f.scheme(tau, 64);
    let show = |o: KzgOpening| format!("{} {}", bytes(&o.0), bytes(&o.1));
    Some(format!("{} {}", fail_as(guard(|| s.open(&poly(&c), z)), show), fail_as(guard(|| s.open_vector(&c, z)), show)))
}
struct Opened {
    x: [Fr; 4],
    tau: Fr,
}
fn opened(k: usize) -> Opened {
    let (c, tau, z) = (list(3 + k), big(), all_but_bits(70 + k));
    Opened { x: [eval(&c, tau), eval(&quotient(&c, z), tau), eval(&c, z), z], tau }
}
impl Opened {
    fn parts(&self) -> (KzgCommitment, KzgOpening, Fr) {
        (KzgCommitment(g1(self.x[0])), KzgOpening(g1(self.x[1]), self.x[2]), self.x[3])
    }
}
fn verify(f: &mut Kept, b: usize, v: usize) -> Option<String> {
    let mut o = opened(b);
    let [p, q, y, z] = &mut o.x;
    if !swap_in(&mut [p, q, y, z, &mut o.tau], v) {
        return None;
    }
    let (c, p, z) = o.parts();
    Some(yes(f.scheme(o.tau, 8).verify(&c, &p, z)))
}
fn batch(f: &mut Kept, b: usize, v: usize) -> Option<String> {
    let mut o: Vec<Opened> = (0..2 + 4 * b).map(opened).collect();
    let mut tau = big();
    let last = o.len() - 1;
    {
        let (head, tail) = o.split_at_mut(1);
        let mut slots: Vec<&mut Fr> = head[0].x.iter_mut().collect();
        slots.extend(tail[last - 1].x.iter_mut());
        slots.push(&mut tau);
        if !swap_in(&mut slots, v) {
            return None;
        }
    }
    let (mut cs, mut ps, mut zs) = (vec![], vec![], vec![]);
    for o in &o {
        let (c, p, z) = o.parts();
        cs.push(c);
        ps.push(p);
        zs.push(z);
    }
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    Some(yes(f.scheme(tau, 8).batch_verify(&cs, &zs, &ps, &mut rng)))
}
fn combine(_: &mut Kept, b: usize, v: usize) -> Option<String> {
    let mut x = [all_but_bits(1), all_but_bits(2), all_but_bits(3), all_but_bits(4)];
    let [p, q, r, s] = &mut x;
    if !swap_in(&mut [p, q, r, s], v) {
        return None;
    }
    let (p, q) = (KzgCommitment(g1(x[0])), KzgCommitment(g1(x[1])));
    let many: Vec<&KzgCommitment> = (0..2 + 7 * b).map(|i| if i % 2 == 0 { &p } else { &q }).collect();
    let g = KzgScheme::aggregate_commitments(&many, &x[2]);
    let sum = KzgOpening(g1(x[0]), x[2]) + KzgOpening(g1(x[1]), x[3]);
    let scaled = [p.clone() * x[3], p.clone() + q.clone(), -p, q * x[2]];
    Some(format!("{} {} {} {}", coms(&[&g]), coms(&scaled.iter().collect::<Vec<_>>()), bytes(&sum.0), bytes(&sum.1)))
}

fn gold(n: usize) -> Vec<Gq> {
    (1..=n as u64).map(|i| Gq::from(i.wrapping_mul(0x9E37_79B9_7F4A_7C15))).collect()
}
/// coefficients, blowup, queries
const FRI: [(usize, usize, usize); 7] = [(4, 1, 2), (4, 2, 2), (4, 2, 3), (32, 2, 2), (64, 1, 1), (64, 2, 1), (130, 1, 1)];
fn fri_prove(_: &mut Kept, b: usize, v: usize) -> Option<String> {
    let (n, blowup, q) = FRI[b];
    let mut c = gold(n);
    if !swap_in(&mut places(&mut c, [0, 1, n / 2, n - 1]), v) {
        return None;
    }
    let p = DensePolynomial::from_coefficients_vec(c);
    Some(fail_as(guard(|| fri::prover::generate_proof::<sha2_11::Sha256, Gq>(p, blowup, q)), |p| fri_sig(&p)))
}
fn fri_verify(_: &mut Kept, b: usize, v: usize) -> Option<String> {
    let (n, blowup, q) = FRI[b];
    let Ok(mut p) = guard(|| fri::prover::generate_proof::<sha2_11::Sha256, Gq>(DensePolynomial::from_coefficients_vec(gold(n)), blowup, q)) else { return Some("no proof".into()) };
    let scalar = 9 * ALTS;
    if v <= scalar {
        let last = p.decommitment_list.len() - 1;
        let mut slots = vec![&mut p.const_val, &mut p.coset];
        let l = p.layers_root.len();
        slots.extend(places(&mut p.layers_root, [0, l - 1, 0, 0]));
        let (head, tail) = p.decommitment_list.split_at_mut(last);
        for d in head.first_mut().into_iter().chain(tail.first_mut()) {
            slots.extend(places(&mut d.evaluations, [0, l - 1, 0, 0]));
            slots.extend(places(&mut d.sym_evaluations, [0, l - 1, 0, 0]));
        }
        if !swap_in(&mut slots, v) {
            return None;
        }
    } else {
        // an opening of another tree or place, another size, another length
        let o = fri::prover::generate_proof::<sha2_11::Sha256, Gq>(DensePolynomial::from_coefficients_vec(gold(n + 1)[1..].to_vec()), blowup, q);
        match v - scalar {
            1 => p.decommitment_list[0].auth_paths[0] = o.decommitment_list[0].auth_paths[0].clone(),
            2 => p.decommitment_list[0].sym_auth_paths[0] = o.decommitment_list[0].sym_auth_paths[0].clone(),
            3 => p.decommitment_list[0] = o.decommitment_list[0].clone(),
            4 => p.domain_size *= 2,
            5 => p.domain_size /= 2,
            6 => p.number_of_queries += 1,
            7 => {
                let d = p.decommitment_list[0].clone();
                p.decommitment_list.push(d);
                p.number_of_queries += 1;
            }
            8 => {
                p.decommitment_list.pop();
            }
            9 => p.layers_root = o.layers_root,
            10 => p.decommitment_list[0].auth_paths[0].index ^= 1,
            11 => p.decommitment_list[0].auth_paths[0].leaf_val += Gq::one(),
            12 => p = o,
            _ => return None,
        }
    }
    Some(yes(guard(|| fri::verifier::verify::<sha2_11::Sha256, Gq>(p)).is_ok_and(|r| r.is_ok())))
}
fn fri_transcript(_: &mut Kept, b: usize, v: usize) -> Option<String> {
    let mut x = gold(3);
    if !swap_in(&mut x.iter_mut().collect::<Vec<_>>(), v) {
        return None;
    }
    let mut t = fri::fiat_shamir::transcript::Transcript::<sha2_11::Sha256, Gq>::new(x[0]);
    t.digest(x[1]);
    let first = t.generate_challenges(1 + b);
    t.digest(x[2]);
    let more = t.generate_challenge_list_usize(1 + b);
    t.digest(x[0]);
    Some(sig((first.iter().map(bytes).collect::<Vec<_>>(), more, bytes(&t.generate_a_challenge()))))
}

/// A satisfied circuit of m gates over large values; its free values.
fn gates(m: usize, kind: usize, free: &[Fr; 4]) -> Vec<pp::G> {
    let mut vals = free.to_vec();
    (0..m)
        .map(|i| {
            let k = [(i % 2) as u8, 0, 1, (i % 3) as u8][kind];
            let (a, b) = (if i < 2 { 2 * i } else { vals.len() - 1 }, if i < 2 { 2 * i + 1 } else { i % 4 });
            vals.push(match k {
                0 => vals[a] + vals[b],
                1 => vals[a] * vals[b],
                _ => all_but_bits(i),
            });
            let c = vals.len() - 1;
            pp::G { kind: k, var: [a, b, c], x: [vals[a], vals[b], vals[c]], pi: Fr::zero() }
        })
        .collect()
}
const GATES: [usize; 5] = [2, 3, 4, 16, 40];
fn circuit(b: usize, v: usize) -> Option<Vec<pp::G>> {
    let m = GATES[b % GATES.len()];
    let mut free = [0, 1, 2, 3].map(all_but_bits);
    let structural = 4 * ALTS;
    if v <= structural {
        if !swap_in(&mut free.iter_mut().collect::<Vec<_>>(), v) {
            return None;
        }
        return Some(gates(m, b / GATES.len(), &free));
    }
    let mut g = gates(m, b / GATES.len(), &free);
    match v - structural {
        // the same values, gates of other kinds, tied otherwise, with a public input
        k @ 1..=3 => g = gates(m, (b / GATES.len() + k) % 4, &free),
        4 => {
            let fresh = 4 * m + 9;
            g[m - 1].var[2] = fresh;
            g[0].var[0] = fresh + 1;
        }
        5 => {
            g[m - 1].pi = Fr::one();
            g[m - 1].x[2] -= Fr::one();
        }
        6 => {
            let i = m - 1;
            g[i].kind = 2;
        }
        7 => {
            g.pop();
        }
        8 => {
            g.swap(0, 1);
        }
        _ => return None,
    }
    Some(g)
}
const STRUCTURES: usize = 4 * ALTS + 8;
fn compile(_: &mut Kept, b: usize, v: usize) -> Option<String> {
    let g = circuit(b, v)?;
    let pos = pp::positions(&g, 0);
    let built = fail_as(guard(|| pp::build(&g, &pos).compile()).and_then(|r| r), |c| sig(Table::read(&c).show()));
    let bare = fail_as(guard(|| pp::build_cpi(&g, &pos).compile()).and_then(|r| r), |(gc, cc, n)| sig(Table::read(&plonk::compiled_circuit::CompiledCircuit::new(gc, cc, n)).show()));
    Some(built + " " + &bare)
}
fn plonk_prove(f: &mut Kept, b: usize, v: usize) -> Option<String> {
    let mut tau = big();
    if v > STRUCTURES && !swap_in(&mut [&mut tau], v - STRUCTURES) {
        return None;
    }
    let g = circuit([0, 3][b], if v > STRUCTURES { 0 } else { v })?;
    let t = pp::want(&g, &pp::positions(&g, 0));
    let cc = f.circuit(&t);
    let s = srs(tau, t.n);
    let p = guard(|| plonk::prover::generate_proof::<Sha256>(cc, s.clone()));
    Some(match p {
        Ok(p) => yes(guard(|| plonk::verifier::verify::<Sha256>(cc, s, p)).is_ok_and(|r| r.is_ok())),
        Err(_) => "no".into(),
    })
}
fn plonk_verify(f: &mut Kept, b: usize, v: usize) -> Option<String> {
    let g = circuit([0, 3][b], 0)?;
    let mut t = pp::want(&g, &pp::positions(&g, 0));
    let tau = big();
    let (mut sp, _, _) = prove_ref::<Sha256>(&t, tau, &pp::blinders(1), Cheat::No);
    let mut at = tau;
    let parts = 17 * ALTS;
    if v <= parts {
        let mut slots: Vec<&mut Fr> = sp.com.iter_mut().chain(sp.bar.iter_mut()).collect();
        slots.push(&mut sp.u);
        slots.push(&mut at);
        if !swap_in(&mut slots, v) {
            return None;
        }
    } else {
        // claimed of another circuit: one entry of one column, another wiring
        let v = v - parts - 1;
        match v / ALTS {
            k @ 0..=4 => t.q[k][0] = alt(t.q[k][0] + Fr::one(), v % ALTS) - Fr::one(),
            5 => t.pi[1] = alt(t.pi[1] + Fr::one(), v % ALTS) - Fr::one(),
            6 => {
                let (x, y) = (v % 3, (v / 3 + 1) % 3);
                let s = t.sig[x][0];
                t.sig[x][0] = t.sig[y][1];
                t.sig[y][1] = s;
            }
            _ => {
                let k = circuit([0, 3][b], 4 * ALTS + 1 + v % ALTS % 8)?;
                t = pp::want(&k, &pp::positions(&k, 0));
            }
        }
    }
    let cc = f.circuit(&t);
    Some(yes(guard(|| plonk::verifier::verify::<Sha256>(cc, srs(at, t.n), sp.proof())).is_ok_and(|r| r.is_ok())))
}
/// An equation over x, y, z of some length; what it evaluates to.
fn equation(len: usize, coef: u64) -> (String, impl Fn(Fr, Fr) -> Fr) {
    let terms: Vec<String> = (0..len).map(|i| if i % 2 == 0 { "x*y".to_string() } else { format!("{}*x", coef + i as u64) }).collect();
    (terms.join("+"), move |x, y| (0..len).map(|i| if i % 2 == 0 { x * y } else { Fr::from(coef + i as u64) * x }).sum())
}
fn parse(f: &mut Kept, b: usize, v: usize) -> Option<String> {
    let len = [2, 3, 9, 33][b];
    let (mut x, mut y, mut z) = (all_but_bits(1), all_but_bits(2), all_but_bits(3));
    let (mut text, value) = equation(len, 7);
    let exact = v > 2 * ALTS;
    if !exact {
        if !swap_in(&mut [&mut x, &mut y], v) {
            return None;
        }
        z = value(x, y);
    } else if v <= 3 * ALTS {
        z = value(x, y);
        swap_in(&mut [&mut z], v - 2 * ALTS);
    } else {
        z = value(x, y) + z - z;
        text = match v - 3 * ALTS {
            1 => equation(len, 8).0,
            2 => equation(len, 7 + 256).0,
            3 => equation(len, 7 + 65536).0,
            4 => equation(len + 1, 7).0,
            5 => equation(len - 1, 7).0,
            6 => text.replace('x', "y"),
            7 => text.replacen('x', "y", 1),
            8 => text.replacen('*', "+", 1),
            9 => text.clone() + "+0",
            10 => format!("1*{}", text),
            _ => return None,
        };
    }
    let text = format!("{}=z", text);
    let show = |p: &plonk::parser::Parser| {
        fail_as(guard(|| p.parse(&text).compile()).and_then(|r| r), |c| {
            let t = Table::read(&c);
            format!("{} rows, {}", t.n, yes(t.satisfied()))
        })
    };
    for (n, v) in [("x", x), ("y", y), ("z", z)] {
        f.parser.add_witness(n, v);
    }
    Some(format!("{}; {}", show(&f.parser), show(f.parsed([x, y, z]))))
}
fn preprocess(_: &mut Kept, b: usize, v: usize) -> Option<String> {
    use plonk::common_preprocessed_input::cpi_parser::CPIGenerator;
    let len = [2, 3, 9][b];
    let mut tau = big();
    let mut text = equation(len, 7).0;
    if v <= ALTS {
        swap_in(&mut [&mut tau], v);
    } else {
        text = match v - ALTS {
            1 => equation(len, 8).0,
            2 => equation(len, 7 + 256).0,
            3 => equation(len + 1, 7).0,
            4 => equation(len - 1, 7).0,
            5 => text.replace('x', "y"),
            6 => text.replacen('x', "y", 1),
            7 => text.replacen('*', "+", 1),
            _ => return None,
        };
    }
    let s = KzgScheme::new(srs(tau, 64));
    let r = guard(|| CPIGenerator::default().compute_common_preprocessed_input(&format!("{}=z", text), s));
    Some(fail_as(r.and_then(|r| r), |c| {
        sig((
            coms(&[&c.com_q_lx, &c.com_q_rx, &c.com_q_ox, &c.com_q_mx, &c.com_q_cx, &c.com_s_sigma_1, &c.com_s_sigma_2, &c.com_s_sigma_3]),
            c.n,
            c.pi_x.coeffs.iter().map(bytes).collect::<Vec<_>>(),
        ))
    }))
}

/// rows, variables, public inputs
const RELS: [(usize, usize, usize); 5] = [(2, 2, 1), (2, 3, 1), (3, 7, 2), (9, 9, 1), (5, 40, 3)];
/// A relation with large entries in about half of its places.
fn relation_of(b: usize) -> nv::Rel {
    let (m, n, io) = RELS[b];
    let mut r = nv::relation(3, m, n, io);
    for (k, x) in r.abc.iter_mut().enumerate() {
        for (i, row) in x.iter_mut().enumerate() {
            for (j, e) in row.iter_mut().enumerate() {
                if (i + j + k) % 2 == 1 {
                    *e = Fr::zero();
                }
            }
        }
    }
    r
}
/// Matrix entries moved: the same entries, as many of them, elsewhere.
fn rearrange(m: &mut [Vec<Fr>], how: usize) -> bool {
    let (rows, cols) = (m.len(), m[0].len());
    match how {
        0 => m[0].rotate_left(1),
        1 => m[rows - 1].rotate_right(1),
        2 => m.rotate_left(1),
        3 => m[0].swap(0, cols - 1),
        4 => m[0].reverse(),
        5 => {
            for r in m.iter_mut() {
                r.rotate_left(1);
            }
        }
        _ => return false,
    }
    true
}
const MATRIX: usize = 12 * ALTS + 18;
fn change_relation(r: &mut nv::Rel, v: usize) -> bool {
    if v <= 12 * ALTS {
        let (m, c) = (r.m, r.abc[0][0].len());
        let mut slots = vec![];
        for x in r.abc.iter_mut() {
            let (head, tail) = x.split_at_mut(m - 1);
            slots.extend(places(&mut head[0], [0, 1, 0, 0]));
            slots.extend(places(&mut tail[0], [c - 2, c - 1, c - 1, c - 1]));
        }
        return swap_in(&mut slots, v);
    }
    let v = v - 12 * ALTS - 1;
    v < 18 && rearrange(&mut r.abc[v / 6], v % 6)
}
fn relation(f: &mut Kept, b: usize, v: usize) -> Option<String> {
    let base = relation_of(b);
    let p = nv::pair(&base, 3, big(), 1);
    let mut rel = base;
    let mut q = p.clone();
    let mut tau = big();
    if v <= MATRIX {
        if !change_relation(&mut rel, v) {
            return None;
        }
    } else {
        let (n, e) = (q.w.len(), q.e.len());
        let mut slots = places(&mut q.w, [0, n - 1, 0, 0]);
        slots.extend(places(&mut q.e, [0, e - 1, 0, 0]));
        slots.extend(places(&mut q.x, [0, 0, 0, 0]));
        slots.push(&mut q.u);
        slots.push(&mut tau);
        if !swap_in(&mut slots, v - MATRIX) {
            return None;
        }
    }
    let (lib, s) = f.relation(&rel, tau);
    // whose commitments those are: the base's or its own
    let own = yes(guard(|| nova::r1cs::is_r1cs_satisfied(lib, &q.fi(big()).lib(), &q.wit(), s)).is_ok_and(|r| r.is_ok()));
    let theirs = yes(guard(|| nova::r1cs::is_r1cs_satisfied(lib, &p.fi(big()).lib(), &q.wit(), s)).is_ok_and(|r| r.is_ok()));
    Some(format!("{} {} {}", inst(&q.wit().commit(s, &q.x)), own, theirs))
}
fn fold(f: &mut Kept, b: usize, v: usize) -> Option<String> {
    let mut rel = relation_of(b);
    let (mut p, mut q) = (nv::pair(&rel, 3, big(), 1), nv::pair(&rel, 3, Fr::one(), 2));
    let mut tau = big();
    if v <= MATRIX {
        if !change_relation(&mut rel, v) {
            return None;
        }
    } else {
        let mut slots: Vec<&mut Fr> = vec![];
        for x in [&mut p, &mut q] {
            let (n, e) = (x.w.len(), x.e.len());
            slots.extend(places(&mut x.w, [0, n - 1, 0, 0]));
            slots.extend(places(&mut x.e, [0, e - 1, 0, 0]));
            slots.extend(places(&mut x.x, [0, 0, 0, 0]));
            slots.push(&mut x.u);
        }
        slots.push(&mut tau);
        if !swap_in(&mut slots, v - MATRIX) {
            return None;
        }
    }
    let (lib, s) = f.relation(&rel, tau);
    let mut t = nova::transcript::Transcript::<Sha256>::default();
    let r = guard(|| Nf::prover(lib, &p.wit(), &q.wit(), &p.fi(big()).lib(), &q.fi(big()).lib(), s, &mut t));
    Some(fail_as(r, |(w, i, c, r)| {
        let pr = Nf::prove(r, &w, &i, s, &mut t);
        format!("{} {} {} {} {}", wit(&w), inst(&i), coms(&[&c]), bytes(&r), sig((bytes(&pr.opening_point), bytes(&pr.opening_e.0), bytes(&pr.opening_e.1), bytes(&pr.opening_w.0), bytes(&pr.opening_w.1))))
    }))
}
fn nifs(kept: &mut Kept, b: usize, v: usize) -> Option<String> {
    let mut c = nv::simulated(1, 1 + b, vec![all_but_bits(3)], big());
    let before = c.before.clone();
    let mut tau = big();
    let mut given = before.clone();
    {
        let mut slots: Vec<&mut Fr> = nv::slots_of(&mut c).into_iter().map(|x| x.0).collect();
        slots.truncate(16 + 3 * b);
        slots.push(&mut tau);
        slots.extend(given.iter_mut());
        if !swap_in(&mut slots, v) {
            return None;
        }
    }
    let mut t = nova::transcript::Transcript::<Sha256>::default();
    for x in given {
        t.feed_scalar_num(x);
    }
    let f = c.f.clone().map(|f| f.lib());
    Some(yes(guard(|| Nf::verify(&c.np.lib(), &f[0], &f[1], &f[2], &nv::com(c.t), kept.scheme(tau, 2), &mut t)).is_ok_and(|r| r.is_ok())))
}
fn ivc(kept: &mut Kept, b: usize, v: usize) -> Option<String> {
    use nova::circuit::State;
    let (rel, func, steps) = [(1, 0, 1), (1, 0, 2), (2, 1, 3)][b];
    let mut j = nv::honest_at(rel, func, steps, big());
    let mut tau = big();
    let (scalars, states) = (16 * ALTS, 3 * ALTS);
    if v <= scalars {
        let mut slots: Vec<&mut Fr> = vec![&mut j.p.t, &mut j.p.np.r, &mut j.p.np.z, &mut j.p.np.e.0, &mut j.p.np.e.1, &mut j.p.np.w.0, &mut j.p.np.w.1];
        for f in [&mut j.p.u, &mut j.p.big_u] {
            slots.extend([&mut f.e, &mut f.u, &mut f.w, &mut f.x[0]]);
        }
        slots.push(&mut tau);
        if !swap_in(&mut slots, v) {
            return None;
        }
    } else if v <= scalars + states {
        swap_in(&mut [&mut j.view.i, &mut j.view.z0, &mut j.view.zi], v - scalars);
    } else if v - scalars - states > 62 || !nv::change_ivc(&mut j, v - scalars - states - 1) {
        return None;
    }
    let trivial = nv::Fi { e: j.view.zero, u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
    let ivc = kept.ivc(format!("{} {:?} {:?} {} {} {}", func, tau, trivial, j.view.z0, j.view.i, j.view.zi), || {
        let mut a = nv::Aug::new(nv::F(func), &trivial.lib(), &State { state: j.view.z0 });
        a.i = j.view.i;
        a.z_i = State { state: j.view.zi };
        nv::Ivc { scheme: nv::scheme(tau, 2), augmented_circuit: a }
    });
    let zk = nova::ivc::ZkIVCProof { u_i: j.p.u.lib(), big_u_i: j.p.big_u.lib(), com_t: (!j.no_t).then(|| nv::com(j.p.t)), folded_u_proof: (!j.no_proof).then(|| j.p.np.lib()) };
    let mut t = nova::transcript::Transcript::<Sha256>::default();
    Some(yes(guard(|| ivc.verify(&zk, &mut t)).is_ok_and(|r| r.is_ok())))
}
fn nova_transcript(_: &mut Kept, b: usize, v: usize) -> Option<String> {
    let mut x = list(3 + b);
    if !swap_in(&mut x.iter_mut().collect::<Vec<_>>(), v) {
        return None;
    }
    let mut t = nova::transcript::Transcript::<Sha256>::from_scalar_number(&x[2..]);
    t.feed(&KzgCommitment(g1(x[0])));
    t.feed_scalar_num(x[1]);
    let c = t.generate_challenges::<2>();
    Some(sig((bytes(&c[0]), bytes(&c[1]))))
}
fn utils(_: &mut Kept, b: usize, v: usize) -> Option<String> {
    use nova::utils::*;
    let mut rel = relation_of(b);
    let cols = rel.abc[0][0].len();
    let (mut y, mut z, mut u) = (list(cols + 1)[1..].to_vec(), list(cols), big());
    if v <= 4 * ALTS + 6 {
        let m = &mut rel.abc[0];
        if v <= 4 * ALTS {
            let last = m.len() - 1;
            let (head, tail) = m.split_at_mut(last);
            let mut slots = places(&mut head[0], [0, 1, 0, 0]);
            slots.extend(places(&mut tail[0], [cols - 2, cols - 1, cols - 1, cols - 1]));
            swap_in(&mut slots, v);
        } else {
            rearrange(m, v - 4 * ALTS - 1);
        }
    } else {
        let mut slots = places(&mut y, [0, cols - 1, 0, 0]);
        slots.extend(places(&mut z, [0, cols - 1, 0, 0]));
        slots.push(&mut u);
        if !swap_in(&mut slots, v - 4 * ALTS - 6) {
            return None;
        }
    }
    let same = z.clone();
    Some(sig((
        fs(&matrix_vector_product(&rel.abc[0], &z)),
        fs(&hadamard_product(&y, &z)),
        fs(&vec_add(&y, &z)),
        fs(&vec_sub(&y, &z)),
        (vec_equal(&y, &z), vec_equal(&same, &z), vec_equal(&z, &list(cols))),
        fs(&vector_elem_product(&y, u)),
    )))
}

pub const KIN: &[Kin] = &[
    Kin { name: "setup", bases: 4, variants: ALTS, run: setup },
    Kin { name: "commit", bases: 3, variants: 5 * ALTS, run: commit },
    Kin { name: "open", bases: 3, variants: 5 * ALTS, run: open },
    Kin { name: "verify", bases: 2, variants: 5 * ALTS, run: verify },
    Kin { name: "batch_verify", bases: 2, variants: 9 * ALTS, run: batch },
    Kin { name: "combine", bases: 2, variants: 4 * ALTS, run: combine },
    Kin { name: "fri prove", bases: FRI.len(), variants: 4 * ALTS, run: fri_prove },
    Kin { name: "fri verify", bases: 5, variants: 9 * ALTS + 12, run: fri_verify },
    Kin { name: "fri transcript", bases: 2, variants: 3 * ALTS, run: fri_transcript },
    Kin { name: "compile", bases: 2 * GATES.len(), variants: STRUCTURES, run: compile },
    Kin { name: "plonk prove", bases: 2, variants: STRUCTURES + ALTS, run: plonk_prove },
    Kin { name: "plonk verify", bases: 2, variants: 25 * ALTS, run: plonk_verify },
    Kin { name: "parse", bases: 4, variants: 4 * ALTS, run: parse },
    Kin { name: "preprocess", bases: 3, variants: ALTS + 7, run: preprocess },
    Kin { name: "relation", bases: RELS.len(), variants: MATRIX + 7 * ALTS, run: relation },
    Kin { name: "fold", bases: RELS.len(), variants: MATRIX + 13 * ALTS, run: fold },
    Kin { name: "folding verify", bases: 2, variants: 20 * ALTS, run: nifs },
    Kin { name: "ivc", bases: 3, variants: 19 * ALTS + 62, run: ivc },
    Kin { name: "nova transcript", bases: 2, variants: 4 * ALTS, run: nova_transcript },
    Kin { name: "nova utils", bases: RELS.len(), variants: 9 * ALTS + 6, run: utils },
];

