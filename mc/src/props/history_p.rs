//! S01: no call's answer depends on the calls made before it.
//!
//! A history is run in a process of its own (`zkmc history ...`), with its
//! threads handed the turn one call at a time; every answer is compared with
//! the one the same call gives as the first and only call of a process.
use super::kin_p::KIN;
use super::kzg_p::{big, eval, g1, quotient};
use super::nova_p as nv;
use super::plonk_p as pp;
use super::plonk_ref::*;
use super::Prop;
use crate::core::*;
use crate::util::*;
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::DenseUVPolynomial;
use ark_serialize::CanonicalSerialize;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use rand::SeedableRng;
use sha2::{Digest, Sha256, Sha512};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::{mpsc, Mutex, OnceLock};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "S01",
        bounds: "calls: 21 families over the four crates (setup, commit, open, verify, batch verification, combination; FRI proof, verification, transcript, field; compilation, PLONK proof, PLONK verification, equation parsing, preprocessed input; folding, folding proofs, IVC, transcript) with 4 argument variants each, chosen to agree in all but one argument, right and wrong ones; every pair of calls, every triple a,b,a' with a,a' of one family and b of the same crate (every triple within a crate thorough), in one thread and with b in another thread; each call repeated 60 (1000 thorough) times and every alternation of two calls of a family 24 (200 thorough) times, then every call of the crate; 48 (400 thorough) different arguments per family, then the same backwards; 20 kin families with up to 10 base argument lists (large sizes included) and up to 250 variants each that differ from the base in one word of one value, one place, one gate or one part: base, variant, base in one process (every order and two threads, thorough), and every pair of sizes; schemes, circuits, parsers, relations and IVC verifiers are the same objects from call to call",
        assumptions: &["threads are switched between calls, not inside them: the library starts no thread and shares no data between calls at the pinned commit", "entropy may be consumed differently from one history to another: of proofs that use it only the verdict and the freshness are compared"],
        scenarios: s01,
    }]
}

pub fn sig<H: Hash>(x: H) -> String {
    let mut h = Fnv::default();
    x.hash(&mut h);
    format!("{:016x}", h.finish())
}
pub fn bytes<T: CanonicalSerialize>(x: &T) -> String {
    let mut b = vec![];
    x.serialize_uncompressed(&mut b).unwrap();
    sig(b)
}
pub fn coms(cs: &[&KzgCommitment]) -> String {
    cs.iter().map(|c| bytes(c.inner())).collect::<Vec<_>>().join(" ")
}
pub fn yes(b: bool) -> String {
    if b { "yes" } else { "no" }.to_string()
}
fn n(k: usize) -> Fr {
    Fr::from(k as u64)
}
pub fn fail_as<T>(r: Result<T, String>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(_) => "refused".into(),
    }
}

/// Objects that live as long as the history's thread.
pub struct Fix {
    schemes: [KzgScheme; 2],
    parser: plonk::parser::Parser,
    circuits: BTreeMap<usize, plonk::compiled_circuit::CompiledCircuit>,
    tables: BTreeMap<usize, Table>,
    kept: Kept,
}

/// The same for the kin: one object for all the calls that can share it, so that
/// what an object remembers of one call is there for the next.
#[derive(Default)]
pub struct Kept {
    schemes: HashMap<(Fr, usize), KzgScheme>,
    circuits: HashMap<String, plonk::compiled_circuit::CompiledCircuit>,
    parsers: HashMap<[Fr; 3], plonk::parser::Parser>,
    /// one that is given other values again and again
    pub parser: plonk::parser::Parser,
    relations: HashMap<String, nova::r1cs::R1CS<Fr>>,
    ivcs: HashMap<String, nv::Ivc>,
}
impl Kept {
    pub fn scheme(&mut self, tau: Fr, n: usize) -> &KzgScheme {
        self.schemes.entry((tau, n)).or_insert_with(|| nv::scheme(tau, n))
    }
    pub fn circuit(&mut self, t: &Table) -> &plonk::compiled_circuit::CompiledCircuit {
        self.circuits.entry(t.show()).or_insert_with(|| t.compiled())
    }
    pub fn parsed(&mut self, x: [Fr; 3]) -> &plonk::parser::Parser {
        self.parsers.entry(x).or_insert_with(|| {
            let mut p = plonk::parser::Parser::default();
            for (n, v) in ["x", "y", "z"].into_iter().zip(x) {
                p.add_witness(n, v);
            }
            p
        })
    }
    pub fn relation(&mut self, r: &nv::Rel, tau: Fr) -> (&nova::r1cs::R1CS<Fr>, &KzgScheme) {
        (self.relations.entry(format!("{:?}", r.abc)).or_insert_with(|| r.lib()), self.schemes.entry((tau, 64)).or_insert_with(|| nv::scheme(tau, 64)))
    }
    pub fn ivc(&mut self, key: String, new: impl FnOnce() -> nv::Ivc) -> &mut nv::Ivc {
        self.ivcs.entry(key).or_insert_with(new)
    }
}
const TAU: [u64; 2] = [7, 123456789];

impl Fix {
    fn new() -> Self {
        let mut parser = plonk::parser::Parser::default();
        for (v, x) in [("x", 2u64), ("y", 3), ("z", 9)] {
            parser.add_witness(v, Fr::from(x));
        }
        Fix { schemes: TAU.map(|t| KzgScheme::new(Srs::new_from_secret(Fr::from(t), 3))), parser, circuits: BTreeMap::new(), tables: BTreeMap::new(), kept: Kept::default() }
    }
    /// The k-th circuit as a table: satisfied.
    fn table(&mut self, k: usize) -> Table {
        self.tables
            .entry(k)
            .or_insert_with(|| {
                let g = pp::family([0, 2, 6, 7, 1, 5][k % 6], 2 + k / 6 % 2);
                pp::want(&g, &pp::positions(&g, k % 2))
            })
            .clone()
    }
    fn circuit(&mut self, k: usize) -> &plonk::compiled_circuit::CompiledCircuit {
        let t = self.table(k);
        self.circuits.entry(k).or_insert_with(|| t.compiled())
    }
}

/// What has to be new each time (process-wide: no two threads may share it).
fn fresh(x: String) -> String {
    static SEEN: OnceLock<Mutex<HashSet<String>>> = OnceLock::new();
    if SEEN.get_or_init(Default::default).lock().unwrap().insert(x) { "new" } else { "seen before" }.into()
}

type Run = fn(&mut Fix, usize) -> String;
struct Family {
    name: &'static str,
    /// crate
    group: usize,
    run: Run,
}

pub fn poly(c: &[Fr]) -> DensePolynomial<Fr> {
    DensePolynomial::from_coefficients_vec(c.to_vec())
}
/// Coefficients that agree in all but the last.
fn coeffs(k: usize) -> Vec<Fr> {
    vec![n(1), n(2), n(5), n(3 + k)]
}

fn setup(_: &mut Fix, k: usize) -> String {
    if k % 8 == 7 {
        let s = Srs::new(2);
        return fresh(bytes(&s.g2s()));
    }
    let s = Srs::new_from_secret(n(5 + k % 2 + k / 4), 2 + k / 2 % 2);
    let p: Vec<String> = s.g1_points().iter().map(bytes).collect();
    sig((p, bytes(&s.g2()), bytes(&s.g2s())))
}
fn commit(f: &mut Fix, k: usize) -> String {
    let s = &f.schemes[k % 2];
    let mut c = coeffs(k / 4);
    if k / 2 % 2 == 1 {
        c[3] = Fr::zero();
    }
    if k % 12 == 11 {
        c = (1..12).map(n).collect(); // more than the setup holds
    }
    let v = fail_as(guard(|| s.commit_vector(&c)), |c| coms(&[&c]));
    let p = fail_as(guard(|| s.commit(&poly(&c))), |c| coms(&[&c]));
    format!("{} {} {}", p, v, fail_as(guard(|| s.commit_para(n(k + 1))), |c| coms(&[&c])))
}
fn open(f: &mut Fix, k: usize) -> String {
    let s = &f.schemes[k / 2 % 2];
    let (c, z) = (coeffs(k / 4), n(11 + k % 2));
    let show = |o: KzgOpening| format!("{} {}", bytes(&o.0), bytes(&o.1));
    format!("{} {}", fail_as(guard(|| s.open(&poly(&c), z)), show), fail_as(guard(|| s.open_vector(&c, z)), show))
}
fn opening(k: usize, tau: Fr, z: Fr) -> (KzgCommitment, KzgOpening) {
    let c = coeffs(k);
    (KzgCommitment(g1(eval(&c, tau))), KzgOpening(g1(eval(&quotient(&c, z), tau)), eval(&c, z)))
}
fn verify(f: &mut Fix, k: usize) -> String {
    let z = n(11 + k / 4);
    let (c, mut o) = opening(k / 4, Fr::from(TAU[0]), z);
    let mut at = z;
    match k % 4 {
        1 => o.1 += Fr::one(),
        2 => at += Fr::one(),
        _ => {}
    }
    yes(f.schemes[(k % 4 == 3) as usize].verify(&c, &o, at))
}
fn batch(f: &mut Fix, k: usize) -> String {
    let (za, zb) = (n(11 + k / 4), n(3));
    let (a, mut o) = opening(k / 4, Fr::from(TAU[0]), za);
    let (b, mut p) = opening(9, Fr::from(TAU[0]), zb);
    match k % 4 {
        1 => p.1 += Fr::one(),
        2 => {
            o.1 += Fr::one();
            p.1 -= Fr::one();
        }
        _ => {}
    }
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    yes(f.schemes[(k % 4 == 3) as usize].batch_verify(&[a, b], &[za, zb], &[o, p], &mut rng))
}
fn combine(_: &mut Fix, k: usize) -> String {
    let (a, b) = (KzgCommitment(g1(n(4 + k / 2))), KzgCommitment(g1(n(50))));
    let g = KzgScheme::aggregate_commitments(&vec![&a, &b, &a], &n(2 + k % 2));
    let (o, p) = (KzgOpening(g1(n(k)), n(2)), KzgOpening(g1(n(9)), n(3 + k)));
    let sum = o + p;
    let (x, y) = (KzgCommitment(g1(n(4 + k / 2))), KzgCommitment(g1(n(50 + k % 2))));
    format!("{} {} {} {}", coms(&[&g]), coms(&[&(x.clone() * n(3) + y.clone())]), coms(&[&(-x - y)]), bytes(&sum.0) + &bytes(&sum.1))
}

pub type Gq = fri::fields::goldilocks::Fq;
fn fri_args(k: usize) -> (DensePolynomial<Gq>, usize, usize) {
    let c: Vec<Gq> = (0..3 + k / 4 % 4).map(|i| Gq::from((i * i + 1 + (k / 4 + 1) * (i == 1) as usize) as u64)).collect();
    (DensePolynomial::from_coefficients_vec(c), 1 << (k % 2), 2 + k / 2 % 2)
}
pub fn fri_sig(p: &fri::prover::Proof<Gq>) -> String {
    let d: Vec<String> = p
        .decommitment_list
        .iter()
        .map(|d| format!("{:?} {:?} {:?} {:?}", d.evaluations.iter().map(bytes).collect::<Vec<_>>(), d.sym_evaluations.iter().map(bytes).collect::<Vec<_>>(), d.auth_paths.len(), d.sym_auth_paths.len()))
        .collect();
    sig((p.layers_root.iter().map(bytes).collect::<Vec<_>>(), bytes(&p.const_val), p.domain_size, p.number_of_queries, d))
}
fn fri_prove(_: &mut Fix, k: usize) -> String {
    let (p, b, q) = fri_args(k);
    let a = fail_as(guard(|| fri::prover::generate_proof::<sha2_11::Sha256, Gq>(p.clone(), b, q)), |p| fri_sig(&p));
    let b = fail_as(guard(|| fri::prover::generate_proof::<sha2_11::Sha512, Gq>(p, b, q)), |p| fri_sig(&p));
    a + " " + &b
}
fn fri_verify(_: &mut Fix, k: usize) -> String {
    let (p, _, _) = fri_args(k);
    let Ok(mut p) = guard(|| fri::prover::generate_proof::<sha2_11::Sha256, Gq>(p, 2, 2)) else { return "no proof".into() };
    match k % 4 {
        1 => p.const_val += Gq::one(),
        2 => p.decommitment_list[1].evaluations[0] += Gq::one(),
        3 => return yes(guard(|| fri::verifier::verify::<sha2_11::Sha512, Gq>(p)).is_ok_and(|r| r.is_ok())),
        _ => {}
    }
    yes(guard(|| fri::verifier::verify::<sha2_11::Sha256, Gq>(p)).is_ok_and(|r| r.is_ok()))
}
fn fri_transcript(_: &mut Fix, k: usize) -> String {
    fn go<D: digest_11::Digest + Default + Clone>(k: usize) -> String {
        let mut t = fri::fiat_shamir::transcript::Transcript::<D, Gq>::new(Gq::from(k as u64 / 4));
        let early = guard(|| t.generate_a_challenge()).is_ok();
        let again = guard(|| t.generate_a_challenge()).is_ok();
        let mut t = fri::fiat_shamir::transcript::Transcript::<D, Gq>::new(Gq::from(k as u64 / 4));
        t.digest(Gq::from(8u64 + (k / 2 % 2) as u64));
        sig((early, again, t.generate_challenges(2).iter().map(bytes).collect::<Vec<_>>()))
    }
    if k % 2 == 0 {
        go::<sha2_11::Sha256>(k)
    } else {
        go::<sha2_11::Sha512>(k)
    }
}
fn fri_field(_: &mut Fix, k: usize) -> String {
    use ark_ff::{FftField, Field};
    let x = Gq::from((k as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let r = Gq::get_root_of_unity(1 << (k % 34).min(33));
    format!("{:?} {} {} {}", r.map(|r| bytes(&r)), bytes(&x.inverse().unwrap()), bytes(&(x * x - x)), x.pow([k as u64]))
}

fn compile(_: &mut Fix, k: usize) -> String {
    let g = pp::family([0, 2, 0, 6, 7, 1, 3][k % 7], [3, 3, 5, 4][k % 4] + k / 16);
    let pos = pp::positions(&g, k / 8 % 2);
    let built = fail_as(guard(|| pp::build(&g, &pos).compile()).and_then(|r| r), |c| sig(Table::read(&c).show()));
    let bare = fail_as(guard(|| pp::build_cpi(&g, &pos).compile()).and_then(|r| r), |(gc, cc, n)| sig(Table::read(&plonk::compiled_circuit::CompiledCircuit::new(gc, cc, n)).show()));
    built + " " + &bare
}
fn plonk_prove(f: &mut Fix, k: usize) -> String {
    let tau = Fr::from(TAU[k / 8 % 2]);
    let wrong = k % 4 == 3;
    let t = f.table(k / 4 * 2 + (k % 4 == 1) as usize);
    let made;
    let cc = if wrong {
        let mut t = t.clone();
        t.w[2][1] += Fr::one();
        made = t.compiled();
        &made
    } else {
        f.circuit(k / 4 * 2 + (k % 4 == 1) as usize)
    };
    fn go<D: Digest + Default>(cc: &plonk::compiled_circuit::CompiledCircuit, tau: Fr, n: usize) -> String {
        let Ok(p) = guard(|| plonk::prover::generate_proof::<D>(cc, srs(tau, n))) else { return "no".into() };
        let com = [&p.a_commit, &p.b_commit, &p.c_commit, &p.z_commit].map(|c| fresh(coms(&[c])));
        format!("{} {}", yes(guard(|| plonk::verifier::verify::<D>(cc, srs(tau, n), p)).is_ok_and(|r| r.is_ok())), com.join(" "))
    }
    if wrong {
        // a prover may refuse, or make a proof that is rejected
        return go::<Sha256>(cc, tau, t.n)[..2].trim().to_string();
    }
    if k % 4 == 2 {
        go::<Sha512>(cc, tau, t.n)
    } else {
        go::<Sha256>(cc, tau, t.n)
    }
}
fn plonk_verify(f: &mut Fix, k: usize) -> String {
    let tau = Fr::from(TAU[0]);
    let j = k / 4;
    let t = f.table(j);
    let (mut sp, _, _) = prove_ref::<Sha256>(&t, tau, &pp::blinders(k / 8 % 2), Cheat::No);
    let mut s = srs(tau, t.n);
    match k % 4 {
        1 => sp.bar[j % 6] += Fr::one(),
        2 => {
            // the same circuit with another public input
            let mut o = t.clone();
            o.pi[0] += Fr::one();
            let cc = o.compiled();
            return yes(guard(|| plonk::verifier::verify::<Sha256>(&cc, s, sp.proof())).is_ok_and(|r| r.is_ok()));
        }
        3 => s = srs(Fr::from(TAU[1]), t.n),
        _ => {}
    }
    let cc = f.circuit(j);
    yes(guard(|| plonk::verifier::verify::<Sha256>(cc, s, sp.proof())).is_ok_and(|r| r.is_ok()))
}
fn parse(f: &mut Fix, k: usize) -> String {
    let show = |r: Result<Result<plonk::compiled_circuit::CompiledCircuit, String>, String>| {
        fail_as(r.and_then(|r| r), |c| {
            let t = Table::read(&c);
            format!("{} rows, {}", t.n, yes(t.satisfied()))
        })
    };
    let c = k / 4;
    match k % 4 {
        // one parser, many texts
        0 => show(guard(|| f.parser.parse(&format!("x*y+{}=z", (c + 2) % 5 + 1)).compile())),
        1 => show(guard(|| f.parser.parse(&format!("x*y+{}=z{}", c % 5 + 1, ["", "+", "u"][(c + 2) % 3])).compile())),
        // one text, many witnesses
        w => {
            let mut p = plonk::parser::Parser::default();
            for (v, x) in [("x", 2 + c), ("y", 3), ("z", 3 * (2 + c) + 1 + (w == 2) as usize)] {
                p.add_witness(v, n(x));
            }
            show(guard(|| p.parse("x*y+1=z").compile()))
        }
    }
}
fn cpi(_: &mut Fix, k: usize) -> String {
    use plonk::common_preprocessed_input::cpi_parser::CPIGenerator;
    let text = format!("{}+{}=z", ["x*y", "x+y"][k % 2], 1 + k / 4);
    let s = KzgScheme::new(srs(Fr::from(TAU[k / 2 % 2]), 8));
    fail_as(guard(|| CPIGenerator::default().compute_common_preprocessed_input(&text, s)).and_then(|r| r), |c| {
        sig((
            coms(&[&c.com_q_lx, &c.com_q_rx, &c.com_q_ox, &c.com_q_mx, &c.com_q_cx, &c.com_s_sigma_1, &c.com_s_sigma_2, &c.com_s_sigma_3]),
            c.n,
            bytes(&c.k1),
            bytes(&c.k2),
            c.pi_x.coeffs.iter().map(bytes).collect::<Vec<_>>(),
        ))
    })
}

pub type Nf = nova::nifs::NIFS<Sha256>;
fn two_pairs(k: usize) -> (nv::Rel, nv::Pair, nv::Pair) {
    let (m, v, io) = nv::SHAPES[k / 4 % 4];
    let rel = nv::relation(1 + 2 * (k % 2), m, v, io);
    let (p, q) = (nv::pair(&rel, 0, n(1), 1), nv::pair(&rel, 3, n(2 + k / 16), 2 + k / 2 % 2));
    (rel, p, q)
}
pub fn inst(f: &nova::r1cs::FInstance) -> String {
    sig((coms(&[&f.com_e, &f.com_w]), bytes(&f.u), f.x.iter().map(bytes).collect::<Vec<_>>()))
}
pub fn wit(w: &nova::r1cs::FWitness) -> String {
    sig((w.e.iter().map(bytes).collect::<Vec<_>>(), w.w.iter().map(bytes).collect::<Vec<_>>()))
}
fn relation(_: &mut Fix, k: usize) -> String {
    let (rel, mut p, _) = two_pairs(k / 2);
    let s = nv::scheme(big(), 8);
    let fi = p.wit().commit(&s, &p.x);
    let mut committed = p.fi(big()).lib();
    if k % 2 == 1 {
        p.w[0] += Fr::one();
        committed = p.fi(big()).lib();
    }
    format!("{} {}", inst(&fi), yes(guard(|| nova::r1cs::is_r1cs_satisfied(&rel.lib(), &committed, &p.wit(), &s)).is_ok_and(|r| r.is_ok())))
}
fn fold(_: &mut Fix, k: usize) -> String {
    let (rel, p, q) = two_pairs(k);
    let s = nv::scheme(big(), 8);
    let mut t = nova::transcript::Transcript::<Sha256>::default();
    fail_as(guard(|| Nf::prover(&rel.lib(), &p.wit(), &q.wit(), &p.fi(big()).lib(), &q.fi(big()).lib(), &s, &mut t)), |(w, i, c, r)| {
        let pr = Nf::prove(r, &w, &i, &s, &mut t);
        format!("{} {} {} {} {}", wit(&w), inst(&i), coms(&[&c]), bytes(&r), sig((bytes(&pr.r), bytes(&pr.opening_point), bytes(&pr.opening_e.0), bytes(&pr.opening_e.1), bytes(&pr.opening_w.0), bytes(&pr.opening_w.1))))
    })
}
fn nifs(_: &mut Fix, k: usize) -> String {
    let mut c = nv::simulated(k / 8 % 2, 1 + k / 4 % 2, vec![n(k / 16)], big());
    let before = c.before.clone();
    match k % 4 {
        1 => c.np.w.1 += Fr::one(),
        2 => c.f[2].u += Fr::one(),
        3 => c.t += Fr::one(),
        _ => {}
    }
    let mut t = nova::transcript::Transcript::<Sha256>::default();
    for b in before {
        t.feed_scalar_num(b);
    }
    let f = c.f.clone().map(|f| f.lib());
    yes(guard(|| Nf::verify(&c.np.lib(), &f[0], &f[1], &f[2], &nv::com(c.t), &nv::scheme(big(), 2), &mut t)).is_ok_and(|r| r.is_ok()))
}
fn ivc(_: &mut Fix, k: usize) -> String {
    use nova::circuit::State;
    let rel = 1 + k / 4 % 3;
    let trivial = nv::Fi { e: Fr::zero(), u: Fr::zero(), w: Fr::zero(), x: vec![Fr::zero()] };
    if k % 4 == 3 {
        // two steps of the augmented circuit
        let z0 = nv::fq(k as i64);
        let mut a = nv::Aug::new(nv::F(k / 4 % 2), &trivial.lib(), &State { state: z0 });
        let early = guard(|| a.next_step()).is_ok();
        let mut a = nv::Aug::new(nv::F(k / 4 % 2), &trivial.lib(), &State { state: z0 });
        let w = nova::r1cs::FWitness { e: vec![], w: nv::ivc_witness(rel, n(2 + k)) };
        let first = guard(|| a.run(&trivial.lib(), None, &w, None));
        let moved = guard(|| a.next_step()).is_ok();
        let second = guard(|| a.run(&trivial.lib(), Some(&trivial.lib()), &w, Some(&nv::com(n(3)))));
        return sig((early, format!("{:?}", first.map(|r| r.is_ok().then(|| r.unwrap().to_string()))), moved, second.is_ok_and(|r| r.is_ok()), a.i.to_string(), a.z_i.state.to_string()));
    }
    let mut j = nv::honest_at(rel, k / 4 % 2, 1 + k % 4 / 2, big());
    if k % 2 == 1 && !nv::change_ivc(&mut j, [0, 25, 30, 52, 54][k / 8 % 5]) {
        return "-".into();
    }
    let mut a = nv::Aug::new(nv::F(k / 4 % 2), &trivial.lib(), &State { state: j.view.z0 });
    a.i = j.view.i;
    a.z_i = State { state: j.view.zi };
    let mut v = nv::Ivc { scheme: nv::scheme(big(), 2), augmented_circuit: a };
    let zk = nova::ivc::ZkIVCProof { u_i: j.p.u.lib(), big_u_i: j.p.big_u.lib(), com_t: (!j.no_t).then(|| nv::com(j.p.t)), folded_u_proof: (!j.no_proof).then(|| j.p.np.lib()) };
    let mut t = nova::transcript::Transcript::<Sha256>::default();
    yes(guard(|| v.verify(&zk, &mut t)).is_ok_and(|r| r.is_ok()))
}
fn nova_transcript(_: &mut Fix, k: usize) -> String {
    fn go<D: Digest + Default>(k: usize) -> String {
        let mut t = nova::transcript::Transcript::<D>::default();
        let early = guard(|| t.generate_challenges::<1>()).is_ok();
        let mut t = nova::transcript::Transcript::<D>::from_scalar_number(&[n(k / 4), n(1)]);
        t.feed(&KzgCommitment(g1(n(3 + k / 2 % 2))));
        let c = t.generate_challenges::<2>();
        sig((early, bytes(&c[0]), bytes(&c[1])))
    }
    if k % 2 == 0 {
        go::<Sha256>(k)
    } else {
        go::<Sha512>(k)
    }
}
fn utils(_: &mut Fix, k: usize) -> String {
    use nova::utils::*;
    let m: Vec<Vec<Fr>> = (0..2 + k / 4 % 2).map(|i| (0..3).map(|j| n(i * 3 + j + k % 2)).collect()).collect();
    let z = [n(1), n(2 + k / 2 % 2), n(4 + k)];
    let y = [n(5), n(2), n(4 + k)];
    sig((fs(&matrix_vector_product(&m, &z)), fs(&hadamard_product(&y, &z)), fs(&vec_add(&y, &z)), vec_equal(&y, &z), fs(&vector_elem_product(&y, n(k)))))
}

const FAMILIES: &[Family] = &[
    Family { name: "setup", group: 0, run: setup },
    Family { name: "commit", group: 0, run: commit },
    Family { name: "open", group: 0, run: open },
    Family { name: "verify", group: 0, run: verify },
    Family { name: "batch_verify", group: 0, run: batch },
    Family { name: "combine", group: 0, run: combine },
    Family { name: "fri prove", group: 1, run: fri_prove },
    Family { name: "fri verify", group: 1, run: fri_verify },
    Family { name: "fri transcript", group: 1, run: fri_transcript },
    Family { name: "fri field", group: 1, run: fri_field },
    Family { name: "compile", group: 2, run: compile },
    Family { name: "plonk prove", group: 2, run: plonk_prove },
    Family { name: "plonk verify", group: 2, run: plonk_verify },
    Family { name: "parse", group: 2, run: parse },
    Family { name: "preprocess", group: 2, run: cpi },
    Family { name: "relation", group: 3, run: relation },
    Family { name: "fold", group: 3, run: fold },
    Family { name: "folding verify", group: 3, run: nifs },
    Family { name: "ivc", group: 3, run: ivc },
    Family { name: "nova transcript", group: 3, run: nova_transcript },
    Family { name: "nova utils", group: 3, run: utils },
];
const VARIANTS: usize = 4;
const THREADS: usize = 2;

type Call = (usize, usize);
type Script = Vec<(usize, Call)>;

fn write_script(s: &Script) -> String {
    s.iter().map(|(t, (f, k))| format!("{}:{}:{}", t, f, k)).collect::<Vec<_>>().join(",")
}
fn read_script(s: &str) -> Option<Script> {
    s.split(',')
        .map(|w| {
            let mut p = w.split(':').map(|x| x.parse::<usize>().ok());
            Some((p.next()??, (p.next()??, p.next()??)))
        })
        .collect()
}

/// Kin calls are numbered after the others: family, then base and variant.
const BASE: usize = 1000;
fn kin(f: usize, b: usize, v: usize) -> Call {
    (FAMILIES.len() + f, b * BASE + v)
}
fn answer(fix: &mut Fix, (f, k): Call) -> String {
    match FAMILIES.get(f) {
        Some(x) => (x.run)(fix, k),
        None => (KIN[f - FAMILIES.len()].run)(&mut fix.kept, k / BASE, k % BASE).unwrap_or_else(|| "-".into()),
    }
}

/// The process of one history: prints the answer to each of its calls.
pub fn run_history(script: &str, out: &mut dyn std::io::Write) -> i32 {
    let Some(script) = read_script(script) else { return 2 };
    let mut lanes: Vec<Option<(mpsc::Sender<Call>, mpsc::Receiver<String>)>> = (0..THREADS).map(|_| None).collect();
    let mut fix = Fix::new();
    let call = |f: &mut Fix, (fam, k): Call| guard(|| answer(f, (fam, k))).unwrap_or_else(|p| format!("panicked: {}", p));
    getrandom::mc_seed(11);
    for (t, c) in script {
        let r = if t == 0 {
            call(&mut fix, c)
        } else {
            let lane = lanes[t - 1].get_or_insert_with(|| {
                let (tx, rx) = mpsc::channel::<Call>();
                let (ty, ry) = mpsc::channel::<String>();
                std::thread::spawn(move || {
                    getrandom::mc_seed(11 + t as u64);
                    let mut fix = Fix::new();
                    for c in rx {
                        if ty.send(call(&mut fix, c)).is_err() {
                            break;
                        }
                    }
                });
                (tx, ry)
            });
            let _ = lane.0.send(c);
            lane.1.recv().unwrap_or_else(|_| "thread died".into())
        };
        if writeln!(out, "{}", r).is_err() {
            return 2;
        }
    }
    0
}

fn spawn(s: &Script) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe).arg("history").arg(write_script(s)).stdin(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
    let lines: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
    if lines.len() == s.len() {
        Ok(lines)
    } else {
        Err(format!("the process ended ({}) after {} of {} calls", o.status, lines.len(), s.len()))
    }
}

/// The answer of a call that is the only one of its process.
fn alone(c: Call) -> Result<String, String> {
    static MEMO: OnceLock<Mutex<BTreeMap<Call, Result<String, String>>>> = OnceLock::new();
    let m = MEMO.get_or_init(Default::default);
    if let Some(r) = m.lock().unwrap().get(&c) {
        return r.clone();
    }
    let r = spawn(&vec![(0, c)]).map(|mut v| v.remove(0));
    m.lock().unwrap().insert(c, r.clone());
    r
}

fn title((f, k): Call) -> String {
    match FAMILIES.get(f) {
        Some(x) => format!("{} #{}", x.name, k),
        None => format!("{} base {} variant {}", KIN[f - FAMILIES.len()].name, k / BASE, k % BASE),
    }
}

fn judge(ctx: &mut Ctx, s: Script) {
    let got = match spawn(&s) {
        Ok(g) => g,
        Err(e) => ctx.fail("process-death", format!("history {}: {}", write_script(&s), e)),
    };
    for (i, ((t, c), g)) in s.iter().zip(&got).enumerate() {
        let want = match alone(*c) {
            Ok(w) => w,
            Err(e) => ctx.fail("process-death", format!("{} alone: {}", title(*c), e)),
        };
        ctx.step((&s[..=i.min(6)], i, g));
        if *g != want {
            let before: Vec<String> = s[..i].iter().rev().take(6).rev().map(|(t, c)| format!("{} in thread {}", title(*c), t)).collect();
            ctx.fail("history-dependent", format!("{} (thread {}) answers {} as the first call, {} after {} calls ending with {}", title(*c), t, want, g, i, before.join(", ")));
        }
    }
    ctx.note(|| s.iter().zip(&got).take(4).map(|((t, c), g)| format!("{} [thread {}] -> {}", title(*c), t, g)).collect::<Vec<_>>().join("; "));
    ctx.outcome(format!("{} threads, as alone", s.iter().map(|x| x.0).max().unwrap_or(0) + 1));
}

fn of_group(g: usize) -> Vec<Call> {
    FAMILIES.iter().enumerate().filter(|(_, f)| f.group == g).flat_map(|(i, _)| (0..VARIANTS).map(move |k| (i, k))).collect()
}

fn s01(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let any = |ctx: &mut Ctx| (ctx.choose(FAMILIES.len()), ctx.choose(VARIANTS));
    vec![
        scenario("pairs", 0, move |ctx| {
            let (a, b) = (any(ctx), any(ctx));
            judge(ctx, vec![(0, a), (0, b)]);
        }),
        scenario("triples", 0, move |ctx| {
            let a = any(ctx);
            let peers = of_group(FAMILIES[a.0].group);
            let b = *ctx.pick(&peers);
            let c = if quick { (a.0, ctx.choose(VARIANTS)) } else { *ctx.pick(&peers) };
            judge(ctx, vec![(0, a), (0, b), (0, c)]);
        }),
        scenario("two-threads", 0, move |ctx| {
            // the turn passes between two threads in every way
            let a = any(ctx);
            let b = if quick { *ctx.pick(&of_group(FAMILIES[a.0].group)) } else { any(ctx) };
            let c = (a.0, ctx.choose(VARIANTS));
            let l = if quick { 1 } else { 1 + ctx.choose(3) };
            judge(ctx, vec![(0, a), ((l & 1), b), ((l >> 1), c)]);
        }),
        scenario("repeated", 0, move |ctx| {
            let a = any(ctx);
            let mut s = vec![(0, a); if quick { 60 } else { 1000 }];
            s.extend(of_group(FAMILIES[a.0].group).into_iter().map(|c| (0, c)));
            judge(ctx, s);
        }),
        scenario("alternating", 0, move |ctx| {
            let a = any(ctx);
            let b = (a.0, ctx.choose(VARIANTS));
            if b.1 <= a.1 {
                ctx.prune();
            }
            let two = ctx.flag();
            let mut s: Script = (0..if quick { 24 } else { 200 }).map(|i| if i % 2 == 0 { (0, a) } else { (two as usize, b) }).collect();
            s.extend(of_group(FAMILIES[a.0].group).into_iter().filter(|c| c.0 == a.0).map(|c| (0, c)));
            judge(ctx, s);
        }),
        // a call, one that is close to it, and the first again
        scenario("kin", 0, move |ctx| {
            let f = ctx.choose(KIN.len());
            let b = ctx.choose(KIN[f].bases);
            let v = 1 + ctx.choose(KIN[f].variants);
            let (x, y) = (kin(f, b, 0), kin(f, b, v));
            if quick {
                judge(ctx, vec![(0, x), (0, y), (0, x)]);
            } else {
                let two = ctx.flag() as usize;
                let (x, y) = if ctx.flag() { (x, y) } else { (y, x) };
                judge(ctx, vec![(0, x), (two, y), (0, x)]);
            }
        }),
        // calls of different sizes, and of different kinds
        scenario("kin-sizes", 0, move |ctx| {
            let f = ctx.choose(KIN.len());
            let (b, d) = (ctx.choose(KIN[f].bases), ctx.choose(KIN[f].bases));
            let last = ctx.choose(2) * KIN[f].variants;
            judge(ctx, vec![(0, kin(f, b, last)), (0, kin(f, d, 0)), (0, kin(f, b, 0))]);
        }),
        scenario("many-arguments", 0, move |ctx| {
            let f = ctx.choose(FAMILIES.len());
            let top = if quick { 48 } else { 400 };
            let step = *ctx.pick(&[1usize, 4]);
            let up = (0..top).map(|k| (0, (f, k * step)));
            let s: Script = up.clone().chain(up.rev()).collect();
            judge(ctx, s);
        }),
    ]
}
