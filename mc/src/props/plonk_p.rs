//! PLONK: compilation, completeness, soundness, verifier equation, blinding.
use super::kzg_p::{big, conjugates, eval, g1};
use super::plonk_ref::*;
use super::Prop;
use crate::core::*;
use crate::util::*;
use ark_bls12_381::Fr;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use ark_poly::DenseUVPolynomial;
use kzg::commitment::KzgCommitment;
use plonk::circuit::Circuit;
use plonk::common_preprocessed_input::cpi_circuit::CPICircuit;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::constraint::{CopyConstraints, GateConstraints};
use plonk::prover::{generate_proof, Proof};
use plonk::types::Polynomial;
use plonk::verifier::verify;
use sha2::{Sha256, Sha512};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            bounds: "every circuit of 1 gate (quick) / 1..2 gates (thorough) over {addition, multiplication, constant} x every wiring of its 3 cells per gate to new or existing variables x public input {none, forced, given} x value patterns {0, 1, i+1, -i, large} x both cyclic orders of the copy cycles, 2-gate wirings with one value pattern (quick); gate families at every size 0..9, 15..17, 31..33 (..65 thorough), 127..129, 255..257 (2048 thorough); tables with arbitrary selectors, any subset of them absent; hashes Sha256, Sha512 and a recording oracle; exact and oversized SRS; several entropy streams; wire and public values of every magnitude; sizes up to 1025 (4096 thorough)",
            assumptions: &["BLS12-381 and pairing arithmetic of arkworks", "Fiat-Shamir challenges are random: coincidences of probability 2^-64 are not covered"],
            scenarios: p01,
        },
        Prop {
            id: "P02",
            bounds: "the circuits of P01 with every single cell and every pair of cells changed by {1,-1,large}, plus error patterns over whole columns; one wrong cell in circuits of 16..257 (1025 thorough) gates; provers: the library's, and an adversarial one in 8 cheating modes, all-zero proofs, the public inputs or part degree chosen after the challenges; provers that convince any single weakened verifier equation; errors of every magnitude and close values",
            assumptions: &["an unsatisfied table is accepted with probability about 2^-64 per attempt, ignored", "cheating provers are the listed strategies, run exhaustively over the listed circuits"],
            scenarios: p02,
        },
        Prop {
            id: "P03",
            bounds: "tables of 2, 4 and 8 rows with pairwise different selector, permutation, public-input and coset values; honest and simulated proofs with every component from a 4-value alphabet or pairwise different; every single change of a component (+1, negated, zero, swapped with another), every pair of changes (thorough), every one-value change of the circuit, other SRS; the reference decides in the exponent; every component and statement value replaced by close ones (one word changed; equal y); values of every magnitude; proofs whose one side is a power of the other by each of the 12 conjugating exponents, 0, 2 or infinity; proofs completed for 12 claimed degrees of the quotient parts",
            assumptions: &["the reference verifier equation and challenge schedule are those of the PLONK paper as implemented at the pinned commit plus the recorded fixes"],
            scenarios: p03,
        },
        Prop {
            id: "P04",
            bounds: "every one-gate circuit: 3 kinds x all 6^3 wire positions x public inputs x values; families at every size 1..33 (..130 thorough) and 63..65, 127..129, 255..257 (1025 thorough) with cyclic, reversed, shifted and colliding positions, through both the witness-carrying and the witness-free builder; coset labels distinct for every domain up to 2^12 (2^16 thorough); values of every magnitude; up to 8193 (65537 thorough) gates; every placement of free rows among up to 6 rows of the witness-free builder",
            assumptions: &["field FFT of arkworks"],
            scenarios: p04,
        },
        Prop {
            id: "P05",
            bounds: "circuits of 2..8 rows x entropy streams 0..5 (0..40 thorough): the nine blinding scalars are recovered in the exponent from two proofs under two SRS secrets; every pair of streams compared; under scripted challenges the scalars are recovered as field elements (circuits up to 128 rows, 256 thorough), every limb in use and none a small multiple of another; opened values compared across streams with equal challenges and commitments; wires that are zero, constant or equal; the nine scalars over many streams are linearly independent of one another and of constants; every bit of the entropy seed matters; 2^17 first commitments pairwise distinct",
            assumptions: &["entropy is answered by the explorer through the getrandom crate"],
            scenarios: p05,
        },
    ]
}

// ------------------------------------------------------------ gates, circuits
#[derive(Clone, Debug, PartialEq)]
pub struct G {
    /// 0 addition, 1 multiplication, 2 constant
    pub kind: u8,
    pub var: [usize; 3],
    pub x: [Fr; 3],
    pub pi: Fr,
}

pub type Pos = Vec<[(usize, usize); 3]>;

/// Where each cell is copied to: the next (style 0) or previous (style 1) cell
/// of its variable, or itself (style 2).
pub fn positions(gs: &[G], style: usize) -> Pos {
    let nv = gs.iter().flat_map(|g| g.var).max().unwrap_or(0) + 1;
    let mut cells: Vec<Vec<(usize, usize)>> = vec![vec![]; nv];
    for (i, g) in gs.iter().enumerate() {
        for j in 0..3 {
            cells[g.var[j]].push((j, i));
        }
    }
    (0..gs.len())
        .map(|i| {
            std::array::from_fn(|j| {
                let c = &cells[gs[i].var[j]];
                let k = c.iter().position(|x| *x == (j, i)).unwrap();
                match style {
                    0 => c[(k + 1) % c.len()],
                    1 => c[(k + c.len() - 1) % c.len()],
                    _ => c[k],
                }
            })
        })
        .collect()
}

pub fn build(gs: &[G], pos: &Pos) -> Circuit {
    let mut c = Circuit::default();
    for (g, p) in gs.iter().zip(pos) {
        let w = |j: usize| (p[j].0, p[j].1, g.x[j]);
        match g.kind {
            0 => c.add_addition_gate(w(0), w(1), w(2), g.pi),
            1 => c.add_multiplication_gate(w(0), w(1), w(2), g.pi),
            _ => c.add_constant_gate(w(0), w(1), w(2), g.pi),
        }
    }
    c
}

/// The table the circuit must compile to.
pub fn want(gs: &[G], pos: &Pos) -> Table {
    let n = gs.len().next_power_of_two().max(2);
    let mut t = Table::empty(n);
    let one = Fr::one();
    for (i, g) in gs.iter().enumerate() {
        match g.kind {
            0 => (t.q[0][i], t.q[1][i], t.q[2][i]) = (one, one, -one),
            1 => (t.q[3][i], t.q[2][i]) = (one, -one),
            _ => (t.q[0][i], t.q[4][i]) = (one, -g.x[0]),
        }
        t.pi[i] = -g.pi;
        for j in 0..3 {
            t.w[j][i] = g.x[j];
            t.sig[j][i] = t.label(pos[i][j]);
        }
    }
    t
}

fn show(gs: &[G]) -> String {
    gs.iter()
        .map(|g| {
            format!(
                "{}(v{}={}, v{}={}, v{}={}; pi={})",
                ["add", "mul", "const"][g.kind as usize],
                g.var[0],
                fs(&g.x[..1]),
                g.var[1],
                fs(&g.x[1..2]),
                g.var[2],
                fs(&g.x[2..3]),
                fs(&[g.pi])
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn pattern(p: usize, i: usize) -> Fr {
    match p {
        0 => Fr::from(i as u64 + 2),
        1 => Fr::zero(),
        2 => Fr::one(),
        3 => -Fr::from(i as u64),
        _ => big() * Fr::from(i as u64 + 1),
    }
}

/// Any satisfied circuit of `gates` gates: choices of kind, wiring and public input.
fn gen(ctx: &mut Ctx, gates: usize, pat: usize) -> Vec<G> {
    let mut vals: Vec<Fr> = vec![];
    let mut gs = vec![];
    for _ in 0..gates {
        let kind = ctx.choose(3) as u8;
        let mut var = [0; 3];
        for v in var.iter_mut().take(2) {
            *v = ctx.choose(vals.len() + 1);
            if *v == vals.len() {
                vals.push(pattern(pat, *v));
            }
        }
        let c = ctx.choose(vals.len() + 1);
        let (a, b) = (vals[var[0]], vals[var[1]]);
        let out = match kind {
            0 => a + b,
            1 => a * b,
            _ => Fr::zero(),
        };
        var[2] = c;
        let mut pi = Fr::zero();
        if kind == 2 {
            // the output cell of a constant gate is free
            if c == vals.len() {
                vals.push(pattern(pat, c));
            }
        } else if c == vals.len() {
            if ctx.flag() {
                pi = Fr::from(5u64);
            }
            vals.push(out - pi);
        } else {
            pi = out - vals[c];
        }
        gs.push(G { kind, var, x: [vals[var[0]], vals[var[1]], vals[var[2]]], pi });
    }
    gs
}

/// Satisfied circuits of any size.
pub fn family(k: usize, m: usize) -> Vec<G> {
    let mut vals: Vec<Fr> = vec![Fr::from(1u64), Fr::from(2u64)];
    let mut gs = vec![];
    for i in 0..m {
        let (kind, a, b) = match k {
            0 => (0, vals.len() - 2, vals.len() - 1),     // Fibonacci
            1 => (1, vals.len() - 1, vals.len() - 1),     // repeated squaring
            2 => ((i % 3) as u8, i % 2, vals.len() - 1),  // mixed
            3 => (1, 0, 0),                               // one variable throughout
            4 => (2, 0, 1),                               // constants
            5 => (0, vals.len(), vals.len() + 1),         // nothing shared
            6 => ((i % 2) as u8, 0, vals.len() - 1),      // public input on every row
            _ => ((i % 2) as u8, vals.len() - 1, vals.len() - 2),
        };
        while vals.len() <= a.max(b) {
            vals.push(Fr::from(3 * vals.len() as u64 + 7));
        }
        let pi = match k {
            6 => Fr::from(i as u64 + 3),
            7 if i + 1 == m => -Fr::from(9u64),
            _ => Fr::zero(),
        };
        let out = match kind {
            0 => vals[a] + vals[b] - pi,
            1 => vals[a] * vals[b] - pi,
            _ => Fr::from(4u64),
        };
        let pi = if kind == 2 { Fr::zero() } else { pi };
        let c = if k == 3 {
            0
        } else {
            vals.push(out);
            vals.len() - 1
        };
        gs.push(G { kind, var: [a, b, c], x: [vals[a], vals[b], vals[c]], pi });
    }
    gs
}
const FAMILIES: usize = 8;

/// `family`, and circuits whose columns are zero, constant or equal.
fn special(k: usize, m: usize) -> Vec<G> {
    if k < FAMILIES {
        return family(k, m);
    }
    let [x, y, o] = [Fr::from(6u64), Fr::from(8u64), Fr::zero()];
    (0..m)
        .map(|i| {
            let (kind, a, b) = match k - FAMILIES {
                0 => (0, o, o),
                1 => (0, o, y),
                2 => (0, x, o),
                3 => (0, x, -x),
                4 => (1, Fr::one(), Fr::one()),
                5 => (2, x, o),
                _ => (1, o, o),
            };
            let c = match kind {
                0 => a + b,
                1 => a * b,
                _ => x,
            };
            G { kind, var: [3 * i, 3 * i + 1, 3 * i + 2], x: [a, b, c], pi: o }
        })
        .collect()
}
const SPECIALS: usize = 7;

fn sizes(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=9).chain(15..=17).chain(31..=33).collect();
    if tier == Tier::Thorough {
        v.extend([10, 11, 12, 13, 14, 47, 48, 63, 64, 65]);
    }
    v
}

fn prove<D: digest::Digest + Default>(cc: &CompiledCircuit, tau: Fr, n: usize, seed: u64) -> Result<Proof, String> {
    getrandom::mc_seed(seed);
    let s = srs(tau, n);
    guard(|| generate_proof::<D>(cc, s))
}

pub fn clone_proof(p: &Proof) -> Proof {
    Proof {
        a_commit: p.a_commit.clone(),
        b_commit: p.b_commit.clone(),
        c_commit: p.c_commit.clone(),
        z_commit: p.z_commit.clone(),
        t_lo_commit: p.t_lo_commit.clone(),
        t_mid_commit: p.t_mid_commit.clone(),
        t_hi_commit: p.t_hi_commit.clone(),
        w_ev_x_commit: p.w_ev_x_commit.clone(),
        w_ev_wx_commit: p.w_ev_wx_commit.clone(),
        bar_a: p.bar_a,
        bar_b: p.bar_b,
        bar_c: p.bar_c,
        bar_s_sigma_1: p.bar_s_sigma_1,
        bar_s_sigma_2: p.bar_s_sigma_2,
        bar_z_w: p.bar_z_w,
        u: p.u,
        degree: p.degree,
    }
}

fn digest_of(p: &Proof) -> String {
    format!("{:?}{:?}", points_of(p), bars_of(p))
}

// --------------------------------------------------------------------- P01
fn complete<D: digest::Digest + Default>(ctx: &mut Ctx, gs: &[G], pos: &Pos, extra: usize, seed: u64) {
    let w = want(gs, pos);
    let tau = big();
    ctx.note(|| show(gs));
    let cc = match ctx.must("compile", || build(gs, pos).compile()) {
        Ok(c) => c,
        Err(e) => ctx.fail("compile", format!("{} does not compile: {}", show(gs), e)),
    };
    if !w.satisfied() {
        ctx.fail("generator", format!("explorer bug: not satisfied: {}", w.show()));
    }
    let proof = match prove::<D>(&cc, tau, w.n + extra, seed) {
        Ok(p) => p,
        Err(e) => ctx.fail("no-proof", format!("the prover panicked ({}) on the satisfied circuit {}", e, show(gs))),
    };
    ctx.step(digest_of(&proof));
    let copy = clone_proof(&proof);
    let r = ctx.must("verify", || verify::<D>(&cc, srs(tau, w.n + extra), proof));
    ctx.check(r.is_ok(), "rejected", || format!("honest proof of the satisfied circuit {} rejected: {:?}", show(gs), r));
    // the verifier is a function: asked again, it answers the same
    let r = ctx.must("verify", || verify::<D>(&cc, srs(tau, w.n + extra), copy));
    ctx.check(r.is_ok(), "rejected-again", || format!("honest proof of {} rejected the second time: {:?}", show(gs), r));
    ctx.step(show(gs));
    ctx.outcome("proved and accepted");
}

fn p01(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("every-one-gate-circuit", 0, move |ctx| {
            let pat = ctx.choose(5);
            let gs = gen(ctx, 1, pat);
            let style = ctx.choose(2);
            let seed = ctx.choose(2) as u64;
            complete::<Sha256>(ctx, &gs, &positions(&gs, style), 0, seed);
        }),
        scenario("every-two-gate-circuit", 0, move |ctx| {
            let pat = if quick { 0 } else { ctx.choose(5) };
            let gs = gen(ctx, 2, pat);
            complete::<Sha256>(ctx, &gs, &positions(&gs, 0), 0, ctx.seed);
        }),
        scenario("every-size", 0, move |ctx| {
            let m = *ctx.pick(&sizes(ctx.tier));
            let gs = family(ctx.choose(FAMILIES), m);
            let style = ctx.choose(2);
            complete::<Sha256>(ctx, &gs, &positions(&gs, style), 0, m as u64);
        }),
        scenario("large-sizes", 0, move |ctx| {
            // sizes around the powers of two at which narrow counters give out
            let m = *ctx.pick(if quick { &[127usize, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025][..] } else { &[127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096] });
            let gs = family(if quick && m > 257 { 2 } else if quick { [0, 6][ctx.choose(2)] } else { ctx.choose(FAMILIES) }, m);
            complete::<Sha256>(ctx, &gs, &positions(&gs, 0), 0, m as u64);
        }),
        scenario("hashes-srs-entropy", 0, move |ctx| {
            let m = ctx.range(0, 5);
            let gs = family(if m == 0 { 0 } else { ctx.choose(FAMILIES) }, m);
            let pos = positions(&gs, 0);
            let extra = *ctx.pick(&[0usize, 1, 7]);
            let seed = ctx.choose(if quick { 2 } else { 6 }) as u64;
            match ctx.choose(3) {
                0 => complete::<Sha256>(ctx, &gs, &pos, extra, seed),
                1 => complete::<Sha512>(ctx, &gs, &pos, extra, seed),
                _ => {
                    oracle_reset(vec![]);
                    complete::<Ro10>(ctx, &gs, &pos, extra, seed)
                }
            }
        }),
        scenario("any-selectors", 0, move |ctx| {
            // satisfied tables that no gate constructor makes: all selectors at once
            let n = *ctx.pick(&[2usize, 4, 8]);
            let mut t = mixed_table(n, ctx.choose(4));
            // any of the selectors absent from every row, down to copy constraints alone
            let absent = ctx.choose(if n == 2 || !quick { 32 } else { 2 }) * if n == 2 || !quick { 1 } else { 31 };
            for j in 0..5 {
                if absent >> j & 1 == 1 {
                    t.q[j] = vec![Fr::zero(); n];
                }
            }
            for i in 0..n {
                t.pi[i] = Fr::zero();
                let g = t.gate(i);
                t.pi[i] = -g;
            }
            let cc = t.compiled();
            ctx.note(|| t.show());
            let tau = big();
            let proof = match prove::<Sha256>(&cc, tau, n, n as u64) {
                Ok(p) => p,
                Err(e) => ctx.fail("no-proof", format!("the prover panicked ({}) on the satisfied table {}", e, t.show())),
            };
            ctx.step(digest_of(&proof));
            let r = ctx.must("verify", || verify::<Sha256>(&cc, srs(tau, n), proof));
            ctx.check(r.is_ok(), "rejected", || format!("honest proof of the satisfied table {} rejected: {:?}", t.show(), r));
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // a wire value, the public input or a constant of every magnitude;
            // or two variables that agree in all words but one
            let v = *ctx.pick(&wide::<_, 4>());
            let role = ctx.choose(if quick { 4 } else { 7 });
            let (a, b) = (Fr::from(6u64), Fr::from(8u64));
            let (x, y) = match role {
                0 | 1 => (v, b),
                2 => (a, b),
                3 => (v, v),
                4 => (v, nearest(v)[0]),
                5 => (v, nearest(v)[3]),
                _ => (v, *nearest(v).last().unwrap()),
            };
            let pi = if role == 2 { v } else { Fr::zero() };
            let s = x + y - pi;
            let gs = vec![
                G { kind: 0, var: [0, 1, 2], x: [x, y, s], pi },
                G { kind: 1, var: [0, 2, 3], x: [x, s, x * s], pi: Fr::zero() },
                if role == 1 { G { kind: 2, var: [0, 1, 1], x: [x, y, y], pi: Fr::zero() } } else { G { kind: 0, var: [3, 1, 4], x: [x * s, y, x * s + y], pi: Fr::zero() } },
            ];
            complete::<Sha256>(ctx, &gs, &positions(&gs, 0), 0, ctx.seed);
        }),
    ]
}

/// Satisfied tables with every selector, public input and coset factor in play.
fn mixed_table(n: usize, k: usize) -> Table {
    let mut t = Table::empty(n);
    if k >= 2 {
        t.k = [Fr::from(5u64), Fr::from(7u64)];
        t.sig[1] = roots(n).iter().map(|x| *x * t.k[0]).collect();
        t.sig[2] = roots(n).iter().map(|x| *x * t.k[1]).collect();
    }
    for i in 0..n {
        for (j, c) in [3u64, 11, 29].iter().enumerate() {
            t.w[j][i] = Fr::from(c * (i as u64 + 1) + j as u64);
            t.q[j][i] = Fr::from(c + 41 * i as u64);
        }
        t.q[3][i] = Fr::from(17 + i as u64);
        t.q[4][i] = Fr::from(19 * (i as u64 + 2));
    }
    // tie a few cells together: a cycle across the three columns
    let cyc = [(0, 0), (1, n - 1), (2, n / 2), (0, n - 1)];
    for (x, y) in cyc.iter().zip(cyc.iter().cycle().skip(1)) {
        t.sig[x.0][x.1] = t.label(*y);
        t.w[x.0][x.1] = Fr::from(77u64);
    }
    for i in 0..n {
        let g = t.gate(i);
        if k % 2 == 0 {
            t.pi[i] -= g;
        } else {
            t.q[4][i] -= g;
        }
    }
    t
}

// --------------------------------------------------------------------- P02
/// Perturb a satisfied table in place; false if nothing was changed.
fn perturb(ctx: &mut Ctx, t: &mut Table, rows: usize, deltas: &[Fr]) {
    let cells = 3 * rows;
    let how = ctx.choose(3);
    let d = *ctx.pick(deltas);
    match how {
        0 => {
            let c = ctx.choose(cells);
            t.w[c % 3][c / 3] += d;
        }
        1 => {
            let c = ctx.choose(cells);
            let e = ctx.choose(cells);
            if e <= c {
                ctx.prune();
            }
            t.w[c % 3][c / 3] += d;
            let opp = ctx.flag();
            t.w[e % 3][e / 3] += if opp { -d } else { d };
        }
        _ => {
            // a whole column, alternating or not
            let j = ctx.choose(3);
            let alt = ctx.flag();
            for i in 0..t.n {
                t.w[j][i] += if alt && i % 2 == 1 { -d } else { d };
            }
        }
    }
}

pub fn swap_wires(cc: &CompiledCircuit, t: &Table) -> CompiledCircuit {
    // same circuit, other witness
    let g = cc.gate_constraints();
    let k = cc.copy_constraints();
    let p = |v: &Vec<Fr>| Polynomial::from_coefficients_vec(interpolate(v));
    CompiledCircuit::new(
        GateConstraints::new(
            p(&t.w[0]),
            p(&t.w[1]),
            p(&t.w[2]),
            g.q_lx().clone(),
            g.q_rx().clone(),
            g.q_ox().clone(),
            g.q_mx().clone(),
            g.q_cx().clone(),
            g.pi_x().clone(),
        ),
        CopyConstraints::new(k.s_sigma_1().clone(), k.s_sigma_2().clone(), k.s_sigma_3().clone(), *k.k1(), *k.k2()),
        cc.size,
    )
}

fn unsound_library_prover(ctx: &mut Ctx, gs: &[G], t: &Table, style: usize) {
    let pos = positions(gs, style);
    let tau = big();
    let honest = match guard(|| build(gs, &pos).compile()) {
        Ok(Ok(c)) => c,
        _ => ctx.prune(), // P01 and P04 judge this
    };
    let cc = swap_wires(&honest, t);
    ctx.note(|| format!("{} with wires a={} b={} c={}", show(gs), fs(&t.w[0]), fs(&t.w[1]), fs(&t.w[2])));
    ctx.step((show(gs), fs(&t.w[0]), fs(&t.w[1]), fs(&t.w[2])));
    let sat = t.satisfied();
    match prove::<Sha256>(&cc, tau, t.n, 3) {
        Err(_) => {
            ctx.outcome(if sat { "satisfied, prover refused" } else { "unsatisfied, prover refused" });
        }
        Ok(p) => {
            ctx.step(digest_of(&p));
            let ok = matches!(guard(|| verify::<Sha256>(&honest, srs(tau, t.n), p)), Ok(Ok(())));
            if ok && !sat {
                let why = if t.gates_ok() { "copy constraints" } else { "gates" };
                ctx.fail("unsound", format!("accepted although the {} do not hold: {}", why, t.show()));
            }
            ctx.outcome(match (sat, ok) {
                (true, true) => "satisfied, accepted",
                (true, false) => "satisfied, rejected",
                _ => "unsatisfied, rejected",
            });
        }
    }
}

const CHEATS: [Cheat; 8] = [
    Cheat::No,
    Cheat::FlatZ,
    Cheat::ZeroZ,
    Cheat::ZeroT,
    Cheat::NoGateT,
    Cheat::NoPermT,
    Cheat::NoStartT,
    Cheat::NoBlind,
];

pub fn blinders(k: usize) -> [Fr; 9] {
    std::array::from_fn(|i| match k {
        0 => Fr::from(101 + 7 * i as u64),
        1 => big() * Fr::from(i as u64 + 1),
        _ => Fr::zero(),
    })
}

fn unsound_cheater(ctx: &mut Ctx, t: &Table) {
    let tau = big();
    let cheat = *ctx.pick(&CHEATS);
    let sat = t.satisfied();
    let (sp, _, _) = prove_ref::<Sha256>(t, tau, &blinders(0), cheat);
    let cc = t.compiled();
    ctx.note(|| format!("{:?} over {}", cheat, t.show()));
    ctx.step((format!("{:?}", cheat), t.show()));
    let ok = ctx.must("verify", || verify::<Sha256>(&cc, srs(tau, t.n), sp.proof())).is_ok();
    let spec = sp.accepted::<Sha256>(&Fixed::of(t, tau));
    if ok && !spec {
        ctx.fail("unsound", format!("a {:?} cheating prover is accepted on {} (satisfied: {})", cheat, t.show(), sat));
    }
    if spec && !sat {
        ctx.fail("reference", format!("explorer bug: the reference accepts {:?} on {}", cheat, t.show()));
    }
    ctx.outcome(match (sat, ok) {
        (true, true) => "satisfied, accepted",
        (true, false) => "satisfied, rejected",
        (false, _) => "unsatisfied, rejected",
    });
}

fn p02(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let deltas = move || -> Vec<Fr> {
        if quick {
            vec![Fr::one()]
        } else {
            vec![Fr::one(), -Fr::one(), big()]
        }
    };
    vec![
        scenario("library-prover-one-gate", 0, move |ctx| {
            let pat = *ctx.pick(if quick { &[0usize, 4][..] } else { &[0usize, 1, 2, 3, 4] });
            let gs = gen(ctx, 1, pat);
            let mut t = want(&gs, &positions(&gs, 0));
            perturb(ctx, &mut t, 2, &deltas());
            unsound_library_prover(ctx, &gs, &t, 0);
        }),
        scenario("library-prover-families", 0, move |ctx| {
            let m = *ctx.pick(if quick { &[2usize, 3, 4, 7][..] } else { &[2usize, 3, 4, 5, 7, 8, 9, 16] });
            let gs = family(ctx.choose(FAMILIES), m);
            let mut t = want(&gs, &positions(&gs, 0));
            let rows = if quick { m.min(4) } else { m.min(6) };
            perturb(ctx, &mut t, rows, &deltas()[..1]);
            unsound_library_prover(ctx, &gs, &t, 0);
        }),
        scenario("copy-broken-only", 0, move |ctx| {
            // every gate holds, two cells that must agree differ
            let m = *ctx.pick(&[2usize, 3, 4, 5, 8, 9]);
            let k = ctx.choose(FAMILIES);
            let gs = family(k, m);
            let pos = positions(&gs, 0);
            let mut t = want(&gs, &pos);
            // a row may take any inputs if its output follows
            let i = ctx.choose(m);
            let j = ctx.choose(2);
            let d = *ctx.pick(&deltas());
            t.w[j][i] += d;
            match gs[i].kind {
                0 => t.w[2][i] += d,
                1 => t.w[2][i] = t.w[0][i] * t.w[1][i] - gs[i].pi,
                _ => {}
            }
            unsound_library_prover(ctx, &gs, &t, 0);
        }),
        scenario("large-sizes", 0, move |ctx| {
            // one wrong cell, with or without the gate's output following it
            let m = *ctx.pick(if quick { &[16usize, 17, 33, 64, 127, 128, 129, 256, 257][..] } else { &[16usize, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1025] });
            let gs = family(if quick { [0, 6][ctx.choose(2)] } else { ctx.choose(FAMILIES) }, m);
            let mut t = want(&gs, &positions(&gs, 0));
            let i = *ctx.pick(&[0, m / 2, m - 1]);
            let j = ctx.choose(3);
            t.w[j][i] += Fr::one();
            if j < 2 && ctx.flag() {
                match gs[i].kind {
                    0 => t.w[2][i] += Fr::one(),
                    1 => t.w[2][i] = t.w[0][i] * t.w[1][i] - gs[i].pi,
                    _ => {}
                }
            }
            unsound_library_prover(ctx, &gs, &t, 0);
        }),
        scenario("cheating-prover", 0, move |ctx| {
            let m = *ctx.pick(if quick { &[1usize, 2, 4, 5][..] } else { &[1usize, 2, 3, 4, 5, 8, 9] });
            let gs = family(ctx.choose(FAMILIES), m);
            let mut t = want(&gs, &positions(&gs, 0));
            if ctx.flag() {
                perturb(ctx, &mut t, m.min(2), &deltas()[..1]);
            }
            unsound_cheater(ctx, &t);
        }),
        scenario("cheating-prover-any-selectors", 0, move |ctx| {
            let n = *ctx.pick(&[2usize, 4, 8]);
            let what = ctx.choose(4);
            if quick && n == 8 && what != 0 && what != 2 {
                ctx.prune(); // thorough tier
            }
            let mut t = mixed_table(n, if quick && what == 3 { 3 } else if quick && what == 1 { 2 + ctx.choose(2) } else { ctx.choose(4) });
            match what {
                0 => {}
                1 => perturb(ctx, &mut t, if quick { 2 } else { n.min(4) }, &deltas()[..1]),
                2 => {
                    // one selector or public input changed after the fact
                    let c = ctx.choose(6);
                    let i = ctx.choose(n);
                    if c == 5 {
                        t.pi[i] += Fr::one()
                    } else {
                        t.q[c][i] += Fr::one()
                    }
                }
                _ => {
                    // one copy image moved
                    let j = ctx.choose(3);
                    let i = ctx.choose(n);
                    let to = (ctx.choose(3), ctx.choose(n));
                    t.sig[j][i] = t.label(to);
                }
            }
            unsound_cheater(ctx, &t);
        }),
        scenario("statement-chosen-late", 0, move |ctx| {
            // run the protocol on a false statement, then look for public inputs
            // (or a part degree) that make the very same proof acceptable
            let m = *ctx.pick(&[1usize, 2, 3, 5]);
            let gs = family(ctx.choose(FAMILIES), m);
            let mut t = want(&gs, &positions(&gs, 0));
            let row = ctx.choose(m);
            t.w[ctx.choose(3)][row] += Fr::one();
            if t.gates_ok() {
                ctx.prune();
            }
            let tau = big();
            let (mut sp, ch, r) = prove_ref::<Sha256>(&t, tau, &blinders(0), Cheat::No);
            let bar_r = eval(&r, ch.zeta);
            let mode = ctx.choose(3);
            let mut t2 = t.clone();
            match mode {
                0 => {
                    // PI(zeta) must move by -r(zeta): put it all on one row
                    let i = ctx.choose(t.n);
                    let mut l = vec![Fr::zero(); t.n];
                    l[i] = Fr::one();
                    let li = eval(&interpolate(&l), ch.zeta);
                    t2.pi[i] -= bar_r * li.inverse().unwrap();
                }
                1 => sp.degree = *ctx.pick(&[0usize, 1, t.n, t.n + 2, 2 * t.n, usize::MAX, usize::MAX / 2]),
                _ => {
                    // likewise with the constant selector
                    let i = ctx.choose(t.n);
                    let mut l = vec![Fr::zero(); t.n];
                    l[i] = Fr::one();
                    let li = eval(&interpolate(&l), ch.zeta);
                    t2.q[4][i] -= bar_r * li.inverse().unwrap();
                }
            }
            // the last two points of the earlier transcript may be recomputed
            if mode != 1 {
                let mut w1: P = padd(&r, &vec![-bar_r]);
                let f = interpolate;
                let bl = blinders(0);
                let wires = [(0, 1, 0), (1, 3, 2), (2, 5, 4)].map(|(j, lo, hi)| {
                    let mut p = f(&t.w[j]);
                    p.resize(t.n + 2, Fr::zero());
                    for (e, b) in [(0usize, bl[lo]), (1, bl[hi])] {
                        p[e] -= b;
                        p[e + t.n] += b;
                    }
                    p
                });
                for (i, p) in wires.iter().chain([&f(&t.sig[0]), &f(&t.sig[1])]).enumerate() {
                    w1 = padd(&w1, &pscale(p, ch.v.pow([i as u64 + 1])));
                }
                sp.com[7] = eval(&super::kzg_p::quotient(&w1, ch.zeta), tau);
                // the final challenge over the earlier prefix of the transcript
                let old = Fixed::of(&t, tau);
                sp.u = sp.challenges::<Sha256>(&old).u;
            }
            let sat = t2.satisfied();
            ctx.step((t2.show(), mode));
            let cc = t2.compiled();
            let r1 = ctx.must("verify", || verify::<Sha256>(&cc, srs(tau, t2.n), sp.proof()));
            // and with the final challenge the new statement would give
            sp.u = sp.challenges::<Sha256>(&Fixed::of(&t2, tau)).u;
            let r2 = ctx.must("verify", || verify::<Sha256>(&cc, srs(tau, t2.n), sp.proof()));
            if (r1.is_ok() || r2.is_ok()) && !sat {
                let what = ["public inputs", "part degree", "constants"][mode];
                ctx.fail("late-statement", format!("a proof whose {} were chosen after the challenges is accepted for the false {}", what, t2.show()));
            }
            ctx.outcome("rejected");
        }),
        scenario("weakened-protocols", 0, move |ctx| {
            let n = *ctx.pick(if quick { &[4usize][..] } else { &[4, 8, 16] });
            super::plonk_adv::weakened(ctx, n);
        }),
        scenario("degenerate-proofs", 0, move |ctx| {
            // proofs made of the identity and zeros, completed or not
            let n = *ctx.pick(&[2usize, 4]);
            let t = if ctx.flag() { mixed_table(n, 0) } else { want(&family(0, n), &positions(&family(0, n), 0)) };
            let tau = big();
            let f = Fixed::of(&t, tau);
            let mask = ctx.choose(1 << 8);
            let mut sp = Sp { com: [Fr::zero(); 9], bar: [Fr::zero(); 6], u: Fr::zero(), degree: n + 1 };
            for i in 0..7 {
                if mask >> i & 1 == 1 {
                    sp.com[i] = Fr::one();
                }
            }
            if mask >> 7 & 1 == 1 {
                sp.bar = [Fr::one(); 6];
            }
            sp.u = sp.challenges::<Sha256>(&f).u;
            let cc = t.compiled();
            ctx.step((n, mask));
            let ok = ctx.must("verify", || verify::<Sha256>(&cc, srs(tau, n), sp.proof())).is_ok();
            ctx.check(!ok, "unsound", || format!("a proof of identity points is accepted: {:?}", sp));
        }),
        scenario("close-values", 0, move |ctx| {
            // one cell off in a single word, with or without the output following it
            let m = *ctx.pick(if quick { &[2usize][..] } else { &[2, 3, 5] });
            let gs = family(ctx.choose(if quick { 4 } else { FAMILIES }), m);
            let mut t = want(&gs, &positions(&gs, 0));
            let (j, i) = (ctx.choose(3), ctx.choose(m));
            let old = t.w[j][i];
            t.w[j][i] = *ctx.pick(&if quick { nearest(old) } else { near(old) });
            let d = t.w[j][i] - old;
            if j < 2 && ctx.flag() {
                match gs[i].kind {
                    0 => t.w[2][i] += d,
                    1 => t.w[2][i] = t.w[0][i] * t.w[1][i] - gs[i].pi,
                    _ => {}
                }
            }
            unsound_library_prover(ctx, &gs, &t, 0);
        }),
        scenario("errors-of-every-magnitude", 0, move |ctx| {
            // one cell off by every magnitude; by a cheating prover as well
            let gs = family(2, 3);
            let mut t = want(&gs, &positions(&gs, 0));
            let (j, i) = (ctx.choose(3), if quick { 1 } else { ctx.choose(3) });
            t.w[j][i] += *ctx.pick(&wide::<_, 4>());
            if ctx.flag() {
                let (sp, _, _) = prove_ref::<Sha256>(&t, big(), &blinders(0), Cheat::No);
                let r = ctx.must("verify", || verify::<Sha256>(&t.compiled(), srs(big(), t.n), sp.proof()));
                ctx.step(t.show());
                ctx.check(r.is_err() || t.satisfied(), "unsound", || format!("a proof is accepted on {}", t.show()));
                ctx.outcome(if t.satisfied() { "satisfied" } else { "unsatisfied, rejected" });
            } else {
                unsound_library_prover(ctx, &gs, &t, 0);
            }
        }),
    ]
}

// --------------------------------------------------------------------- P03
fn judge<D: digest::Digest + Default>(ctx: &mut Ctx, t: &Table, tau: Fr, sp: &Sp, what: &str) {
    let f = Fixed::of(t, tau);
    let spec = sp.accepted::<D>(&f);
    let cc = t.compiled();
    ctx.note(|| format!("{}: {:?} over {}", what, sp, t.show()));
    let r = ctx.must("verify", || verify::<D>(&cc, srs(tau, t.n), sp.proof()));
    ctx.step((format!("{:?}", sp), t.show()));
    if r.is_ok() != spec {
        let k = if spec { "rejected" } else { "accepted" };
        ctx.fail(k, format!("{}: the specification {} this proof, the verifier {}: {:?} over {}", what, if spec { "accepts" } else { "rejects" }, if spec { "rejects it" } else { "accepts it" }, sp, t.show()));
    }
    ctx.outcome(if spec { "both accept" } else { "both reject" });
}

/// A table with nothing to prove, only distinct values everywhere.
fn wild_table(n: usize, k: usize) -> Table {
    let mut t = Table::empty(n);
    t.k = [Fr::from(5u64), Fr::from(7u64)];
    for i in 0..n {
        let x = |j: u64| Fr::from(1000 * (j + 1) + 37 * i as u64 + 11 * (k as u64 + 1) * (i as u64 + 1).pow(2));
        for j in 0..5 {
            t.q[j][i] = x(j as u64);
        }
        t.pi[i] = x(5);
        for j in 0..3 {
            t.sig[j][i] = x(6 + j as u64);
            t.w[j][i] = x(9 + j as u64);
        }
    }
    if k == 1 {
        t.pi = vec![Fr::zero(); n];
        t.q[4] = vec![Fr::zero(); n];
    }
    if k == 2 {
        for j in 0..5 {
            t.q[j] = vec![if j == 3 { Fr::one() } else { Fr::zero() }; n];
        }
    }
    t
}

fn simulated<D: digest::Digest + Default>(t: &Table, tau: Fr, k: u64) -> Sp {
    let f = Fixed::of(t, tau);
    let mut sp = Sp {
        com: std::array::from_fn(|i| Fr::from(7919 * (i as u64 + 1) + k * 31 + (i as u64).pow(3))),
        bar: std::array::from_fn(|i| Fr::from(104729 * (i as u64 + 2) + k * 17 + (i as u64).pow(2))),
        u: Fr::zero(),
        degree: t.n + 1,
    };
    sp.complete::<D>(&f);
    sp
}

/// One change of a proof; 0 leaves it alone.
fn tamper(ctx: &mut Ctx, sp: &mut Sp) -> Option<String> {
    let d = ctx.dev(1 + 15 * 4 + 36 + 15 + 3 + 6);
    if d == 0 {
        return None;
    }
    let d = d - 1;
    if d < 60 {
        let (i, how) = (d / 4, d % 4);
        let x = if i < 9 { &mut sp.com[i] } else { &mut sp.bar[i - 9] };
        match how {
            0 => *x += Fr::one(),
            1 => *x = -*x,
            2 => *x = Fr::zero(),
            _ => *x = x.double(),
        }
        return Some(format!("component {} change {}", i, how));
    }
    let d = d - 60;
    if d < 36 {
        let pairs: Vec<(usize, usize)> = (0..9).flat_map(|i| (i + 1..9).map(move |j| (i, j))).collect();
        sp.com.swap(pairs[d].0, pairs[d].1);
        return Some(format!("commitments {:?} swapped", pairs[d]));
    }
    let d = d - 36;
    if d < 15 {
        let pairs: Vec<(usize, usize)> = (0..6).flat_map(|i| (i + 1..6).map(move |j| (i, j))).collect();
        sp.bar.swap(pairs[d].0, pairs[d].1);
        return Some(format!("values {:?} swapped", pairs[d]));
    }
    let d = d - 15;
    if d < 3 {
        match d {
            0 => sp.u += Fr::one(),
            1 => sp.u = Fr::zero(),
            _ => sp.u = -sp.u,
        }
        return Some("challenge u".into());
    }
    let d = d - 3;
    let n = sp.degree - 1;
    sp.degree = [0, n, n + 2, 2 * n, usize::MAX, (u64::MAX / 2) as usize][d];
    Some(format!("degree {}", sp.degree))
}

fn p03(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let devs = if quick { 1 } else { 2 };
    vec![
        scenario("simulated-proofs-tampered", devs, move |ctx| {
            let n = *ctx.pick(if quick { &[2usize, 4, 8][..] } else { &[4usize] });
            let t = wild_table(n, ctx.choose(if quick { 3 } else { 1 }));
            let tau = big();
            let mut sp = simulated::<Sha256>(&t, tau, 0);
            let mut what = vec![];
            for _ in 0..devs {
                if let Some(w) = tamper(ctx, &mut sp) {
                    what.push(w);
                }
            }
            if ctx.flag() {
                // the final challenge follows the change: only the equation can object
                sp.u = sp.challenges::<Sha256>(&Fixed::of(&t, tau)).u;
            }
            judge::<Sha256>(ctx, &t, tau, &sp, &what.join(" and "));
        }),
        scenario("other-degrees", 0, move |ctx| {
            // the equation for parts of another degree holds
            let n = *ctx.pick(&[2usize, 4, 8, 32]);
            let t = wild_table(n, ctx.choose(3));
            let tau = big();
            let mut sp = simulated::<Sha256>(&t, tau, ctx.choose(2) as u64);
            sp.degree = *ctx.pick(&[n + 1, 0, 1, n - 1, n, n + 2, 2 * n, 2 * n + 1, n + 1 + (1 << 32), 3 * n + 5, usize::MAX, usize::MAX - 1]);
            sp.complete::<Sha256>(&Fixed::of(&t, tau));
            judge::<Sha256>(ctx, &t, tau, &sp, "completed for its degree");
        }),
        scenario("simulated-proofs-of-many-shapes", 0, move |ctx| {
            // any commitments and values at all can be completed into an accepted proof
            let n = *ctx.pick(if quick { &[2usize, 4][..] } else { &[2usize, 4, 8, 16] });
            let t = wild_table(n, ctx.choose(3));
            let tau = *ctx.pick(if quick { &[7u64][..] } else { &[7u64, 2] });
            let tau = if tau == 7 { big() } else { Fr::from(tau) };
            let f = Fixed::of(&t, tau);
            let mut sp = simulated::<Sha256>(&t, tau, 5);
            let alphabet = [Fr::zero(), Fr::one(), -Fr::one()];
            let i = ctx.choose(7 + 6);
            let x = *ctx.pick(&alphabet);
            if i < 7 {
                sp.com[i] = x
            } else {
                sp.bar[i - 7] = x
            }
            let j = i + ctx.choose(7 + 6 - i);
            if j == i && x != alphabet[0] {
                ctx.prune();
            }
            let y = *ctx.pick(&alphabet);
            if j < 7 {
                sp.com[j] = y
            } else {
                sp.bar[j - 7] = y
            }
            sp.complete::<Sha256>(&f);
            judge::<Sha256>(ctx, &t, tau, &sp, "simulated");
        }),
        scenario("large-sizes", 1, move |ctx| {
            // the verifier's equation at sizes where narrow counters give out
            let n = *ctx.pick(if quick { &[16usize, 32, 64, 128, 256, 512][..] } else { &[16, 32, 64, 128, 256, 512, 1024, 2048] });
            let mut t = Table::empty(n);
            let small = wild_table(4, 0);
            for i in [0, 1, 2, 3] {
                // a few rows in use, the last one among them
                let r = if i == 3 { n - 1 } else { i };
                for j in 0..5 {
                    t.q[j][r] = small.q[j][i];
                }
                for j in 0..3 {
                    t.sig[j][r] = small.sig[j][i];
                }
                t.pi[r] = small.pi[i];
            }
            let tau = big();
            let mut sp = simulated::<Sha256>(&t, tau, 4);
            let what = if n <= if quick { 16 } else { 128 } { tamper(ctx, &mut sp) } else { None };
            if ctx.flag() {
                sp.u = sp.challenges::<Sha256>(&Fixed::of(&t, tau)).u;
            }
            judge::<Sha256>(ctx, &t, tau, &sp, &what.into_iter().collect::<Vec<_>>().join(" "));
        }),
        scenario("one-term-at-a-time", 0, move |ctx| {
            // tables and proofs in which all but one or two ingredients vanish
            let n = *ctx.pick(&[2usize, 4]);
            let tau = big();
            let mut t = wild_table(n, 0);
            let keep = ctx.choose(10);
            for j in 0..5 {
                if keep != j {
                    t.q[j] = vec![Fr::zero(); n];
                }
            }
            if keep != 5 {
                t.pi = vec![Fr::zero(); n];
            }
            for j in 0..3 {
                if keep != 6 + j {
                    t.sig[j] = vec![Fr::zero(); n];
                }
            }
            let mut sp = simulated::<Sha256>(&t, tau, 9);
            let m = ctx.choose(1 << 7);
            let b = ctx.choose(1 << 2);
            for i in 0..7 {
                if m >> i & 1 == 1 {
                    sp.com[i] = Fr::zero();
                }
            }
            for i in 0..6 {
                if b >> (i % 2) & 1 == 1 {
                    sp.bar[i] = Fr::zero();
                }
            }
            sp.complete::<Sha256>(&Fixed::of(&t, tau));
            judge::<Sha256>(ctx, &t, tau, &sp, "sparse");
        }),
        scenario("honest-proofs-tampered", devs, move |ctx| {
            let k = ctx.choose(if quick { 3 } else { 2 });
            let m = *ctx.pick(if quick { &[1usize, 4, 5][..] } else { &[4usize] });
            let gs = family([0, 6, 2][k], m);
            let t = want(&gs, &positions(&gs, 0));
            let tau = big();
            let (mut sp, _, _) = prove_ref::<Sha256>(&t, tau, &blinders(0), Cheat::No);
            let mut what = vec![];
            for _ in 0..devs {
                if let Some(w) = tamper(ctx, &mut sp) {
                    what.push(w);
                }
            }
            if ctx.flag() {
                sp.u = sp.challenges::<Sha256>(&Fixed::of(&t, tau)).u;
            }
            judge::<Sha256>(ctx, &t, tau, &sp, &what.join(" and "));
        }),
        scenario("conjugate-pairings", 0, move |ctx| {
            // one side of the pairing equation is a power of the other
            let n = *ctx.pick(&[2usize, 4]);
            let t = wild_table(n, ctx.choose(2));
            let tau = *ctx.pick(&[big(), Fr::from(7u64)]);
            let mut sp = simulated::<Sha256>(&t, tau, ctx.choose(if quick { 2 } else { 9 }) as u64);
            let c = conjugates();
            let k = ctx.choose(c.len() + 1);
            sp.skew::<Sha256>(&Fixed::of(&t, tau), c.get(k).copied());
            judge::<Sha256>(ctx, &t, tau, &sp, &format!("one side {:?} times the other", c.get(k)));
        }),
        scenario("other-statement", 0, move |ctx| {
            // a proof holds for its own circuit, public inputs and SRS only
            let n = *ctx.pick(&[2usize, 4]);
            let t = if ctx.flag() { wild_table(n, 0) } else { mixed_table(n, 2) };
            let tau = big();
            let sim = ctx.flag();
            let sp = if sim { simulated::<Sha256>(&t, tau, 3) } else { prove_ref::<Sha256>(&t, tau, &blinders(1), Cheat::No).0 };
            let mut t2 = t.clone();
            let mut tau2 = tau;
            let i = ctx.choose(n);
            match ctx.choose(13) {
                c @ 0..=4 => t2.q[c][i] += Fr::one(),
                5 => t2.pi[i] += Fr::one(),
                c @ 6..=8 => t2.sig[c - 6][i] += Fr::one(),
                9 => t2.k[0] += Fr::one(),
                10 => t2.k[1] += Fr::one(),
                11 => tau2 += Fr::one(),
                _ => {
                    // the witness a verifier happens to hold does not matter
                    t2.w[0][i] += Fr::one();
                    t2.w[1][i] = Fr::zero();
                    t2.w[2][i] = big();
                }
            }
            if tau2 != tau {
                let f2 = Fixed::of(&t2, tau2);
                let cc = t2.compiled();
                let spec = sp.accepted::<Sha256>(&f2);
                let r = ctx.must("verify", || verify::<Sha256>(&cc, srs(tau2, n), sp.proof()));
                ctx.step((n, i, "srs"));
                ctx.check(r.is_ok() == spec, "srs", || "a proof for one SRS is judged wrongly under another".into());
            } else {
                let relabel = ctx.flag();
                let mut sp = sp;
                if relabel {
                    sp.u = sp.challenges::<Sha256>(&Fixed::of(&t2, tau)).u;
                }
                judge::<Sha256>(ctx, &t2, tau, &sp, "for a changed statement");
            }
        }),
        scenario("sizes-and-hashes", 0, move |ctx| {
            let n = *ctx.pick(if quick { &[2usize, 4, 8, 16, 32][..] } else { &[2usize, 4, 8, 16, 32, 64, 128] });
            let t = wild_table(n, ctx.choose(3));
            let tau = *ctx.pick(&[big(), Fr::from(3u64), -Fr::from(2u64)]);
            let bad = ctx.choose(3);
            macro_rules! go {
                ($d:ty) => {{
                    let mut sp = simulated::<$d>(&t, tau, 1);
                    match bad {
                        1 => sp.com[7] += Fr::one(),
                        2 => sp.com[8] += Fr::one(),
                        _ => {}
                    }
                    if bad > 0 {
                        sp.u = sp.challenges::<$d>(&Fixed::of(&t, tau)).u;
                    }
                    judge::<$d>(ctx, &t, tau, &sp, "simulated");
                }};
            }
            match ctx.choose(3) {
                0 => go!(Sha256),
                1 => go!(Sha512),
                _ => {
                    oracle_reset(vec![]);
                    go!(Ro10)
                }
            }
        }),
        scenario("wrong-hash", 0, move |ctx| {
            let gs = family(ctx.choose(FAMILIES), ctx.tier as usize + 3);
            let t = want(&gs, &positions(&gs, 0));
            let tau = big();
            let cc = t.compiled();
            let (sp, _, _) = prove_ref::<Sha256>(&t, tau, &blinders(0), Cheat::No);
            let r = ctx.must("verify", || verify::<Sha512>(&cc, srs(tau, t.n), sp.proof()));
            ctx.step(show(&gs));
            ctx.check(r.is_err(), "accepted", || "a proof made with one hash is accepted under another".into());
        }),
        scenario("close-values", 0, move |ctx| {
            // components that agree with the right ones in all words but one (points:
            // in one coordinate), the proof made to match before or after the change
            let n = *ctx.pick(if quick { &[4usize][..] } else { &[2, 4, 8] });
            let t = wild_table(n, ctx.choose(if quick { 1 } else { 3 }));
            let tau = big();
            let f = Fixed::of(&t, tau);
            let mut sp = simulated::<Sha256>(&t, tau, ctx.choose(2) as u64);
            let k = ctx.choose(16);
            fn slot(sp: &mut Sp, k: usize) -> &mut Fr {
                match k {
                    0..=8 => &mut sp.com[k],
                    9..=14 => &mut sp.bar[k - 9],
                    _ => &mut sp.u,
                }
            }
            let old = *slot(&mut sp, k);
            let v = *ctx.pick(&close_to(old, k < 9, quick));
            *slot(&mut sp, k) = v;
            match ctx.choose(4) {
                0 => {}
                1 => sp.u = sp.challenges::<Sha256>(&f).u,
                2 => {
                    sp.complete::<Sha256>(&f);
                    *slot(&mut sp, k) = old;
                }
                _ => {
                    sp.complete::<Sha256>(&f);
                    *slot(&mut sp, k) = old;
                    sp.u = sp.challenges::<Sha256>(&f).u;
                }
            }
            judge::<Sha256>(ctx, &t, tau, &sp, &format!("component {} {} and {}", k, old, v));
        }),
        scenario("close-statements", 0, move |ctx| {
            // a proof made for a statement that differs in one word of one value
            let n = 4;
            let t = wild_table(n, 0);
            let tau = big();
            let sp0 = simulated::<Sha256>(&t, tau, 3);
            let mut t2 = t.clone();
            let c = ctx.choose(11);
            let i = if quick { n - 1 } else { ctx.choose(n) };
            let x = match c {
                0..=4 => &mut t2.q[c][i],
                5 => &mut t2.pi[i],
                6..=8 => &mut t2.sig[c - 6][i],
                _ => &mut t2.k[c - 9],
            };
            let to = *ctx.pick(&if quick { nearest(*x) } else { near(*x) });
            *x = to;
            let mut sp = sp0;
            if ctx.flag() {
                sp.u = sp.challenges::<Sha256>(&Fixed::of(&t2, tau)).u;
            }
            judge::<Sha256>(ctx, &t2, tau, &sp, "for a close statement");
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // completed proofs with a component, or for a table with an entry, of every magnitude
            let n = 4;
            let mut t = wild_table(n, 0);
            let v = *ctx.pick(&wide::<_, 4>());
            let k = ctx.choose(13 + if quick { 6 } else { 11 });
            match k {
                0..=12 => {}
                13..=17 => t.q[k - 13][2] = v,
                18 => t.pi[2] = v,
                19..=21 => t.sig[k - 19][2] = v,
                _ if v.is_zero() => ctx.prune(),
                _ => t.k[k - 22] = v,
            }
            let tau = big();
            let f = Fixed::of(&t, tau);
            let mut sp = simulated::<Sha256>(&t, tau, 5);
            match k {
                0..=6 => sp.com[k] = v,
                7..=12 => sp.bar[k - 7] = v,
                _ => {}
            }
            sp.complete::<Sha256>(&f);
            judge::<Sha256>(ctx, &t, tau, &sp, "component of any magnitude");
        }),
    ]
}

// --------------------------------------------------------------------- P04
pub fn build_cpi(gs: &[G], pos: &Pos) -> CPICircuit {
    let mut c = CPICircuit::default();
    for (g, p) in gs.iter().zip(pos) {
        c = match g.kind {
            0 => c.add_addition_gate(p[0], p[1], p[2], g.pi),
            1 => c.add_multiplication_gate(p[0], p[1], p[2], g.pi),
            _ => c.add_constant_gate(p[0], p[1], p[2], g.x[0], g.pi),
        };
    }
    c
}

fn encodes(ctx: &mut Ctx, gs: &[G], pos: &Pos) {
    let w = want(gs, pos);
    ctx.note(|| format!("{} at {:?}", show(gs), pos));
    let cc = match ctx.must("compile", || build(gs, pos).compile()) {
        Ok(c) => c,
        Err(e) => ctx.fail("compile", format!("{} does not compile: {}", show(gs), e)),
    };
    ctx.check(cc.size == w.n, "size", || format!("{} gates compile to {} rows instead of {}", gs.len(), cc.size, w.n));
    let deg = |p: &Polynomial| p.coeffs.len() <= w.n;
    let g = cc.gate_constraints();
    ctx.check(
        [g.f_ax(), g.f_bx(), g.f_cx(), g.q_lx(), g.q_rx(), g.q_ox(), g.q_mx(), g.q_cx(), g.pi_x()].iter().all(|p| deg(p)),
        "degree",
        || format!("a polynomial of {} is not of degree below {}", show(gs), w.n),
    );
    let got = Table::read(&cc);
    ctx.step(got.show());
    if got != w {
        let names = ["qL", "qR", "qO", "qM", "qC"];
        let mut bad: Vec<&str> = (0..5).filter(|j| got.q[*j] != w.q[*j]).map(|j| names[j]).collect();
        if got.pi != w.pi {
            bad.push("PI");
        }
        for j in 0..3 {
            if got.sig[j] != w.sig[j] {
                bad.push(["sigma1", "sigma2", "sigma3"][j]);
            }
            if got.w[j] != w.w[j] {
                bad.push(["a", "b", "c"][j]);
            }
        }
        if got.k != w.k {
            bad.push("k");
        }
        ctx.fail("encoding", format!("{} at {:?}: {:?} compiled wrongly: {} instead of {}", show(gs), pos, bad, got.show(), w.show()));
    }
    // the witness-free builder agrees, and knows no witness
    let (gc, cp, n) = match ctx.must("compile-cpi", || build_cpi(gs, pos).compile()) {
        Ok(c) => c,
        Err(e) => ctx.fail("compile-cpi", format!("{} does not compile: {}", show(gs), e)),
    };
    ctx.check(
        gc.f_ax().coeffs.is_empty() && gc.f_bx().coeffs.is_empty() && gc.f_cx().coeffs.is_empty(),
        "cpi-witness",
        || "the common preprocessed circuit carries wire values".into(),
    );
    let got2 = Table::read(&CompiledCircuit::new(gc, cp, n));
    let mut w2 = w.clone();
    w2.w = Table::empty(w.n).w;
    ctx.step(got2.show());
    ctx.check(got2 == w2, "cpi-encoding", || format!("{} at {:?}: common preprocessed circuit is {} instead of {}", show(gs), pos, got2.show(), w2.show()));
}

fn p04(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        // rows left free on purpose: before, between and after gates
        scenario("dummy-gates", 0, move |ctx| {
            let rows = ctx.range(1, if quick { 5 } else { 6 });
            let n = rows.next_power_of_two().max(2);
            let mut t = Table::empty(n);
            let one = Fr::one();
            let mut c = CPICircuit::default();
            let mut what = vec![];
            for i in 0..rows {
                let kind = ctx.choose(4);
                what.push(["add", "mul", "const", "dummy"][kind]);
                if kind == 3 {
                    c.add_dummy_gate();
                    continue;
                }
                // neighbouring rows copied to one another
                let p: [(usize, usize); 3] = std::array::from_fn(|j| (j, (i + 1) % n));
                let pi = Fr::from(5 + i as u64);
                c = match kind {
                    0 => c.add_addition_gate(p[0], p[1], p[2], pi),
                    1 => c.add_multiplication_gate(p[0], p[1], p[2], pi),
                    _ => c.add_constant_gate(p[0], p[1], p[2], Fr::from(30 + i as u64), pi),
                };
                match kind {
                    0 => (t.q[0][i], t.q[1][i], t.q[2][i]) = (one, one, -one),
                    1 => (t.q[3][i], t.q[2][i]) = (one, -one),
                    _ => (t.q[0][i], t.q[4][i]) = (one, -Fr::from(30 + i as u64)),
                }
                t.pi[i] = -pi;
                for j in 0..3 {
                    t.sig[j][i] = t.label(p[j]);
                }
            }
            let shown = c.get_gates().len();
            ctx.check(shown == rows, "gates", || format!("{} gates of {:?} shown", shown, what));
            let (gc, cp, size) = match ctx.must("compile", || c.compile()) {
                Ok(c) => c,
                Err(e) => ctx.fail("compile", format!("{:?} does not compile: {}", what, e)),
            };
            let got = Table::read(&CompiledCircuit::new(gc, cp, size));
            ctx.step(got.show());
            ctx.note(|| format!("{:?}: {}", what, got.show()));
            ctx.check(got == t, "dummy-gates", || format!("{:?} compiles to {} instead of {}", what, got.show(), t.show()));
            ctx.outcome(format!("{} rows", n));
        }),
        scenario("every-gate-position", 0, move |ctx| {
            let kind = ctx.choose(3) as u8;
            let pi = *ctx.pick(&[Fr::zero(), Fr::from(5u64), -Fr::one()]);
            let x: [Fr; 3] = match ctx.choose(3) {
                0 => [Fr::from(2u64), Fr::from(3u64), Fr::from(11u64)],
                1 => [Fr::zero(), big(), -Fr::one()],
                _ => [-Fr::from(4u64), Fr::zero(), Fr::zero()],
            };
            let p: [(usize, usize); 3] = std::array::from_fn(|_| (ctx.choose(3), ctx.choose(2)));
            encodes(ctx, &[G { kind, var: [0, 1, 2], x, pi }], &vec![p]);
        }),
        scenario("every-pair-of-gates", 0, move |ctx| {
            let mut gs = vec![];
            let mut pos = vec![];
            for i in 0..2u64 {
                let kind = ctx.choose(3) as u8;
                let pi = *ctx.pick(&[Fr::zero(), Fr::from(5 + i)]);
                gs.push(G { kind, var: [0, 1, 2], x: [Fr::from(2 + 7 * i), Fr::from(3 + i), Fr::from(11 + i)], pi });
                let p: [(usize, usize); 3] = std::array::from_fn(|j| {
                    if quick && j == 1 {
                        (1, 1 - i as usize)
                    } else {
                        (ctx.choose(3), ctx.choose(2))
                    }
                });
                pos.push(p);
            }
            encodes(ctx, &gs, &pos);
        }),
        scenario("every-size", 0, move |ctx| {
            let m = ctx.range(0, if quick { 33 } else { 130 });
            let gs = family(ctx.choose(FAMILIES), m);
            let style = ctx.choose(5);
            let n = m.next_power_of_two().max(2);
            let pos: Pos = match style {
                0..=2 => positions(&gs, style),
                // each cell to the next row of the next column, padding included
                3 => (0..m).map(|i| std::array::from_fn(|j| ((j + 1) % 3, (i + 1) % n))).collect(),
                // everything to the last row
                _ => (0..m).map(|i| std::array::from_fn(|j| (j, if i % 2 == 0 { n - 1 } else { 0 }))).collect(),
            };
            encodes(ctx, &gs, &pos);
        }),
        scenario("large-sizes", 0, move |ctx| {
            let m = *ctx.pick(if quick { &[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1024, 1025, 2048, 2049, 4097, 8193][..] } else { &[255usize, 256, 257, 511, 512, 513, 1023, 1025, 2047, 2049, 4095, 4097, 8192, 8193, 16385, 32769, 65535, 65536, 65537] });
            if m > 1025 && ctx.by_tier(true, m > 10_000) {
                // one circuit in which every kind of gate and every row takes part
                let gs = family(2, m);
                encodes(ctx, &gs, &positions(&gs, 0));
                return;
            }
            let gs = family(if quick { [0, 2, 6][ctx.choose(3)] } else { ctx.choose(FAMILIES) }, m);
            let style = ctx.choose(3);
            encodes(ctx, &gs, &positions(&gs, style));
        }),
        scenario("labels-distinct", 0, move |ctx| {
            let e = ctx.range(1, if quick { 12 } else { 16 });
            let n = 1usize << e;
            // the coset factors are those of a compiled circuit
            let cc = build(&family(0, 2), &positions(&family(0, 2), 0)).compile().unwrap();
            let k = [Fr::one(), *cc.copy_constraints().k1(), *cc.copy_constraints().k2()];
            let mut seen = std::collections::HashSet::new();
            for r in roots(n) {
                for x in k {
                    ctx.check(seen.insert(r * x), "labels", || format!("two cells of a circuit of {} rows have the same label", n));
                }
            }
            ctx.step(n);
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // cell values, public inputs and constants of every magnitude
            let v = *ctx.pick(&wide::<_, 4>());
            let kind = ctx.choose(3) as u8;
            let role = ctx.choose(5);
            let mut g = G { kind, var: [0, 1, 2], x: [Fr::from(2u64), Fr::from(3u64), Fr::from(11u64)], pi: Fr::from(5u64) };
            match role {
                0..=2 => g.x[role] = v,
                3 => g.pi = v,
                _ => (g.x, g.pi) = ([v; 3], v),
            }
            let h = G { kind: (kind + 1) % 3, var: [0, 1, 2], x: [Fr::from(7u64), v, Fr::zero()], pi: Fr::zero() };
            encodes(ctx, &[g, h], &vec![[(0, 1), (1, 0), (2, 1)], [(0, 0), (1, 1), (2, 0)]]);
        }),
    ]
}

// --------------------------------------------------------------------- P05
/// The blinding scalars of a proof, times the generator:
/// for each wire polynomial the pair (b_lo, b_hi).
fn wire_blinding<D: digest::Digest + Default>(f: &Fixed, t: &Table, p: &Proof) -> Vec<ark_bls12_381::G1Affine> {
    let pts = points_of(p);
    let bars = bars_of(p);
    let ch = challenges_of::<D>(f, &pts, &bars);
    let n = f.n as u64;
    let zh = |x: Fr| x.pow([n]) - Fr::one();
    let mut out = vec![];
    for j in 0..3 {
        let p0 = interpolate(&t.w[j]);
        // a(X) - f(X) = (hi X + lo) Z(X)
        let y = (bars[j] - eval(&p0, ch.zeta)) * zh(ch.zeta).inverse().unwrap();
        let at_tau = (pts[j] - g1(eval(&p0, f.tau))).into_affine() * zh(f.tau).inverse().unwrap();
        let hi = (at_tau - g1(y)) * (f.tau - ch.zeta).inverse().unwrap();
        let lo = -(hi * ch.zeta) + g1(y);
        out.push(lo.into_affine());
        out.push(hi.into_affine());
    }
    out
}

/// Two values of (b9 + b8 X + b7 X^2): in the exponent at tau, plainly at zeta*w.
fn z_blinding<D: digest::Digest + Default>(f: &Fixed, t: &Table, p: &Proof) -> [(Fr, ark_bls12_381::G1Affine); 2] {
    let pts = points_of(p);
    let bars = bars_of(p);
    let ch = challenges_of::<D>(f, &pts, &bars);
    let rt = roots(f.n);
    let mut acc = vec![Fr::one()];
    for i in 0..f.n - 1 {
        let mut x = acc[i];
        for j in 0..3 {
            let k = [Fr::one(), f.k[0], f.k[1]][j];
            x *= t.w[j][i] + ch.beta * k * rt[i] + ch.gamma;
            x *= (t.w[j][i] + ch.beta * t.sig[j][i] + ch.gamma).inverse().unwrap();
        }
        acc.push(x);
    }
    let acc = interpolate(&acc);
    let zh = |x: Fr| x.pow([f.n as u64]) - Fr::one();
    let x = ch.zeta * rt[1];
    let y = (bars[5] - eval(&acc, x)) * zh(x).inverse().unwrap();
    let at_tau = (pts[3] - g1(eval(&acc, f.tau))) * zh(f.tau).inverse().unwrap();
    [(f.tau, at_tau.into_affine()), (x, g1(y))]
}

/// What the opened values of a proof say about its blinding polynomials: the
/// point zeta, the wires' values there, the point zeta*w, the accumulator's there.
fn opened_blinding<D: digest::Digest + Default>(f: &Fixed, t: &Table, p: &Proof) -> (Fr, [Fr; 3], Fr, Fr) {
    let bars = bars_of(p);
    let ch = challenges_of::<D>(f, &points_of(p), &bars);
    let zh = |x: Fr| x.pow([f.n as u64]) - Fr::one();
    let ys = std::array::from_fn(|j| (bars[j] - eval(&interpolate(&t.w[j]), ch.zeta)) * zh(ch.zeta).inverse().unwrap());
    let rt = roots(f.n);
    let mut acc = vec![Fr::one()];
    for i in 0..f.n - 1 {
        let mut x = acc[i];
        for j in 0..3 {
            let k = [Fr::one(), f.k[0], f.k[1]][j];
            x *= t.w[j][i] + ch.beta * k * rt[i] + ch.gamma;
            x *= (t.w[j][i] + ch.beta * t.sig[j][i] + ch.gamma).inverse().unwrap();
        }
        acc.push(x);
    }
    let x = ch.zeta * rt[1];
    (ch.zeta, ys, x, (bars[5] - eval(&interpolate(&acc), x)) * zh(x).inverse().unwrap())
}

/// Coefficients of the polynomial through two or three points.
fn through(p: &[(Fr, Fr)]) -> Vec<Fr> {
    let mut c = vec![Fr::zero(); p.len()];
    for (i, (xi, yi)) in p.iter().enumerate() {
        let mut l = vec![*yi];
        for (j, (xj, _)) in p.iter().enumerate() {
            if i != j {
                let d = (*xi - xj).inverse().unwrap();
                let mut m = vec![Fr::zero(); l.len() + 1];
                for (e, v) in l.iter().enumerate() {
                    m[e + 1] += *v * d;
                    m[e] -= *v * d * xj;
                }
                l = m;
            }
        }
        for (e, v) in l.into_iter().enumerate() {
            c[e] += v;
        }
    }
    c
}

/// The three scalars of the accumulator's blinding polynomial, times the
/// generator, from three of its values.
fn quadratic(zs: &[(Fr, ark_bls12_381::G1Affine)]) -> Vec<ark_bls12_381::G1Affine> {
    let (x, y): (Vec<Fr>, Vec<ark_bls12_381::G1Affine>) = zs[..3].iter().cloned().unzip();
    (0..3)
        .map(|e| {
            // coefficient of X^e in the Lagrange basis
            let mut s = ark_bls12_381::G1Projective::zero();
            for i in 0..3 {
                let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                let d = ((x[i] - x[j]) * (x[i] - x[k])).inverse().unwrap();
                let c = [x[j] * x[k], -(x[j] + x[k]), Fr::one()][e];
                s += y[i] * (c * d);
            }
            s.into_affine()
        })
        .collect()
}

/// A proof made on a thread of its own, whose entropy stream is `seed` from the
/// start and whose scripted digest, if that is `D`, answers with `script`.
fn prove_alone<D: digest::Digest + Default>(ctx: &mut Ctx, cc: &CompiledCircuit, tau: Fr, n: usize, seed: u64, script: &[u64]) -> Proof {
    let script = script.to_vec();
    let s = srs(tau, n);
    match fresh_thread(seed, move || {
        oracle_reset(script);
        generate_proof::<D>(cc, s)
    }) {
        Ok(p) => p,
        Err(e) => ctx.fail("no-proof", format!("the prover panicked: {}", e)),
    }
}

/// The nine blinding scalars under an entropy stream, as field elements, from
/// proofs under several scripted challenges (if they do not depend on those).
fn nine_scalars(ctx: &mut Ctx, t: &Table, cc: &CompiledCircuit, seed: u64) -> Option<Vec<Fr>> {
    let f = Fixed::of(t, big());
    let mut vals = vec![];
    for v in 0..4u64 {
        let script: Vec<u64> = (0..64).map(|i| 1000 * (v + 1) + i).collect();
        let p = prove_alone::<Ro10>(ctx, cc, big(), t.n, seed, &script);
        oracle_reset(script);
        vals.push(opened_blinding::<Ro10>(&f, t, &p));
        ctx.step(digest_of(&p));
    }
    let mut all = vec![];
    for j in 0..4 {
        let pts: Vec<(Fr, Fr)> = vals.iter().map(|v| if j < 3 { (v.0, v.1[j]) } else { (v.2, v.3) }).collect();
        let deg = if j < 3 { 1 } else { 2 };
        let c = through(&pts[..deg + 1]);
        if pts.iter().any(|(x, y)| eval(&c, *x) != *y) {
            return None;
        }
        all.extend(c);
    }
    Some(all)
}

/// Rank of a matrix over the field.
fn rank(mut m: Vec<Vec<Fr>>) -> usize {
    let cols = m.first().map_or(0, |r| r.len());
    let mut r = 0;
    for c in 0..cols {
        let Some(p) = (r..m.len()).find(|i| !m[*i][c].is_zero()) else { continue };
        m.swap(r, p);
        let inv = m[r][c].inverse().unwrap();
        for i in r + 1..m.len() {
            let k = m[i][c] * inv;
            if !k.is_zero() {
                for j in c..cols {
                    let x = m[r][j];
                    m[i][j] -= k * x;
                }
            }
        }
        r += 1;
    }
    r
}

fn p05(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    vec![
        scenario("blinding-scalars", 0, move |ctx| {
            let m = *ctx.pick(if quick { &[1usize, 3, 5][..] } else { &[1usize, 2, 3, 4, 5, 8, 9, 16] });
            let gs = special(ctx.choose(FAMILIES + SPECIALS), m);
            let seed = ctx.choose(if quick { 3 } else { 12 }) as u64;
            let t = want(&gs, &positions(&gs, 0));
            let cc = t.compiled();
            let taus = [big(), Fr::from(11u64)];
            let mut ws = vec![];
            let mut zs = vec![];
            for tau in taus {
                let p = prove_alone::<Sha256>(ctx, &cc, tau, t.n, seed, &[]);
                let f = Fixed::of(&t, tau);
                ws.push(wire_blinding::<Sha256>(&f, &t, &p));
                zs.extend(z_blinding::<Sha256>(&f, &t, &p));
                ctx.step(digest_of(&p));
            }
            // the same entropy may be stretched differently under another setup
            if ws[0] != ws[1] {
                ctx.outcome("scalars depend on the setup");
                return;
            }
            // solve for the three scalars of z from three of the four points
            let b = quadratic(&zs);
            let mut all = ws[0].clone();
            all.extend(b);
            let names = ["a0", "a1", "b0", "b1", "c0", "c1", "z0", "z1", "z2"];
            for (i, p) in all.iter().enumerate() {
                ctx.check(!p.is_zero(), "unblinded", || format!("blinding scalar {} is zero ({}, entropy stream {})", names[i], show(&gs), seed));
                for (j, q) in all.iter().enumerate().take(i) {
                    ctx.check(p != q && *p != -*q, "reused", || format!("blinding scalars {} and {} are the same up to sign ({}, entropy stream {})", names[j], names[i], show(&gs), seed));
                }
            }
            ctx.step(format!("{:?}", all));
        }),
        scenario("fresh-per-proof", 0, move |ctx| {
            // under two entropy streams, or twice under one running stream,
            // nothing that depends on the witness repeats
            let m = *ctx.pick(&[1usize, 3, 5]);
            let gs = special(ctx.choose(FAMILIES + SPECIALS), m);
            let t = want(&gs, &positions(&gs, 0));
            let cc = t.compiled();
            let tau = big();
            let top = if quick { 4 } else { 12 };
            let s1 = ctx.choose(top) as u64;
            let s2 = ctx.choose(top + 1) as u64;
            if s2 <= s1 && s2 != 0 {
                ctx.prune();
            }
            let s = srs(tau, t.n);
            let twice = fresh_thread(s1, || {
                let u0 = getrandom::mc_usage();
                let p1 = generate_proof::<Sha256>(&cc, s.clone());
                let used = getrandom::mc_usage().1.wrapping_sub(u0.1);
                let p2 = if s2 == 0 { Some(generate_proof::<Sha256>(&cc, s.clone())) } else { None };
                (p1, used, p2)
            });
            let (p1, used, p2) = match twice {
                Ok(x) => x,
                Err(e) => ctx.fail("no-proof", format!("the prover panicked: {}", e)),
            };
            // the first proof of a thread: at the least a seed has to be drawn
            ctx.check(used >= 16, "entropy", || format!("a proof draws only {} bytes of entropy", used));
            let p2 = match p2 {
                Some(p) => p,
                None => prove_alone::<Sha256>(ctx, &cc, tau, t.n, s2, &[]),
            };
            ctx.step((digest_of(&p1), digest_of(&p2)));
            let (a, b) = (points_of(&p1), points_of(&p2));
            let names = ["a", "b", "c", "z", "t_lo", "t_mid", "t_hi", "w_z", "w_zw"];
            for i in 0..9 {
                ctx.check(a[i] != b[i], "repeated", || format!("commitment {} is the same in two proofs of {}", names[i], show(&gs)));
            }
            let (a, b) = (bars_of(&p1), bars_of(&p2));
            for i in [0, 1, 2, 5] {
                ctx.check(a[i] != b[i], "repeated", || format!("opened value {} is the same in two proofs of {}", i, show(&gs)));
            }
            let f = Fixed::of(&t, tau);
            for (i, (x, y)) in wire_blinding::<Sha256>(&f, &t, &p1).iter().zip(wire_blinding::<Sha256>(&f, &t, &p2).iter()).enumerate() {
                ctx.check(x != y && *x != -*y, "reused", || format!("blinding scalar {} is the same in two proofs of {}", i, show(&gs)));
            }
        }),
        scenario("same-entropy-same-proof", 0, move |ctx| {
            // the entropy stream and the circuit determine the proof: no hidden state
            let m = *ctx.pick(&[1usize, 3, 5]);
            let gs = special(ctx.choose(FAMILIES + SPECIALS), m);
            let t = want(&gs, &positions(&gs, 0));
            let cc = t.compiled();
            let seed = ctx.choose(2) as u64;
            let a = prove_alone::<Sha256>(ctx, &cc, big(), t.n, seed, &[]);
            let b = prove_alone::<Sha256>(ctx, &cc, big(), t.n, seed, &[]);
            ctx.step(digest_of(&a));
            ctx.check(digest_of(&a) == digest_of(&b), "state", || "the prover carries state from one proof to the next".into())
        }),
        scenario("not-from-public-data", 0, move |ctx| {
            // The transcript's challenges are scripted, so two proofs under two entropy
            // streams see the same challenges; with a setup whose secret is a point of
            // the domain they see the same commitments to wires and accumulator too.
            // Blinding that anyone could compute would be the same in both.
            let m = *ctx.pick(if quick { &[1usize, 3, 5][..] } else { &[1usize, 2, 3, 4, 5, 8, 9] });
            let gs = special(ctx.choose(FAMILIES + SPECIALS), m);
            let t = want(&gs, &positions(&gs, 0));
            let cc = t.compiled();
            let top = if quick { 3 } else { 8 };
            let s1 = 1 + ctx.choose(top) as u64;
            let s2 = 1 + ctx.choose(top) as u64;
            if s2 <= s1 {
                ctx.prune();
            }
            let v = ctx.choose(2) as u64;
            let script: Vec<u64> = (0..64).map(|i| 1000 * (v + 1) + i).collect();
            let at = roots(t.n)[ctx.choose(2)];
            for tau in [at, big()] {
                let [b1, b2] = [s1, s2].map(|s| bars_of(&prove_alone::<Ro10>(ctx, &cc, tau, t.n, s, &script)));
                ctx.step((fs(&b1), fs(&b2)));
                for i in [0, 1, 2, 5] {
                    ctx.check(b1[i] != b2[i], "public", || format!("opened value {} does not depend on the prover's entropy ({})", i, show(&gs)));
                }
            }
            // scalar by scalar, where they are a function of entropy and challenges
            let mut all = vec![];
            for s in [s1, s2] {
                let (mut ws, mut zs) = (vec![], vec![]);
                for tau in [big(), Fr::from(11u64)] {
                    let p = prove_alone::<Ro10>(ctx, &cc, tau, t.n, s, &script);
                    let f = Fixed::of(&t, tau);
                    oracle_reset(script.clone());
                    ws.push(wire_blinding::<Ro10>(&f, &t, &p));
                    oracle_reset(script.clone());
                    zs.extend(z_blinding::<Ro10>(&f, &t, &p));
                }
                // both proofs give the accumulator's value at the same point
                if ws[0] != ws[1] || zs[1] != zs[3] {
                    ctx.outcome("scalars depend on the setup");
                    return;
                }
                let [x, y, z] = [zs[0], zs[1], zs[2]];
                ws[0].extend(quadratic(&[x, y, z]));
                all.push(ws.swap_remove(0));
            }
            for i in 0..9 {
                ctx.check(all[0][i] != all[1][i], "public", || format!("blinding scalar {} does not depend on the prover's entropy ({})", i, show(&gs)));
            }
            ctx.outcome("nine scalars differ");
        }),
        scenario("full-range", 0, move |ctx| {
            // The same entropy under several scripted challenges gives several values of
            // each blinding polynomial, hence its coefficients as field elements: every
            // limb of every one is in use.
            let m = *ctx.pick(if quick { &[1usize, 3, 5, 33, 128][..] } else { &[1, 2, 3, 4, 5, 8, 9, 16, 33, 64, 128, 256] });
            let gs = special(if m > 8 { 0 } else { ctx.choose(FAMILIES + SPECIALS) }, m);
            let t = want(&gs, &positions(&gs, 0));
            let cc = t.compiled();
            let seed = ctx.choose(if quick { 3 } else { 12 }) as u64;
            let Some(all) = nine_scalars(ctx, &t, &cc, seed) else {
                ctx.outcome("scalars depend on the challenges");
                return;
            };
            use ark_ff::PrimeField;
            let names = ["a0", "a1", "b0", "b1", "c0", "c1", "z0", "z1", "z2"];
            for (i, x) in all.iter().enumerate() {
                for (x, sign) in [(*x, ""), (-*x, "minus ")] {
                    let l = x.into_bigint().0;
                    let used = l[3] >> 16 > 0 && l[0] != 0 && l[1] != 0 && l[2] != 0 && l[0] != l[1] && l[1] != l[2] && l[0] != l[2];
                    ctx.check(used, "narrow", || format!("{}blinding scalar {} is {}, not drawn from the whole field ({}, entropy stream {})", sign, names[i], x, show(&gs), seed));
                }
                for (j, y) in all.iter().enumerate().take(i) {
                    // no scalar is a small multiple of another, or a small step from it
                    for k in 1..17u64 {
                        let k = Fr::from(k);
                        let tied = *x == *y * k || *y == *x * k || *x == -*y * k || *y == -*x * k || *x == *y + k || *y == *x + k;
                        ctx.check(!tied, "tied", || format!("blinding scalars {} and {} determine each other: {} and {}", names[j], names[i], y, x));
                    }
                    ctx.check(*x != y.square() && *y != x.square(), "tied", || format!("one of the blinding scalars {} and {} is the square of the other", names[j], names[i]));
                }
            }
            ctx.outcome("nine full-size scalars");
        }),
        scenario("wires-hidden", 0, move |ctx| {
            // no commitment or opened value of a proof equals the unblinded one
            let m = *ctx.pick(&[1usize, 2, 4]);
            let gs = special(ctx.choose(FAMILIES + SPECIALS), m);
            let t = want(&gs, &positions(&gs, 0));
            let cc = t.compiled();
            let tau = big();
            let p = match prove::<Sha256>(&cc, tau, t.n, ctx.choose(4) as u64) {
                Ok(p) => p,
                Err(e) => ctx.fail("no-proof", format!("the prover panicked: {}", e)),
            };
            ctx.step(digest_of(&p));
            let f = Fixed::of(&t, tau);
            let ch = challenges_of::<Sha256>(&f, &points_of(&p), &bars_of(&p));
            for (j, c) in [&p.a_commit, &p.b_commit, &p.c_commit].iter().enumerate() {
                let w = interpolate(&t.w[j]);
                ctx.check(**c != KzgCommitment(g1(eval(&w, tau))), "bare", || format!("wire {} is committed without blinding", j));
                ctx.check(bars_of(&p)[j] != eval(&w, ch.zeta), "bare", || format!("wire {} is opened without blinding", j));
            }
        }),
        scenario("no-fixed-relation", 0, move |ctx| {
            // The nine scalars under many entropy streams, and every monomial in them
            // up to a degree: were some fixed polynomial relation to hold between the
            // scalars, the monomials' values would not be independent.
            let k = *ctx.pick(if quick { &[0usize, 2][..] } else { &[0, 1, 2, 5, 6] });
            let m = *ctx.pick(if quick { &[1usize][..] } else { &[1, 3] });
            let gs = special(k, m);
            let t = want(&gs, &positions(&gs, 0));
            let cc = t.compiled();
            let degree = if quick { 2 } else { 3 };
            let mut monomials: Vec<Vec<usize>> = vec![vec![]];
            let mut last = monomials.clone();
            for _ in 0..degree {
                last = last.iter().flat_map(|x| (x.last().copied().unwrap_or(0)..9).map(move |v| x.iter().copied().chain([v]).collect())).collect();
                monomials.extend(last.clone());
            }
            let mut rows = vec![];
            for seed in 0..monomials.len() as u64 + 2 {
                let Some(s) = nine_scalars(ctx, &t, &cc, 500 + seed) else {
                    ctx.outcome("scalars depend on the challenges");
                    return;
                };
                rows.push(monomials.iter().map(|x| x.iter().map(|v| s[*v]).product()).collect::<Vec<Fr>>());
            }
            let r = rank(rows);
            ctx.note(|| format!("{} monomials, rank {}", monomials.len(), r));
            ctx.check(r == monomials.len(), "tied", || format!("a fixed relation of degree {} or less holds between the nine blinding scalars: {} monomials have rank {}", degree, monomials.len(), r));
            ctx.outcome("independent");
        }),
        scenario("every-bit-of-entropy", 0, move |ctx| {
            // each drawn bit flipped in turn: the blinded commitments must depend on
            // enough of them
            let m = *ctx.pick(if quick { &[1usize][..] } else { &[1, 3] });
            let gs = special(ctx.choose(if quick { 2 } else { 4 }), m);
            let t = want(&gs, &positions(&gs, 0));
            let cc = t.compiled();
            let run = |flip: u64| {
                let s = srs(big(), t.n);
                let cc = &cc;
                fresh_thread(3, move || {
                    getrandom::mc_flip(flip);
                    let p = generate_proof::<Sha256>(cc, s);
                    (points_of(&p), getrandom::mc_usage().1)
                })
            };
            let (base, used) = match run(u64::MAX) {
                Ok(x) => x,
                Err(e) => ctx.fail("no-proof", format!("the prover panicked: {}", e)),
            };
            let mut effective = [0; 4];
            for bit in 0..used * 8 {
                let p = match run(bit) {
                    Ok(x) => x.0,
                    Err(e) => ctx.fail("no-proof", format!("the prover panicked: {}", e)),
                };
                for j in 0..4 {
                    effective[j] += (p[j] != base[j]) as u64;
                }
                ctx.step((bit, format!("{}", p[0])));
            }
            ctx.note(|| format!("{} bytes drawn; bits that matter to a, b, c, z: {:?}", used, effective));
            for j in 0..4 {
                ctx.check(effective[j] >= 128, "narrow", || format!("only {} of the prover's {} random bits matter to commitment {}", effective[j], used * 8, ["a", "b", "c", "z"][j]));
            }
            ctx.outcome("carries the entropy");
        }),
        scenario("no-two-alike", 0, move |ctx| {
            // As many provers as it takes for a narrow random state to repeat. The
            // digest gives up once the wires are committed (under the secret 0, for speed).
            let t = Table::empty(2);
            let cc = t.compiled();
            fn run(cc: &CompiledCircuit, seed: u64, limit: usize) -> Vec<Vec<u8>> {
                getrandom::mc_seed(seed);
                taps_reset(limit);
                let _ = guard(|| generate_proof::<Tap>(cc, srs(Fr::zero(), 2)));
                taps()
            }
            let (a, b) = (run(&cc, 1, usize::MAX), run(&cc, 2, usize::MAX));
            ctx.check(a.len() == b.len() && !a.is_empty(), "other-transcript", || format!("{} digests in one proof, {} in another", a.len(), b.len()));
            let varying: Vec<usize> = (0..a.len()).filter(|i| a[*i] != b[*i]).take(3).collect();
            let Some(limit) = varying.last().map(|l| l + 1) else { ctx.fail("repeated", "the transcripts of two proofs are the same") };
            let block = ctx.choose(if quick { 1 } else { 4 });
            let total: u64 = 1 << 17;
            let threads = 8;
            let first = 1_000_000 * (block as u64 + 1);
            let (t, varying) = (&t, &varying);
            let logs: Vec<Vec<(u64, Vec<u64>)>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|w| {
                        s.spawn(move || {
                            let cc = t.compiled();
                            (0..total)
                                .filter(|k| k % threads == w)
                                .map(|k| {
                                    let l = run(&cc, first + k, limit);
                                    let h = |x: &Vec<u8>| {
                                        let mut h = Fnv::default();
                                        std::hash::Hash::hash(x, &mut h);
                                        std::hash::Hasher::finish(&h)
                                    };
                                    (first + k, varying.iter().filter_map(|i| l.get(*i)).map(h).collect())
                                })
                                .collect()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for j in 0..varying.len() {
                let mut seen = std::collections::HashMap::new();
                for (seed, l) in logs.iter().flatten() {
                    let Some(h) = l.get(j) else { continue };
                    if let Some(other) = seen.insert(h, seed) {
                        // compared in full
                        let (x, y) = (run(&cc, *other, limit), run(&cc, *seed, limit));
                        ctx.check(x.get(varying[j]) != y.get(varying[j]), "repeated", || format!("the prover commits alike (message {}) under the entropy streams {} and {}", j, other, seed));
                    }
                }
                ctx.step((block, j, seen.len()));
            }
            ctx.outcome("all different");
        }),
    ]
}
