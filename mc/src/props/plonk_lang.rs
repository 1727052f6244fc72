//! PLONK equation language: meaning, enforcement, witness-free preprocessing.
use super::kzg_p::{big, eval, g1};
use super::plonk_ref::*;
use super::Prop;
use crate::core::*;
use crate::util::*;
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use kzg::commitment::KzgCommitment;
use kzg::scheme::KzgScheme;
use plonk::common_preprocessed_input::cpi_parser::{CPIGenerator, CommonPreprocessedInput};
use plonk::parser::Parser;
use plonk::prover::generate_proof;
use plonk::verifier::verify;
use sha2::Sha256;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            bounds: "every equation of one term with up to 3 factors, of two terms with up to 2 factors and of three and four terms over alphabets of variables (one and two letters, with digits), numerals (zero, leading zeros, several digits), signs and powers 0..3 (0..5 and 10, 12 thorough); right-hand sides: true and false constants, variables, negations, products; 5 witness patterns incl. 0, negative and full-size values; constants up to 2^31-1 in 7 positions; 5..257 terms, factors or powers (513 thorough); witness values of every magnitude and close ones; 34 names with shared prefixes, up to 34 at once; 5 ways to write each; every sequence of up to 4 (5 thorough) uses of one parser; every malformed string of a list and every string of up to 6 (7 thorough) tokens over {x, 2, +, -, *, ^, =}; numerals and exponents are those of 32 bits",
            assumptions: &["a table satisfied by its witness is a provable one (P01) and an unsatisfied one is not (P02); both are replayed on a subset here"],
            scenarios: p06,
        },
        Prop {
            id: "P07",
            bounds: "the equations of P06 (names and long ones included) compiled for generic witnesses: sigma's classes computed, every assignment of the free classes from {0,1,-1,2,large} propagated through the constraints; false equations attacked through the cell that holds the result",
            assumptions: &["constraints are polynomial identities: agreement on the enumerated assignments and on generic values is taken as agreement"],
            scenarios: p07,
        },
        Prop {
            id: "P08",
            bounds: "the equations of P06 through the witness-free generator and the parser under 3 witness patterns, exact and oversized SRS",
            assumptions: &["KZG commitments are recomputed from the SRS secret"],
            scenarios: p08,
        },
    ]
}

// ------------------------------------------------------------------ syntax
#[derive(Clone, Debug, PartialEq)]
pub struct Fac {
    neg: bool,
    atom: &'static str,
    pow: Option<u32>,
}
type Term = Vec<Fac>;
#[derive(Clone, Debug)]
pub struct Equation {
    lhs: Vec<Term>,
    rhs: Term,
}
type Env = BTreeMap<&'static str, Fr>;

fn fac(neg: bool, atom: &'static str, pow: Option<u32>) -> Fac {
    Fac { neg, atom, pow }
}

fn is_num(a: &str) -> bool {
    a.as_bytes()[0].is_ascii_digit()
}

fn ev_fac(f: &Fac, env: &dyn Fn(&str) -> Fr) -> Fr {
    let b = if is_num(f.atom) { Fr::from(f.atom.parse::<u64>().unwrap()) } else { env(f.atom) };
    let v = b.pow([f.pow.unwrap_or(1) as u64]);
    if f.neg {
        -v
    } else {
        v
    }
}
fn ev_term(t: &Term, env: &dyn Fn(&str) -> Fr) -> Fr {
    t.iter().map(|f| ev_fac(f, env)).product()
}
impl Equation {
    /// left-hand side minus right-hand side
    fn gap(&self, env: &dyn Fn(&str) -> Fr) -> Fr {
        self.lhs.iter().map(|t| ev_term(t, env)).sum::<Fr>() - ev_term(&self.rhs, env)
    }
    fn text(&self, style: usize) -> String {
        let fac = |f: &Fac| {
            let mut v = vec![];
            if f.neg {
                v.push("-".to_string());
            }
            v.push(if style == 2 || style == 4 { f.atom.to_uppercase() } else { f.atom.to_string() });
            if let Some(p) = f.pow {
                v.push("^".into());
                v.push(p.to_string());
            }
            v
        };
        let term = |t: &Term| t.iter().map(fac).collect::<Vec<_>>().join(&"*".to_string());
        let mut toks = self.lhs.iter().map(term).collect::<Vec<_>>().join(&"+".to_string());
        toks.push("=".into());
        toks.extend(term(&self.rhs));
        match style {
            // as it comes; a space between tokens; upper case; spaces around; both
            1 | 4 => toks.join(" "),
            3 => format!("  {} ", toks.join("").replace('+', " + ").replace('=', "  =  ")),
            _ => toks.concat(),
        }
    }
    fn vars(&self) -> Vec<&'static str> {
        let mut v: Vec<&str> =
            self.lhs.iter().chain([&self.rhs]).flatten().filter(|f| !is_num(f.atom) && f.pow != Some(0)).map(|f| f.atom).collect();
        v.sort();
        v.dedup();
        v
    }
}

const WITNESSES: usize = 5;

fn witness(p: usize) -> Env {
    const NAMES: [&str; 6] = ["x", "y", "x1", "ab", "z", "w"];
    if p == WITNESSES - 1 {
        // values that need every limb
        return NAMES.into_iter().enumerate().map(|(i, n)| (n, if i % 2 == 0 { generic(i) } else { -generic(i) })).collect();
    }
    let v: [i64; 6] = [[2, 3, 5, 7, 11, 13], [-1, 4, -3, 2, 6, -5], [0, 1, 0, -2, 1, 0], [1, 1, 2, 2, 0, 3]][p];
    NAMES.into_iter().zip(v.map(fr)).collect()
}

fn fr(v: i64) -> Fr {
    if v < 0 {
        -Fr::from(v.unsigned_abs())
    } else {
        Fr::from(v as u64)
    }
}

fn parser(env: &Env, upper: bool) -> Parser {
    let mut p = Parser::default();
    for (k, v) in env {
        p.add_witness(&if upper { k.to_uppercase() } else { k.to_string() }, *v);
    }
    p
}

// small constants by value, as text
fn numeral(v: i64) -> Option<&'static str> {
    const N: [&str; 130] = {
        // leaked at compile time: the decimal numerals 0..129
        [
            "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23",
            "24", "25", "26", "27", "28", "29", "30", "31", "32", "33", "34", "35", "36", "37", "38", "39", "40", "41", "42", "43", "44", "45",
            "46", "47", "48", "49", "50", "51", "52", "53", "54", "55", "56", "57", "58", "59", "60", "61", "62", "63", "64", "65", "66", "67",
            "68", "69", "70", "71", "72", "73", "74", "75", "76", "77", "78", "79", "80", "81", "82", "83", "84", "85", "86", "87", "88", "89",
            "90", "91", "92", "93", "94", "95", "96", "97", "98", "99", "100", "101", "102", "103", "104", "105", "106", "107", "108", "109",
            "110", "111", "112", "113", "114", "115", "116", "117", "118", "119", "120", "121", "122", "123", "124", "125", "126", "127", "128",
            "129",
        ]
    };
    N.get(v as usize).copied()
}

fn small(v: Fr) -> Option<i64> {
    (0..130i64).find(|k| fr(*k) == v).or_else(|| (1..130i64).find(|k| fr(-*k) == v).map(|k| -k))
}

/// A right-hand side, chosen with the left-hand side's value in view.
fn gen_rhs(ctx: &mut Ctx, lhs: &[Term], env: &mut Env, kinds: usize) -> Term {
    let v = {
        let e = |n: &str| env[n];
        lhs.iter().map(|t| ev_term(t, &e)).sum::<Fr>()
    };
    let (exact, v) = (v, small(v));
    let num = |v: i64| numeral(v.abs()).map(|n| vec![fac(v < 0, n, None)]);
    let k = ctx.choose(kinds);
    match (k, v) {
        // the true constant, or one off
        (0, Some(v)) => num(v).unwrap_or_else(|| vec![fac(false, "0", None)]),
        (1, Some(v)) => num(v + 1).unwrap_or_else(|| vec![fac(false, "1", None)]),
        // a variable holding the value, its negation, and one that is off
        (2, _) => {
            env.insert("z", exact);
            vec![fac(false, "z", None)]
        }
        (3, _) => {
            env.insert("z", -exact);
            vec![fac(true, "z", None)]
        }
        (4, _) => vec![fac(false, "x", None)],
        (5, _) => vec![fac(true, "x", None)],
        (6, _) => {
            env.insert("w", exact);
            env.insert("z", fr(-1));
            vec![fac(true, "w", None), fac(false, "z", None)]
        }
        (7, _) => {
            env.insert("w", exact);
            vec![fac(false, "1", None), fac(false, "w", None)]
        }
        (8, _) => vec![fac(false, "x", Some(2))],
        (9, _) => vec![fac(true, "0", None)],
        (10, _) => vec![fac(true, "x", None), fac(true, "y", None)],
        _ => ctx.prune(),
    }
}

fn gen_fac(ctx: &mut Ctx, atoms: &[&'static str], pows: &[Option<u32>]) -> Fac {
    let atom = *ctx.pick(atoms);
    let pow = *ctx.pick(pows);
    fac(ctx.flag(), atom, pow)
}

/// One of the equation families; returns the witness too.
fn gen_equation(ctx: &mut Ctx, level: usize, shape: usize) -> (Equation, Env) {
    // 0: one witness, few spellings of the same gates; 1; 2: everything
    let (lean, quick) = (level == 0, level < 2);
    match shape {
        4 => return gen_constants(ctx, level),
        5 => return gen_long(ctx, level, false),
        8 => return gen_long(ctx, level, true),
        6 => return gen_names(ctx, level),
        7 => return gen_joined(ctx, level),
        _ => {}
    }
    let mut env = witness(if lean { 0 } else { [0, 1, 4, 2, 3][ctx.choose(if quick && shape > 1 { 2 } else if quick && shape > 0 { 3 } else { 5 })] });
    let n = None;
    let lhs: Vec<Term> = match shape {
        // one factor, everything
        0 => vec![vec![gen_fac(
            ctx,
            &["x", "y", "x1", "ab", "0", "1", "2", "3", "12", "007"],
            &[n, Some(0), Some(1), Some(2), Some(3), Some(5), Some(10), Some(12)],
        )]],
        // one term of two or three factors
        1 => {
            let k = ctx.range(2, 3);
            let atoms: &[&str] = match (k, lean) {
                (2, true) => &["x", "y", "0", "12"],
                (2, false) => &["x", "y", "x1", "0", "1", "3", "12"],
                (_, true) => &["x", "2"],
                (_, false) => &["x", "y", "2"],
            };
            let pows: &[Option<u32>] = if k == 2 && !lean { &[n, Some(0), Some(2), Some(3)] } else { &[n, Some(2)] };
            vec![(0..k).map(|_| gen_fac(ctx, atoms, pows)).collect()]
        }
        // two terms
        2 => (0..2)
            .map(|_| {
                let k = ctx.range(1, 2);
                let atoms: &[&str] = if k == 1 && lean { &["x", "y", "1"] } else if k == 1 { &["x", "y", "1", "0"] } else if quick { &["x", "2"] } else { &["x", "y", "2"] };
                let pows: &[Option<u32>] = if lean { &[n] } else if k == 1 { &[n, Some(2), Some(0)] } else { &[n, Some(2)] };
                (0..k).map(|_| gen_fac(ctx, atoms, pows)).collect()
            })
            .collect(),
        // three and four terms, repeated sub-expressions included
        _ => {
            let k = ctx.range(3, if quick { 3 } else { 4 });
            let pool: Vec<Term> = vec![
                vec![fac(false, "x", n)],
                vec![fac(true, "x", n)],
                vec![fac(false, "1", n)],
                vec![fac(false, "x", n), fac(false, "y", n)],
                vec![fac(false, "y", n), fac(false, "x", n)],
                vec![fac(true, "3", n), fac(false, "x", Some(2))],
                vec![fac(false, "0", n)],
                vec![fac(false, "x1", Some(0)), fac(false, "ab", n)],
            ];
            (0..k).map(|_| ctx.pick(&pool).clone()).collect()
        }
    };
    let rhs = gen_rhs(ctx, &lhs, &mut env, if lean && shape > 0 { 3 } else if quick && shape > 1 { 4 } else { 11 });
    (Equation { lhs, rhs }, env)
}

const CONSTANTS: [&str; 18] = [
    "9", "10", "99", "100", "127", "128", "255", "256", "999", "1000", "32767", "32768", "65535", "65536", "1000000", "16777216", "2147483646", "2147483647",
];

/// Constants of every length the language has, in every position.
fn gen_constants(ctx: &mut Ctx, level: usize) -> (Equation, Env) {
    let mut env = witness(0);
    let pool: &[&str] = if level == 0 { &CONSTANTS[6..] } else { &CONSTANTS };
    let (i, a) = (ctx.choose(pool.len()), ctx.flag());
    // beside another constant: the same, the next, any other
    let j = if level < 2 { (i + [0, 1, 3][ctx.choose(3)]) % pool.len() } else { ctx.choose(pool.len()) };
    let b = ctx.flag();
    let (va, vb): (i64, i64) = (pool[i].parse().unwrap(), pool[j].parse().unwrap());
    let (sa, sb) = (if a { -va } else { va }, if b { -vb } else { vb });
    let (fa, fb) = (fac(a, pool[i], None), fac(b, pool[j], None));
    let v = |n| fac(false, n, None);
    let (lhs, rhs): (Vec<Term>, Term) = match ctx.choose(7) {
        0 => (vec![vec![fa]], vec![fb]),
        1 => {
            env.insert("x", fr(1));
            (vec![vec![fa, v("x")]], vec![fb])
        }
        2 => (vec![vec![fa], vec![fb]], vec![v("0")]),
        3 => {
            env.insert("y", fr(sb - sa));
            (vec![vec![v("y")], vec![fa]], vec![fb])
        }
        4 => {
            env.insert("x", fr(if ctx.flag() { sa } else { vb + 1 }));
            (vec![vec![v("x")]], vec![fa])
        }
        5 => {
            env.insert("z", fr(sa * sb));
            (vec![vec![fa, fb]], vec![v("z")])
        }
        _ => {
            env.insert("z", fr(va * va));
            (vec![vec![fac(false, pool[i], Some(2))]], vec![v("z")])
        }
    };
    (Equation { lhs, rhs }, env)
}

/// Many terms, many factors, high powers; few variables that occur often.
fn gen_long(ctx: &mut Ctx, level: usize, very: bool) -> (Equation, Env) {
    let sizes: &[usize] = match level {
        0 if very => &[65, 257],
        1 if very => &[33, 40, 64, 65, 100, 128, 129, 200, 256, 257],
        _ if very => &[128, 129, 200, 256, 257, 500, 513],
        0 => &[5, 6, 7, 9, 17],
        1 => &[5, 6, 7, 8, 9, 12, 16, 17, 33],
        _ => &[5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 24, 31, 32, 33, 64, 100],
    };
    let m = *ctx.pick(sizes);
    let mut env = witness(0);
    env.insert("y", fr(1));
    env.insert("x", fr(if ctx.flag() { -1 } else { 1 }));
    let v = |n| fac(false, n, None);
    let lhs: Vec<Term> = match ctx.choose(8) {
        0 => vec![vec![v("x"); m]],
        1 => vec![vec![v("x")]; m],
        2 => vec![vec![fac(false, "x", Some(m as u32))]],
        3 => (0..m).map(|i| vec![v(["x", "y"][i % 2])]).collect(),
        4 => (0..m).map(|i| vec![v(["x", "y", "ab"][i % 3]), v(["y", "x"][i % 2])]).collect(),
        5 => (0..m).map(|i| vec![v(numeral((i % 100) as i64).unwrap())]).collect(),
        6 => (0..m).map(|i| vec![fac(i % 2 == 0, "x", None), v("y")]).collect(),
        _ => vec![(0..m).map(|i| fac(i % 3 == 1, ["x", "1", "y"][i % 3], if i % 4 == 3 { Some(2) } else { None })).collect()],
    };
    let rhs = gen_rhs(ctx, &lhs, &mut env, if very { 3 } else { 5 });
    (Equation { lhs, rhs }, env)
}

const NAMES: [&str; 34] = [
    "x", "x1", "x2", "x10", "x11", "xx", "xy", "yx", "x1y", "x1y2", "a", "b", "c", "d", "e", "f", "l", "o", "r", "aa", "aaa", "ab", "ba", "alpha", "alphabeta",
    "e1", "e10", "b0", "in", "one", "zero", "pi", "verylongvariablename0123456789", "verylongvariablename0123456780",
];

/// Names that share prefixes, digits and letters; many names at once.
fn gen_names(ctx: &mut Ctx, level: usize) -> (Equation, Env) {
    let mut env: Env = NAMES.iter().enumerate().map(|(i, n)| (*n, fr(if i % 2 == 0 { i as i64 + 2 } else { -(3 * i as i64) }))).collect();
    let v = |n| fac(false, n, None);
    let lhs: Vec<Term> = if ctx.flag() {
        let m = *ctx.pick(if level == 0 { &[7usize, 34][..] } else { &[5, 7, 8, 9, 16, 17, 26, 32, 33, 34] });
        match ctx.choose(3) {
            0 => NAMES[..m].iter().map(|n| vec![v(*n)]).collect(),
            1 => vec![NAMES[..m].iter().map(|n| v(*n)).collect()],
            _ => NAMES[..m].iter().rev().enumerate().map(|(i, n)| vec![fac(i % 3 == 0, n, None), v(NAMES[i])]).collect(),
        }
    } else {
        let i = ctx.choose(NAMES.len());
        // a name beside its neighbours, or (thorough) beside any other
        let j = if level < 2 { (i + [1, 2][ctx.choose(2)]) % NAMES.len() } else { (i + 1 + ctx.choose(NAMES.len() - 1)) % NAMES.len() };
        let (a, b) = (NAMES[i], NAMES[j]);
        match ctx.choose(4) {
            0 => vec![vec![v(a)], vec![v(b)]],
            1 => vec![vec![v(a), v(b)]],
            2 => vec![vec![fac(true, a, None)], vec![fac(true, b, Some(2))]],
            _ => vec![vec![v(a), v(b)], vec![v(b), v(a)], vec![v(a)]],
        }
    };
    let rhs = gen_rhs(ctx, &lhs, &mut env, 5);
    (Equation { lhs, rhs }, env)
}

/// Names and numerals that are the text of other sub-expressions run together.
fn gen_joined(ctx: &mut Ctx, level: usize) -> (Equation, Env) {
    const JOINED: [&str; 15] = ["x", "y", "xy", "yx", "xx", "x1", "1x", "x2", "x1y", "xy2", "x2y", "negx", "12", "21", "11"];
    let ok = |n: &&str| is_num(n) == n.bytes().all(|c| c.is_ascii_digit());
    let pool: Vec<&'static str> = JOINED.into_iter().filter(|n| ok(n)).collect();
    let mut env: Env = pool.iter().filter(|n| !is_num(n)).enumerate().map(|(i, n)| (*n, fr([2, 3, 7, -11, 13, 17, 19, 23, -29, 31, 37][i]))).collect();
    let parts: &[&str] = if level == 0 { &["x", "y", "1"] } else { &["x", "y", "1", "2", "x1", "xy"] };
    let pows: &[Option<u32>] = &[None, Some(2)];
    let a = {
        let atom = *ctx.pick(parts);
        fac(level > 0 && ctx.flag(), atom, *ctx.pick(pows))
    };
    let b = {
        let atom = *ctx.pick(parts);
        fac(false, atom, if level > 0 { *ctx.pick(pows) } else { None })
    };
    let c = fac(false, ctx.pick(&pool), None);
    let lhs = match ctx.choose(4) {
        0 => vec![vec![a, b], vec![c]],
        1 => vec![vec![c], vec![a, b]],
        2 => vec![vec![a], vec![b], vec![c]],
        _ => vec![vec![c, a], vec![b]],
    };
    let gap: Fr = lhs.iter().map(|t| ev_term(t, &|n: &str| env[n])).sum();
    env.insert("z", if ctx.flag() { gap } else { gap + Fr::one() });
    (Equation { lhs, rhs: vec![fac(false, "z", None)] }, env)
}

const SHAPES: [&str; 9] = ["one-factor", "one-term", "two-terms", "many-terms", "constants", "long", "names", "joined-names", "very-long"];

fn each_shape(level: usize, prefix: &str, f: impl Fn(&mut Ctx, Equation, Env) + Send + Sync + Copy + 'static) -> Vec<Scenario> {
    SHAPES
        .iter()
        .enumerate()
        .map(|(i, s)| {
            scenario(&format!("{}{}", prefix, s), 0, move |ctx: &mut Ctx| {
                let (e, env) = gen_equation(ctx, level, i);
                f(ctx, e, env)
            })
        })
        .collect()
}

fn compile(ctx: &mut Ctx, p: &Parser, text: &str) -> plonk::compiled_circuit::CompiledCircuit {
    match ctx.must("parse", || p.parse(text).compile()) {
        Ok(c) => c,
        Err(e) => ctx.fail("compile", format!("'{}' does not compile: {}", text, e)),
    }
}

// --------------------------------------------------------------------- P06
fn means(ctx: &mut Ctx, e: &Equation, env: &Env, text: &str, upper: bool) -> bool {
    let truth = e.gap(&|n| env[n]).is_zero();
    let t = Table::read(&compile(ctx, &parser(env, upper), text));
    ctx.step((text, t.n, truth));
    let ok = t.satisfied();
    ctx.note(|| format!("'{}' with {:?} is {}: {}", text, env, truth, t.show()));
    if ok != truth {
        let k = if truth { "true-unsatisfied" } else { "false-satisfied" };
        ctx.fail(k, format!("'{}' is {} for {:?}, its circuit is {}satisfied: {}", text, truth, env, if ok { "" } else { "not " }, t.show()));
    }
    ctx.outcome(if truth { "true" } else { "false" });
    truth
}

/// What a string conventionally means, if it is in the language: sums of
/// products of signed powers on the left, one product on the right.
fn read_equation(s: &str) -> Option<(Vec<Vec<(bool, String, u32)>>, Vec<(bool, String, u32)>)> {
    let s: String = s.to_lowercase().chars().filter(|c| *c != ' ').collect();
    let sides: Vec<&str> = s.split('=').collect();
    if sides.len() != 2 {
        return None;
    }
    let factor = |f: &str| -> Option<(bool, String, u32)> {
        let (neg, f) = match f.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, f),
        };
        let mut parts = f.split('^');
        let atom = parts.next()?;
        let pow = match parts.next() {
            None => 1,
            Some(p) => p.parse::<i32>().ok().map(|p| p as u32).filter(|_| p.bytes().all(|c| c.is_ascii_digit()))?,
        };
        if parts.next().is_some() || atom.is_empty() {
            return None;
        }
        let numeral = atom.bytes().all(|c| c.is_ascii_digit()) && atom.parse::<i32>().is_ok();
        let name = atom.bytes().all(|c| c.is_ascii_alphanumeric()) && !atom.as_bytes()[0].is_ascii_digit();
        (numeral || name).then(|| (neg, atom.to_string(), pow))
    };
    let term = |t: &str| t.split('*').map(factor).collect::<Option<Vec<_>>>();
    Some((sides[0].split('+').map(term).collect::<Option<Vec<_>>>()?, term(sides[1])?))
}

fn read_value(t: &[(bool, String, u32)], env: &Env) -> Option<Fr> {
    t.iter()
        .map(|(neg, a, p)| {
            if *p == 0 {
                return Some(if *neg { -Fr::one() } else { Fr::one() });
            }
            let b = if is_num(a) { Fr::from(a.parse::<u64>().ok()?) } else { *env.get(a.as_str())? };
            let v = b.pow([*p as u64]);
            Some(if *neg { -v } else { v })
        })
        .product()
}

/// Whatever the string: its circuit is satisfied only if it is an equation
/// that holds; strings without a meaning must not be turned into one.
fn judge_string(ctx: &mut Ctx, s: &str, env: &Env) {
    let meaning = read_equation(s).and_then(|(l, r)| {
        let l: Option<Vec<Fr>> = l.iter().map(|t| read_value(t, env)).collect();
        Some(l?.into_iter().sum::<Fr>() == read_value(&r, env)?)
    });
    let p = parser(env, false);
    let got = guard(|| p.parse(s).compile()).ok().and_then(|r| r.ok()).map(|c| Table::read(&c).satisfied());
    ctx.step((s.to_string(), meaning, got));
    ctx.note(|| format!("'{}': means {:?}, circuit satisfied {:?}", s, meaning, got));
    match (meaning, got) {
        (None, None) => ctx.outcome("no equation, refused"),
        (None, Some(b)) => {
            // Some readings go beyond the language but agree with convention.
            if liberal(s, env) == Some(b) {
                ctx.outcome("beyond the language, read as convention has it")
            } else {
                ctx.fail("read-as-another", format!("'{}' is no equation of the language, yet it is turned into a circuit (satisfied: {})", s, b))
            }
        }
        (Some(m), None) => ctx.fail("refused", format!("'{}' (which is {}) is refused", s, m)),
        (Some(m), Some(b)) if m != b => ctx.fail("wrong-meaning", format!("'{}' is {}, its circuit is {}satisfied", s, m, if b { "" } else { "not " })),
        (Some(_), Some(_)) => ctx.outcome("equation, understood"),
    }
}

/// Repeated signs and unary plus: extensions with an undisputed meaning.
fn liberal(s: &str, env: &Env) -> Option<bool> {
    let mut t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    loop {
        let u = t.replace("--", "").replace("=+", "=").replace("-+", "-").replace("*+", "*");
        if u == t {
            break;
        }
        t = u;
    }
    let (l, r) = read_equation(&t)?;
    let l: Option<Vec<Fr>> = l.iter().map(|t| read_value(t, env)).collect();
    Some(l?.into_iter().sum::<Fr>() == read_value(&r, env)?)
}

fn p06(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let mut v = each_shape(if quick { 1 } else { 2 }, "", move |ctx, e, env| {
        let text = e.text(0);
        means(ctx, &e, &env, &text, false);
    });
    v.push(scenario("spellings", 0, move |ctx| {
        let shape = ctx.choose(SHAPES.len());
        let style = 1 + ctx.choose(4);
        let upper = ctx.flag();
        let (e, env) = gen_equation(ctx, if quick { 0 } else { 1 }, shape);
        let text = e.text(style);
        means(ctx, &e, &env, &text, upper);
    }));
    v.push(scenario("proved", 0, move |ctx| {
        // the whole way: parse, prove, verify
        let mut env = witness([0, 1, 4, 2, 3][ctx.choose(if quick { 3 } else { 5 })]);
        let t = |s: &[(bool, &'static str, u32)]| s.iter().map(|(n, a, p)| fac(*n, a, if *p == 1 { None } else { Some(*p) })).collect::<Term>();
        let lhss: Vec<Vec<Term>> = vec![
            vec![t(&[(false, "x", 1)])],
            vec![t(&[(true, "x", 3)]), t(&[(false, "2", 1)])],
            vec![t(&[(false, "x", 1), (true, "y", 1)]), t(&[(false, "3", 1), (false, "x", 2)]), t(&[(false, "1", 1)])],
            vec![t(&[(false, "x", 0)]), t(&[(false, "y", 1)]), t(&[(true, "x1", 1)]), t(&[(false, "ab", 2)])],
            vec![t(&[(false, "0", 1)])],
            vec![t(&[(false, "12", 2), (false, "x", 2), (false, "y", 1)]), t(&[(false, "y", 1), (false, "x", 1)])],
        ];
        let lhs = ctx.pick(&lhss).clone();
        let rhs = gen_rhs(ctx, &lhs, &mut env, 11);
        let e = Equation { lhs, rhs };
        let text = e.text(ctx.choose(2));
        let truth = means(ctx, &e, &env, &text, false);
        let cc = compile(ctx, &parser(&env, false), &text);
        getrandom::mc_seed(7);
        let s = srs(big(), cc.size);
        let r = guard(|| generate_proof::<Sha256>(&cc, s.clone()));
        match r {
            Ok(p) => {
                let ok = ctx.must("verify", || verify::<Sha256>(&cc, s, p)).is_ok();
                ctx.check(ok == truth, if truth { "true-rejected" } else { "false-accepted" }, || format!("'{}' is {} for {:?}, its proof is {}", text, truth, env, if ok { "accepted" } else { "rejected" }));
            }
            Err(m) => ctx.check(!truth, "true-unprovable", || format!("'{}' holds for {:?} but cannot be proved: {}", text, env, m)),
        }
    }));
    v.push(scenario("every-magnitude", 0, move |ctx| {
        // a witness value of every magnitude; the equation holds, or nearly does
        const TEXTS: [&str; 8] = ["x=z", "x+y=z", "x*y=z", "x^2+y=z", "-x*3=z", "x^5+-y*x=z", "x*y+y*x+7=z", "z+x=y"];
        let text = *ctx.pick(&TEXTS);
        let x = *ctx.pick(&wide::<_, 4>());
        let mut env: Env = [("x", x), ("y", *ctx.pick(&[fr(5), big()])), ("z", Fr::zero())].into();
        let (l, r) = read_equation(text).unwrap();
        let gap = |env: &Env| l.iter().map(|t| read_value(t, env).unwrap()).sum::<Fr>() - read_value(&r, env).unwrap();
        let z = if gap(&env).is_zero() { Fr::zero() } else if text.starts_with('z') { -gap(&env) } else { gap(&env) };
        let near = nearest(z);
        let k = ctx.choose(near.len() + 1);
        env.insert("z", if k == 0 { z } else { near[k - 1] });
        let truth = gap(&env).is_zero();
        ctx.check(truth == (k == 0), "reference", || "the reference disagrees with itself".into());
        let t = Table::read(&compile(ctx, &parser(&env, false), text));
        ctx.step((text, t.n, truth, fs(&[env["x"], env["z"]])));
        ctx.note(|| format!("'{}' for {:?} is {}", text, env, truth));
        ctx.check(t.satisfied() == truth, if truth { "true-unsatisfied" } else { "false-satisfied" }, || format!("'{}' is {} for {:?}, its circuit says otherwise: {}", text, truth, env, t.show()));
        ctx.outcome(if truth { "true" } else { "nearly true" });
    }));
    v.push(scenario("one-parser-many-equations", 0, move |ctx| {
        // what was parsed or known before leaves no trace
        const TEXTS: [&str; 7] = ["x=2", "x+y=5", "x*y=6", "X^3 = 8", "x+1=y", "-x*y=-y*x", "2*y=x"];
        let mut env: Env = [("x", fr(2)), ("y", fr(3))].into();
        let mut p = parser(&env, false);
        let n = ctx.range(1, if quick { 4 } else { 5 });
        for _ in 0..n {
            match ctx.choose(TEXTS.len() + 3) {
                0 => {
                    p.add_witness("x", fr(5));
                    env.insert("x", fr(5));
                }
                1 => {
                    p.add_witness("Y", fr(2));
                    env.insert("y", fr(2));
                }
                2 => drop(guard(|| p.parse("x+"))),
                i => {
                    let text = TEXTS[i - 3];
                    let (l, r) = read_equation(text).unwrap();
                    let truth = l.iter().map(|t| read_value(t, &env).unwrap()).sum::<Fr>() == read_value(&r, &env).unwrap();
                    let t = Table::read(&compile(ctx, &p, text));
                    ctx.step((text, t.n, truth, fs(&[env["x"], env["y"]])));
                    ctx.note(|| format!("'{}' for {:?}", text, env));
                    ctx.check(t.satisfied() == truth, "history", || format!("'{}' is {} for {:?}, its circuit from a parser used before says otherwise: {}", text, truth, env, t.show()));
                }
            }
        }
        ctx.outcome(format!("{} operations", n));
    }));
    v.push(scenario("malformed", 0, move |ctx| {
        let strs = [
            "", "=", "x", "x=", "=x", "x==x", "x=y=x", "x+=x", "+x=x", "x*=x", "*x=x", "x**y=6", "x^y=8", "x^=x", "^2=4", "x^-1=2", "x-y=1", "y-x=1",
            "2x=4", "x2=4", "(x)=2", "x/1=2", "x=1+1", "x=y+1", "y=x+1", "x^2^2=16", "x^2^3=64", "x^2^1=4", "q=1", "x+q=3", "x*q=2", "q^0=1", "x=q",
            "99999999999=1", "2147483648=1", "2147483647=2147483647", "x^99999999999=1", "x.y=6", "x,y=6", "x=2;", "x=2 ", " x = 2", "x\t=2", "x y=6",
            "--x=2", "x=--2", "x+-y=-1", "x*--y=6", "-x=-2", "-x=2", "x=-2", "+=", "x++y=5", "x+ +y=5", "x - 0 = 2", "x=2-0", "1=2-1", "3-1=2", "x=+2",
            "0x2=2", "x!=3", "x<3", "x=2=2", "x\u{b2}=4", "\u{663}=3", "\u{661}+x=3", "x^\u{662}=4", "X=2", "ab+x1=12",
        ];
        let s = *ctx.pick(&strs);
        let pat = ctx.choose(2);
        judge_string(ctx, s, &witness(pat));
    }));
    v.push(scenario("token-strings", 0, move |ctx| {
        let toks = ["x", "2", "+", "-", "*", "^", "="];
        let n = ctx.range(1, if quick { 6 } else { 7 });
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(ctx.pick(&toks));
        }
        if s.matches('=').count() != 1 && ctx.quick() && n > 4 {
            ctx.prune(); // refused for that alone; the short ones show it
        }
        let env: Env = [("x", fr(2)), ("x2", fr(5)), ("x22", fr(9))].into();
        judge_string(ctx, &s, &env);
    }));
    v
}

// --------------------------------------------------------------------- P07
#[derive(Clone, Copy, PartialEq, Debug)]
enum Row {
    Add,
    Mul,
    Const(Fr),
    Idle,
}

fn rows(t: &Table) -> Result<Vec<Row>, String> {
    let (o, z) = (Fr::one(), Fr::zero());
    (0..t.n)
        .map(|i| {
            let q = [t.q[0][i], t.q[1][i], t.q[2][i], t.q[3][i]];
            let (c, pi) = (t.q[4][i], t.pi[i]);
            if !pi.is_zero() {
                return Err(format!("row {} carries a public input", i));
            }
            if q == [o, o, -o, z] && c.is_zero() {
                Ok(Row::Add)
            } else if q == [z, z, -o, o] && c.is_zero() {
                Ok(Row::Mul)
            } else if q == [o, z, z, z] {
                Ok(Row::Const(-c))
            } else if q == [z; 4] && c.is_zero() {
                Ok(Row::Idle)
            } else {
                Err(format!("row {} is no gate of the language", i))
            }
        })
        .collect()
}

/// The circuit as a system of equations over sigma's classes.
struct System {
    rows: Vec<Row>,
    cl: Vec<usize>,
    n: usize,
    /// classes no constraint determines, that constraints use
    free: Vec<usize>,
    out: usize,
}

impl System {
    fn of(t: &Table) -> Result<System, String> {
        let cl = t.classes().ok_or("sigma is no permutation of the cells")?;
        let rows = rows(t)?;
        let n = t.n;
        let last = rows.iter().rposition(|r| *r != Row::Idle).ok_or("no gate")?;
        if !matches!(rows[last], Row::Add) {
            return Err("the last gate does not add up the equation".into());
        }
        let at = |j: usize, i: usize| cl[j * n + i];
        let mut known: Vec<bool> = vec![false; 3 * n];
        for (i, r) in rows.iter().enumerate() {
            match r {
                Row::Const(_) => known[at(0, i)] = true,
                Row::Add | Row::Mul => known[at(2, i)] = true,
                Row::Idle => {}
            }
        }
        let mut free: Vec<usize> = rows
            .iter()
            .enumerate()
            .filter(|(_, r)| matches!(r, Row::Add | Row::Mul))
            .flat_map(|(i, _)| [at(0, i), at(1, i)])
            .filter(|c| !known[*c])
            .collect();
        free.sort();
        free.dedup();
        Ok(System { out: at(2, last), rows, cl, n, free })
    }
    /// Values of the determined classes, given the free ones.
    fn solve(&self, given: &[(usize, Fr)]) -> Result<BTreeMap<usize, Fr>, String> {
        let at = |j: usize, i: usize| self.cl[j * self.n + i];
        let mut v: BTreeMap<usize, Fr> = given.iter().copied().collect();
        let mut done = vec![false; self.n];
        loop {
            let mut moved = false;
            for i in 0..self.n {
                if done[i] {
                    continue;
                }
                let (a, b) = (v.get(&at(0, i)).copied(), v.get(&at(1, i)).copied());
                let (c, x) = match self.rows[i] {
                    Row::Idle => {
                        done[i] = true;
                        continue;
                    }
                    Row::Const(k) => (at(0, i), k),
                    Row::Add => match (a, b) {
                        (Some(a), Some(b)) => (at(2, i), a + b),
                        _ => continue,
                    },
                    Row::Mul => match (a, b) {
                        (Some(a), Some(b)) => (at(2, i), a * b),
                        _ => continue,
                    },
                };
                done[i] = true;
                moved = true;
                if let Some(old) = v.insert(c, x) {
                    if old != x {
                        return Err(format!("row {} contradicts the others", i));
                    }
                }
            }
            if !moved {
                break;
            }
        }
        if done.iter().all(|d| *d) {
            Ok(v)
        } else {
            Err("some gates feed on themselves".into())
        }
    }
}

fn generic(i: usize) -> Fr {
    big() * Fr::from(i as u64 + 3) + Fr::from(1_000_003 * (i as u64 + 1))
}

fn enforced(ctx: &mut Ctx, e: &Equation, env: &Env) {
    let text = e.text(0);
    // generic witness: every variable recognisable by its value
    let names: Vec<&str> = env.keys().copied().collect();
    let mut p = Parser::default();
    for (i, v) in names.iter().enumerate() {
        p.add_witness(v, generic(i));
    }
    let t = Table::read(&compile(ctx, &p, &text));
    ctx.step((text.clone(), t.n));
    ctx.note(|| format!("'{}' compiles to {}", text, t.show()));
    let sys = match System::of(&t) {
        Ok(s) => s,
        Err(m) => ctx.fail("malformed-circuit", format!("'{}': {}: {}", text, m, t.show())),
    };
    // the free classes are exactly the variables, one class each
    let mut var_of = vec![];
    for c in &sys.free {
        let x = t.w[c / t.n][c % t.n];
        match (0..names.len()).find(|i| generic(*i) == x) {
            Some(i) if var_of.contains(&names[i]) => {
                ctx.fail("variable-split", format!("'{}': the occurrences of {} are not tied together: {}", text, names[i], t.show()))
            }
            Some(i) => var_of.push(names[i]),
            None => ctx.fail("loose-cell", format!("'{}': an operand that is no variable is left undetermined: {}", text, t.show())),
        }
    }
    let mut used = var_of.clone();
    used.sort();
    if used != e.vars() {
        ctx.fail("variables", format!("'{}' uses {:?}, its circuit leaves {:?} to the prover: {}", text, e.vars(), used, t.show()));
    }
    // every assignment: the result cell is forced to be the gap
    let k = ctx.by_tier(4, 5);
    let alphabet = [Fr::zero(), Fr::one(), -Fr::one(), big(), Fr::from(2u64)];
    let m = var_of.len();
    // (with many variables: each one in turn, the others generic)
    let many = m > 5;
    let all = if many { k * m } else { k.pow(m as u32) };
    for mut a in 0..all + 1 {
        let generic_pass = a == all;
        let turn = (many && !generic_pass).then_some((a / k, a % k));
        let mut given = vec![];
        for (j, c) in sys.free.iter().enumerate() {
            let x = match turn {
                Some((i, l)) if i == j => alphabet[l],
                None if !generic_pass => alphabet[a % k],
                _ => generic(j + 20),
            };
            a /= k;
            given.push((*c, x));
        }
        let val = |n: &str| var_of.iter().position(|v| *v == n).map(|i| given[i].1).unwrap_or_else(Fr::zero);
        let gap = e.gap(&val);
        match sys.solve(&given) {
            Err(m) => ctx.fail("over-constrained", format!("'{}': {} for {:?}={}", text, m, var_of, fs(&given.iter().map(|g| g.1).collect::<Vec<_>>()))),
            Ok(v) => {
                let out = v[&sys.out];
                if out != gap {
                    ctx.fail(
                        "wrong-constraints",
                        format!("'{}': for {:?}={} the constraints force the result to {}, the equation to {}", text, var_of, fs(&given.iter().map(|g| g.1).collect::<Vec<_>>()), fs(&[out]), fs(&[gap])),
                    );
                }
            }
        }
        ctx.step((text.clone(), a, generic_pass));
    }
    ctx.outcome("forced");
}

fn p07(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let mut v = each_shape(if quick { 1 } else { 2 }, "", move |ctx, e, env| enforced(ctx, &e, &env));
    v.push(scenario("false-equations-attacked", 0, move |ctx| {
        // The verifier's circuit for a false equation; the prover may fill in
        // any values: the honest ones, changed in one cell or one class.
        let texts = ["3=4", "0=1", "x=7", "x+y=1", "x*y+1=0", "-x^2=y", "x*x*x+y=9", "x+1=x", "2*x=2*y"];
        let text = *ctx.pick(if quick { &texts[..6] } else { &texts[..] });
        let env: Env = [("x", fr(2)), ("y", fr(3))].into();
        let cc = compile(ctx, &parser(&env, false), text);
        let honest = Table::read(&cc);
        let sys = match System::of(&honest) {
            Ok(s) => s,
            Err(m) => ctx.fail("malformed-circuit", format!("'{}': {}", text, m)),
        };
        let mut classes: Vec<usize> = sys.cl.clone();
        classes.sort();
        classes.dedup();
        let target = *ctx.pick(&classes);
        // the value that would make each row it is in hold, and a few others
        let row = (0..honest.n).filter(|i| (0..3).any(|j| sys.cl[j * honest.n + i] == target)).collect::<Vec<_>>();
        let i = *ctx.pick(&row);
        let delta = honest.gate(i);
        let d = match ctx.choose(3) {
            0 => delta,
            1 => -delta,
            _ => Fr::one(),
        };
        let whole = ctx.flag();
        let mut t = honest.clone();
        for c in 0..3 * t.n {
            let hit = if whole { sys.cl[c] == target } else { c == target };
            if hit {
                t.w[c / t.n][c % t.n] += d;
            }
        }
        ctx.step((text, target, i, fs(&[d]), whole));
        let forged = super::plonk_p::swap_wires(&cc, &t);
        getrandom::mc_seed(7);
        let s = srs(big(), t.n);
        let Ok(proof) = guard(|| generate_proof::<Sha256>(&forged, s.clone())) else {
            ctx.outcome("no proof");
            return;
        };
        let ok = ctx.must("verify", || verify::<Sha256>(&cc, s, proof)).is_ok();
        if ok && d.is_zero() {
            ctx.fail("false-accepted", format!("the honest witness proves the false '{}'", text));
        }
        if ok {
            // an assignment of the variables under which the equation does hold is fine
            let moved = sys.free.contains(&target);
            let sound = moved && t.w[sys.out / t.n][sys.out % t.n].is_zero() && t.satisfied();
            if sound {
                ctx.outcome("another witness");
                return;
            }
            let only_out = t.satisfied() && (0..3 * t.n).all(|c| sys.cl[c] == sys.out || t.w[c / t.n][c % t.n] == honest.w[c / t.n][c % t.n]);
            ctx.fail(
                if only_out { "output-not-forced" } else { "forged" },
                format!("'{}' is proved with the cell that should hold 0 holding {}: {}", text, fs(&[t.w[sys.out / t.n][sys.out % t.n]]), t.show()),
            );
        }
        ctx.outcome("rejected");
    }));
    v
}

// --------------------------------------------------------------------- P08
fn cpi(text: &str, n: usize) -> Result<CommonPreprocessedInput, String> {
    let scheme = KzgScheme::new(srs(big(), n));
    guard(|| CPIGenerator::default().compute_common_preprocessed_input(text, scheme)).and_then(|r| r)
}

fn same_as_parser(ctx: &mut Ctx, e: &Equation, env: &Env, text: &str) {
    let mut want: Option<Table> = None;
    for k in 0..3 {
        let mut p = Parser::default();
        for (i, (v, x)) in env.iter().enumerate() {
            p.add_witness(v, [*x, generic(i), Fr::zero()][k]);
        }
        let t = Table::read(&compile(ctx, &p, text));
        if let Some(w) = &want {
            // nothing but the wires may depend on the witness
            let mut t = t.clone();
            t.w = w.w.clone();
            ctx.check(t == *w, "depends-on-witness", || format!("the circuit of '{}' depends on the witness: {} against {}", text, t.show(), w.show()));
        } else {
            want = Some(t);
        }
    }
    let t = want.unwrap();
    let extra = ctx.by_tier(0, 0) + (e.lhs.len() % 2);
    let c = match cpi(text, t.n + extra) {
        Ok(c) => c,
        Err(m) => ctx.fail("no-input", format!("no preprocessed input for '{}': {}", text, m)),
    };
    ctx.step((text.to_string(), c.n));
    let com = |v: &Vec<Fr>| eval(&interpolate(v), big());
    let got: [(&str, &KzgCommitment, Fr); 8] = [
        ("q_l", &c.com_q_lx, com(&t.q[0])),
        ("q_r", &c.com_q_rx, com(&t.q[1])),
        ("q_o", &c.com_q_ox, com(&t.q[2])),
        ("q_m", &c.com_q_mx, com(&t.q[3])),
        ("q_c", &c.com_q_cx, com(&t.q[4])),
        ("s_sigma_1", &c.com_s_sigma_1, com(&t.sig[0])),
        ("s_sigma_2", &c.com_s_sigma_2, com(&t.sig[1])),
        ("s_sigma_3", &c.com_s_sigma_3, com(&t.sig[2])),
    ];
    for (name, have, want) in got {
        ctx.check(*have.inner() == g1(want), "commitment", || format!("the commitment to {} of '{}' is not the one of its circuit {}", name, text, t.show()));
    }
    ctx.check(c.n == t.n, "size", || format!("'{}': size {} against {}", text, c.n, t.n));
    ctx.check([c.k1, c.k2] == t.k, "coset", || format!("'{}': coset factors {} against {}", text, fs(&[c.k1, c.k2]), fs(&t.k)));
    let pi: Vec<Fr> = roots(t.n).iter().map(|x| eval(&c.pi_x.coeffs, *x)).collect();
    ctx.check(pi == t.pi && c.pi_x.coeffs.len() <= t.n, "public-inputs", || format!("'{}': public inputs {} against {}", text, fs(&pi), fs(&t.pi)));
    ctx.outcome("agree");
}

fn p08(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let mut v = each_shape(if quick { 0 } else { 1 }, "", move |ctx, e, env| {
        let text = e.text(0);
        same_as_parser(ctx, &e, &env, &text);
    });
    v.push(scenario("spellings", 0, move |ctx| {
        let shape = if quick { [0, 3][ctx.choose(2)] } else { ctx.choose(SHAPES.len()) };
        let style = 1 + if quick { 1 + 2 * ctx.choose(2) } else { ctx.choose(4) };
        let (e, env) = gen_equation(ctx, 0, shape);
        let text = e.text(style);
        same_as_parser(ctx, &e, &env, &text);
    }));
    v.push(scenario("token-strings", 0, move |ctx| {
        // both readers refuse the same strings (names need no value here)
        let toks = ["x", "2", "+", "-", "*", "^", "="];
        let n = ctx.range(1, if quick { 6 } else { 7 });
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(ctx.pick(&toks));
        }
        if s.matches('=').count() != 1 && n > 4 {
            ctx.prune();
        }
        let env: Env = [("x", fr(2)), ("x2", fr(5)), ("x22", fr(9))].into();
        let eq = read_equation(&s);
        let known = eq.is_some_and(|(l, r)| l.iter().chain([&r]).flatten().all(|f| is_num(&f.1) || env.contains_key(f.1.as_str())));
        ctx.step(s.clone());
        if !known {
            ctx.outcome("not an equation");
            return;
        }
        let e = Equation { lhs: vec![], rhs: vec![] };
        same_as_parser(ctx, &e, &env, &s);
    }));
    v
}
