//! The stand-alone transcripts (FRI's and Nova's) as state machines.
use super::kzg_p::{big, g1};
use super::Prop;
use crate::core::*;
use crate::util::*;
use ark_bls12_381::Fr;
use ark_ff::{One, PrimeField, Zero};
use ark_serialize::CanonicalSerialize;
use fri::fields::goldilocks::Fq;
use kzg::commitment::KzgCommitment;
use rand::{rngs::StdRng, SeedableRng};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "T01",
        bounds: "every sequence of up to 5 (6 thorough) operations {absorb one of four messages, draw 1, 2 or a list of challenges, copy} on each transcript, with real and recording hashes, against a reference; histories of up to 300 (1000 thorough) absorptions followed by draws of up to 300 (1000) challenges; every pair of absorption histories of length up to 3 compared; messages of every magnitude at each of three places; messages differing in one machine word or bit, points in sign or in an automorphism, compared",
        assumptions: &["collisions of the first 64 bits of SHA-2 are not covered"],
        scenarios: t01,
    }]
}

/// Reference: the running digest and whether a draw is allowed.
#[derive(Clone, Default)]
struct Ref {
    data: Vec<u8>,
    index: u64,
    fed: bool,
}

fn digest10<D: digest::Digest>(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = D::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
fn digest11<D: digest_11::Digest>(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = D::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}

fn draw<F: PrimeField>(data: &[u8], n: usize) -> Vec<F> {
    let mut rng = StdRng::seed_from_u64(u64::from_le_bytes(data[..8].try_into().unwrap()));
    (0..n).map(|_| F::rand(&mut rng)).collect()
}

fn nova<D: digest::Digest + Default + Clone>(ctx: &mut Ctx, depth: usize) {
    type T<D> = nova::transcript::Transcript<D>;
    let pts = [g1(Fr::one()), g1(Fr::zero())];
    let nums = [Fr::zero(), big()];
    let mut t = T::<D>::default();
    let mut r = Ref::default();
    // seeded constructors, or an empty transcript
    let start = ctx.choose(3);
    let ser = |x: &dyn Fn(&mut Vec<u8>)| {
        let mut b = vec![];
        x(&mut b);
        b
    };
    let pt = |k: usize| ser(&|b| pts[k].serialize_uncompressed(b).unwrap());
    let nu = |k: usize| ser(&|b| nums[k].serialize_uncompressed(b).unwrap());
    let feed = |r: &mut Ref, m: &[u8]| {
        r.data = digest10::<D>(&[&r.data, m]);
        r.fed = true;
    };
    match start {
        1 => {
            t = T::<D>::from_commitment(&[KzgCommitment(pts[0]), KzgCommitment(pts[1])]);
            feed(&mut r, &pt(0));
            feed(&mut r, &pt(1));
        }
        2 => {
            t = T::<D>::from_scalar_number(&[nums[1], nums[0]]);
            feed(&mut r, &nu(1));
            feed(&mut r, &nu(0));
        }
        _ => {}
    }
    let mut saved: Option<(T<D>, Ref)> = None;
    let mut hist = vec![100 + start];
    for _ in 0..depth {
        let op = ctx.choose(9);
        if op == 8 {
            break;
        }
        hist.push(op);
        match op {
            0 | 1 => {
                t.feed(&KzgCommitment(pts[op]));
                feed(&mut r, &pt(op));
            }
            2 | 3 => {
                t.feed_scalar_num(nums[op - 2]);
                feed(&mut r, &nu(op - 2));
            }
            4 | 5 => {
                let n = op - 3;
                let got: Result<Vec<Fr>, String> = if n == 1 { guard(|| t.generate_challenges::<1>().to_vec()) } else { guard(|| t.generate_challenges::<2>().to_vec()) };
                if !finish_draw(ctx, &hist, &mut r, got, |d| draw::<Fr>(d, n)) {
                    return;
                }
            }
            6 => saved = Some((t.clone(), r.clone())),
            _ => match saved.take() {
                // continue with the copy instead: it must not have moved
                Some((u, s)) => (t, r) = (u, s),
                None => ctx.prune(),
            },
        }
        ctx.step(&hist);
    }
    ctx.outcome("nova");
}

/// False when the draw was rightly refused.
fn finish_draw<T: PartialEq + std::fmt::Debug>(ctx: &mut Ctx, hist: &[usize], r: &mut Ref, got: Result<T, String>, want: impl Fn(&[u8]) -> T) -> bool {
    match (r.fed, got) {
        (true, Ok(g)) => {
            let w = want(&r.data);
            ctx.check(g == w, "challenge", || format!("{:?}: challenges {:?} instead of {:?}", hist, g, w));
            r.fed = false;
            true
        }
        (false, Err(_)) => {
            ctx.step(hist);
            ctx.outcome("drawn without anything new: refused");
            false
        }
        (true, Err(e)) => ctx.fail("refused", format!("{:?}: draw after absorbing refused: {}", hist, e)),
        (false, Ok(_)) => ctx.fail("redrawn", format!("{:?}: challenges drawn twice from the same messages", hist)),
    }
}

fn fri_t<D: digest_11::Digest + Default + Clone, F: PrimeField>(ctx: &mut Ctx, depth: usize) {
    type T<D, F> = fri::fiat_shamir::transcript::Transcript<D, F>;
    let msgs = [F::zero(), F::one(), -F::one(), F::from(12u64)];
    let text = |x: F| if x.is_zero() { "0".to_string() } else { x.to_string() };
    let feed = |r: &mut Ref, m: F| {
        // zero prints as the empty string in ark-ff 0.4
        let _ = text;
        r.data = digest11::<D>(&[&r.data, &r.index.to_le_bytes(), m.to_string().as_bytes()]);
        r.index += 1;
        r.fed = true;
    };
    let first = *ctx.pick(&msgs);
    let mut t = T::<D, F>::new(first);
    let mut r = Ref::default();
    feed(&mut r, first);
    let mut saved: Option<(T<D, F>, Ref)> = None;
    let mut hist = vec![200];
    for _ in 0..depth {
        let op = ctx.choose(10);
        if op == 9 {
            break;
        }
        hist.push(op);
        match op {
            0..=3 => {
                t.digest(msgs[op]);
                feed(&mut r, msgs[op]);
            }
            4 => {
                let got = guard(|| t.generate_a_challenge());
                if !finish_draw(ctx, &hist, &mut r, got, |d| draw::<F>(d, 1)[0]) {
                    return;
                }
            }
            5 => {
                let got = guard(|| t.generate_challenges(3));
                if !finish_draw(ctx, &hist, &mut r, got, |d| draw::<F>(d, 3)) {
                    return;
                }
            }
            6 => {
                let got = guard(|| t.generate_challenge_list_usize(2));
                let want = |d: &[u8]| draw::<F>(d, 2).into_iter().map(|x| x.into_bigint().as_ref()[0] as usize).collect::<Vec<_>>();
                if !finish_draw(ctx, &hist, &mut r, got, want) {
                    return;
                }
            }
            7 => saved = Some((t.clone(), r.clone())),
            _ => match saved.take() {
                Some((u, s)) => (t, r) = (u, s),
                None => ctx.prune(),
            },
        }
        ctx.step(&hist);
    }
    ctx.outcome("fri");
}

fn t01(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let depth = if quick { 5 } else { 6 };
    vec![
        scenario("folding-transcript", 0, move |ctx| {
            if ctx.flag() {
                oracle_reset(vec![]);
                nova::<Ro10>(ctx, depth - 1)
            } else {
                nova::<sha2::Sha256>(ctx, depth)
            }
        }),
        scenario("fri-transcript", 0, move |ctx| {
            if ctx.flag() {
                oracle_reset(vec![]);
                fri_t::<Ro11, F17>(ctx, depth - 1)
            } else {
                fri_t::<sha2_11::Sha256, Fq>(ctx, depth)
            }
        }),
        scenario("long-absorptions", 0, move |ctx| {
            // many messages before a draw, and long lists of challenges
            let n = *ctx.pick(if quick { &[1, 9, 33, 300, 66_000][..] } else { &[1, 8, 9, 31, 33, 65, 255, 257, 300, 1000, 66_000] });
            let len = *ctx.pick(if quick { &[0, 1, 9, 33, 300, 66_000][..] } else { &[0, 1, 2, 7, 8, 9, 16, 17, 31, 33, 64, 65, 129, 255, 257, 300, 1000, 66_000] });
            if n * len > 20_000_000 {
                ctx.prune()
            }
            let ro = ctx.flag();
            macro_rules! fri_long {
                ($d:ty, $f:ty, $usize:expr) => {{
                    let v = |i: usize| <$f>::from(i as u64 * 3 + 1);
                    let mut t = fri::fiat_shamir::transcript::Transcript::<$d, $f>::new(v(0));
                    let mut data = digest11::<$d>(&[&[], &0u64.to_le_bytes(), v(0).to_string().as_bytes()]);
                    for round in 0..2usize {
                        for i in 1..n {
                            t.digest(v(i + round));
                            data = digest11::<$d>(&[&data, &((i + round * (n - 1)) as u64).to_le_bytes(), v(i + round).to_string().as_bytes()]);
                        }
                        if round == 1 && n == 1 {
                            break;
                        }
                        let want = draw::<$f>(&data, len);
                        if $usize {
                            let got = ctx.must("generate_challenge_list_usize", || t.generate_challenge_list_usize(len));
                            let want: Vec<usize> = want.iter().map(|x| x.into_bigint().as_ref()[0] as usize).collect();
                            ctx.check(got == want, "challenges", || format!("{} challenges after {} messages: {:?} instead of {:?}", len, n, got, want));
                        } else {
                            let got = ctx.must("generate_challenges", || t.generate_challenges(len));
                            ctx.check(got == want, "challenges", || format!("{} challenges after {} messages: {:?} instead of {:?}", len, n, got, want));
                        }
                    }
                }};
            }
            match ctx.choose(3) {
                0 => {
                    let u = ctx.flag();
                    if ro {
                        oracle_reset(vec![]);
                        fri_long!(Ro11, F17, u)
                    } else {
                        fri_long!(sha2_11::Sha256, Fq, u)
                    }
                }
                1 => fri_long!(sha2_11::Sha512, Fr, ctx.flag()),
                _ => {
                    let mut t = nova::transcript::Transcript::<sha2::Sha256>::default();
                    let mut data = vec![];
                    for i in 0..n {
                        let mut b = vec![];
                        if i % 3 == 2 {
                            t.feed(&KzgCommitment(g1(Fr::from(i as u64))));
                            g1(Fr::from(i as u64)).serialize_uncompressed(&mut b).unwrap();
                        } else {
                            t.feed_scalar_num(big() * Fr::from(i as u64));
                            (big() * Fr::from(i as u64)).serialize_uncompressed(&mut b).unwrap();
                        }
                        data = digest10::<sha2::Sha256>(&[&data, &b]);
                    }
                    let got = ctx.must("generate_challenges", || match len {
                        0 => vec![],
                        1 => t.generate_challenges::<1>().to_vec(),
                        9 => t.generate_challenges::<9>().to_vec(),
                        33 => t.generate_challenges::<33>().to_vec(),
                        _ => t.generate_challenges::<300>().to_vec(),
                    });
                    let want = draw::<Fr>(&data, got.len());
                    ctx.check(got == want, "challenges", || format!("{} challenges after {} messages", got.len(), n));
                }
            }
            ctx.step((n, len, ro));
            ctx.outcome("long");
        }),
        scenario("every-magnitude", 0, move |ctx| {
            // one message of every magnitude among small ones; many points
            let at = ctx.choose(3);
            let kind = ctx.choose(4);
            macro_rules! fri_wide {
                ($d:ty, $f:ty, $n:expr) => {{
                    let v = *ctx.pick(&wide::<_, $n>());
                    let mut m: Vec<$f> = vec![<$f>::from(3u64), <$f>::from(0u64), <$f>::from(8u64)];
                    m[at] = v;
                    let mut t = fri::fiat_shamir::transcript::Transcript::<$d, $f>::new(m[0]);
                    let mut data = vec![];
                    for (i, x) in m.iter().enumerate() {
                        if i > 0 {
                            t.digest(*x);
                        }
                        data = digest11::<$d>(&[&data, &(i as u64).to_le_bytes(), x.to_string().as_bytes()]);
                    }
                    let got = ctx.must("generate_challenges", || t.generate_challenges(2));
                    ctx.check(got == draw::<$f>(&data, 2), "challenges", || format!("messages {}: {}", fs(&m), fs(&got)));
                    ctx.step((kind, fs(&m)));
                }};
            }
            match kind {
                0 => fri_wide!(sha2_11::Sha256, Fq, 1),
                1 => fri_wide!(sha2_11::Sha512, Fr, 4),
                _ => {
                    let v = *ctx.pick(&wide::<_, 4>());
                    let mut m = [Fr::from(3u64), Fr::from(0u64), Fr::from(8u64)];
                    m[at] = v;
                    let points: Vec<KzgCommitment> = m.iter().map(|x| KzgCommitment(g1(*x))).collect();
                    // fed one by one, or all at once
                    let mut ts = vec![nova::transcript::Transcript::<sha2::Sha512>::default()];
                    let mut data = vec![];
                    for (x, c) in m.iter().zip(&points) {
                        let mut b = vec![];
                        if kind == 2 {
                            ts[0].feed(c);
                            c.0.serialize_uncompressed(&mut b).unwrap();
                        } else {
                            ts[0].feed_scalar_num(*x);
                            x.serialize_uncompressed(&mut b).unwrap();
                        }
                        data = digest10::<sha2::Sha512>(&[&data, &b]);
                    }
                    ts.push(if kind == 2 { nova::transcript::Transcript::from_commitment(&points) } else { nova::transcript::Transcript::from_scalar_number(&m) });
                    for (i, t) in ts.iter_mut().enumerate() {
                        let got = ctx.must("generate_challenges", || t.generate_challenges::<3>());
                        ctx.check(got.to_vec() == draw::<Fr>(&data, 3), "challenges", || format!("{} {} fed {}", ["points", "scalars"][kind - 2], fs(&m), ["one by one", "at once"][i]));
                    }
                    ctx.step((kind, fs(&m)));
                }
            }
            ctx.outcome(format!("kind {}", kind));
        }),
        scenario("close-messages", 0, move |ctx| {
            // messages that differ in a single machine word, or bit
            let v = *ctx.pick(&[Fr::from(5u64), big(), -Fr::from(2u64)]);
            let kind = ctx.choose(3);
            let at = ctx.choose(2);
            let run = |x: Fr| -> String {
                if kind == 0 {
                    let mut t = fri::fiat_shamir::transcript::Transcript::<sha2_11::Sha256, Fr>::new(if at == 0 { x } else { big() });
                    t.digest(if at == 1 { x } else { big() });
                    t.generate_a_challenge().to_string()
                } else {
                    let mut t = nova::transcript::Transcript::<sha2::Sha256>::default();
                    for i in 0..2 {
                        let y = if i == at { x } else { big() };
                        if kind == 1 {
                            t.feed(&KzgCommitment(g1(y)));
                        } else {
                            t.feed_scalar_num(y);
                        }
                    }
                    t.generate_challenges::<1>()[0].to_string()
                }
            };
            let w = *ctx.pick(&close_to(v, kind == 1, false));
            let (x, y) = ctx.must("draw", || (run(v), run(w)));
            ctx.step((kind, at, v.to_string(), w.to_string()));
            ctx.check(x != y, "confused", || format!("kind {} message {}: {} and {} give the same challenge", kind, at, v, w));
            ctx.outcome(format!("kind {}", kind));
        }),
        scenario("histories-told-apart", 0, move |ctx| {
            // two different absorption histories never give the same challenge
            let hist = |ctx: &mut Ctx| -> Vec<usize> { (0..ctx.range(1, 3)).map(|_| ctx.choose(4)).collect() };
            let (a, b) = (hist(ctx), hist(ctx));
            let fri = ctx.flag();
            let run = |h: &[usize]| -> String {
                if fri {
                    let m = [Fq::zero(), Fq::one(), Fq::from(12u64), Fq::from(2u64)];
                    let mut t = fri::fiat_shamir::transcript::Transcript::<sha2_11::Sha256, Fq>::new(m[h[0]]);
                    for k in &h[1..] {
                        t.digest(m[*k]);
                    }
                    t.generate_a_challenge().to_string()
                } else {
                    let mut t = nova::transcript::Transcript::<sha2::Sha256>::default();
                    for k in h {
                        match k {
                            0 | 1 => t.feed(&KzgCommitment(g1(Fr::from(*k as u64)))),
                            _ => t.feed_scalar_num(Fr::from(*k as u64 - 2)),
                        }
                    }
                    t.generate_challenges::<1>()[0].to_string()
                }
            };
            let (x, y) = ctx.must("draw", || (run(&a), run(&b)));
            ctx.step((&a, &b, fri, &x, &y));
            ctx.check((x == y) == (a == b), "confused", || format!("histories {:?} and {:?} give challenges {} and {}", a, b, x, y));
        }),
    ]
}
