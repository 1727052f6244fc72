//! Shared pieces: tiny fields, a programmable random oracle, formatting.
use ark_ff::fields::{Fp64, MontBackend, MontConfig};
use ark_ff::{Field, PrimeField};
use rand::SeedableRng;
use std::cell::RefCell;
use std::collections::HashMap;

macro_rules! tiny_field {
    ($cfg:ident, $name:ident, $m:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $name = Fp64<MontBackend<$cfg, 1>>;
    };
}
#[allow(non_local_definitions)]
mod tiny {
    use super::*;
    tiny_field!(F17Config, F17, "17", "3");
    tiny_field!(F97Config, F97, "97", "5");
    tiny_field!(F193Config, F193, "193", "5");
    tiny_field!(F257Config, F257, "257", "3");
}
pub use tiny::*;

/// The programmable random oracle behind the scripted digests: the k-th
/// *distinct* input is answered with the k-th scripted word (and a hash-derived
/// remainder); repeated inputs get the same answer.
#[derive(Default)]
pub struct Oracle {
    pub script: Vec<u64>,
    pub memo: HashMap<Vec<u8>, [u8; 32]>,
    /// every query in order, with its answer
    pub log: Vec<(Vec<u8>, [u8; 32])>,
}

thread_local! {
    static ORACLE: RefCell<Oracle> = RefCell::new(Oracle::default());
}

pub fn oracle_reset(script: Vec<u64>) {
    ORACLE.with(|o| *o.borrow_mut() = Oracle { script, ..Default::default() });
}
pub fn oracle_log() -> Vec<(Vec<u8>, [u8; 32])> {
    ORACLE.with(|o| o.borrow().log.clone())
}
pub fn oracle_distinct() -> usize {
    ORACLE.with(|o| o.borrow().memo.len())
}

fn oracle_answer(input: &[u8]) -> [u8; 32] {
    ORACLE.with(|o| {
        let mut o = o.borrow_mut();
        let ans = match o.memo.get(input) {
            Some(a) => *a,
            None => {
                use sha2::Digest;
                let mut a: [u8; 32] = sha2::Sha256::digest(input).into();
                let k = o.memo.len();
                if let Some(w) = o.script.get(k) {
                    a[..8].copy_from_slice(&w.to_le_bytes());
                }
                o.memo.insert(input.to_vec(), a);
                a
            }
        };
        o.log.push((input.to_vec(), ans));
        ans
    })
}

macro_rules! scripted_digest {
    ($name:ident, $d:ident, $answer:ident) => {
        #[derive(Clone, Default, Debug)]
        pub struct $name {
            buf: Vec<u8>,
        }
        impl $d::HashMarker for $name {}
        impl $d::OutputSizeUser for $name {
            type OutputSize = $d::consts::U32;
        }
        impl $d::Update for $name {
            fn update(&mut self, data: &[u8]) {
                self.buf.extend_from_slice(data)
            }
        }
        impl $d::FixedOutput for $name {
            fn finalize_into(self, out: &mut $d::Output<Self>) {
                out.copy_from_slice(&$answer(&self.buf));
            }
        }
        impl $d::Reset for $name {
            fn reset(&mut self) {
                self.buf.clear()
            }
        }
        impl $d::FixedOutputReset for $name {
            fn finalize_into_reset(&mut self, out: &mut $d::Output<Self>) {
                out.copy_from_slice(&$answer(&self.buf));
                self.buf.clear()
            }
        }
    };
}
scripted_digest!(Ro11, digest_11, oracle_answer);
scripted_digest!(Ro10, digest, oracle_answer);
scripted_digest!(Tap, digest, tap);

/// Seeds whose first field element drawn from `StdRng` is each of `0..limit`.
pub fn seeds_for<F: PrimeField>(limit: u64) -> Vec<u64> {
    (0..limit)
        .map(|v| {
            let want = F::from(v);
            (0u64..)
                .find(|s| F::rand(&mut rand::rngs::StdRng::seed_from_u64(*s)) == want)
                .unwrap()
        })
        .collect()
}

pub fn fs<F: PrimeField>(xs: &[F]) -> String {
    let v: Vec<String> = xs.iter().map(|x| if x.is_zero() { "0".into() } else { x.to_string() }).collect();
    format!("[{}]", v.join(","))
}

/// Run on a fresh thread, so that thread-local randomness of the code under
/// test (rand's `thread_rng`, std's hash keys) starts from `seed`.
pub fn fresh_thread<T>(seed: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    /// Handed over whole; whether types of the code under test are `Send` is
    /// theirs to choose.
    struct Over<T>(T);
    // SAFETY: the caller does nothing until the thread has ended.
    unsafe impl<T> Send for Over<T> {}
    impl<T> Over<T> {
        fn take(self) -> T {
            self.0
        }
    }
    let f = Over(f);
    let r = std::thread::scope(|s| {
        s.spawn(move || {
            let f = f.take();
            getrandom::mc_seed(seed);
            hash_seed(seed);
            Over(crate::core::guard(f))
        })
        .join()
    });
    r.map_or_else(|_| Err("thread died".into()), Over::take)
}

// std's RandomState asks libc for its keys: own that answer too.
thread_local! {
    static HASHSEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0x1234_5678) };
}
pub fn hash_seed(s: u64) {
    HASHSEED.with(|h| h.set(s));
}

/// Interposes libc's `getrandom` (used by std for `HashMap` keys).
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASHSEED.with(|h| {
        let v = h.get();
        h.set(v.wrapping_add(1));
        v
    });
    for i in 0..len {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        unsafe { *buf.add(i) = (s >> 33) as u8 };
    }
    len as isize
}

// ------------------------------------------------------ elements by their words
use ark_ff::{BigInt, Fp, FpConfig};

fn words<P: FpConfig<N>, const N: usize>(internal: bool, w: [u64; N]) -> Option<Fp<P, N>> {
    let b = BigInt::new(w);
    if b >= Fp::<P, N>::MODULUS {
        return None;
    }
    if internal {
        Some(Fp(b, std::marker::PhantomData))
    } else {
        Fp::<P, N>::from_bigint(b)
    }
}

/// Elements that agree with `v` in every machine word but one, of its value
/// and of its internal (Montgomery) form.
pub fn near<P: FpConfig<N>, const N: usize>(v: Fp<P, N>) -> Vec<Fp<P, N>> {
    let mut out = vec![];
    for internal in [false, true] {
        let base = if internal { v.0 } else { v.into_bigint() };
        for i in 0..N {
            for bit in [0, 33, 61] {
                let mut w = base.0;
                w[i] ^= 1 << bit;
                out.extend(words::<P, N>(internal, w));
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
/// One per word.
pub fn nearest<P: FpConfig<N>, const N: usize>(v: Fp<P, N>) -> Vec<Fp<P, N>> {
    let mut out = vec![];
    for internal in [false, true] {
        let base = if internal { v.0 } else { v.into_bigint() };
        for i in 0..N {
            let w = |bit: u32| {
                let mut w = base.0;
                w[i] ^= 1 << bit;
                words::<P, N>(internal, w)
            };
            out.extend([0, 7, 40].into_iter().find_map(w));
        }
    }
    out
}

/// Elements of every magnitude: every choice of non-zero words, powers of two
/// and their neighbours, the ends of the field, tiny internal forms.
pub fn wide<P: FpConfig<N>, const N: usize>() -> Vec<Fp<P, N>> {
    type E<P, const N: usize> = Fp<P, N>;
    let mut out: Vec<E<P, N>> = vec![];
    for internal in [false, true] {
        for mask in 1u32..1 << N {
            let mut w = [0u64; N];
            for (i, x) in w.iter_mut().enumerate() {
                *x = ((mask >> i) & 1) as u64 * (3 + 11 * i as u64);
            }
            if N <= 4 || mask.count_ones() <= 2 {
                out.extend(words::<P, N>(internal, w));
            }
        }
    }
    let bits = E::<P, N>::MODULUS_BIT_SIZE as u64;
    for k in [1, 7, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 253, 254, 319, 320, 321, bits - 2, bits - 1] {
        if k < bits {
            let p = E::<P, N>::from(2u64).pow([k]);
            out.extend([p, p - E::<P, N>::from(1u64), p + E::<P, N>::from(1u64), -p]);
        }
    }
    let half = E::<P, N>::from(2u64).inverse().unwrap();
    for k in 0..4u64 {
        out.extend([E::<P, N>::from(k), -E::<P, N>::from(k), half + E::<P, N>::from(k), half - E::<P, N>::from(k)]);
    }
    out.sort();
    out.dedup();
    out
}

/// A cube root of one: multiplying a discrete logarithm by it keeps the
/// point's y coordinate (and is another point).
pub fn cube_root<F: PrimeField>() -> F {
    let e = (-F::from(1u64)) * F::from(3u64).inverse().unwrap();
    (2u64..).map(|g| F::from(g).pow(e.into_bigint())).find(|x| !x.is_one()).unwrap()
}

/// What `x` is replaced by: elements that agree with it in all words but one;
/// for a point, its negation and the ones with the same y coordinate.
pub fn close_to(x: ark_bls12_381::Fr, point: bool, quick: bool) -> Vec<ark_bls12_381::Fr> {
    if point {
        let c = cube_root::<ark_bls12_381::Fr>();
        let mut v = vec![-x, x * c, x * c * c, -x * c];
        v.retain(|y| *y != x);
        v
    } else if quick {
        nearest(x)
    } else {
        near(x)
    }
}

thread_local! {
    static TAPS: RefCell<(Vec<Vec<u8>>, usize)> = const { RefCell::new((vec![], usize::MAX)) };
}
/// From now on `Tap` logs the last 96 bytes of what it digests, and gives up
/// (by a panic) at the `limit`-th digest.
pub fn taps_reset(limit: usize) {
    TAPS.with(|t| *t.borrow_mut() = (vec![], limit));
}
pub fn taps() -> Vec<Vec<u8>> {
    TAPS.with(|t| std::mem::take(&mut t.borrow_mut().0))
}
fn tap(input: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    let enough = TAPS.with(|t| {
        let mut t = t.borrow_mut();
        t.0.push(input[input.len().saturating_sub(96)..].to_vec());
        t.0.len() >= t.1
    });
    if enough {
        std::panic::panic_any("enough digests");
    }
    sha2::Sha256::digest(input).into()
}
