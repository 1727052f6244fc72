//! Stand-in for the `getrandom` crate: entropy becomes an answer chosen by the
//! explorer (per thread), so that every execution is a function of its choices.
use std::cell::Cell;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(unsafe { NonZeroU32::new_unchecked(1 << 31) });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "entropy refused by the explorer")
    }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x9E37_79B9_7F4A_7C15) };
    static READS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static REFUSE_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FLIP: Cell<u64> = const { Cell::new(u64::MAX) };
}

fn next() -> u64 {
    STATE.with(|s| {
        let v = s.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        s.set(v);
        let mut z = v;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

/// Start a new entropy stream on this thread.
pub fn mc_seed(seed: u64) {
    STATE.with(|s| s.set(seed.wrapping_mul(0xD129_0247_8A3F_11B7) ^ 0xA5A5));
    READS.with(|r| r.set(0));
    BYTES.with(|r| r.set(0));
    REFUSE_AT.with(|r| r.set(u64::MAX));
    FLIP.with(|r| r.set(u64::MAX));
}
/// This bit of the bytes answered on this thread since `mc_seed` is flipped.
pub fn mc_flip(bit: u64) {
    FLIP.with(|r| r.set(bit));
}
/// The n-th read from now on (0 = the next one) and all later ones fail.
pub fn mc_refuse_from(n: u64) {
    REFUSE_AT.with(|r| r.set(READS.with(|x| x.get()).saturating_add(n)));
}
/// (reads, bytes) answered on this thread since `mc_seed`.
pub fn mc_usage() -> (u64, u64) {
    (READS.with(|r| r.get()), BYTES.with(|b| b.get()))
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let n = READS.with(|r| {
        let n = r.get();
        r.set(n + 1);
        n
    });
    if n >= REFUSE_AT.with(|r| r.get()) {
        return Err(Error::UNSUPPORTED);
    }
    let before = BYTES.with(|b| b.replace(b.get() + dest.len() as u64));
    for chunk in dest.chunks_mut(8) {
        let v = next().to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
    let flip = FLIP.with(|f| f.get());
    if flip / 8 >= before && flip / 8 < before + dest.len() as u64 {
        dest[(flip / 8 - before) as usize] ^= 1 << (flip % 8);
    }
    Ok(())
}

pub fn getrandom_uninit(
    dest: &mut [std::mem::MaybeUninit<u8>],
) -> Result<&mut [u8], Error> {
    for d in dest.iter_mut() {
        d.write(0);
    }
    let out = unsafe { &mut *(dest as *mut [std::mem::MaybeUninit<u8>] as *mut [u8]) };
    getrandom(out)?;
    Ok(out)
}
