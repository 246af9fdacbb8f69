//! Instantiates the public API of rabe-bn behind plain symbols.  The verifier executes these roots symbolically on the
//! LLVM IR rustc emits for them; the replay harness calls the same roots natively.  No logic of its own.
#![allow(clippy::missing_safety_doc)]
use rabe_bn::arith::{U256, U512};
use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};
use rand::distributions::{Distribution, Standard};
use rand::{Error, RngCore};
use std::cmp::Ordering;

/// a random source about which nothing is known
pub struct ExtRng;
extern "C" {
    fn vp_rng_u32() -> u32;
    fn vp_rng_u64() -> u64;
    fn vp_rng_fill(p: *mut u8, n: usize);
}
impl RngCore for ExtRng {
    fn next_u32(&mut self) -> u32 {
        unsafe { vp_rng_u32() }
    }
    fn next_u64(&mut self) -> u64 {
        unsafe { vp_rng_u64() }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        unsafe { vp_rng_fill(dest.as_mut_ptr(), dest.len()) }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

unsafe fn put(v: Vec<u8>, out: *mut u8, cap: usize) -> usize {
    let n = v.len();
    if n <= cap {
        std::ptr::copy_nonoverlapping(v.as_ptr(), out, n);
    }
    n
}
fn ord(o: Option<Ordering>) -> u8 {
    match o {
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
        None => 3,
    }
}
fn obit(o: Option<bool>) -> u8 {
    match o {
        Some(false) => 0,
        Some(true) => 1,
        None => 2,
    }
}
macro_rules! opt {
    ($e:expr, $out:expr) => {
        match $e {
            Some(v) => {
                *$out = v;
                true
            }
            None => false,
        }
    };
}

// ---- scalars
#[no_mangle] pub unsafe extern "C" fn vp_fr_add(a: &Fr, b: &Fr, o: &mut Fr) { *o = *a + *b }
#[no_mangle] pub unsafe extern "C" fn vp_fr_sub(a: &Fr, b: &Fr, o: &mut Fr) { *o = *a - *b }
#[no_mangle] pub unsafe extern "C" fn vp_fr_mul(a: &Fr, b: &Fr, o: &mut Fr) { *o = *a * *b }
#[no_mangle] pub unsafe extern "C" fn vp_fr_neg(a: &Fr, o: &mut Fr) { *o = -*a }
#[no_mangle] pub unsafe extern "C" fn vp_fr_zero(o: &mut Fr) { *o = Fr::zero() }
#[no_mangle] pub unsafe extern "C" fn vp_fr_one(o: &mut Fr) { *o = Fr::one() }
#[no_mangle] pub unsafe extern "C" fn vp_fr_eq(a: &Fr, b: &Fr) -> bool { *a == *b }
#[no_mangle] pub unsafe extern "C" fn vp_fr_is_zero(a: &Fr) -> bool { a.is_zero() }
#[no_mangle] pub unsafe extern "C" fn vp_fr_inverse(a: &Fr, o: &mut Fr) -> bool { opt!(a.inverse(), o) }
#[no_mangle] pub unsafe extern "C" fn vp_fr_pow(a: &Fr, e: &Fr, o: &mut Fr) { *o = a.pow(*e) }
#[no_mangle] pub unsafe extern "C" fn vp_fr_from_slice(p: *const u8, n: usize, o: &mut Fr) -> bool {
    opt!(Fr::from_slice(std::slice::from_raw_parts(p, n)).ok(), o)
}
#[no_mangle] pub unsafe extern "C" fn vp_fr_interpret(b: &[u8; 64], o: &mut Fr) { *o = Fr::interpret(b) }
#[no_mangle] pub unsafe extern "C" fn vp_fr_new_mul_factor(a: &U256, o: &mut Fr) { *o = Fr::new_mul_factor(*a) }
#[no_mangle] pub unsafe extern "C" fn vp_fr_from_str(p: *const u8, n: usize, o: &mut Fr) -> bool {
    opt!(Fr::from_str(std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))), o)
}
#[no_mangle] pub unsafe extern "C" fn vp_fr_into_bytes(a: &Fr, o: *mut u8, cap: usize) -> usize { put(a.into_bytes(), o, cap) }
#[no_mangle] pub unsafe extern "C" fn vp_fr_vec(a: &Fr, o: *mut u8, cap: usize) -> usize { put(Vec::<u8>::from(*a), o, cap) }
#[no_mangle] pub unsafe extern "C" fn vp_fr_sample(o: &mut Fr) { *o = Standard.sample(&mut ExtRng) }

// ---- wide integers
#[no_mangle] pub unsafe extern "C" fn vp_u512_divrem(n: &U512, m: &U256, q: &mut U256, r: &mut U256) -> bool {
    let (qq, rr) = n.divrem(m);
    *r = rr;
    opt!(qq, q)
}
#[no_mangle] pub unsafe extern "C" fn vp_u512_from(c1: &U256, c0: &U256, m: &U256, o: &mut U512) { *o = U512::from(c1, c0, m) }
#[no_mangle] pub unsafe extern "C" fn vp_u512_interpret(b: &[u8; 64], o: &mut U512) { *o = U512::interpret(b) }
#[no_mangle] pub unsafe extern "C" fn vp_u512_get_bit(a: &U512, n: usize) -> u8 { obit(a.get_bit(n)) }
#[no_mangle] pub unsafe extern "C" fn vp_u512_random(o: &mut U512) { *o = U512::random(&mut ExtRng) }
#[no_mangle] pub unsafe extern "C" fn vp_u256_random(m: &U256, o: &mut U256) { *o = U256::random(&mut ExtRng, m) }
#[no_mangle] pub unsafe extern "C" fn vp_u256_cmp(a: &U256, b: &U256) -> u8 { ord(Some(a.cmp(b))) }
#[no_mangle] pub unsafe extern "C" fn vp_u256_partial_cmp(a: &U256, b: &U256) -> u8 { ord(a.partial_cmp(b)) }
#[no_mangle] pub unsafe extern "C" fn vp_u256_lt(a: &U256, b: &U256) -> bool { a < b }
#[no_mangle] pub unsafe extern "C" fn vp_u256_le(a: &U256, b: &U256) -> bool { a <= b }
#[no_mangle] pub unsafe extern "C" fn vp_u256_gt(a: &U256, b: &U256) -> bool { a > b }
#[no_mangle] pub unsafe extern "C" fn vp_u256_ge(a: &U256, b: &U256) -> bool { a >= b }
#[no_mangle] pub unsafe extern "C" fn vp_u256_eq(a: &U256, b: &U256) -> bool { a == b }
#[no_mangle] pub unsafe extern "C" fn vp_u256_get_bit(a: &U256, n: usize) -> u8 { obit(a.get_bit(n)) }
#[no_mangle] pub unsafe extern "C" fn vp_u256_set_bit(a: &mut U256, n: usize, to: bool) -> bool { a.set_bit(n, to) }
#[no_mangle] pub unsafe extern "C" fn vp_u256_bits(a: &U256, o: *mut u8) -> usize {
    let mut n = 0;
    for b in a.bits() {
        *o.add(n) = b as u8;
        n += 1;
    }
    n
}
#[no_mangle] pub unsafe extern "C" fn vp_u256_is_zero(a: &U256) -> bool { a.is_zero() }
#[no_mangle] pub unsafe extern "C" fn vp_u256_is_even(a: &U256) -> bool { a.is_even() }
#[no_mangle] pub unsafe extern "C" fn vp_u256_zero(o: &mut U256) { *o = U256::zero() }
#[no_mangle] pub unsafe extern "C" fn vp_u256_one(o: &mut U256) { *o = U256::one() }
#[no_mangle] pub unsafe extern "C" fn vp_u256_from_slice(p: *const u8, n: usize, o: &mut U256) -> bool {
    opt!(U256::from_slice(std::slice::from_raw_parts(p, n)).ok(), o)
}
#[no_mangle] pub unsafe extern "C" fn vp_u256_into_bytes(a: &U256, o: *mut u8, cap: usize) -> usize { put(a.into_bytes(), o, cap) }

// ---- groups
macro_rules! group {
    ($T:ty, $add:ident, $sub:ident, $neg:ident, $mul:ident, $eq:ident, $isz:ident, $norm:ident, $bytes:ident, $zero:ident, $one:ident, $random:ident, $sample:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $add(a: &$T, b: &$T, o: &mut $T) { *o = *a + *b }
        #[no_mangle] pub unsafe extern "C" fn $sub(a: &$T, b: &$T, o: &mut $T) { *o = *a - *b }
        #[no_mangle] pub unsafe extern "C" fn $neg(a: &$T, o: &mut $T) { *o = -*a }
        #[no_mangle] pub unsafe extern "C" fn $mul(a: &$T, k: &Fr, o: &mut $T) { *o = *a * *k }
        #[no_mangle] pub unsafe extern "C" fn $eq(a: &$T, b: &$T) -> bool { *a == *b }
        #[no_mangle] pub unsafe extern "C" fn $isz(a: &$T) -> bool { a.is_zero() }
        #[no_mangle] pub unsafe extern "C" fn $norm(a: &mut $T) { a.normalize() }
        #[no_mangle] pub unsafe extern "C" fn $bytes(a: &$T, o: *mut u8, cap: usize) -> usize { put(a.into_bytes(), o, cap) }
        #[no_mangle] pub unsafe extern "C" fn $zero(o: &mut $T) { *o = <$T>::zero() }
        #[no_mangle] pub unsafe extern "C" fn $one(o: &mut $T) { *o = <$T>::one() }
        #[no_mangle] pub unsafe extern "C" fn $random(o: &mut $T) { *o = <$T>::random(&mut ExtRng) }
        #[no_mangle] pub unsafe extern "C" fn $sample(o: &mut $T) { *o = Standard.sample(&mut ExtRng) }
    };
}
group!(G1, vp_g1_add, vp_g1_sub, vp_g1_neg, vp_g1_mul, vp_g1_eq, vp_g1_is_zero, vp_g1_normalize, vp_g1_into_bytes, vp_g1_zero, vp_g1_one, vp_g1_random, vp_g1_sample);
group!(G2, vp_g2_add, vp_g2_sub, vp_g2_neg, vp_g2_mul, vp_g2_eq, vp_g2_is_zero, vp_g2_normalize, vp_g2_into_bytes, vp_g2_zero, vp_g2_one, vp_g2_random, vp_g2_sample);
#[no_mangle] pub unsafe extern "C" fn vp_g1_vec(a: &G1, o: *mut u8, cap: usize) -> usize { put(Vec::<u8>::from(*a), o, cap) }

// ---- target group
#[no_mangle] pub unsafe extern "C" fn vp_gt_mul(a: &Gt, b: &Gt, o: &mut Gt) { *o = *a * *b }
#[no_mangle] pub unsafe extern "C" fn vp_gt_inverse(a: &Gt, o: &mut Gt) { *o = a.inverse() }
#[no_mangle] pub unsafe extern "C" fn vp_gt_pow(a: &Gt, e: &Fr, o: &mut Gt) { *o = a.pow(*e) }
#[no_mangle] pub unsafe extern "C" fn vp_gt_one(o: &mut Gt) { *o = Gt::one() }
#[no_mangle] pub unsafe extern "C" fn vp_gt_eq(a: &Gt, b: &Gt) -> bool { *a == *b }
#[no_mangle] pub unsafe extern "C" fn vp_gt_into_bytes(a: &Gt, o: *mut u8, cap: usize) -> usize { put(a.into_bytes(), o, cap) }
#[no_mangle] pub unsafe extern "C" fn vp_gt_vec(a: &Gt, o: *mut u8, cap: usize) -> usize { put(Vec::<u8>::from(*a), o, cap) }
#[no_mangle] pub unsafe extern "C" fn vp_gt_sample(o: &mut Gt) { *o = Standard.sample(&mut ExtRng) }
#[no_mangle] pub unsafe extern "C" fn vp_pairing(p: &G1, q: &G2, o: &mut Gt) { *o = pairing(*p, *q) }

#[cfg(feature = "serde")]
mod ser;
#[cfg(feature = "serde")]
use ser::roundtrip;
#[cfg(feature = "serde")]
mod hum;
#[cfg(feature = "borsh")]
mod bor;
#[cfg(feature = "borsh")]
use bor::roundtrip;

/// serialise, deserialise from exactly what was written; 0 = a value came back and everything was consumed
#[no_mangle] pub unsafe extern "C" fn vp_rt_fr(a: &Fr, o: &mut Fr) -> u8 { roundtrip(a, o) }
#[no_mangle] pub unsafe extern "C" fn vp_rt_g1(a: &G1, o: &mut G1) -> u8 { roundtrip(a, o) }
#[no_mangle] pub unsafe extern "C" fn vp_rt_g2(a: &G2, o: &mut G2) -> u8 { roundtrip(a, o) }
#[no_mangle] pub unsafe extern "C" fn vp_rt_gt(a: &Gt, o: &mut Gt) -> u8 { roundtrip(a, o) }

/// the same in a self-describing, human-readable format
#[cfg(feature = "serde")]
mod selfdescribing {
    use super::{hum::roundtrip, Fr, Gt, G1, G2};
    #[no_mangle] pub unsafe extern "C" fn vp_rth_fr(a: &Fr, o: &mut Fr) -> u8 { roundtrip(a, o) }
    #[no_mangle] pub unsafe extern "C" fn vp_rth_g1(a: &G1, o: &mut G1) -> u8 { roundtrip(a, o) }
    #[no_mangle] pub unsafe extern "C" fn vp_rth_g2(a: &G2, o: &mut G2) -> u8 { roundtrip(a, o) }
    #[no_mangle] pub unsafe extern "C" fn vp_rth_gt(a: &Gt, o: &mut Gt) -> u8 { roundtrip(a, o) }
}
