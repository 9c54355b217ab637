//! `SymF`: a symbolic element of the BN254 scalar field that implements arkworks' `PrimeField`.
use crate::arena::{CanonStep, Mode, Val, VarKey, arena};
use ark_bn254::Fr;
use ark_ff::{
    AdditiveGroup, BigInt, BigInteger, CyclotomicMultSubgroup, FftField, Field, LegendreSymbol, PrimeField,
    SqrtPrecomputation,
};
use ark_serialize::{
    CanonicalDeserialize, CanonicalDeserializeWithFlags, CanonicalSerialize, CanonicalSerializeWithFlags, Compress,
    EmptyFlags, Flags, SerializationError, Valid, Validate,
};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand::{Rng, distributions::{Distribution, Standard}};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::ops::*;

pub const TAG: u64 = 0xFFu64 << 56;

#[derive(Clone, Copy)]
pub enum SymF {
    C(Fr),
    S(u32),
}

/// Raised (as a panic payload) when the code does something with a symbolic value that has no
/// symbolic counterpart here.
#[derive(Debug, Clone)]
pub struct Unsupported(pub String);

pub fn unsupported(what: &str) -> ! {
    std::panic::panic_any(Unsupported(what.to_string()))
}

impl SymF {
    #[inline]
    pub fn val(self) -> Val {
        match self {
            SymF::C(c) => Val::C(c),
            SymF::S(i) => Val::S(i),
        }
    }
    #[inline]
    pub fn of(v: Val) -> Self {
        match v {
            Val::C(c) => SymF::C(c),
            Val::S(i) => SymF::S(i),
        }
    }
    /// A symbol declared by a harness.
    pub fn var(name: impl Into<String>) -> Self {
        let mut a = arena();
        let v = a.var(VarKey::Named(name.into()));
        Self::of(v)
    }
    pub fn vars(prefix: &str, n: usize) -> Vec<Self> {
        (0..n).map(|i| Self::var(format!("{prefix}{i}"))).collect()
    }
    /// The concrete value in the current run.
    pub fn sim(self) -> Fr {
        match self {
            SymF::C(c) => c,
            SymF::S(_) => arena().sim(self.val()),
        }
    }
    pub fn is_const(&self) -> bool {
        matches!(self, SymF::C(_))
    }
    fn lc(self, ka: Fr, o: Self, kb: Fr) -> Self {
        if let (SymF::C(a), SymF::C(b)) = (self, o) {
            return SymF::C(a * ka + b * kb);
        }
        let r = arena().lincomb(self.val(), ka, o.val(), kb);
        Self::of(r)
    }
    #[inline]
    fn add_(self, o: Self) -> Self {
        if let (SymF::C(a), SymF::C(b)) = (self, o) {
            return SymF::C(a + b);
        }
        self.lc(Fr::ONE, o, Fr::ONE)
    }
    #[inline]
    fn sub_(self, o: Self) -> Self {
        if let (SymF::C(a), SymF::C(b)) = (self, o) {
            return SymF::C(a - b);
        }
        self.lc(Fr::ONE, o, -Fr::ONE)
    }
    #[inline]
    fn mul_(self, o: Self) -> Self {
        if let (SymF::C(a), SymF::C(b)) = (self, o) {
            return SymF::C(a * b);
        }
        let r = arena().mul(self.val(), o.val());
        Self::of(r)
    }
    #[inline]
    fn neg_(self) -> Self {
        match self {
            SymF::C(a) => SymF::C(-a),
            SymF::S(_) => Self::of(arena().scale(self.val(), -Fr::ONE)),
        }
    }
    fn zero_(self) -> bool {
        match self {
            SymF::C(c) => c.is_zero(),
            SymF::S(_) => arena().branch_zero(self.val()),
        }
    }
    /// The handle used when a symbolic value is turned into an integer or bytes.
    fn limbs(self) -> [u64; 4] {
        match self {
            SymF::C(c) => c.into_bigint().0,
            SymF::S(i) => {
                let canon = arena().canon;
                let i = if canon { canonical(i) } else { i };
                [i as u64, 0, 0, TAG]
            }
        }
    }
    pub fn from_limbs(l: [u64; 4]) -> Option<Self> {
        if l[3] >> 56 == 0xFF {
            return Some(SymF::S(l[0] as u32));
        }
        Fr::from_bigint(BigInt(l)).map(SymF::C)
    }
}

/// Representative of `i` among the terms already canonicalised: two terms share one iff the
/// solver proved them equal (or they are the same term).
fn canonical(i: u32) -> u32 {
    let step = arena().canon(i);
    match step {
        CanonStep::Rep(r) => r,
        CanonStep::Candidates(c) => {
            for r in c {
                if crate::smt::prove_equal(i, r) {
                    arena().canon_merge(i, r);
                    return r;
                }
            }
            arena().canon_add(i);
            i
        }
    }
}

impl fmt::Debug for SymF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SymF::C(c) => write!(f, "{c}"),
            SymF::S(i) => write!(f, "<term {i}>"),
        }
    }
}
impl fmt::Display for SymF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Default for SymF {
    fn default() -> Self {
        SymF::C(Fr::ZERO)
    }
}
impl PartialEq for SymF {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (SymF::C(a), SymF::C(b)) => a == b,
            (SymF::S(a), SymF::S(b)) if a == b => true,
            _ => self.sub_(*o).zero_(),
        }
    }
}
impl Eq for SymF {}
impl Hash for SymF {
    fn hash<H: Hasher>(&self, state: &mut H) {
        match self {
            SymF::C(c) => c.hash(state),
            SymF::S(i) => i.hash(state),
        }
    }
}
impl PartialOrd for SymF {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SymF {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self, o) {
            (SymF::C(a), SymF::C(b)) => a.cmp(b),
            (SymF::S(a), SymF::S(b)) if a == b => Ordering::Equal,
            _ => unsupported("ordering of a symbolic field element"),
        }
    }
}
impl zeroize::Zeroize for SymF {
    fn zeroize(&mut self) {
        *self = SymF::C(Fr::ZERO)
    }
}
impl Zero for SymF {
    fn zero() -> Self {
        SymF::C(Fr::ZERO)
    }
    fn is_zero(&self) -> bool {
        self.zero_()
    }
}
impl One for SymF {
    fn one() -> Self {
        SymF::C(Fr::ONE)
    }
    fn is_one(&self) -> bool {
        *self == Self::one()
    }
}
impl Neg for SymF {
    type Output = Self;
    fn neg(self) -> Self {
        self.neg_()
    }
}
impl Neg for &SymF {
    type Output = SymF;
    fn neg(self) -> SymF {
        self.neg_()
    }
}

macro_rules! ops {
    ($tr:ident, $m:ident, $atr:ident, $am:ident, $f:ident) => {
        impl $tr for SymF {
            type Output = SymF;
            fn $m(self, o: SymF) -> SymF { self.$f(o) }
        }
        impl<'a> $tr<&'a SymF> for SymF {
            type Output = SymF;
            fn $m(self, o: &'a SymF) -> SymF { self.$f(*o) }
        }
        impl<'a> $tr<&'a mut SymF> for SymF {
            type Output = SymF;
            fn $m(self, o: &'a mut SymF) -> SymF { self.$f(*o) }
        }
        impl<'b> $tr<SymF> for &'b SymF {
            type Output = SymF;
            fn $m(self, o: SymF) -> SymF { (*self).$f(o) }
        }
        impl<'a, 'b> $tr<&'a SymF> for &'b SymF {
            type Output = SymF;
            fn $m(self, o: &'a SymF) -> SymF { (*self).$f(*o) }
        }
        impl<'a, 'b> $tr<&'a mut SymF> for &'b SymF {
            type Output = SymF;
            fn $m(self, o: &'a mut SymF) -> SymF { (*self).$f(*o) }
        }
        impl $atr for SymF {
            fn $am(&mut self, o: SymF) { *self = (*self).$f(o) }
        }
        impl<'a> $atr<&'a SymF> for SymF {
            fn $am(&mut self, o: &'a SymF) { *self = (*self).$f(*o) }
        }
        impl<'a> $atr<&'a mut SymF> for SymF {
            fn $am(&mut self, o: &'a mut SymF) { *self = (*self).$f(*o) }
        }
    };
}
impl SymF {
    fn div_(self, o: Self) -> Self {
        self.mul_(o.inverse().expect("division by zero"))
    }
}
ops!(Add, add, AddAssign, add_assign, add_);
ops!(Sub, sub, SubAssign, sub_assign, sub_);
ops!(Mul, mul, MulAssign, mul_assign, mul_);
ops!(Div, div, DivAssign, div_assign, div_);

impl Sum<SymF> for SymF {
    fn sum<I: Iterator<Item = SymF>>(it: I) -> SymF {
        it.fold(SymF::zero(), |a, b| a + b)
    }
}
impl<'a> Sum<&'a SymF> for SymF {
    fn sum<I: Iterator<Item = &'a SymF>>(it: I) -> SymF {
        it.fold(SymF::zero(), |a, b| a + b)
    }
}
impl Product<SymF> for SymF {
    fn product<I: Iterator<Item = SymF>>(it: I) -> SymF {
        it.fold(SymF::one(), |a, b| a * b)
    }
}
impl<'a> Product<&'a SymF> for SymF {
    fn product<I: Iterator<Item = &'a SymF>>(it: I) -> SymF {
        it.fold(SymF::one(), |a, b| a * b)
    }
}
macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for SymF { fn from(x: $t) -> Self { SymF::C(Fr::from(x)) } })* } }
from_int!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool);
impl From<Fr> for SymF {
    fn from(x: Fr) -> Self {
        SymF::C(x)
    }
}
impl From<BigInt<4>> for SymF {
    fn from(x: BigInt<4>) -> Self {
        SymF::from_limbs(x.0).expect("integer not below the modulus")
    }
}
impl From<SymF> for BigInt<4> {
    fn from(x: SymF) -> Self {
        BigInt(x.limbs())
    }
}
impl From<BigUint> for SymF {
    fn from(x: BigUint) -> Self {
        let d = x.to_u64_digits();
        if d.len() == 4 && d[3] >> 56 == 0xFF && d[1] == 0 && d[2] == 0 {
            return SymF::S(d[0] as u32);
        }
        SymF::C(Fr::from(x))
    }
}
impl From<SymF> for BigUint {
    fn from(x: SymF) -> Self {
        BigInt::<4>(x.limbs()).into()
    }
}
/// `$name` is the symbol of that name.
impl std::str::FromStr for SymF {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if let Some(name) = s.strip_prefix('$') {
            return Ok(SymF::var(name));
        }
        Fr::from_str(s).map(SymF::C).map_err(|_| ())
    }
}
impl Distribution<SymF> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> SymF {
        let v: Fr = <Fr as ark_ff::UniformRand>::rand(rng);
        let mut a = arena();
        let r = a.var(VarKey::Rand(v.into_bigint().0));
        SymF::of(r)
    }
}

// ---- serialization: 32 bytes, little endian; symbolic values as tagged handles
impl CanonicalSerializeWithFlags for SymF {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        if F::BIT_SIZE != 0 {
            unsupported("field serialization with flags");
        }
        let _ = flags;
        for l in self.limbs() {
            w.write_all(&l.to_le_bytes())?;
        }
        Ok(())
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        32
    }
}
impl CanonicalSerialize for SymF {
    fn serialize_with_mode<W: Write>(&self, w: W, _c: Compress) -> Result<(), SerializationError> {
        self.serialize_with_flags(w, EmptyFlags)
    }
    fn serialized_size(&self, _c: Compress) -> usize {
        32
    }
}
impl CanonicalDeserializeWithFlags for SymF {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        let mut l = [0u64; 4];
        for (i, c) in b.chunks(8).enumerate() {
            l[i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        let v = SymF::from_limbs(l).ok_or(SerializationError::InvalidData)?;
        Ok((v, F::from_u8(0).ok_or(SerializationError::UnexpectedFlags)?))
    }
}
impl Valid for SymF {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for SymF {
    fn deserialize_with_mode<R: Read>(r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> {
        Self::deserialize_with_flags::<R, EmptyFlags>(r).map(|x| x.0)
    }
}

// ---- arkworks field traits
impl AdditiveGroup for SymF {
    type Scalar = SymF;
    const ZERO: Self = SymF::C(<Fr as AdditiveGroup>::ZERO);
    fn double_in_place(&mut self) -> &mut Self {
        *self = match *self {
            SymF::C(c) => SymF::C(c + c),
            SymF::S(_) => Self::of(arena().scale(self.val(), Fr::from(2u64))),
        };
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        *self = self.neg_();
        self
    }
}
impl Field for SymF {
    type BasePrimeField = SymF;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ONE: Self = SymF::C(<Fr as Field>::ONE);
    const NEG_ONE: Self = SymF::C(<Fr as Field>::NEG_ONE);
    fn characteristic() -> &'static [u64] {
        Fr::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> impl Iterator<Item = SymF> {
        std::iter::once(*self)
    }
    fn from_base_prime_field_elems(elems: impl IntoIterator<Item = SymF>) -> Option<Self> {
        let mut it = elems.into_iter();
        let e = it.next()?;
        if it.next().is_some() { None } else { Some(e) }
    }
    fn from_base_prime_field(elem: SymF) -> Self {
        elem
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        Fr::from_random_bytes_with_flags::<F>(bytes).map(|(a, f)| (SymF::C(a), f))
    }
    fn legendre(&self) -> LegendreSymbol {
        match self {
            SymF::C(c) => c.legendre(),
            _ => unsupported("legendre symbol of a symbolic value"),
        }
    }
    fn sqrt(&self) -> Option<Self> {
        match self {
            SymF::C(c) => c.sqrt().map(SymF::C),
            _ => unsupported("square root of a symbolic value"),
        }
    }
    fn square(&self) -> Self {
        self.mul_(*self)
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.mul_(*self);
        self
    }
    fn inverse(&self) -> Option<Self> {
        match self {
            SymF::C(c) => c.inverse().map(SymF::C),
            SymF::S(i) => {
                if self.zero_() {
                    None
                } else {
                    Some(Self::of(arena().inv(*i)))
                }
            }
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        let v = self.inverse()?;
        *self = v;
        Some(self)
    }
    fn frobenius_map_in_place(&mut self, _power: usize) {}
    fn mul_by_base_prime_field(&self, elem: &SymF) -> Self {
        self.mul_(*elem)
    }
}
impl FftField for SymF {
    const GENERATOR: Self = SymF::C(<Fr as FftField>::GENERATOR);
    const TWO_ADICITY: u32 = <Fr as FftField>::TWO_ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: Self = SymF::C(<Fr as FftField>::TWO_ADIC_ROOT_OF_UNITY);
    const SMALL_SUBGROUP_BASE: Option<u32> = <Fr as FftField>::SMALL_SUBGROUP_BASE;
    const SMALL_SUBGROUP_BASE_ADICITY: Option<u32> = <Fr as FftField>::SMALL_SUBGROUP_BASE_ADICITY;
    const LARGE_SUBGROUP_ROOT_OF_UNITY: Option<Self> = match <Fr as FftField>::LARGE_SUBGROUP_ROOT_OF_UNITY {
        Some(x) => Some(SymF::C(x)),
        None => None,
    };
}
impl CyclotomicMultSubgroup for SymF {}
impl PrimeField for SymF {
    type BigInt = BigInt<4>;
    const MODULUS: BigInt<4> = <Fr as PrimeField>::MODULUS;
    const MODULUS_MINUS_ONE_DIV_TWO: BigInt<4> = <Fr as PrimeField>::MODULUS_MINUS_ONE_DIV_TWO;
    const MODULUS_BIT_SIZE: u32 = <Fr as PrimeField>::MODULUS_BIT_SIZE;
    const TRACE: BigInt<4> = <Fr as PrimeField>::TRACE;
    const TRACE_MINUS_ONE_DIV_TWO: BigInt<4> = <Fr as PrimeField>::TRACE_MINUS_ONE_DIV_TWO;
    fn from_bigint(repr: BigInt<4>) -> Option<Self> {
        SymF::from_limbs(repr.0)
    }
    fn into_bigint(self) -> BigInt<4> {
        BigInt(self.limbs())
    }
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self {
        if let Some(s) = handle_be(bytes) {
            return s;
        }
        oracle(bytes)
    }
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self {
        let mut b = bytes.to_vec();
        b.reverse();
        if let Some(s) = handle_be(&b) {
            return s;
        }
        oracle(&b)
    }
}
fn handle_be(b: &[u8]) -> Option<SymF> {
    if b.len() == 32 && b[0] == 0xFF && b[1..28].iter().all(|x| *x == 0) {
        return Some(SymF::S(u32::from_be_bytes(b[28..].try_into().unwrap())));
    }
    None
}
/// In oracle mode the bytes (a digest) name a fresh symbol; otherwise they are a number.
fn oracle(be: &[u8]) -> SymF {
    let mut a = arena();
    if a.oracle {
        let n = a.digests.len() as u32;
        let n = *a.digests.entry(be.to_vec()).or_insert(n);
        let r = a.var(VarKey::Oracle(n));
        return SymF::of(r);
    }
    SymF::C(Fr::from_be_bytes_mod_order(be))
}

/// True while the current run substitutes concrete values for all symbols.
pub fn concrete() -> bool {
    arena().mode == Mode::Concrete
}

#[allow(dead_code)]
fn _assert<T: PrimeField>() {}
#[allow(dead_code)]
fn _check() {
    _assert::<SymF>();
    let _ = BigInt::<4>::from(0u64).is_zero();
}
