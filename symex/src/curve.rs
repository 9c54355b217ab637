//! Groups of order r represented by discrete logarithms (symbolic field elements), and the
//! pairing between two of them. The group law, scalar multiplication, MSM and the pairing are the
//! abstract ones: what is checked is the repository's use of them, not arkworks' curve formulas.
use crate::arena::Val;
use crate::field::{SymF, unsupported};
use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveConfig};
use ark_ff::{AdditiveGroup, BigInt, Field};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, SerializationError, Validate};
use std::io::{Read, Write};

fn scalar_of(limbs: &[u64]) -> SymF {
    let mut l = [0u64; 4];
    for (i, x) in limbs.iter().enumerate() {
        if i < 4 {
            l[i] = *x;
        } else if *x != 0 {
            unsupported("scalar of more than four limbs");
        }
    }
    match SymF::from_limbs(l) {
        Some(s) => s,
        None => SymF::from(num_bigint::BigUint::from(BigInt::<4>(l))),
    }
}

macro_rules! curve {
    ($name:ident) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $name;
        impl CurveConfig for $name {
            type BaseField = SymF;
            type ScalarField = SymF;
            const COFACTOR: &[u64] = &[1];
            const COFACTOR_INV: SymF = SymF::ONE;
        }
        impl SWCurveConfig for $name {
            const COEFF_A: SymF = SymF::ZERO;
            const COEFF_B: SymF = SymF::ZERO;
            const GENERATOR: Affine<Self> = Affine::new_unchecked(SymF::ONE, SymF::ZERO);
            type ZeroFlag = ();
            const DLOG: bool = true;
            fn mul_projective(base: &Projective<Self>, scalar: &[u64]) -> Projective<Self> {
                Projective::from_dl(base.dl() * scalar_of(scalar))
            }
            fn mul_affine(base: &Affine<Self>, scalar: &[u64]) -> Projective<Self> {
                Projective::from_dl(base.x * scalar_of(scalar))
            }
            fn is_in_correct_subgroup_assuming_on_curve(_: &Affine<Self>) -> bool {
                true
            }
            fn serialize_with_mode<W: Write>(item: &Affine<Self>, mut w: W, c: Compress) -> Result<(), SerializationError> {
                item.x.serialize_with_mode(&mut w, c)?;
                if let Compress::No = c {
                    w.write_all(&[0u8; 32])?;
                }
                Ok(())
            }
            fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Affine<Self>, SerializationError> {
                let x = SymF::deserialize_with_mode(&mut r, c, v)?;
                if let Compress::No = c {
                    let mut b = [0u8; 32];
                    r.read_exact(&mut b)?;
                }
                Ok(Affine::new_unchecked(x, SymF::ZERO))
            }
            fn serialized_size(c: Compress) -> usize {
                match c {
                    Compress::Yes => 32,
                    Compress::No => 64,
                }
            }
        }
    };
}
curve!(SymC1);
curve!(SymC2);

pub type G1 = Projective<SymC1>;
pub type G2 = Projective<SymC2>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SymPairing;

macro_rules! prepared {
    ($name:ident, $c:ty) => {
        #[derive(Clone, Copy, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
        pub struct $name(pub SymF);
        impl From<Projective<$c>> for $name {
            fn from(p: Projective<$c>) -> Self {
                Self(p.dl())
            }
        }
        impl From<Affine<$c>> for $name {
            fn from(p: Affine<$c>) -> Self {
                Self(p.x)
            }
        }
        impl<'a> From<&'a Affine<$c>> for $name {
            fn from(p: &'a Affine<$c>) -> Self {
                Self(p.x)
            }
        }
    };
}
prepared!(P1, SymC1);
prepared!(P2, SymC2);

impl Pairing for SymPairing {
    type BaseField = SymF;
    type ScalarField = SymF;
    type G1 = G1;
    type G1Affine = Affine<SymC1>;
    type G1Prepared = P1;
    type G2 = G2;
    type G2Affine = Affine<SymC2>;
    type G2Prepared = P2;
    /// Discrete logarithm in the target group, i.e. written additively.
    type TargetField = SymF;
    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<P1>>,
        b: impl IntoIterator<Item = impl Into<P2>>,
    ) -> MillerLoopOutput<Self> {
        let s = a.into_iter().zip(b).fold(SymF::ZERO, |acc, (x, y)| {
            let x: P1 = x.into();
            let y: P2 = y.into();
            acc + x.0 * y.0
        });
        MillerLoopOutput(s)
    }
    fn final_exponentiation(mlo: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        Some(PairingOutput(mlo.0))
    }
}

pub trait Dlog {
    fn dlog(&self) -> SymF;
}
impl<P: SWCurveConfig<BaseField = SymF>> Dlog for Projective<P> {
    fn dlog(&self) -> SymF {
        self.dl()
    }
}
impl<P: SWCurveConfig<BaseField = SymF>> Dlog for Affine<P> {
    fn dlog(&self) -> SymF {
        self.x
    }
}
pub fn g1(d: SymF) -> G1 {
    G1::from_dl(d)
}
pub fn g2(d: SymF) -> G2 {
    G2::from_dl(d)
}
pub fn a1(d: SymF) -> Affine<SymC1> {
    Affine::new_unchecked(d, SymF::ZERO)
}
pub fn a2(d: SymF) -> Affine<SymC2> {
    Affine::new_unchecked(d, SymF::ZERO)
}
#[allow(dead_code)]
fn _unused(v: Val) -> Val {
    let _ = <Affine<SymC1> as AffineRepr>::ZERO;
    v
}
