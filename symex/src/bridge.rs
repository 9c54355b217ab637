//! The traits of the Circom file formats for the abstract pairing. Only the JSON form of points is
//! needed (a field element, the discrete logarithm); everything about zkey files is unsupported.
use crate::curve::{SymPairing, a1, a2};
use crate::field::{SymF, unsupported};
use ark_ec::short_weierstrass::Affine;
use ark_serialize::SerializationError;
use serde::{Deserialize, Deserializer, Serializer};
use std::io::Read;
use taceo_ark_serde_compat::{CanonicalJsonSerialize, CheckElement};
use taceo_circom_types::traits::CircomArkworksPairingBridge;

type G1 = Affine<crate::curve::SymC1>;
type G2 = Affine<crate::curve::SymC2>;
type Ser<T> = Result<T, SerializationError>;

fn parse<'de, D: Deserializer<'de>>(d: D) -> Result<SymF, D::Error> {
    let s = String::deserialize(d)?;
    s.parse().map_err(|_| serde::de::Error::custom("not a field element"))
}

impl CanonicalJsonSerialize for SymPairing {
    fn serialize_g1<S: Serializer>(p: &G1, ser: S) -> Result<S::Ok, S::Error> {
        ser.serialize_str(&p.x.to_string())
    }
    fn serialize_g2<S: Serializer>(p: &G2, ser: S) -> Result<S::Ok, S::Error> {
        ser.serialize_str(&p.x.to_string())
    }
    fn serialize_gt<S: Serializer>(p: &SymF, ser: S) -> Result<S::Ok, S::Error> {
        ser.serialize_str(&p.to_string())
    }
    fn serialize_g1_seq<S: Serializer>(_: &[G1], _: S) -> Result<S::Ok, S::Error> {
        unsupported("serialization of a list of points")
    }
    fn deserialize_g1<'de, D: Deserializer<'de>>(d: D) -> Result<G1, D::Error> {
        Ok(a1(parse(d)?))
    }
    fn deserialize_g1_unchecked<'de, D: Deserializer<'de>>(d: D) -> Result<G1, D::Error> {
        Ok(a1(parse(d)?))
    }
    fn deserialize_g2<'de, D: Deserializer<'de>>(d: D) -> Result<G2, D::Error> {
        Ok(a2(parse(d)?))
    }
    fn deserialize_g2_unchecked<'de, D: Deserializer<'de>>(d: D) -> Result<G2, D::Error> {
        Ok(a2(parse(d)?))
    }
    fn deserialize_gt<'de, D: Deserializer<'de>>(d: D) -> Result<SymF, D::Error> {
        parse(d)
    }
    fn deserialize_g1_seq<'de, D: Deserializer<'de>>(_: D) -> Result<Vec<G1>, D::Error> {
        unsupported("deserialization of a list of points")
    }
    fn deserialize_g1_seq_unchecked<'de, D: Deserializer<'de>>(_: D) -> Result<Vec<G1>, D::Error> {
        unsupported("deserialization of a list of points")
    }
}

impl CircomArkworksPairingBridge for SymPairing {
    const G1_SERIALIZED_BYTE_SIZE_COMPRESSED: usize = 32;
    const G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED: usize = 64;
    const G2_SERIALIZED_BYTE_SIZE_COMPRESSED: usize = 32;
    const G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED: usize = 64;
    const GT_SERIALIZED_BYTE_SIZE_COMPRESSED: usize = 32;
    const GT_SERIALIZED_BYTE_SIZE_UNCOMPRESSED: usize = 32;
    const SCALAR_FIELD_BYTE_SIZE: usize = 32;
    const BASE_FIELD_BYTE_SIZE: usize = 32;
    fn get_circom_name() -> String {
        "symbolic".into()
    }
    fn g1_from_bytes(_: &[u8], _: CheckElement) -> Ser<G1> {
        unsupported("points of a zkey file")
    }
    fn g2_from_bytes(_: &[u8], _: CheckElement) -> Ser<G2> {
        unsupported("points of a zkey file")
    }
    fn g1_from_reader(_: impl Read, _: CheckElement) -> Ser<G1> {
        unsupported("points of a zkey file")
    }
    fn g2_from_reader(_: impl Read, _: CheckElement) -> Ser<G2> {
        unsupported("points of a zkey file")
    }
    fn fr_from_montgomery_reader(_: impl Read) -> Ser<SymF> {
        unsupported("field elements of a zkey file")
    }
    fn fr_from_reader_for_groth16_zkey(_: impl Read) -> Ser<SymF> {
        unsupported("field elements of a zkey file")
    }
    fn fq_from_montgomery_reader(_: impl Read) -> Ser<SymF> {
        unsupported("field elements of a zkey file")
    }
}
