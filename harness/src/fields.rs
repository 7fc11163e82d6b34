//! Prime fields a user of the library could define: they exercise the generic
//! and the Proth reduction with other moduli. Constants by definition of the trait.
use zkp_primefield::{Parameters, PrimeField};
use zkp_u256::U256;

#[derive(PartialEq, Eq, Clone, Debug, Hash)]
pub struct P25519();
impl Parameters for P25519 {
    type UInt = U256;
    const GENERATOR: U256 = U256::from_limbs([0x4c, 0x0, 0x0, 0x0]);
    const M64: u64 = 0x86bca1af286bca1b;
    const MODULUS: U256 = U256::from_limbs([0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff]);
    const ORDER: U256 = U256::from_limbs([0xffffffffffffffec, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff]);
    const R1: U256 = U256::from_limbs([0x26, 0x0, 0x0, 0x0]);
    const R2: U256 = U256::from_limbs([0x5a4, 0x0, 0x0, 0x0]);
    const R3: U256 = U256::from_limbs([0xd658, 0x0, 0x0, 0x0]);
}
pub type FP25519 = PrimeField<P25519>;

#[derive(PartialEq, Eq, Clone, Debug, Hash)]
pub struct P257();
impl Parameters for P257 {
    type UInt = U256;
    const GENERATOR: U256 = U256::from_limbs([0x3, 0x0, 0x0, 0x0]);
    const M64: u64 = 0xff00ff00ff00ff;
    const MODULUS: U256 = U256::from_limbs([0x101, 0x0, 0x0, 0x0]);
    const ORDER: U256 = U256::from_limbs([0x100, 0x0, 0x0, 0x0]);
    const R1: U256 = U256::from_limbs([0x1, 0x0, 0x0, 0x0]);
    const R2: U256 = U256::from_limbs([0x1, 0x0, 0x0, 0x0]);
    const R3: U256 = U256::from_limbs([0x1, 0x0, 0x0, 0x0]);
}
pub type FP257 = PrimeField<P257>;

#[derive(PartialEq, Eq, Clone, Debug, Hash)]
pub struct Proth63();
impl Parameters for Proth63 {
    type UInt = U256;
    const GENERATOR: U256 = U256::from_limbs([0xfffffffffffffffa, 0xffffffffffffffff, 0xffffffffffffffff, 0x5a5]);
    const M64: u64 = 0xffffffffffffffff;
    const MODULUS: U256 = U256::from_limbs([0x1, 0x0, 0x0, 0x7fffffffffffff0f]);
    const ORDER: U256 = U256::from_limbs([0x0, 0x0, 0x0, 0x7fffffffffffff0f]);
    const R1: U256 = U256::from_limbs([0xfffffffffffffffe, 0xffffffffffffffff, 0xffffffffffffffff, 0x1e1]);
    const R2: U256 = U256::from_limbs([0xffffffe6ddbec7e4, 0xfffffffff2a6a2ef, 0xfffffffffff8e8f7, 0x17a93f65ce97]);
    const R3: U256 = U256::from_limbs([0x2556d4185042dc87, 0x583e523b6e7f5644, 0xffa6e6ad44b039af, 0x594225c9f242c7b8]);
}
pub type FProth63 = PrimeField<Proth63>;

