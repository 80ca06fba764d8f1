// Cleartext stand-ins for the parts of tfhe-rs that generated programs use: encrypted k-bit integers are integers modulo 2^k.
pub mod shortint {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Ciphertext { pub v: u64 }
    impl Clone for Ciphertext { fn clone(&self) -> Self { Ciphertext { v: self.v } } }
    pub struct ServerKey { pub bits: u32 }
    pub mod server_key { pub struct LookupTableOwned { pub t: Vec<u64> } impl Clone for LookupTableOwned { fn clone(&self) -> Self { LookupTableOwned { t: self.t.clone() } } } }
    use server_key::LookupTableOwned;
    impl ServerKey {
        fn mk(&self, v: u64) -> Ciphertext { Ciphertext { v: v & ((1u64 << self.bits) - 1) } }
        pub fn unchecked_add(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { self.mk(a.v + b.v) }
        pub fn bitand(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { self.mk(a.v & b.v) }
        pub fn scalar_left_shift(&self, a: &Ciphertext, s: u8) -> Ciphertext { self.mk(a.v << s) }
        pub fn create_trivial(&self, v: u64) -> Ciphertext { self.mk(v) }
        pub fn generate_lookup_table<F: Fn(u64) -> u64>(&self, f: F) -> LookupTableOwned { LookupTableOwned { t: (0..(1u64 << self.bits)).map(f).collect() } }
        pub fn apply_lookup_table(&self, a: &Ciphertext, l: &LookupTableOwned) -> Ciphertext { self.mk(l.t[a.v as usize]) }
    }
}
pub mod boolean {
    pub mod prelude {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Ciphertext { pub v: bool }
        impl Clone for Ciphertext { fn clone(&self) -> Self { Ciphertext { v: self.v } } }
        pub struct ServerKey { pub bits: u32 }
        use super::engine::fpga::Gate;
        fn c(v: bool) -> Ciphertext { Ciphertext { v } }
        impl ServerKey {
            pub fn and(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { c(a.v & b.v) }
            pub fn nand(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { c(!(a.v & b.v)) }
            pub fn or(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { c(a.v | b.v) }
            pub fn nor(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { c(!(a.v | b.v)) }
            pub fn xor(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { c(a.v ^ b.v) }
            pub fn xnor(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { c(!(a.v ^ b.v)) }
            pub fn not(&self, a: &Ciphertext) -> Ciphertext { c(!a.v) }
            pub fn trivial_encrypt(&self, v: bool) -> Ciphertext { c(v) }
            pub fn packed_gates(&self, g: &Vec<Gate>, a: &Vec<&Ciphertext>, b: &Vec<&Ciphertext>) -> Vec<Ciphertext> {
                assert!(g.len() == a.len() && a.len() == b.len(), "packed gates of different lengths");
                (0..g.len()).map(|k| match g[k] { Gate::AND => self.and(a[k], b[k]), Gate::NAND => self.nand(a[k], b[k]), Gate::OR => self.or(a[k], b[k]), Gate::NOR => self.nor(a[k], b[k]), Gate::XOR => self.xor(a[k], b[k]), Gate::XNOR => self.xnor(a[k], b[k]) }).collect()
            }
            pub fn packed_not(&self, a: &Vec<&Ciphertext>) -> Vec<Ciphertext> { a.iter().map(|x| self.not(x)).collect() }
        }
    }
    pub mod engine { pub mod fpga {
        #[derive(Clone, Copy)]
        pub enum Gate { AND, NAND, OR, NOR, XOR, XNOR }
        pub struct BelfortBooleanServerKey { pub bits: u32 }
    } }
}
use std::marker::PhantomData;
pub trait Width { const BITS: u32; }
pub struct FheUint<W: Width> { pub v: u128, w: PhantomData<W> }
impl<W: Width> FheUint<W> { pub fn mk(v: u128) -> Self { FheUint { v: if W::BITS >= 128 { v } else { v & ((1u128 << W::BITS) - 1) }, w: PhantomData } } }
impl<W: Width> Clone for FheUint<W> { fn clone(&self) -> Self { FheUint::mk(self.v) } }
impl<W: Width> std::fmt::Debug for FheUint<W> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.v) } }
macro_rules! width { ($($id:ident $al:ident $n:expr;)*) => { $( pub struct $id; impl Width for $id { const BITS: u32 = $n; } pub type $al = FheUint<$id>; )* } }
width! { FheUint2Id FheUint2 2; FheUint4Id FheUint4 4; FheUint8Id FheUint8 8; FheUint10Id FheUint10 10; FheUint12Id FheUint12 12; FheUint14Id FheUint14 14; FheUint16Id FheUint16 16; FheUint32Id FheUint32 32; FheUint64Id FheUint64 64; FheUint128Id FheUint128 128; }
pub trait Scalar { const BITS: u32; fn u(self) -> u128; }
macro_rules! scalar { ($($t:ty)*) => { $( impl Scalar for $t { const BITS: u32 = <$t>::BITS; fn u(self) -> u128 { self as u128 } } )* } }
scalar! { u8 u16 u32 u64 u128 }
macro_rules! ops { ($($tr:ident $f:ident $e:expr;)*) => { $(
    impl<W: Width> std::ops::$tr<FheUint<W>> for FheUint<W> { type Output = FheUint<W>; fn $f(self, o: FheUint<W>) -> FheUint<W> { let g: fn(u128, u128) -> u128 = $e; FheUint::mk(g(self.v, o.v)) } }
    impl<W: Width> std::ops::$tr<&FheUint<W>> for FheUint<W> { type Output = FheUint<W>; fn $f(self, o: &FheUint<W>) -> FheUint<W> { let g: fn(u128, u128) -> u128 = $e; FheUint::mk(g(self.v, o.v)) } }
    impl<W: Width> std::ops::$tr<FheUint<W>> for &FheUint<W> { type Output = FheUint<W>; fn $f(self, o: FheUint<W>) -> FheUint<W> { let g: fn(u128, u128) -> u128 = $e; FheUint::mk(g(self.v, o.v)) } }
    impl<W: Width> std::ops::$tr<&FheUint<W>> for &FheUint<W> { type Output = FheUint<W>; fn $f(self, o: &FheUint<W>) -> FheUint<W> { let g: fn(u128, u128) -> u128 = $e; FheUint::mk(g(self.v, o.v)) } }
)* } }
ops! { Add add |a, b| a.wrapping_add(b); Sub sub |a, b| a.wrapping_sub(b); Mul mul |a, b| a.wrapping_mul(b); BitAnd bitand |a, b| a & b; BitOr bitor |a, b| a | b; BitXor bitxor |a, b| a ^ b; }
macro_rules! sops { ($($tr:ident $f:ident $e:expr;)*) => { sops!{@ u8 $($tr $f $e;)*} sops!{@ u16 $($tr $f $e;)*} sops!{@ u32 $($tr $f $e;)*} sops!{@ u64 $($tr $f $e;)*} };
  (@ $t:ty; ) => {};
  (@ $t:ident $($tr:ident $f:ident $e:expr;)*) => { $(
    impl<W: Width> std::ops::$tr<$t> for FheUint<W> { type Output = FheUint<W>; fn $f(self, o: $t) -> FheUint<W> { assert!(<$t>::BITS == W::BITS, "scalar of another width"); let g: fn(u128, u128) -> u128 = $e; FheUint::mk(g(self.v, o as u128)) } }
    impl<W: Width> std::ops::$tr<$t> for &FheUint<W> { type Output = FheUint<W>; fn $f(self, o: $t) -> FheUint<W> { assert!(<$t>::BITS == W::BITS, "scalar of another width"); let g: fn(u128, u128) -> u128 = $e; FheUint::mk(g(self.v, o as u128)) } }
  )* } }
sops! { Add add |a, b| a.wrapping_add(b); Sub sub |a, b| a.wrapping_sub(b); Mul mul |a, b| a.wrapping_mul(b); }
impl<W: Width> std::ops::Shr<u8> for &FheUint<W> { type Output = FheUint<W>; fn shr(self, s: u8) -> FheUint<W> { FheUint::mk(self.v >> s) } }
impl<W: Width> std::ops::Shr<u8> for FheUint<W> { type Output = FheUint<W>; fn shr(self, s: u8) -> FheUint<W> { FheUint::mk(self.v >> s) } }
pub mod prelude {
    use super::{FheUint, Scalar, Width};
    pub trait FheTryTrivialEncrypt<T> where Self: Sized { fn try_encrypt_trivial(v: T) -> Result<Self, String>; }
    impl<W: Width, T: Scalar> FheTryTrivialEncrypt<T> for FheUint<W> { fn try_encrypt_trivial(v: T) -> Result<Self, String> { Ok(FheUint::mk(v.u())) } }
    pub trait CastFrom<T> where Self: Sized { fn cast_from(v: T) -> Self; }
    impl<W: Width, X: Width> CastFrom<FheUint<X>> for FheUint<W> { fn cast_from(v: FheUint<X>) -> Self { FheUint::mk(v.v) } }
}
// flattening of results
pub trait Flat { fn flat(&self, o: &mut Vec<String>); }
macro_rules! flats { ($($t:ty)*) => { $( impl Flat for $t { fn flat(&self, o: &mut Vec<String>) { o.push(self.to_string()); } } )* } }
flats! { i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 usize }
impl Flat for bool { fn flat(&self, o: &mut Vec<String>) { o.push((*self as u8).to_string()); } }
impl Flat for shortint::Ciphertext { fn flat(&self, o: &mut Vec<String>) { o.push(self.v.to_string()); } }
impl Flat for boolean::prelude::Ciphertext { fn flat(&self, o: &mut Vec<String>) { self.v.flat(o); } }
impl<W: Width> Flat for FheUint<W> { fn flat(&self, o: &mut Vec<String>) { o.push(self.v.to_string()); } }
impl<T: Flat, const N: usize> Flat for [T; N] { fn flat(&self, o: &mut Vec<String>) { for x in self { x.flat(o); } } }
impl<T: Flat> Flat for Vec<T> { fn flat(&self, o: &mut Vec<String>) { for x in self { x.flat(o); } } }
impl Flat for () { fn flat(&self, _o: &mut Vec<String>) {} }
impl<A: Flat, B: Flat> Flat for (A, B) { fn flat(&self, o: &mut Vec<String>) { self.0.flat(o); self.1.flat(o); } }
impl<A: Flat, B: Flat, C: Flat> Flat for (A, B, C) { fn flat(&self, o: &mut Vec<String>) { self.0.flat(o); self.1.flat(o); self.2.flat(o); } }
impl<A: Flat, B: Flat, C: Flat, D: Flat> Flat for (A, B, C, D) { fn flat(&self, o: &mut Vec<String>) { self.0.flat(o); self.1.flat(o); self.2.flat(o); self.3.flat(o); } }
