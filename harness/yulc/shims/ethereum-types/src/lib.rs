//! U256 and H160 with the operations the compiler uses, semantics as in ethereum-types 0.14.
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u64; 4]); // little-endian words
#[derive(Debug)]
pub struct FromStrRadixErr;
impl fmt::Display for FromStrRadixErr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "invalid number") } }
impl U256 {
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub fn zero() -> Self { U256([0; 4]) }
    pub fn one() -> Self { U256([1, 0, 0, 0]) }
    pub fn max_value() -> Self { U256([u64::MAX; 4]) }
    pub fn is_zero(&self) -> bool { self.0 == [0; 4] }
    fn mul_add(&self, m: u64, a: u64) -> Option<Self> {
        let mut c = a as u128;
        let mut r = [0u64; 4];
        for i in 0..4 { c += self.0[i] as u128 * m as u128; r[i] = c as u64; c >>= 64; }
        if c != 0 { None } else { Some(U256(r)) }
    }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, FromStrRadixErr> {
        let s = if radix == 16 { s.strip_prefix("0x").unwrap_or(s) } else { s };
        let mut v = Self::zero();
        for ch in s.chars() {
            let d = ch.to_digit(radix).ok_or(FromStrRadixErr)?;
            v = v.mul_add(radix as u64, d as u64).ok_or(FromStrRadixErr)?;
        }
        Ok(v)
    }
    pub fn from_dec_str(s: &str) -> Result<Self, FromStrRadixErr> {
        if s.is_empty() { return Err(FromStrRadixErr) }
        Self::from_str_radix(s, 10)
    }
    fn fits(&self) -> bool { self.0[1] == 0 && self.0[2] == 0 && self.0[3] == 0 }
    pub fn as_u64(&self) -> u64 { assert!(self.fits(), "Integer overflow when casting to u64"); self.0[0] }
    pub fn as_u32(&self) -> u32 { assert!(self.fits() && self.0[0] <= u32::MAX as u64, "Integer overflow when casting to u32"); self.0[0] as u32 }
    pub fn as_usize(&self) -> usize { self.as_u64() as usize }
    pub fn low_u64(&self) -> u64 { self.0[0] }
    pub fn low_u32(&self) -> u32 { self.0[0] as u32 }
    pub fn as_u128(&self) -> u128 { assert!(self.0[2] == 0 && self.0[3] == 0, "Integer overflow when casting to u128"); self.low_u128() }
    pub fn low_u128(&self) -> u128 { self.0[0] as u128 | (self.0[1] as u128) << 64 }
    pub fn bits(&self) -> usize { for i in (0..4).rev() { if self.0[i] != 0 { return 64 * i + 64 - self.0[i].leading_zeros() as usize } } 0 }
    pub fn bit(&self, i: usize) -> bool { i < 256 && self.0[i / 64] >> (i % 64) & 1 == 1 }
    pub fn to_big_endian(&self, b: &mut [u8]) { assert!(b.len() == 32); for i in 0..4 { b[32 - 8 * (i + 1)..32 - 8 * i].copy_from_slice(&self.0[i].to_be_bytes()) } }
    pub fn to_little_endian(&self, b: &mut [u8]) { assert!(b.len() == 32); for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes()) } }
    pub fn from_big_endian(s: &[u8]) -> Self { assert!(s.len() <= 32); let mut b = [0u8; 32]; b[32 - s.len()..].copy_from_slice(s); let mut r = [0; 4]; for i in 0..4 { r[i] = u64::from_be_bytes(b[32 - 8 * (i + 1)..32 - 8 * i].try_into().unwrap()) } U256(r) }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) { let mut c = 0u128; let mut r = [0; 4]; for i in 0..4 { c += self.0[i] as u128 + o.0[i] as u128; r[i] = c as u64; c >>= 64 } (U256(r), c != 0) }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) { let n = U256([!o.0[0], !o.0[1], !o.0[2], !o.0[3]]); let (a, c1) = self.overflowing_add(n); let (b, c2) = a.overflowing_add(Self::one()); (b, !(c1 || c2)) }
    pub fn checked_add(self, o: Self) -> Option<Self> { let (r, c) = self.overflowing_add(o); if c { None } else { Some(r) } }
    pub fn checked_sub(self, o: Self) -> Option<Self> { let (r, c) = self.overflowing_sub(o); if c { None } else { Some(r) } }
    pub fn saturating_sub(self, o: Self) -> Self { self.checked_sub(o).unwrap_or_default() }
    fn divrem_small(&self, d: u64) -> (Self, u64) { let mut r = 0u128; let mut q = [0; 4]; for i in (0..4).rev() { r = r << 64 | self.0[i] as u128; q[i] = (r / d as u128) as u64; r %= d as u128 } (U256(q), r as u64) }
    fn shl_(self, n: usize) -> Self { if n >= 256 { return Self::zero() } let (w, b) = (n / 64, n % 64); let mut r = [0; 4]; for i in w..4 { r[i] = self.0[i - w] << b; if b > 0 && i > w { r[i] |= self.0[i - w - 1] >> (64 - b) } } U256(r) }
    fn shr_(self, n: usize) -> Self { if n >= 256 { return Self::zero() } let (w, b) = (n / 64, n % 64); let mut r = [0; 4]; for i in 0..4 - w { r[i] = self.0[i + w] >> b; if b > 0 && i + w + 1 < 4 { r[i] |= self.0[i + w + 1] << (64 - b) } } U256(r) }
}
impl Ord for U256 { fn cmp(&self, o: &Self) -> std::cmp::Ordering { for i in (0..4).rev() { match self.0[i].cmp(&o.0[i]) { std::cmp::Ordering::Equal => {} c => return c } } std::cmp::Ordering::Equal } }
impl PartialOrd for U256 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
macro_rules! unsigned { ($($t:ty)*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { let v = v as u128; U256([v as u64, (v >> 64) as u64, 0, 0]) } })* } }
macro_rules! signed { ($($t:ty)*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { if v < 0 { panic!("Unsigned integer can't be created from negative value") } U256([v as u64, 0, 0, 0]) } })* } }
unsigned!(u8 u16 u32 u64 u128 usize);
signed!(i8 i16 i32 i64 isize);
impl From<&str> for U256 { fn from(s: &str) -> Self { Self::from_str_radix(s, 16).unwrap() } }
macro_rules! shifts { ($($t:ty)*) => { $(
    impl std::ops::Shl<$t> for U256 { type Output = U256; fn shl(self, n: $t) -> U256 { self.shl_(n as usize) } }
    impl std::ops::Shr<$t> for U256 { type Output = U256; fn shr(self, n: $t) -> U256 { self.shr_(n as usize) } })* } }
shifts!(i32 u32 u64 usize i64 u8);
impl std::ops::Add for U256 { type Output = U256; fn add(self, o: U256) -> U256 { self.checked_add(o).expect("arithmetic operation overflow") } }
impl std::ops::Sub for U256 { type Output = U256; fn sub(self, o: U256) -> U256 { self.checked_sub(o).expect("arithmetic operation overflow") } }
impl std::ops::Not for U256 { type Output = U256; fn not(self) -> U256 { U256([!self.0[0], !self.0[1], !self.0[2], !self.0[3]]) } }
impl std::ops::BitAnd for U256 { type Output = U256; fn bitand(self, o: U256) -> U256 { U256([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]]) } }
impl std::ops::BitOr for U256 { type Output = U256; fn bitor(self, o: U256) -> U256 { U256([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]]) } }
impl fmt::Display for U256 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    if self.is_zero() { return write!(f, "0") }
    let mut v = *self; let mut parts = vec![];
    while !v.is_zero() { let (q, r) = v.divrem_small(10_000_000_000_000_000_000); parts.push(r); v = q }
    write!(f, "{}", parts.pop().unwrap())?;
    while let Some(p) = parts.pop() { write!(f, "{:019}", p)? }
    Ok(()) } }
impl fmt::Debug for U256 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl fmt::LowerHex for U256 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let s = format!("{:016x}{:016x}{:016x}{:016x}", self.0[3], self.0[2], self.0[1], self.0[0]); let t = s.trim_start_matches('0'); write!(f, "{}", if t.is_empty() { "0" } else { t }) } }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct H160(pub [u8; 20]);
impl H160 { pub fn from_slice(s: &[u8]) -> Self { H160(s.try_into().unwrap()) } }
impl std::str::FromStr for H160 { type Err = FromStrRadixErr; fn from_str(_s: &str) -> Result<Self, FromStrRadixErr> { unimplemented!() } }
