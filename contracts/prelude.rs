// Model of the Soroban SDK (TRUSTED). Everything marked external_body here is an assumption;
// the text is included verbatim in front of the extracted contract code on every run.

// ---------------------------------------------------------------- machine integers
pub trait CkInt: Copy { spec fn v(self) -> int; spec fn lo() -> int; spec fn hi() -> int; }
impl CkInt for u8 { open spec fn v(self) -> int { self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { u8::MAX as int } }
impl CkInt for u32 { open spec fn v(self) -> int { self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { u32::MAX as int } }
impl CkInt for u64 { open spec fn v(self) -> int { self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { u64::MAX as int } }
impl CkInt for u128 { open spec fn v(self) -> int { self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { u128::MAX as int } }
impl CkInt for usize { open spec fn v(self) -> int { self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { usize::MAX as int } }
impl CkInt for i32 { open spec fn v(self) -> int { self as int } open spec fn lo() -> int { i32::MIN as int } open spec fn hi() -> int { i32::MAX as int } }
impl CkInt for i64 { open spec fn v(self) -> int { self as int } open spec fn lo() -> int { i64::MIN as int } open spec fn hi() -> int { i64::MAX as int } }
impl CkInt for i128 { open spec fn v(self) -> int { self as int } open spec fn lo() -> int { i128::MIN as int } open spec fn hi() -> int { i128::MAX as int } }

/// Rust integer division (truncating)
pub open spec fn tdiv(a: int, b: int) -> int {
    if b == 0 { 0 } else if a >= 0 && b > 0 { a / b } else if a >= 0 { -(a / (-b)) } else if b > 0 { -((-a) / b) } else { (-a) / (-b) }
}
pub open spec fn trem(a: int, b: int) -> int { a - tdiv(a, b) * b }
/// ceiling division for a positive divisor
pub open spec fn cdiv(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }

// checked arithmetic: the call returns only when the machine operation does not overflow
// (overflow-checks = true in the release profile: an overflow aborts the transaction)
#[verifier::external_body] pub fn ck_add<T: CkInt>(a: T, b: T) -> (r: T) ensures r.v() == a.v() + b.v() { unimplemented!() }
#[verifier::external_body] pub fn ck_sub<T: CkInt>(a: T, b: T) -> (r: T) ensures r.v() == a.v() - b.v() { unimplemented!() }
#[verifier::external_body] pub fn ck_mul<T: CkInt>(a: T, b: T) -> (r: T) ensures r.v() == a.v() * b.v(), r.v() == b.v() * a.v() { unimplemented!() }
#[verifier::external_body] pub fn ck_div<T: CkInt>(a: T, b: T) -> (r: T) ensures b.v() != 0, r.v() == tdiv(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn ck_rem<T: CkInt>(a: T, b: T) -> (r: T) ensures b.v() != 0, r.v() == trem(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn ck_neg<T: CkInt>(a: T) -> (r: T) ensures r.v() == -a.v() { unimplemented!() }
#[verifier::external_body] pub fn ck_abs<T: CkInt>(a: T) -> (r: T) ensures r.v() == (if a.v() < 0 { -a.v() } else { a.v() }) { unimplemented!() }
#[verifier::external_body] pub fn ck_shr<T: CkInt>(a: T, b: i32) -> (r: T) ensures b >= 0, r.v() == a.v() / (vstd::arithmetic::power2::pow2(b as nat) as int) { unimplemented!() }
#[verifier::external_body] pub fn ck_shl<T: CkInt>(a: T, b: i32) -> (r: T) ensures b >= 0 { unimplemented!() }
#[verifier::external_body] pub fn ck_pow<T: CkInt>(a: T, b: u32) -> (r: T) ensures r.v() == vstd::arithmetic::power::pow(a.v(), b as nat) { unimplemented!() }
#[verifier::external_body] pub fn ck_is_negative<T: CkInt>(a: T) -> (r: bool) ensures r == (a.v() < 0) { unimplemented!() }
#[verifier::external_body] pub fn ck_is_positive<T: CkInt>(a: T) -> (r: bool) ensures r == (a.v() > 0) { unimplemented!() }
#[verifier::external_body] pub fn ck_min<T: CkInt>(a: T, b: T) -> (r: T) ensures r == (if a.v() <= b.v() { a } else { b }) { unimplemented!() }
#[verifier::external_body] pub fn ck_max<T: CkInt>(a: T, b: T) -> (r: T) ensures r == (if a.v() >= b.v() { a } else { b }) { unimplemented!() }
pub open spec fn clamp(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
#[verifier::external_body] pub fn ck_saturating_mul<T: CkInt>(a: T, b: T) -> (r: T) ensures r.v() == clamp(a.v() * b.v(), T::lo(), T::hi()) { unimplemented!() }
#[verifier::external_body] pub fn ck_saturating_add<T: CkInt>(a: T, b: T) -> (r: T) ensures r.v() == clamp(a.v() + b.v(), T::lo(), T::hi()) { unimplemented!() }
#[verifier::external_body] pub fn ck_saturating_sub<T: CkInt>(a: T, b: T) -> (r: T) ensures r.v() == clamp(a.v() - b.v(), T::lo(), T::hi()) { unimplemented!() }
pub open spec fn fits<T: CkInt>(x: int) -> bool { T::lo() <= x <= T::hi() }
#[verifier::external_body] pub fn ck_checked_add<T: CkInt>(a: T, b: T) -> (r: Option<T>) ensures match r { Some(x) => x.v() == a.v() + b.v(), None => !fits::<T>(a.v() + b.v()) } { unimplemented!() }
#[verifier::external_body] pub fn ck_checked_sub<T: CkInt>(a: T, b: T) -> (r: Option<T>) ensures match r { Some(x) => x.v() == a.v() - b.v(), None => !fits::<T>(a.v() - b.v()) } { unimplemented!() }
#[verifier::external_body] pub fn ck_checked_mul<T: CkInt>(a: T, b: T) -> (r: Option<T>) ensures match r { Some(x) => x.v() == a.v() * b.v(), None => !fits::<T>(a.v() * b.v()) } { unimplemented!() }
#[verifier::external_body] pub fn ck_checked_div<T: CkInt>(a: T, b: T) -> (r: Option<T>) ensures match r { Some(x) => b.v() != 0 && x.v() == tdiv(a.v(), b.v()), None => b.v() == 0 || !fits::<T>(tdiv(a.v(), b.v())) } { unimplemented!() }
#[verifier::external_body] pub fn ck_checked_rem<T: CkInt>(a: T, b: T) -> (r: Option<T>) ensures match r { Some(x) => b.v() != 0 && x.v() == trem(a.v(), b.v()), None => b.v() == 0 || !fits::<T>(tdiv(a.v(), b.v())) } { unimplemented!() }
#[verifier::external_body] pub fn ck_checked_pow<T: CkInt>(a: T, b: u32) -> (r: Option<T>) ensures match r { Some(x) => x.v() == vstd::arithmetic::power::pow(a.v(), b as nat), None => !fits::<T>(vstd::arithmetic::power::pow(a.v(), b as nat)) } { unimplemented!() }
#[verifier::external_body] pub fn ck_checked_abs<T: CkInt>(a: T) -> (r: Option<T>) ensures match r { Some(x) => x.v() == (if a.v() < 0 { -a.v() } else { a.v() }), None => !fits::<T>(-a.v()) } { unimplemented!() }
#[verifier::external_body] pub fn ck_saturating_pow<T: CkInt>(a: T, b: u32) -> (r: T) ensures r.v() == clamp(vstd::arithmetic::power::pow(a.v(), b as nat), T::lo(), T::hi()) { unimplemented!() }
#[verifier::external_body] pub fn ck_wrapping_add<T: CkInt>(a: T, b: T) -> (r: T) ensures r.v() == wrap::<T>(a.v() + b.v()) { unimplemented!() }
#[verifier::external_body] pub fn ck_wrapping_sub<T: CkInt>(a: T, b: T) -> (r: T) ensures r.v() == wrap::<T>(a.v() - b.v()) { unimplemented!() }
#[verifier::external_body] pub fn ck_wrapping_mul<T: CkInt>(a: T, b: T) -> (r: T) ensures r.v() == wrap::<T>(a.v() * b.v()) { unimplemented!() }
pub open spec fn wrap<T: CkInt>(x: int) -> int { if fits::<T>(x) { x } else { (x - T::lo()) % (T::hi() - T::lo() + 1) + T::lo() } }
#[verifier::external_body] pub fn ck_signum<T: CkInt>(a: T) -> (r: T) ensures r.v() == (if a.v() < 0 { -1int } else if a.v() == 0 { 0 } else { 1 }) { unimplemented!() }
/// `abs_diff` and `div_ceil` of unsigned integers
pub trait CkUns: CkInt {}
impl CkUns for u8 {} impl CkUns for u32 {} impl CkUns for u64 {} impl CkUns for u128 {} impl CkUns for usize {}
#[verifier::external_body] pub fn ck_abs_diff<T: CkUns>(a: T, b: T) -> (r: T) ensures r.v() == (if a.v() <= b.v() { b.v() - a.v() } else { a.v() - b.v() }) { unimplemented!() }
#[verifier::external_body] pub fn ck_div_ceil<T: CkUns>(a: T, b: T) -> (r: T) ensures b.v() != 0, b.v() > 0 ==> r.v() == cdiv(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn ck_div_euclid<T: CkInt>(a: T, b: T) -> (r: T) ensures b.v() != 0, r.v() == a.v() / b.v() { unimplemented!() }
#[verifier::external_body] pub fn px_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
#[verifier::external_body] pub fn px_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }
#[verifier::external_body] pub fn ck_rem_euclid<T: CkInt>(a: T, b: T) -> (r: T) ensures b.v() != 0, r.v() == a.v() % b.v() { unimplemented!() }

// `as` casts: exact when the value fits, modular otherwise
#[verifier::external_body] pub fn as_u8<T: CkInt>(a: T) -> (r: u8) ensures r as int == a.v() % 0x100 { unimplemented!() }
#[verifier::external_body] pub fn as_u32<T: CkInt>(a: T) -> (r: u32) ensures r as int == a.v() % 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body] pub fn as_u64<T: CkInt>(a: T) -> (r: u64) ensures r as int == a.v() % 0x1_0000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body] pub fn as_u128<T: CkInt>(a: T) -> (r: u128) ensures r as int == a.v() % (u128::MAX as int + 1) { unimplemented!() }
#[verifier::external_body] pub fn as_usize<T: CkInt>(a: T) -> (r: usize) ensures 0 <= a.v() <= 0xffff_ffff ==> r as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn as_i32<T: CkInt>(a: T) -> (r: i32) ensures fits::<i32>(a.v()) ==> r as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn as_i64<T: CkInt>(a: T) -> (r: i64) ensures fits::<i64>(a.v()) ==> r as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn as_i128<T: CkInt>(a: T) -> (r: i128) ensures fits::<i128>(a.v()) ==> r as int == a.v() { unimplemented!() }
// fallible conversions followed by unwrap: return only when the value fits
#[verifier::external_body] pub fn try_u32<T: CkInt>(a: T) -> (r: Result<u32, ()>) ensures r is Ok == (0 <= a.v() <= u32::MAX), r is Ok ==> r->Ok_0 as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn try_u64<T: CkInt>(a: T) -> (r: Result<u64, ()>) ensures r is Ok == (0 <= a.v() <= u64::MAX), r is Ok ==> r->Ok_0 as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn try_u128<T: CkInt>(a: T) -> (r: Result<u128, ()>) ensures r is Ok == (0 <= a.v() <= u128::MAX), r is Ok ==> r->Ok_0 as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn try_i64<T: CkInt>(a: T) -> (r: Result<i64, ()>) ensures r is Ok == (i64::MIN <= a.v() <= i64::MAX), r is Ok ==> r->Ok_0 as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn try_i128<T: CkInt>(a: T) -> (r: Result<i128, ()>) ensures r is Ok == (i128::MIN <= a.v() <= i128::MAX), r is Ok ==> r->Ok_0 as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn cast_u32<T: CkInt>(a: T) -> (r: u32) ensures r as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn cast_u64<T: CkInt>(a: T) -> (r: u64) ensures r as int == a.v() { unimplemented!() }
#[verifier::external_body] pub fn cast_i128<T: CkInt>(a: T) -> (r: i128) ensures r as int == a.v() { unimplemented!() }

// lossless conversions
pub trait VInto<T>: Sized { spec fn into_spec(self) -> T; fn vinto(self) -> (r: T) ensures r == self.into_spec(); }
impl VInto<u32> for u32 { open spec fn into_spec(self) -> u32 { self } #[verifier::external_body] fn vinto(self) -> (r: u32) { self } }
impl VInto<u64> for u64 { open spec fn into_spec(self) -> u64 { self } #[verifier::external_body] fn vinto(self) -> (r: u64) { self } }
impl VInto<i128> for i128 { open spec fn into_spec(self) -> i128 { self } #[verifier::external_body] fn vinto(self) -> (r: i128) { self } }
impl VInto<u64> for u32 { open spec fn into_spec(self) -> u64 { self as u64 } #[verifier::external_body] fn vinto(self) -> (r: u64) { self as u64 } }
impl VInto<i64> for u32 { open spec fn into_spec(self) -> i64 { self as i64 } #[verifier::external_body] fn vinto(self) -> (r: i64) { self as i64 } }
impl VInto<u128> for u32 { open spec fn into_spec(self) -> u128 { self as u128 } #[verifier::external_body] fn vinto(self) -> (r: u128) { self as u128 } }
impl VInto<i128> for u32 { open spec fn into_spec(self) -> i128 { self as i128 } #[verifier::external_body] fn vinto(self) -> (r: i128) { self as i128 } }
impl VInto<u128> for u64 { open spec fn into_spec(self) -> u128 { self as u128 } #[verifier::external_body] fn vinto(self) -> (r: u128) { self as u128 } }
impl VInto<i128> for u64 { open spec fn into_spec(self) -> i128 { self as i128 } #[verifier::external_body] fn vinto(self) -> (r: i128) { self as i128 } }
impl VInto<i128> for i32 { open spec fn into_spec(self) -> i128 { self as i128 } #[verifier::external_body] fn vinto(self) -> (r: i128) { self as i128 } }
impl VInto<i128> for i64 { open spec fn into_spec(self) -> i128 { self as i128 } #[verifier::external_body] fn vinto(self) -> (r: i128) { self as i128 } }
pub fn as_into<A: VInto<T>, T>(a: A) -> (r: T) ensures r == a.into_spec() { a.vinto() }
// three-way comparison
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum Ordering { Less, Equal, Greater }
#[verifier::external_body] pub fn ck_cmp<T: CkInt>(a: T, b: T) -> (r: Ordering) ensures r == (if a.v() < b.v() { Ordering::Less } else if a.v() == b.v() { Ordering::Equal } else { Ordering::Greater }) { unimplemented!() }
impl Ordering {
    pub fn is_lt(self) -> (r: bool) ensures r == (self is Less) { matches!(self, Ordering::Less) }
    pub fn is_le(self) -> (r: bool) ensures r == !(self is Greater) { !matches!(self, Ordering::Greater) }
    pub fn is_gt(self) -> (r: bool) ensures r == (self is Greater) { matches!(self, Ordering::Greater) }
    pub fn is_ge(self) -> (r: bool) ensures r == !(self is Less) { !matches!(self, Ordering::Less) }
    pub fn is_eq(self) -> (r: bool) ensures r == (self is Equal) { matches!(self, Ordering::Equal) }
    pub fn is_ne(self) -> (r: bool) ensures r == !(self is Equal) { !matches!(self, Ordering::Equal) }
}

// soroban-fixed-point-math 1.0.0 on i128 (contract discharged against the crate's own source in the
// `fixedpoint` unit for positive denominators)
pub open spec fn mul_floor(x: int, y: int, d: int) -> int { if d > 0 { (x * y) / d } else { mul_floor_neg(x, y, d) } }
pub open spec fn mul_ceil(x: int, y: int, d: int) -> int { if d > 0 { cdiv(x * y, d) } else { mul_ceil_neg(x, y, d) } }
/// the crate's result for a negative denominator: some function of the arguments
pub uninterp spec fn mul_floor_neg(x: int, y: int, d: int) -> int;
pub uninterp spec fn mul_ceil_neg(x: int, y: int, d: int) -> int;
#[verifier::external_body] pub fn fp_mul_floor(x: i128, y: i128, d: i128) -> (r: Option<i128>)
    ensures match r { Some(v) => d != 0 && v as int == mul_floor(x as int, y as int, d as int) && v as int == mul_floor(y as int, x as int, d as int), None => d == 0 || !fits::<i128>(x * y) || d < 0 } { unimplemented!() }
#[verifier::external_body] pub fn fp_mul_ceil(x: i128, y: i128, d: i128) -> (r: Option<i128>)
    ensures match r { Some(v) => d != 0 && v as int == mul_ceil(x as int, y as int, d as int) && v as int == mul_ceil(y as int, x as int, d as int), None => d == 0 || !fits::<i128>(x * y) || d < 0 } { unimplemented!() }
#[verifier::external_body] pub fn fp_div_floor(x: i128, y: i128, d: i128) -> (r: Option<i128>)
    ensures match r { Some(v) => y != 0 && v as int == mul_floor(x as int, d as int, y as int) && v as int == mul_floor(d as int, x as int, y as int), None => y == 0 || !fits::<i128>(x * d) || y < 0 } { unimplemented!() }
#[verifier::external_body] pub fn fp_div_ceil(x: i128, y: i128, d: i128) -> (r: Option<i128>)
    ensures match r { Some(v) => y != 0 && v as int == mul_ceil(x as int, d as int, y as int) && v as int == mul_ceil(d as int, x as int, y as int), None => y == 0 || !fits::<i128>(x * d) || y < 0 } { unimplemented!() }
// the same operations in functions that must not divide by zero
#[verifier::external_body] pub fn fp_mul_floor_nz(x: i128, y: i128, d: i128) -> (r: Option<i128>) requires d != 0
    ensures match r { Some(v) => v as int == mul_floor(x as int, y as int, d as int) && v as int == mul_floor(y as int, x as int, d as int), None => !fits::<i128>(x * y) || d < 0 } { unimplemented!() }
#[verifier::external_body] pub fn fp_mul_ceil_nz(x: i128, y: i128, d: i128) -> (r: Option<i128>) requires d != 0
    ensures match r { Some(v) => v as int == mul_ceil(x as int, y as int, d as int) && v as int == mul_ceil(y as int, x as int, d as int), None => !fits::<i128>(x * y) || d < 0 } { unimplemented!() }
#[verifier::external_body] pub fn fp_div_floor_nz(x: i128, y: i128, d: i128) -> (r: Option<i128>) requires y != 0
    ensures match r { Some(v) => v as int == mul_floor(x as int, d as int, y as int) && v as int == mul_floor(d as int, x as int, y as int), None => !fits::<i128>(x * d) || y < 0 } { unimplemented!() }
#[verifier::external_body] pub fn fp_div_ceil_nz(x: i128, y: i128, d: i128) -> (r: Option<i128>) requires y != 0
    ensures match r { Some(v) => v as int == mul_ceil(x as int, d as int, y as int) && v as int == mul_ceil(d as int, x as int, y as int), None => !fits::<i128>(x * d) || y < 0 } { unimplemented!() }
#[verifier::external_body] pub fn ck_div_nz<T: CkInt>(a: T, b: T) -> (r: T) requires b.v() != 0 ensures r.v() == tdiv(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn ck_rem_nz<T: CkInt>(a: T, b: T) -> (r: T) requires b.v() != 0 ensures r.v() == trem(a.v(), b.v()) { unimplemented!() }

// ---------------------------------------------------------------- divergence
#[verifier::external_body] pub fn panic_err() -> ! ensures false { unimplemented!() }
pub trait PxUnwrap: Sized { type Out; spec fn ok(self) -> bool; spec fn val(self) -> Self::Out; }
impl<T> PxUnwrap for Option<T> { type Out = T; open spec fn ok(self) -> bool { self is Some } open spec fn val(self) -> T { self->Some_0 } }
impl<T, E> PxUnwrap for Result<T, E> { type Out = T; open spec fn ok(self) -> bool { self is Ok } open spec fn val(self) -> T { self->Ok_0 } }
#[verifier::external_body] pub fn px_unwrap<O: PxUnwrap>(o: O) -> (r: O::Out) ensures o.ok(), r == o.val() { unimplemented!() }
#[verifier::external_body] pub fn px_unwrap_or<O: PxUnwrap>(o: O, d: O::Out) -> (r: O::Out) ensures r == (if o.ok() { o.val() } else { d }) { unimplemented!() }

// ---------------------------------------------------------------- opaque host values
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }

#[verifier::external_body] pub struct Address { x: u64 }
impl PartialEq for Address { #[verifier::external_body] fn eq(&self, o: &Address) -> (r: bool) { self.x == o.x } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Address { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Address) -> bool { *self == *o } }
pub struct Symbol { pub id: u64 }
impl Symbol { pub fn lit(id: u64) -> (r: Symbol) ensures r.id == id { Symbol { id } } }
impl PartialEq for Symbol { #[verifier::external_body] fn eq(&self, o: &Symbol) -> (r: bool) { self.id == o.id } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Symbol { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Symbol) -> bool { *self == *o } }
#[verifier::external_body] pub struct SString { x: u64 }
#[verifier::external_body] pub struct Bytes { x: u64 }
#[verifier::external_body] pub struct BytesN<const N: usize> { x: u64 }
#[verifier::external_body] pub struct Val { x: u64 }
impl PartialEq for SString { #[verifier::external_body] fn eq(&self, o: &SString) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for SString { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SString) -> bool { *self == *o } }
impl PartialEq for Bytes { #[verifier::external_body] fn eq(&self, o: &Bytes) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Bytes { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Bytes) -> bool { *self == *o } }
impl<const N: usize> PartialEq for BytesN<N> { #[verifier::external_body] fn eq(&self, o: &BytesN<N>) -> (r: bool) { unimplemented!() } }
impl<const N: usize> vstd::std_specs::cmp::PartialEqSpecImpl for BytesN<N> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BytesN<N>) -> bool { *self == *o } }
pub uninterp spec fn conv<T, U>(t: T) -> U;
#[verifier::external_body] pub fn px_val<T, U>(t: &T) -> (r: U) ensures r == conv::<T, U>(*t) { unimplemented!() }
pub uninterp spec fn addr_str(a: Address) -> Seq<u8>;
impl View for SString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn keccak_of(b: Seq<u8>) -> BytesN<32>;
impl SString {
    #[verifier::external_body] pub fn copy_into_slice(&self, out: &mut [u8; 56]) ensures final(out)@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: u32) ensures r == self@.len() { unimplemented!() }
}
impl Bytes {
    #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_array<const N: usize>(&mut self, a: &[u8; N]) ensures final(self)@ == old(self)@ + a@ { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, b: &Bytes) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, b: u8) ensures final(self)@ == old(self)@.push(b) { unimplemented!() }
}
impl Address {
    #[verifier::external_body] pub fn to_sstring(&self) -> (r: SString) ensures r@ == addr_str(*self) { unimplemented!() }
    /// authorisation of the current call tree by this address; recorded in the ghost set `auths`
    #[verifier::external_body] pub fn require_auth(&self, e: &mut Env) ensures final(e)@ == (World { auths: old(e)@.auths.insert(*self), ..old(e)@ }) { unimplemented!() }
}

// ---------------------------------------------------------------- host collections
pub trait Bor<T> { spec fn bor(self) -> T; }
impl<T> Bor<T> for T { open spec fn bor(self) -> T { self } }
impl<T> Bor<T> for &T { open spec fn bor(self) -> T { *self } }

#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct SVec<T> { k: core::marker::PhantomData<T> }
impl<T> PartialEq for SVec<T> { #[verifier::external_body] fn eq(&self, o: &SVec<T>) -> (r: bool) { unimplemented!() } }
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for SVec<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SVec<T>) -> bool { *self == *o } }
impl<T> View for SVec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
/// a host vector is determined by its contents
#[verifier::external_body] pub broadcast proof fn axiom_svec_ext<T>(a: SVec<T>, b: SVec<T>) requires #[trigger] a@ == #[trigger] b@ ensures a == b { }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct SIter<T> { k: core::marker::PhantomData<T> }
impl<T> View for SIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> SIter<T> {
    #[verifier::external_body] pub fn len(&self) -> (r: u32) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: u32) -> (r: T) ensures i < self@.len(), r == self@[i as int] { unimplemented!() }
}
impl<T> SVec<T> {
    #[verifier::external_body] pub fn new() -> (r: SVec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vpush(self, t: T) -> (r: SVec<T>) ensures r@ == self@.push(t) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: u32) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn siter(&self) -> (r: SIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: u32) -> (r: Option<T>) ensures r == (if i < self@.len() { Some(self@[i as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get_unchecked(&self, i: u32) -> (r: T) ensures i < self@.len(), r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<T>) ensures r == (if self@.len() > 0 { Some(self@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<T>) ensures r == (if self@.len() > 0 { Some(self@[self@.len() - 1]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn first_unchecked(&self) -> (r: T) ensures self@.len() > 0, r == self@[0] { unimplemented!() }
    #[verifier::external_body] pub fn last_unchecked(&self) -> (r: T) ensures self@.len() > 0, r == self@[self@.len() - 1] { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, i: u32, t: T) ensures i < old(self)@.len(), final(self)@ == old(self)@.update(i as int, t) { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, t: T) ensures final(self)@ == seq![t] + old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn pop_front_unchecked(&mut self) -> (r: T) ensures old(self)@.len() > 0, r == old(self)@[0], final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn pop_back_unchecked(&mut self) -> (r: T) ensures old(self)@.len() > 0, r == old(self)@[old(self)@.len() - 1], final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[old(self)@.len() - 1]) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, i: u32) -> (r: Option<()>) ensures i < old(self)@.len() ==> r is Some && final(self)@ == old(self)@.remove(i as int), i >= old(self)@.len() ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn remove_unchecked(&mut self, i: u32) ensures i < old(self)@.len(), final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, i: u32, t: T) ensures i <= old(self)@.len(), final(self)@ == old(self)@.insert(i as int, t) { unimplemented!() }
    #[verifier::external_body] pub fn slice(&self, a: u32, b: u32) -> (r: SVec<T>) ensures a <= b <= self@.len(), r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body] pub fn last_index_of<B: Bor<T>>(&self, t: B) -> (r: Option<u32>)
        ensures match r { Some(i) => i < self@.len() && self@[i as int] == t.bor() && (forall|j: int| i < j < self@.len() ==> self@[j] != t.bor()), None => !self@.contains(t.bor()) } { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, o: &SVec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn contains<B: Bor<T>>(&self, t: B) -> (r: bool) ensures r == self@.contains(t.bor()) { unimplemented!() }
    #[verifier::external_body] pub fn first_index_of<B: Bor<T>>(&self, t: B) -> (r: Option<u32>)
        ensures match r { Some(i) => i < self@.len() && self@[i as int] == t.bor() && (forall|j: int| 0 <= j < i ==> self@[j] != t.bor()), None => !self@.contains(t.bor()) } { unimplemented!() }
}

#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct SMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> PartialEq for SMap<K, V> { #[verifier::external_body] fn eq(&self, o: &SMap<K, V>) -> (r: bool) { unimplemented!() } }
impl<K, V> vstd::std_specs::cmp::PartialEqSpecImpl for SMap<K, V> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SMap<K, V>) -> bool { *self == *o } }
impl<K, V> View for SMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
#[verifier::external_body] pub broadcast proof fn axiom_smap_ext<K, V>(a: SMap<K, V>, b: SMap<K, V>) requires #[trigger] a@ == #[trigger] b@ ensures a == b { }
#[verifier::external_body] pub broadcast proof fn axiom_smap_finite<K, V>(a: SMap<K, V>) ensures #[trigger] a@.dom().finite() { }
/// iteration order of a host map: every key once (the host keeps keys sorted; the order itself is left open)
pub uninterp spec fn entries<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
pub uninterp spec fn eidx<K, V>(m: Map<K, V>, k: K) -> int;
#[verifier::external_body] pub broadcast proof fn axiom_entries<K, V>(m: Map<K, V>)
    requires m.dom().finite()
    ensures
        #[trigger] entries(m).len() == m.len(),
        forall|i: int| 0 <= i < entries(m).len() ==> m.contains_key((#[trigger] entries(m)[i]).0) && m[entries(m)[i].0] == entries(m)[i].1 && eidx(m, entries(m)[i].0) == i,
        forall|k: K| #[trigger] m.contains_key(k) ==> 0 <= eidx(m, k) < entries(m).len() && entries(m)[eidx(m, k)] == (k, m[k]),
{ }
impl<K, V> SMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: SMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vset(self, k: K, v: V) -> (r: SMap<K, V>) ensures r@ == self@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: K) -> (r: Option<V>) ensures r == (if self@.contains_key(k) { Some(self@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get_unchecked(&self, k: K) -> (r: V) ensures self@.contains_key(k), r == self@[k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: K) -> (r: bool) ensures r == self@.contains_key(k) { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: K) -> (r: Option<()>) ensures final(self)@ == old(self)@.remove(k), r is Some == old(self)@.contains_key(k) { unimplemented!() }
    #[verifier::external_body] pub fn remove_unchecked(&mut self, k: K) ensures old(self)@.contains_key(k), final(self)@ == old(self)@.remove(k) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: u32) ensures r == self@.len(), (r == 0) == (self@ == Map::<K, V>::empty()), self@.dom().finite() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn siter(&self) -> (r: SIter<(K, V)>) ensures r@ == entries(self@), self@.dom().finite() { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: SVec<K>) ensures r@ == entries(self@).map_values(|p: (K, V)| p.0) { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: SVec<V>) ensures r@ == entries(self@).map_values(|p: (K, V)| p.1) { unimplemented!() }
}

// ---------------------------------------------------------------- environment and storage
#[verifier::external_body] pub struct SVal { x: u64 }
pub uninterp spec fn enc<V>(v: V) -> SVal;
pub uninterp spec fn dec<V>(x: SVal) -> V;
#[verifier::external_body] pub broadcast proof fn axiom_enc<V>(v: V) ensures dec::<V>(#[trigger] enc::<V>(v)) == v { }
/// the host encodes Some(v) like v (and None as void)
#[verifier::external_body] pub broadcast proof fn axiom_enc_opt<V>(v: V) ensures #[trigger] dec::<Option<V>>(enc::<V>(v)) == Some(v) { }
pub trait SK { spec fn sk(&self) -> SKey; }
impl SK for Symbol { open spec fn sk(&self) -> SKey { SKey::Sym(self.id) } }

/// What a contract invocation can see and change. `calls` records every state-changing call to another contract, in order.
#[verifier::ext_equal]
pub struct World {
    pub ts: u64, pub seq: u32, pub this: Address,
    pub inst: Map<SKey, SVal>, pub pers: Map<SKey, SVal>, pub temp: Map<SKey, SVal>,
    pub auths: Set<Address>, pub calls: Seq<Call>,
}
#[verifier::external_body] pub struct Env { x: u64 }
impl View for Env { type V = World; uninterp spec fn view(&self) -> World; }
pub open spec fn mget<V>(m: Map<SKey, SVal>, k: SKey) -> Option<V> { if m.contains_key(k) { Some(dec::<V>(m[k])) } else { None } }
impl Env {
    #[verifier::external_body] pub fn ledger_timestamp(&self) -> (r: u64) ensures r == self@.ts { unimplemented!() }
    #[verifier::external_body] pub fn ledger_sequence(&self) -> (r: u32) ensures r == self@.seq { unimplemented!() }
    #[verifier::external_body] pub fn current_contract_address(&self) -> (r: Address) ensures r == self@.this { unimplemented!() }
    #[verifier::external_body] pub fn inst_get<K: SK, V>(&self, k: &K) -> (r: Option<V>) ensures r == mget::<V>(self@.inst, k.sk()) { unimplemented!() }
    #[verifier::external_body] pub fn pers_get<K: SK, V>(&self, k: &K) -> (r: Option<V>) ensures r == mget::<V>(self@.pers, k.sk()) { unimplemented!() }
    #[verifier::external_body] pub fn temp_get<K: SK, V>(&self, k: &K) -> (r: Option<V>) ensures r == mget::<V>(self@.temp, k.sk()) { unimplemented!() }
    #[verifier::external_body] pub fn inst_has<K: SK>(&self, k: &K) -> (r: bool) ensures r == self@.inst.contains_key(k.sk()) { unimplemented!() }
    #[verifier::external_body] pub fn pers_has<K: SK>(&self, k: &K) -> (r: bool) ensures r == self@.pers.contains_key(k.sk()) { unimplemented!() }
    #[verifier::external_body] pub fn temp_has<K: SK>(&self, k: &K) -> (r: bool) ensures r == self@.temp.contains_key(k.sk()) { unimplemented!() }
    #[verifier::external_body] pub fn inst_set<K: SK, V>(&mut self, k: &K, v: &V) ensures final(self)@ == (World { inst: old(self)@.inst.insert(k.sk(), enc(*v)), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn pers_set<K: SK, V>(&mut self, k: &K, v: &V) ensures final(self)@ == (World { pers: old(self)@.pers.insert(k.sk(), enc(*v)), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn temp_set<K: SK, V>(&mut self, k: &K, v: &V) ensures final(self)@ == (World { temp: old(self)@.temp.insert(k.sk(), enc(*v)), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn inst_remove<K: SK>(&mut self, k: &K) ensures final(self)@ == (World { inst: old(self)@.inst.remove(k.sk()), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn pers_remove<K: SK>(&mut self, k: &K) ensures final(self)@ == (World { pers: old(self)@.pers.remove(k.sk()), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn temp_remove<K: SK>(&mut self, k: &K) ensures final(self)@ == (World { temp: old(self)@.temp.remove(k.sk()), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn keccak256(&self, b: &Bytes) -> (r: BytesN<32>) ensures r == keccak_of(b@) { unimplemented!() }
    #[verifier::external_body] pub fn deploy_with(&mut self, salt: BytesN<32>, hash: BytesN<32>) -> (r: Address) ensures r == deployed_at(old(self)@.this, salt), final(self)@ == logc(old(self)@, Call::Deploy { salt, hash, at: r }) { unimplemented!() }
    #[verifier::external_body] pub fn invoke_contract(&mut self, a: &Address, f: &Symbol, args: SVec<Val>) -> (r: Val) ensures final(self)@ == logc(old(self)@, Call::Invoke { at: *a, func: f.id, args: args@ }) { unimplemented!() }
}
pub uninterp spec fn deployed_at(this: Address, salt: BytesN<32>) -> Address;
pub open spec fn logc(w: World, c: Call) -> World { World { calls: w.calls.push(c), ..w } }

// ---------------------------------------------------------------- other contracts
pub enum Call {
    Transfer { token: Address, from: Address, to: Address, amount: i128 },
    TransferFrom { token: Address, spender: Address, from: Address, to: Address, amount: i128 },
    Approve { token: Address, from: Address, spender: Address, amount: i128, exp: u32 },
    Burn { token: Address, from: Address, amount: i128 },
    Mint { token: Address, to: Address, amount: i128 },
    SetAdmin { token: Address, admin: Address },
    Deploy { salt: BytesN<32>, hash: BytesN<32>, at: Address },
    Invoke { at: Address, func: u64, args: Seq<Val> },
    BackstopDraw { backstop: Address, pool: Address, amount: i128, to: Address },
    BackstopDonate { backstop: Address, from: Address, pool: Address, amount: i128 },
    BackstopGulpPool { backstop: Address, pool: Address },
    BackstopGulp { backstop: Address },
    EmitterDistribute { emitter: Address },
    EmitterDrop { emitter: Address, list: Seq<(Address, i128)> },
    CometDeposit { comet: Address, token: Address, amount: i128, min_out: i128, user: Address },
}
/// results of calls to other contracts: functions of the calls made before them in this invocation
pub uninterp spec fn tok_balance(calls: Seq<Call>, token: Address, who: Address) -> i128;
pub uninterp spec fn tok_allowance(calls: Seq<Call>, token: Address, from: Address, spender: Address) -> i128;
pub uninterp spec fn tok_supply(calls: Seq<Call>, token: Address) -> i128;
pub uninterp spec fn tok_decimals(token: Address) -> u32;
pub struct TokenClient { pub id: Address }
impl TokenClient {
    pub fn new(a: &Address) -> (r: TokenClient) ensures r.id == *a { TokenClient { id: a.vclone() } }
    #[verifier::external_body] pub fn transfer(&self, e: &mut Env, from: &Address, to: &Address, amount: &i128) ensures final(e)@ == logc(old(e)@, Call::Transfer { token: self.id, from: *from, to: *to, amount: *amount }) { unimplemented!() }
    #[verifier::external_body] pub fn transfer_from(&self, e: &mut Env, spender: &Address, from: &Address, to: &Address, amount: &i128) ensures final(e)@ == logc(old(e)@, Call::TransferFrom { token: self.id, spender: *spender, from: *from, to: *to, amount: *amount }) { unimplemented!() }
    #[verifier::external_body] pub fn approve(&self, e: &mut Env, from: &Address, spender: &Address, amount: &i128, exp: &u32) ensures final(e)@ == logc(old(e)@, Call::Approve { token: self.id, from: *from, spender: *spender, amount: *amount, exp: *exp }) { unimplemented!() }
    #[verifier::external_body] pub fn burn(&self, e: &mut Env, from: &Address, amount: &i128) ensures final(e)@ == logc(old(e)@, Call::Burn { token: self.id, from: *from, amount: *amount }) { unimplemented!() }
    #[verifier::external_body] pub fn balance(&self, e: &mut Env, who: &Address) -> (r: i128) ensures final(e)@ == old(e)@, r == tok_balance(old(e)@.calls, self.id, *who) { unimplemented!() }
    #[verifier::external_body] pub fn allowance(&self, e: &mut Env, from: &Address, spender: &Address) -> (r: i128) ensures final(e)@ == old(e)@, r == tok_allowance(old(e)@.calls, self.id, *from, *spender) { unimplemented!() }
    #[verifier::external_body] pub fn decimals(&self, e: &mut Env) -> (r: u32) ensures final(e)@ == old(e)@, r == tok_decimals(self.id) { unimplemented!() }
}
pub struct StellarAssetClient { pub id: Address }
impl StellarAssetClient {
    pub fn new(a: &Address) -> (r: StellarAssetClient) ensures r.id == *a { StellarAssetClient { id: a.vclone() } }
    #[verifier::external_body] pub fn mint(&self, e: &mut Env, to: &Address, amount: &i128) ensures *amount >= 0, final(e)@ == logc(old(e)@, Call::Mint { token: self.id, to: *to, amount: *amount }) { unimplemented!() }
    #[verifier::external_body] pub fn set_admin(&self, e: &mut Env, admin: &Address) ensures final(e)@ == logc(old(e)@, Call::SetAdmin { token: self.id, admin: *admin }) { unimplemented!() }
    #[verifier::external_body] pub fn balance(&self, e: &mut Env, who: &Address) -> (r: i128) ensures final(e)@ == old(e)@, r == tok_balance(old(e)@.calls, self.id, *who) { unimplemented!() }
    #[verifier::external_body] pub fn transfer(&self, e: &mut Env, from: &Address, to: &Address, amount: &i128) ensures final(e)@ == logc(old(e)@, Call::Transfer { token: self.id, from: *from, to: *to, amount: *amount }) { unimplemented!() }
}
