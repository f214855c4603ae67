// casts whose operand type the extractor does not know: `x as T` (saturating truncation from floating point)
mod cast { use super::*;
pub open spec fn kx_clip(x: int, hi: int) -> int { if x < 0 { 0 } else if x > hi { hi } else { x } }
pub trait KxCast: Sized { spec fn kreal(self) -> real; spec fn kto(self, hi: int) -> int; }
impl KxCast for R { open spec fn kreal(self) -> real { self@ } open spec fn kto(self, hi: int) -> int { kx_clip(rtrunc(self@), hi) } }
impl KxCast for u8 { open spec fn kreal(self) -> real { self as int as real } open spec fn kto(self, hi: int) -> int { if self as int <= hi { self as int } else { (self as int) % (hi + 1) } } }
impl KxCast for bool { open spec fn kreal(self) -> real { 0real } open spec fn kto(self, hi: int) -> int { if self { 1 } else { 0 } } }
impl KxCast for u16 { open spec fn kreal(self) -> real { self as int as real } open spec fn kto(self, hi: int) -> int { if self as int <= hi { self as int } else { (self as int) % (hi + 1) } } }
impl KxCast for u32 { open spec fn kreal(self) -> real { self as int as real } open spec fn kto(self, hi: int) -> int { if self as int <= hi { self as int } else { (self as int) % (hi + 1) } } }
impl KxCast for u64 { open spec fn kreal(self) -> real { self as int as real } open spec fn kto(self, hi: int) -> int { if self as int <= hi { self as int } else { (self as int) % (hi + 1) } } }
impl KxCast for usize { open spec fn kreal(self) -> real { self as int as real } open spec fn kto(self, hi: int) -> int { if self as int <= hi { self as int } else { (self as int) % (hi + 1) } } }
#[verifier::external_body] pub fn kx_cast_r<X: KxCast>(x: X) -> (r: R) ensures r@ == x.kreal() { unimplemented!() }
#[verifier::external_body] pub fn kx_cast_u8<X: KxCast>(x: X) -> (r: u8) ensures r as int == x.kto(255) { unimplemented!() }
#[verifier::external_body] pub fn kx_cast_u16<X: KxCast>(x: X) -> (r: u16) ensures r as int == x.kto(65535) { unimplemented!() }
#[verifier::external_body] pub fn kx_cast_u32<X: KxCast>(x: X) -> (r: u32) ensures r as int == x.kto(0xffff_ffff) { unimplemented!() }
#[verifier::external_body] pub fn kx_cast_usize<X: KxCast>(x: X) -> (r: usize) ensures r as int == x.kto(0xffff_ffff_ffff_ffff) { unimplemented!() }
}
pub use cast::*;
