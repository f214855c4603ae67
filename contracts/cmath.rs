// ---- ghost complex numbers and sums -------------------------------------------
pub struct C { pub re: real, pub im: real }
pub open spec fn c0() -> C { C { re: 0real, im: 0real } }
pub open spec fn c1() -> C { C { re: 1real, im: 0real } }
pub open spec fn cadd(a: C, b: C) -> C { C { re: a.re + b.re, im: a.im + b.im } }
pub open spec fn csub(a: C, b: C) -> C { C { re: a.re - b.re, im: a.im - b.im } }
pub open spec fn cneg(a: C) -> C { C { re: -a.re, im: -a.im } }
pub open spec fn cmul(a: C, b: C) -> C { C { re: a.re * b.re - a.im * b.im, im: a.re * b.im + a.im * b.re } }
pub open spec fn cconj(a: C) -> C { C { re: a.re, im: -a.im } }
pub open spec fn cscale(a: C, s: real) -> C { C { re: a.re * s, im: a.im * s } }
pub open spec fn cexpi(t: real) -> C { C { re: rcos(t), im: rsin(t) } }
