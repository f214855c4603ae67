#!/usr/bin/env python3
import math
"""Writes contracts/c21.vk: the same contract for every filter bank of src/wavelet.rs.
The tap values below are the specification (published filters, independent of the code)."""
import pathlib
F = {
 'db2': (["0.4829629131445341","0.8365163037378079","0.2241438680420134","-0.1294095225512604"],),
 'db4': (["-0.010597401785069032","0.0328830116668852","0.030841381835560764","-0.18703481171909309","-0.027983769416859854","0.6308807679298589","0.7148465705529157","0.2303778133088965"],),
 'sym4': (["-0.07576571478927333","-0.02963552764599851","0.49761866763201545","0.8037387518059161","0.29785779560527736","-0.09921954357684722","-0.012603967262037833","0.0322231006040427"],),
 'coif1': (["-0.015655728135791993","-0.07273261951252645","0.3848648468648578","0.8525720202116004","0.3378976624574818","-0.07273261951252645"],),
}
def lit(s):
    neg = s.startswith('-'); s = s.lstrip('-')
    d = len(s.split('.')[1]); n = s.replace('.', '').lstrip('0')
    r = f"{n}real / {10**d}real"
    return f"-({r})" if neg else r
def flip(s): return s[1:] if s.startswith('-') else '-' + s
out = ["## Daubechies / Symlet / Coiflet wavelets (written by tools/gen_wavelets.py)",
 "#feature std", "#include prelude.rs", "#include sums.rs", "#include wavfilt.rs", "#include wavmulti.vk"]
CLO = """at clo.reflect
  requires 2 <= len, small(len as int), 0 <= kxp0 <= 0x2000_0000_0000_0000,
  ensures %s
loop 0
  2 <= n == len, small(len as int), -0x2000_0000_0000_0000 <= idx <= 0x2000_0000_0000_0000, mirror(len as int, idx as int) == mirror(len as int, kxp0 as int)
  decreases if idx < 0 { 1 - 2 * idx } else { 2 * idx }
at loop0.start
  proof { mirror_step(n as int, idx as int); }
at loop0.after
  proof { mirror_in(n as int, idx as int); }"""
for w, (h,) in F.items():
    L = len(h)
    # alternating flip: g[k] = (-1)^k h[L-1-k], with the sign each bank uses
    g = [flip(h[L-1-k]) if k % 2 == (0 if w != 'db2' else 1) else h[L-1-k] for k in range(L)]
    if w == 'db2':
        g = [flip(h[L-1-k]) if k % 2 else h[L-1-k] for k in range(L)]
    out.append("#verus")
    out.append(f"pub open spec fn {w}_h() -> Seq<real> {{ seq![{', '.join(lit(x) for x in h)}] }}")
    out.append(f"pub open spec fn {w}_g() -> Seq<real> {{ seq![{', '.join(lit(x) for x in g)}] }}")
    out.append("#end")
    H, G = f"{w}_h()", f"{w}_g()"
    unr = ", ".join(f"mirror_range(len as int, 2 * i + {k})" for k in range(L))
    if w == 'db2':
        body = f"""loop 1
  n == input@.len() / 2, approx@.len() == n, detail@.len() == n, analysed({H}, input@, approx@, i as int), analysed({G}, input@, detail@, i as int)
at loop1.start
  let ghost a0 = approx@; let ghost d0 = detail@;
  proof {{ {'; '.join(f'mirror_range(len as int, 2 * i + {k})' for k in range(L))}; }}
at loop1.end
  proof {{
    reveal_with_fuel(rsum, 5);
    let t = taps({H}, input@, 2 * kxi); let u = taps({G}, input@, 2 * kxi);
    assert(rsum(t, 4) == 0real + t(0) + t(1) + t(2) + t(3)); assert(rsum(u, 4) == 0real + u(0) + u(1) + u(2) + u(3));
    ana_step({H}, input@, a0, approx@, kxi); ana_step({G}, input@, d0, detail@, kxi);
  }}"""
        body = body.replace("kxi", "(i as int)")
        init = ""
    else:
        body = f"""loop 1
  n == input@.len() / 2, approx@.len() == n, detail@.len() == n, analysed({H}, input@, approx@, i as int), analysed({G}, input@, detail@, i as int),
  forall|q: int| i <= q < n ==> (#[trigger] approx@[q])@ == 0real, forall|q: int| i <= q < n ==> (#[trigger] detail@[q])@ == 0real
at loop1.start
  let ghost a0 = approx@; let ghost d0 = detail@;
loop 2
  approx@.len() == n, detail@.len() == n, forall|q: int| 0 <= q < n && q != i ==> #[trigger] approx@[q] == a0[q], forall|q: int| 0 <= q < n && q != i ==> #[trigger] detail@[q] == d0[q],
  approx@[i as int]@ == rsum(taps({H}, input@, 2 * i), k as int), detail@[i as int]@ == rsum(taps({G}, input@, 2 * i), k as int)
at loop2.start
  proof {{ mirror_range(len as int, 2 * i + k); rsum_step(taps({H}, input@, 2 * i), k as int); rsum_step(taps({G}, input@, 2 * i), k as int); }}
at loop2.after
  proof {{ ana_step({H}, input@, a0, approx@, i as int); ana_step({G}, input@, d0, detail@, i as int); }}"""
        init = f"""at let.h
  assert(forall|q: int| 0 <= q < {L} ==> (#[trigger] h@[q])@ == {H}[q]);
at let.g
  assert(forall|q: int| 0 <= q < {L} ==> (#[trigger] g@[q])@ == {G}[q]);
"""
    out.append(f"""#fn src/wavelet.rs :: {w}_forward
requires
  small(input@.len() as int)
ensures
  analysis({H}, {G}, input@, r.0@, r.1@)
{init}{CLO % 'kxr == input@[mirror(len as int, kxp0 as int)]'}
at loop1.before
  proof {{ ana_0({H}, input@, approx@); ana_0({G}, input@, detail@); }}
{body}
#end""")
    if w == 'db2':
        out.append(f"""#fn src/wavelet.rs :: gk
ensures
  k < 4 ==> r@ == {H}[k as int], k >= 4 ==> r@ == 0real
#end
#fn src/wavelet.rs :: hk
ensures
  k < 4 ==> r@ == {G}[k as int], k >= 4 ==> r@ == 0real
#end""")
        iinit = ""
    else:
        iinit = f"""at let.g
  assert(forall|q: int| 0 <= q < {L} ==> (#[trigger] g@[q])@ == {H}[q]);
at let.h
  assert(forall|q: int| 0 <= q < {L} ==> (#[trigger] h@[q])@ == {G}[q]);
"""
    out.append(f"""#fn src/wavelet.rs :: {w}_inverse
requires
  small(2 * approx@.len() as int), approx@.len() <= detail@.len()
ensures
  synthesis({H}, {G}, approx@, detail@, r@)
{iinit}{CLO % 'kxr == mirror(len as int, kxp0 as int)'}
at loop1.before
  proof {{ syn_start({H}, {G}, approx@, detail@, output@); }}
loop 1
  n == approx@.len(), len == 2 * n, output@.len() == len, syn_done({H}, {G}, approx@, detail@, output@, i as int, 0)
loop 2
  output@.len() == len, syn_done({H}, {G}, approx@, detail@, output@, i as int, k as int)
at loop2.start
  let ghost y0 = output@;
  proof {{ mirror_range(len as int, 2 * i + k); }}
at loop2.end
  proof {{ syn_step({H}, {G}, approx@, detail@, y0, output@, i as int, k as int, mirror(len as int, 2 * i + k)); }}
at loop2.after
  proof {{ syn_next({H}, {G}, approx@, detail@, output@, i as int); }}
at loop1.after
  proof {{ syn_end({H}, {G}, approx@, detail@, output@); }}
#end""")
from fractions import Fraction as Fr
def num(s): return Fr(s)
def rl(f): return (f"-({-f.numerator}real / {f.denominator}real)" if f < 0 else f"{f.numerator}real / {f.denominator}real")
out.append("#verus")
for w, (h,) in F.items():
    L = len(h)
    g = [flip(h[L-1-k]) if k % 2 == (1 if w == 'db2' else 0) else h[L-1-k] for k in range(L)]
    hn, gn = [num(x) for x in h], [num(x) for x in g]
    S = math.lcm(*(c.denominator for c in hn + gn))
    il = lambda f: (lambda v: f"({v}real)" if v >= 0 else f"(-{-v}real)")(int(f * S))
    H, G = f"{w}_h()", f"{w}_g()"
    xs = ", ".join(f"x{k}: real" for k in range(2*L-1)); bs = ", ".join(f"b{k}: real" for k in range(2*L-1))
    ads = ", ".join(f"a{j}: real, d{j}: real" for j in range(L//2))
    for p in (0, 1):
        C = {}
        req = []
        for j in range(L//2):
            for m in range(L):
                C[-p - 2*j + m] = C.get(-p - 2*j + m, Fr(0)) + hn[p+2*j]*hn[m] + gn[p+2*j]*gn[m]
            for nm, taps in (('a', hn), ('d', gn)):
                req.append(f"{S}real * {nm}{j} == " + " + ".join(f"{il(taps[m])} * x{-p - 2*j + m + L - 1}" for m in range(L)))
        C[0] -= 1
        assert all(abs(c) <= Fr(1, 10**6) for c in C.values()), (w, p, C)
        req.append(f"{S}real * yt == " + " + ".join(f"{il(hn[p+2*j])} * a{j} + {il(gn[p+2*j])} * d{j}" for j in range(L//2)))
        req += [f"-b{k} <= x{k} <= b{k}" for k in range(2*L-1)]
        out.append(f"""proof fn {w}_lin{p}({xs}, {bs}, {ads}, yt: real)
  requires
    {(","+chr(10)+"    ").join(req)}
  ensures
    -({" + ".join(f"b{k}" for k in range(2*L-1))}) <= (yt - x{L-1}) * 1000000real <= {" + ".join(f"b{k}" for k in range(2*L-1))}
{{}}""")
    out.append(f"""/// synthesis of the analysis gives the signal back, up to the accuracy of the published taps (1e-6 of the neighbourhood)
pub proof fn {w}_reconstructs(x: Seq<R>, a: Seq<R>, d: Seq<R>, y: Seq<R>, t: int)
  requires analysis({H}, {G}, x, a, d), synthesis({H}, {G}, a, d, y), x.len() % 2 == 0, {L} <= t < x.len() - {L}
  ensures y.len() == x.len(), -rsum(absum(x, t - {L-1}), {2*L-1}) <= (y[t]@ - x[t]@) * 1000000real <= rsum(absum(x, t - {L-1}), {2*L-1})
{{
  let q = t / 2;
  if t % 2 == 0 {{ {w}_rec0(x, a, d, y, q); }} else {{ {w}_rec1(x, a, d, y, q); }}
}}""")
    for p in (0, 1):
        out.append(f"""proof fn {w}_rec{p}(x: Seq<R>, a: Seq<R>, d: Seq<R>, y: Seq<R>, q: int)
  requires analysis({H}, {G}, x, a, d), synthesis({H}, {G}, a, d, y), x.len() % 2 == 0, {L} <= 2 * q + {p} < x.len() - {L}
  ensures y.len() == x.len(), -rsum(absum(x, 2 * q + {p} - {L-1}), {2*L-1}) <= (y[2 * q + {p}]@ - x[2 * q + {p}]@) * 1000000real <= rsum(absum(x, 2 * q + {p} - {L-1}), {2*L-1})
{{
  let t = 2 * q + {p}; let yt = y[t]@; let tot = rsum(absum(x, t - {L-1}), {2*L-1});""")
        for k in range(2*L-1): out.append(f"  let x{k} = x[t + ({k - L + 1})]@; let b{k} = rabs(x{k});")
        for j in range(L//2): out.append(f"  let a{j} = a[q - {j}]@; let d{j} = d[q - {j}]@;")
        bsum = " + ".join(f"b{k}" for k in range(2*L-1))
        out.append(f"  assert(tot == {bsum}) by {{ {w}_sum{2*L-1}(absum(x, t - {L-1})); }}")
        for j in range(L//2):
            fa = f"{S}real * a{j} == " + " + ".join(f"{il(hn[m])} * x{-p - 2*j + m + L - 1}" for m in range(L))
            fd = f"{S}real * d{j} == " + " + ".join(f"{il(gn[m])} * x{-p - 2*j + m + L - 1}" for m in range(L))
            out.append(f"  assert({fa} && {fd}) by {{ {w}_coef(x, a, d, q - {j}); {' '.join(f'assert(2 * (q - {j}) + {m} == t + ({-p - 2*j + m}));' for m in range(L))} }}")
        fy = f"{S}real * yt == " + " + ".join(f"{il(hn[p+2*j])} * a{j} + {il(gn[p+2*j])} * d{j}" for j in range(L//2))
        out.append(f"  assert({fy}) by {{ {w}_out{p}(a, d, y, q); }}")
        args = [f"x{k}" for k in range(2*L-1)] + [f"b{k}" for k in range(2*L-1)]
        for j in range(L//2): args += [f"a{j}", f"d{j}"]
        out.append(f"  {w}_lin{p}({', '.join(args)}, yt);\n}}")
    ex = lambda taps, base: " + ".join(f"{il(taps[m])} * x[{base} + {m}]@" for m in range(L))
    out.append(f"""proof fn {w}_coef(x: Seq<R>, a: Seq<R>, d: Seq<R>, i: int)
  requires analysis({H}, {G}, x, a, d), 0 <= i, 2 * i + {L} <= x.len()
  ensures {S}real * a[i]@ == {ex(hn, '2 * i')}, {S}real * d[i]@ == {ex(gn, '2 * i')}
{{ reveal(analysed); {w}_firh(x, 2 * i); {w}_firg(x, 2 * i); assert(a[i]@ == fir({H}, x, 2 * i)); assert(d[i]@ == fir({G}, x, 2 * i)); }}""")
    for p in (0, 1):
        out.append(f"""proof fn {w}_out{p}(a: Seq<R>, d: Seq<R>, y: Seq<R>, q: int)
  requires synthesis({H}, {G}, a, d, y), {L} <= 2 * q + {p} < 2 * a.len() - {L}
  ensures {S}real * y[2 * q + {p}]@ == {" + ".join(f"{il(hn[p+2*j])} * a[q - {j}]@ + {il(gn[p+2*j])} * d[q - {j}]@" for j in range(L//2))}
{{
  let t = 2 * q + {p}; let f = syn_in({H}, {G}, a, d, t);
  assert(t / 2 == q && t % 2 == {p});
  syn_interior({H}, {G}, a, d, t);
  {w}_sum{L//2}(f);""")
        for j in range(L//2):
            out.append(f"  assert(f({j}) == ({H})[{p+2*j}] * a[q - {j}]@ + ({G})[{p+2*j}] * d[q - {j}]@); scale_mul({S}real, ({H})[{p+2*j}], {il(hn[p+2*j])}, a[q - {j}]@); scale_mul({S}real, ({G})[{p+2*j}], {il(gn[p+2*j])}, d[q - {j}]@);")
        out.append(f"  scale_sum{L//2}({S}real, y[t]@, " + ", ".join(f"({H})[{p+2*j}] * a[q - {j}]@, ({G})[{p+2*j}] * d[q - {j}]@" for j in range(L//2)) + ");")
        out.append("}")
    for nm, ST, taps in (('h', H, hn), ('g', G, gn)):
        out.append(f"""proof fn {w}_fir{nm}(x: Seq<R>, p: int)
  requires 0 <= p, p + {L} <= x.len(), x.len() >= 2
  ensures {S}real * fir({ST}, x, p) == {" + ".join(f"{il(taps[m])} * x[p + {m}]@" for m in range(L))}
{{
  fir_interior({ST}, x, p); {w}_sum{L}(fir_in({ST}, x, p)); {" ".join(f"scale_mul({S}real, ({ST})[{m}], {il(taps[m])}, x[p + {m}]@);" for m in range(L))}
}}""")
    for n in sorted({2*L-1, L, L//2}):
        out.append(f"""proof fn {w}_sum{n}(f: spec_fn(int) -> real)
  ensures rsum(f, {n}) == {" + ".join(f"f({k})" for k in range(n))}
{{ reveal_with_fuel(rsum, {n+1}); }}""")
out.append("#end")
for w in F:
    H, G = f"{w}_h()", f"{w}_g()"
    out.append(f"""#verus
pub open spec fn {w}_fwd() -> Rel {{ |x: Seq<R>, a: Seq<R>, d: Seq<R>| analysis({H}, {G}, x, a, d) }}
pub open spec fn {w}_inv() -> Rel {{ |a: Seq<R>, d: Seq<R>, y: Seq<R>| synthesis({H}, {G}, a, d, y) }}
#end
#fn src/wavelet.rs :: {w}_forward_multi
requires
  fits(input@.len() as int)
ensures
  levels_are({w}_fwd(), input@, r.0@, r.1@, levels as int)
at fn.start
  proof {{
    assert(fready({w}_forward));
    assert forall|a: Seq<R>, d: Seq<Vec<R>>| #[trigger] fdone({w}_forward, input@, a, d, levels as int) implies levels_are({w}_fwd(), input@, a, d, levels as int) by {{ to_levels({w}_forward, {w}_fwd(), input@, a, d, levels as int); }}
  }}
#end
#fn src/wavelet.rs :: {w}_inverse_multi
requires
  smallc(details@)
ensures
  levels_back({w}_inv(), avg@, details@, r@)
at fn.start
  proof {{
    assert(iready({w}_inverse));
    assert forall|st: spec_fn(int) -> Seq<R>| st(details@.len() as int) == avg@ && #[trigger] ichain({w}_inverse, st, details@, 0) implies levels_back({w}_inv(), avg@, details@, st(0)) by {{ to_levels_back({w}_inverse, {w}_inv(), avg@, details@, st); }}
  }}
#end""")
out.append("""#fn src/wavelet.rs :: db2_forward_batch
opt lty=avgs:Vec<Vec<R>>
opt lty=diffs:Vec<Vec<R>>
requires
  forall|q: int| 0 <= q < inputs@.len() ==> small((#[trigger] inputs@[q])@.len() as int)
ensures
  r.0@.len() == inputs@.len(), r.1@.len() == inputs@.len(),
  forall|q: int| 0 <= q < inputs@.len() ==> analysis(db2_h(), db2_g(), (#[trigger] inputs@[q])@, r.0@[q]@, r.1@[q]@)
loop 0
  forall|q: int| 0 <= q < inputs@.len() ==> small((#[trigger] inputs@[q])@.len() as int),
  avgs@.len() == kx0, diffs@.len() == kx0,
  forall|q: int| 0 <= q < kx0 ==> analysis(db2_h(), db2_g(), (#[trigger] inputs@[q])@, avgs@[q]@, diffs@[q]@)
#end
#fn src/wavelet.rs :: db2_inverse_batch
opt acc0=Vec<R>
requires
  avgs@.len() == diffs@.len(),
  forall|q: int| 0 <= q < avgs@.len() ==> (#[trigger] avgs@[q])@.len() <= diffs@[q]@.len() && small(2 * avgs@[q]@.len() as int)
ensures
  r@.len() == avgs@.len(),
  forall|q: int| 0 <= q < avgs@.len() ==> synthesis(db2_h(), db2_g(), avgs@[q]@, diffs@[q]@, (#[trigger] r@[q])@)
loop 0
  avgs@.len() == diffs@.len(),
  forall|q: int| 0 <= q < avgs@.len() ==> (#[trigger] avgs@[q])@.len() <= diffs@[q]@.len() && small(2 * avgs@[q]@.len() as int),
  kxa0@.len() == kx0,
  forall|q: int| 0 <= q < kx0 ==> synthesis(db2_h(), db2_g(), avgs@[q]@, diffs@[q]@, (#[trigger] kxa0@[q])@)
#end""")
out += ["#verus", "fn main() {}", "}", "#end"]
pathlib.Path(__file__).resolve().parent.parent.joinpath('contracts/c21.vk').write_text("\n".join(out) + "\n")
