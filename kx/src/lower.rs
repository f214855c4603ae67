//! The fixed rewriting rules from kofft Rust to the Verus subset.
//!
//! What the rules drop or idealise is documented in /verif/DESIGN.md
//! ("What the extraction drops").
use crate::source::Source;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Res<T> = std::result::Result<T, String>;

#[derive(Default, Clone)]
pub struct Opts {
    pub mutself: bool,
    pub typeid: Option<String>,
    pub tparams: BTreeSet<String>,
    pub keepf32: bool,
    /// `&mut *(x as *mut ..)` of a `&mut` variable that is used again afterwards
    pub reborrow: bool,
    pub text: bool,
    /// a same-object view of a parameter that stays live while the parameter is used
    pub alias: bool,
    /// casts go through traits (the operand's type is not known to the extractor)
    pub gcast: bool,
    /// assert! is a refusal (panics, postcondition need not hold) instead of an obligation
    pub refuse: bool,
    /// variables that are R so that `x as usize` needs the real->int cast
    pub rcast: BTreeSet<String>,
    /// element type of the vector collected by loop N
    pub acc: BTreeMap<usize, String>,
    pub closures: BTreeMap<String, String>,
    pub byval: bool,
    pub rename: Option<String>,
    pub pingpong: bool,
    pub drop_stmts: Vec<String>,
    pub constparam: BTreeSet<String>,
    pub fnparams: BTreeSet<String>,
    /// associated constants of the impl the function lives in
    pub assoc: Vec<(String, Type, Expr)>,
    /// parameters that are fixed-size arrays
    pub arrays: BTreeSet<String>,
    /// `collect` loops whose closure yields a Result
    pub rescol: BTreeSet<usize>,
}

pub struct Lower<'a> {
    pub src: &'a Source,
    pub o: Opts,
    pub nloops: usize,
    pub err: Option<String>,
    pub fresh: usize,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
pub fn inv_stmt(n: usize) -> Stmt {
    let l = Lit::Int(LitInt::new(&n.to_string(), Span::call_site()));
    parse_quote!(kx_inv!(#l);)
}
pub fn at_stmt(s: &str) -> Stmt {
    parse_quote!(kx_at!(#s);)
}

/// a closure bound to a name can carry a contract (`at clo.NAME`): its parameters become kxp0, kxp1, ..
/// bound to the original patterns at the start of its body
fn closure_contract(nm: &str, c: &mut ExprClosure) {
    if matches!(c.output, ReturnType::Default) || !c.inputs.iter().all(|p| matches!(p, Pat::Type(_))) {
        return;
    }
    let body = &c.body;
    let mut pre: Vec<Stmt> = vec![at_stmt(&format!("clo.{}", nm))];
    for (i, p) in c.inputs.iter_mut().enumerate() {
        if let Pat::Type(pt) = p {
            let k = format_ident!("kxp{}", i);
            let old = (*pt.pat).clone();
            let ty = &pt.ty;
            pre.push(parse_quote!(let #old: #ty = #k;));
            *pt.pat = parse_quote!(#k);
        }
    }
    let blk: Block = match &**body {
        Expr::Block(b) => {
            let mut b = b.block.clone();
            pre.append(&mut b.stmts);
            b.stmts = pre;
            b
        }
        e => {
            let e = e.clone();
            let mut b: Block = parse_quote!({});
            b.stmts = pre;
            b.stmts.push(Stmt::Expr(e, None));
            b
        }
    };
    *c.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
}

/// exact decimal -> (num, den)
pub fn ratio(txt: &str) -> Option<(i128, u128)> {
    let t = txt.replace('_', "");
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (t[..i].to_string(), t[i + 1..].parse::<i32>().ok()?),
        None => (t.clone(), 0),
    };
    let (ip, fp) = match m.find('.') {
        Some(i) => (m[..i].to_string(), m[i + 1..].to_string()),
        None => (m, String::new()),
    };
    let fp = fp.trim_end_matches('0').to_string();
    let digits = format!("{}{}", ip, fp);
    let mut num: i128 = digits.parse().ok()?;
    let mut exp = e - fp.len() as i32;
    let mut den: u128 = 1;
    while exp > 0 {
        num = num.checked_mul(10)?;
        exp -= 1;
    }
    while exp < 0 {
        den = den.checked_mul(10)?;
        exp += 1;
    }
    Some((num, den))
}

fn named_const(v: f64) -> Option<&'static str> {
    let tab: [(f64, &str); 3] = [
        (std::f64::consts::FRAC_1_SQRT_2, "c_sqrt1_2"),
        ((std::f64::consts::PI / 8.0).cos(), "c_cos_pi_8"),
        ((std::f64::consts::PI / 8.0).sin(), "c_sin_pi_8"),
    ];
    for (c, n) in tab {
        // the literal must denote the f32 nearest to the named constant
        if v as f32 == c as f32 && (v - c).abs() <= (c as f32 as f64) * 6.0e-8 {
            return Some(n);
        }
    }
    None
}

impl<'a> Lower<'a> {
    pub fn new(src: &'a Source, o: Opts) -> Self {
        Lower { src, o, nloops: 0, err: None, fresh: 0 }
    }
    fn fail(&mut self, m: String) {
        if self.err.is_none() {
            self.err = Some(m);
        }
    }
    pub fn body(&mut self, b: &Block) -> Res<Block> {
        let mut b = b.clone();
        self.cfg_block(&mut b);
        local_types(&mut b);
        let mut s = Strip { src: self.src };
        s.visit_block_mut(&mut b);
        assoc_consts(&mut b, &self.o.assoc);
        if self.o.text {
            crate::text::Text.visit_block_mut(&mut b);
        }
        Uninit.visit_block_mut(&mut b);
        if let Some(t) = self.o.typeid.clone() {
            let mut v = TypeIdRule { t };
            v.visit_block_mut(&mut b);
            prune_true(&mut b);
        }
        if self.o.alias {
            Alias.visit_block_mut(&mut b);
        }
        if self.o.pingpong {
            pingpong(&mut b)?;
        }
        self.block(&mut b);
        let mut t = Terms { o: self.o.clone(), err: None };
        t.visit_block_mut(&mut b);
        if self.err.is_none() {
            self.err = t.err;
        }
        match &self.err {
            Some(e) => Err(e.clone()),
            None => Ok(b),
        }
    }

    fn cfg_block(&mut self, _b: &mut Block) {}

    // ---- loops and iterator chains --------------------------------------
    fn block(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let n = stmts.len();
        for (i, s) in stmts.into_iter().enumerate() {
            match s {
                Stmt::Expr(e, semi) => {
                    let tail = i + 1 == n && semi.is_none();
                    match e {
                        Expr::ForLoop(f) => {
                            let id = self.nloops;
                            out.push(at_stmt(&format!("loop{}.before", id)));
                            let blk = self.for_loop(f);
                            out.push(Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }), None));
                            out.push(at_stmt(&format!("loop{}.after", id)));
                        }
                        Expr::While(mut w) => {
                            let id = self.nloops;
                            self.nloops += 1;
                            self.expr(&mut w.cond);
                            self.block(&mut w.body);
                            w.body.stmts.insert(0, at_stmt(&format!("loop{}.start", id)));
                            w.body.stmts.push(at_stmt(&format!("loop{}.end", id)));
                            w.body.stmts.insert(0, inv_stmt(id));
                            out.push(at_stmt(&format!("loop{}.before", id)));
                            out.push(Stmt::Expr(Expr::While(w), None));
                            out.push(at_stmt(&format!("loop{}.after", id)));
                        }
                        Expr::Loop(mut w) => {
                            let id = self.nloops;
                            self.nloops += 1;
                            self.block(&mut w.body);
                            w.body.stmts.insert(0, at_stmt(&format!("loop{}.start", id)));
                            w.body.stmts.push(at_stmt(&format!("loop{}.end", id)));
                            w.body.stmts.insert(0, inv_stmt(id));
                            out.push(at_stmt(&format!("loop{}.before", id)));
                            out.push(Stmt::Expr(Expr::Loop(w), None));
                            out.push(at_stmt(&format!("loop{}.after", id)));
                        }
                        mut e => {
                            self.expr(&mut e);
                            if tail {
                                out.push(at_stmt("fn.end?"));
                            }
                            // a statement-position chain that became a block
                            out.push(Stmt::Expr(e, semi));
                        }
                    }
                }
                Stmt::Local(mut l) => {
                    let name = pat_ident(&l.pat);
                    if let Some(init) = &mut l.init {
                        self.expr(&mut init.expr);
                        if let (Some(nm), Expr::Closure(c)) = (&name, &mut *init.expr) {
                            closure_contract(nm, c);
                        }
                        if let Some((_, d)) = &mut init.diverge {
                            self.expr(d);
                        }
                    }
                    out.push(Stmt::Local(l));
                    if let Some(nm) = name {
                        out.push(at_stmt(&format!("let.{}", nm)));
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }

    fn expr(&mut self, e: &mut Expr) {
        // iterator chains first
        if let Some(new) = self.chain(e) {
            *e = new;
            return;
        }
        match e {
            Expr::Block(b) => self.block(&mut b.block),
            Expr::Unsafe(u) => {
                let mut blk = u.block.clone();
                self.block(&mut blk);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    for st in unref_pat(&mut l.pat).into_iter().rev() {
                        i.then_branch.stmts.insert(0, st);
                    }
                }
                self.expr(&mut i.cond);
                self.block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.expr(x);
                }
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr);
                for a in &mut m.arms {
                    self.expr(&mut a.body);
                }
            }
            Expr::ForLoop(f) => {
                let blk = self.for_loop(f.clone());
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
            }
            Expr::While(_) | Expr::Loop(_) => {
                let mut b = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] };
                self.block(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            Expr::Closure(c) => {
                self.expr(&mut c.body);
            }
            _ => {
                struct Sub<'b, 'c>(&'b mut Lower<'c>);
                impl VisitMut for Sub<'_, '_> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        self.0.expr(e);
                    }
                }
                let mut s = Sub(self);
                visit_mut::visit_expr_mut(&mut s, e);
            }
        }
    }

    fn for_loop(&mut self, f: ExprForLoop) -> Block {
        let lid = self.nloops;
        self.nloops += 1;
        let mut body = f.body.clone();
        let it = match parse_iter(&f.expr, true) {
            Some(i) => i,
            None => {
                self.fail(format!("unsupported construct: iterator `{}`", f.expr.to_token_stream()));
                return body;
            }
        };
        let has_continue = contains_continue(&body);
        if let (It::Range { lo, hi, incl, step: None }, false) = (&it, has_continue) {
            // direct counting loop
            let var = match &*f.pat {
                Pat::Ident(p) => p.ident.clone(),
                _ => format_ident!("kx{}", lid),
            };
            self.block(&mut body);
            let lo_v = format_ident!("kxlo{}", lid);
            let hi_v = format_ident!("kxhi{}", lid);
            let hi_e: Expr = if *incl { parse_quote!((#hi) + 1) } else { parse_quote!(#hi) };
            let mut stmts = vec![inv_stmt(lid), at_stmt(&format!("loop{}.start", lid))];
            stmts.extend(body.stmts);
            stmts.push(at_stmt(&format!("loop{}.end", lid)));
            stmts.push(parse_quote!(#var = #var + 1;));
            let wb = Block { brace_token: Default::default(), stmts };
            let inb = at_stmt(&format!("loop{}.inside", lid));
            let ina = at_stmt(&format!("loop{}.done", lid));
            let at = at_stmt(&format!("auto{}.range.{}", lid, var));
            return parse_quote!({ let #lo_v = #lo; let #hi_v = #hi_e; let mut #var = #lo_v; #inb #at while #var < #hi_v #wb #ina });
        }
        let k = format_ident!("kx{}", lid);
        let kn = format_ident!("kxn{}", lid);
        let mut setup: Vec<Stmt> = vec![];
        let len = self.len_of(&it, &mut setup, lid);
        let kexpr: Expr = if has_continue { parse_quote!(#k - 1) } else { parse_quote!(#k) };
        let mut binds: Vec<Stmt> = vec![];
        let mut subs: Vec<(String, Expr)> = vec![];
        if let Err(m) = bind(&f.pat, &it, &kexpr, &mut binds, &mut subs) {
            self.fail(m);
            return body;
        }
        let mut sub = SubstMut { subs };
        sub.visit_block_mut(&mut body);
        self.block(&mut body);
        let mut stmts = vec![inv_stmt(lid)];
        if has_continue {
            stmts.push(parse_quote!(#k = #k + 1;));
        }
        stmts.extend(binds);
        stmts.push(at_stmt(&format!("loop{}.start", lid)));
        stmts.extend(body.stmts);
        stmts.push(at_stmt(&format!("loop{}.end", lid)));
        if !has_continue {
            stmts.push(parse_quote!(#k = #k + 1;));
        }
        let wb = Block { brace_token: Default::default(), stmts };
        let inb = at_stmt(&format!("loop{}.inside", lid));
        let ina = at_stmt(&format!("loop{}.done", lid));
        let at = at_stmt(&format!("auto{}.idx", lid));
        parse_quote!({ #(#setup)* let #kn = #len; let mut #k = 0usize; #inb #at while #k < #kn #wb #ina })
    }

    fn len_of(&mut self, it: &It, setup: &mut Vec<Stmt>, lid: usize) -> Expr {
        match it {
            It::Range { lo, hi, incl, step } => {
                let hi_e: Expr = if *incl { parse_quote!((#hi) + 1) } else { parse_quote!(#hi) };
                match step {
                    None => parse_quote!(kx_span(#lo, #hi_e)),
                    Some(s) => parse_quote!(kx_steps(#lo, #hi_e, #s)),
                }
            }
            It::Slice { place, lo, hi, .. } => match (lo, hi) {
                (None, None) => parse_quote!((#place).len()),
                (lo, hi) => {
                    let l: Expr = lo.clone().unwrap_or_else(|| parse_quote!(0));
                    let h: Expr = hi.clone().unwrap_or_else(|| parse_quote!((#place).len()));
                    parse_quote!(kx_range_len(#l, #h, (#place).len()))
                }
            },
            It::Chunks { place, n, exact, .. } => {
                if *exact {
                    parse_quote!((#place).len() / (#n))
                } else {
                    parse_quote!(kx_div_ceil((#place).len(), #n))
                }
            }
            It::Windows { place, n } => parse_quote!(kx_span((#n) - 1, (#place).len())),
            It::Enumerate(i) | It::Copied(i) => self.len_of(i, setup, lid),
            It::Rev(i, slot) => {
                let l = self.len_of(i, setup, lid);
                self.fresh += 1;
                let v = format_ident!("kxr{}_{}", lid, self.fresh);
                *slot.borrow_mut() = Some(v.clone());
                setup.push(parse_quote!(let #v = #l;));
                parse_quote!(#v)
            }
            It::Zip(a, b) => {
                let x = self.len_of(a, setup, lid);
                let y = self.len_of(b, setup, lid);
                parse_quote!(kx_min(#x, #y))
            }
            It::Take(i, n) => {
                let x = self.len_of(i, setup, lid);
                parse_quote!(kx_min(#x, #n))
            }
            It::Skip(i, n) => {
                let x = self.len_of(i, setup, lid);
                parse_quote!(kx_span(#n, #x))
            }
        }
    }

    /// `ITER.map(|p| e).collect()`, `.sum()`, `.fold(..)`, `.for_each(..)`, `.all/.any(..)`
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
        let name = m.method.to_string();
        let closure = |x: &Expr| -> Option<ExprClosure> {
            match x {
                Expr::Closure(c) => Some(c.clone()),
                _ => None,
            }
        };
        // ITER.find(|p| c).map(|p| e): index of the first item satisfying c, then the mapped item
        if let (true, Expr::MethodCall(f)) = (name == "map" && m.args.len() == 1, &*m.receiver) {
            if f.method == "find" && f.args.len() == 1 {
                let it = parse_iter(&f.receiver, false)?;
                let (c, me) = (closure(&f.args[0])?, closure(&m.args[0])?);
                let lid = self.nloops;
                self.nloops += 1;
                let (k, kn, acc, kw) = (format_ident!("kx{}", lid), format_ident!("kxn{}", lid), format_ident!("kxa{}", lid), format_ident!("kxw{}", lid));
                let mut setup = vec![];
                let len = self.len_of(&it, &mut setup, lid);
                let mut half = |c: &ExprClosure, k: &Ident| -> Option<(Vec<Stmt>, Expr)> {
                    let (mut binds, mut subs) = (vec![], vec![]);
                    let p = match c.inputs.first()?.clone() {
                        Pat::Type(t) => *t.pat,
                        p => p,
                    };
                    let ke: Expr = parse_quote!(#k);
                    if let Err(x) = bind(&p, &it, &ke, &mut binds, &mut subs) {
                        self.fail(x);
                        return None;
                    }
                    let mut b = (*c.body).clone();
                    SubstMut { subs }.visit_expr_mut(&mut b);
                    self.expr(&mut b);
                    Some((binds, b))
                };
                let (b1, cond) = half(&c, &k)?;
                let (b2, val) = half(&me, &kw)?;
                let inv = inv_stmt(lid);
                let s = at_stmt(&format!("loop{}.start", lid));
                let en = at_stmt(&format!("loop{}.end", lid));
                let inb = at_stmt(&format!("loop{}.inside", lid));
                let ina = at_stmt(&format!("loop{}.done", lid));
                let at = at_stmt(&format!("auto{}.idx", lid));
                return Some(parse_quote!({ #(#setup)* let #kn = #len; let mut #acc: Option<usize> = None; let mut #k = 0usize; #inb #at
                    while #k < #kn && #acc.is_none() { #inv #(#b1)* #s if #cond { #acc = Some(#k); } #en #k = #k + 1; } #ina
                    match #acc { Some(#kw) => { #(#b2)* Some(#val) } None => None } }));
            }
        }
        // strip an optional trailing map
        let (base, maps): (Expr, Option<ExprClosure>) = match &*m.receiver {
            Expr::MethodCall(mm) if mm.method == "map" && mm.args.len() == 1 => {
                (*mm.receiver.clone(), closure(&mm.args[0]))
            }
            r => (r.clone(), None),
        };
        match name.as_str() {
            "collect" | "sum" | "fold" | "for_each" | "try_for_each" | "all" | "any" => {}
            _ => return None,
        }
        let it = parse_iter(&base, false)?;
        let lid = self.nloops;
        self.nloops += 1;
        let k = format_ident!("kx{}", lid);
        let kn = format_ident!("kxn{}", lid);
        let kexpr: Expr = parse_quote!(#k);
        let mut setup = vec![];
        let len = self.len_of(&it, &mut setup, lid);
        let mut binds = vec![];
        let mut subs = vec![];
        let item: Expr; // expression for the mapped item
        let strip = |c: &ExprClosure, n: usize| -> Option<Pat> {
            let p = c.inputs.iter().nth(n)?.clone();
            Some(match p {
                Pat::Type(t) => *t.pat,
                p => p,
            })
        };
        let ok: Res<()>;
        match (&maps, name.as_str()) {
            (Some(c), _) => {
                ok = bind(&strip(c, 0)?, &it, &kexpr, &mut binds, &mut subs);
                item = (*c.body).clone();
            }
            (None, "for_each") | (None, "try_for_each") | (None, "all") | (None, "any") => {
                let c = closure(&m.args[0])?;
                // all/any on iter(): closure pattern sees the item
                ok = bind(&strip(&c, 0)?, &it, &kexpr, &mut binds, &mut subs);
                item = (*c.body).clone();
            }
            (None, "fold") => {
                let c = closure(&m.args[1])?;
                ok = bind(&strip(&c, 1)?, &it, &kexpr, &mut binds, &mut subs);
                item = (*c.body).clone();
            }
            (None, _) => {
                let v = format_ident!("kxi{}", lid);
                let p: Pat = parse_quote!(#v);
                ok = bind(&p, &it, &kexpr, &mut binds, &mut subs);
                item = parse_quote!(#v);
            }
        }
        if let Err(x) = ok {
            self.fail(x);
            return None;
        }
        let mut item = item;
        {
            let mut sub = SubstMut { subs };
            sub.visit_expr_mut(&mut item);
        }
        self.expr(&mut item);
        let acc = format_ident!("kxa{}", lid);
        let kerr = format_ident!("kxe{}", lid);
        // control flow leaving the closure must not leave the function it is inlined into
        let mut esc = Escapes { err: None, depth: 0, kerr: None };
        if self.o.rescol.contains(&lid) || matches!(name.as_str(), "try_for_each") {
            esc.kerr = Some(if name == "try_for_each" { acc.clone() } else { kerr.clone() });
        }
        esc.visit_expr_mut(&mut item);
        if let Some(x) = esc.err {
            self.fail(x);
            return None;
        }
        if self.o.rescol.contains(&lid) && name == "collect" {
            let init: Stmt = match self.o.acc.get(&lid).cloned() {
                Some(t) => {
                    let t: Type = parse_str(&t).ok()?;
                    parse_quote!(let mut #acc: Vec<#t> = Vec::new();)
                }
                None => parse_quote!(let mut #acc = Vec::new();),
            };
            let inv = inv_stmt(lid);
            let s = at_stmt(&format!("loop{}.start", lid));
            let en = at_stmt(&format!("loop{}.end", lid));
            let inb = at_stmt(&format!("loop{}.inside", lid));
            let ina = at_stmt(&format!("loop{}.done", lid));
            let at = at_stmt(&format!("auto{}.idx", lid));
            return Some(parse_quote!({ #(#setup)* let #kn = #len; #init let mut #kerr: Result<(), FftError> = Ok(()); let mut #k = 0usize; #inb #at
                while #k < #kn { #inv #(#binds)* #s
                    match #item { Ok(kxv) => { #acc.push(kxv); } Err(kxx) => { #kerr = Err(kxx); break; } }
                    #en #k = #k + 1; } #ina
                match #kerr { Ok(_) => Ok(#acc), Err(kxx) => Err(kxx) } }));
        }
        let (init, step, res): (Stmt, Vec<Stmt>, Expr) = match name.as_str() {
            "collect" => (
                match self.o.acc.get(&lid).cloned() {
                    Some(t) => {
                        let t: Type = parse_str(&t).ok()?;
                        parse_quote!(let mut #acc: Vec<#t> = Vec::new();)
                    }
                    None => parse_quote!(let mut #acc = Vec::new();),
                },
                vec![parse_quote!(#acc.push(#item);)],
                parse_quote!(#acc),
            ),
            "sum" => (
                parse_quote!(let mut #acc = kx_sum_zero();),
                vec![parse_quote!(#acc = #acc + #item;)],
                parse_quote!(#acc),
            ),
            "fold" => {
                let c = closure(&m.args[1])?;
                let ap = match strip(&c, 0)? {
                    Pat::Ident(p) => p.ident,
                    _ => {
                        self.fail("unsupported construct: fold accumulator pattern".into());
                        return None;
                    }
                };
                let mut i0 = m.args[0].clone();
                self.expr(&mut i0);
                (
                    parse_quote!(let mut #acc = #i0;),
                    vec![parse_quote!(let #ap = #acc;), parse_quote!(#acc = #item;)],
                    parse_quote!(#acc),
                )
            }
            "for_each" => {
                let st: Stmt = Stmt::Expr(item.clone(), Some(Default::default()));
                (parse_quote!(let #acc = ();), vec![st], parse_quote!(#acc))
            }
            "try_for_each" => (
                parse_quote!(let mut #acc: Result<(), FftError> = Ok(());),
                vec![parse_quote!(#acc = #item;), parse_quote!(if #acc.is_err() { break; })],
                parse_quote!(#acc),
            ),
            "all" => (
                parse_quote!(let mut #acc = true;),
                vec![parse_quote!(if !(#item) { #acc = false; break; })],
                parse_quote!(#acc),
            ),
            _ => (
                parse_quote!(let mut #acc = false;),
                vec![parse_quote!(if #item { #acc = true; break; })],
                parse_quote!(#acc),
            ),
        };
        let inv = inv_stmt(lid);
        let s = at_stmt(&format!("loop{}.start", lid));
        let en = at_stmt(&format!("loop{}.end", lid));
        let inb = at_stmt(&format!("loop{}.inside", lid));
        let ina = at_stmt(&format!("loop{}.done", lid));
        let at = at_stmt(&format!("auto{}.idx", lid));
        Some(parse_quote!({ #(#setup)* let #kn = #len; #init let mut #k = 0usize; #inb #at
            while #k < #kn { #inv #(#binds)* #s #(#step)* #en #k = #k + 1; } #ina #res }))
    }
}

fn pat_ident(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

/// `Some(&x)` becomes `Some(kxref_x)` plus `let x = *kxref_x;`
fn unref_pat(p: &mut Pat) -> Vec<Stmt> {
    struct V(Vec<Stmt>);
    impl VisitMut for V {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                if let (Pat::Ident(i), true) = (&*r.pat, r.mutability.is_none()) {
                    let n = i.ident.clone();
                    let v = format_ident!("kxref_{}", n);
                    self.0.push(parse_quote!(let #n = *#v;));
                    *p = parse_quote!(#v);
                    return;
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    let mut v = V(vec![]);
    v.visit_pat_mut(p);
    v.0
}

fn contains_continue(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

// ---- iterators ------------------------------------------------------------
pub enum It {
    Range { lo: Expr, hi: Expr, incl: bool, step: Option<Expr> },
    Slice { place: Expr, lo: Option<Expr>, hi: Option<Expr>, mutable: bool },
    Chunks { place: Expr, n: Expr, exact: bool, mutable: bool },
    Windows { place: Expr, n: Expr },
    Enumerate(Box<It>),
    Zip(Box<It>, Box<It>),
    Take(Box<It>, Expr),
    Skip(Box<It>, Expr),
    Rev(Box<It>, std::cell::RefCell<Option<Ident>>),
    Copied(Box<It>),
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}

fn slice_of(e: &Expr, mutable: bool) -> It {
    let e = unparen(e);
    let e = match e {
        Expr::Reference(r) => unparen(&r.expr),
        e => e,
    };
    if let Expr::Index(ix) = e {
        if let Expr::Range(r) = unparen(&ix.index) {
            return It::Slice {
                place: (*ix.expr).clone(),
                lo: r.start.as_ref().map(|x| (**x).clone()),
                hi: r.end.as_ref().map(|x| match r.limits {
                    RangeLimits::Closed(_) => parse_quote!((#x) + 1),
                    _ => (**x).clone(),
                }),
                mutable,
            };
        }
    }
    It::Slice { place: e.clone(), lo: None, hi: None, mutable }
}

fn parse_iter(e: &Expr, toplevel: bool) -> Option<It> {
    match unparen(e) {
        Expr::Range(r) => Some(It::Range {
            lo: (*r.start.clone()?).clone(),
            hi: (*r.end.clone()?).clone(),
            incl: matches!(r.limits, RangeLimits::Closed(_)),
            step: None,
        }),
        Expr::Reference(r) => Some(slice_of(&r.expr, r.mutability.is_some())),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "iter" | "par_iter" => Some(slice_of(&m.receiver, false)),
                "iter_mut" | "par_iter_mut" => Some(slice_of(&m.receiver, true)),
                "into_iter" | "into_par_iter" => {
                    parse_iter(&m.receiver, true).or_else(|| Some(slice_of(&m.receiver, false)))
                }
                "chunks_exact" | "chunks" | "par_chunks" | "par_chunks_exact" => Some(It::Chunks {
                    place: (*m.receiver).clone(),
                    n: m.args[0].clone(),
                    exact: n.contains("exact"),
                    mutable: false,
                }),
                "chunks_exact_mut" | "chunks_mut" | "par_chunks_mut" | "par_chunks_exact_mut" => Some(It::Chunks {
                    place: (*m.receiver).clone(),
                    n: m.args[0].clone(),
                    exact: n.contains("exact"),
                    mutable: true,
                }),
                "windows" => Some(It::Windows { place: (*m.receiver).clone(), n: m.args[0].clone() }),
                "enumerate" => Some(It::Enumerate(Box::new(parse_iter(&m.receiver, false)?))),
                "copied" | "cloned" => Some(It::Copied(Box::new(parse_iter(&m.receiver, false)?))),
                "zip" => Some(It::Zip(
                    Box::new(parse_iter(&m.receiver, false)?),
                    Box::new(parse_iter(&m.args[0], true)?),
                )),
                "take" => Some(It::Take(Box::new(parse_iter(&m.receiver, false)?), m.args[0].clone())),
                "skip" => Some(It::Skip(Box::new(parse_iter(&m.receiver, false)?), m.args[0].clone())),
                "rev" => Some(It::Rev(Box::new(parse_iter(&m.receiver, false)?), Default::default())),
                "step_by" => match parse_iter(&m.receiver, false)? {
                    It::Range { lo, hi, incl, step: None } => {
                        Some(It::Range { lo, hi, incl, step: Some(m.args[0].clone()) })
                    }
                    _ => None,
                },
                _ => None,
            }
        }
        Expr::Path(_) | Expr::Field(_) if toplevel => Some(slice_of(e, false)),
        _ => None,
    }
}

/// Bind pattern `p` to element `k` of `it`.
fn bind(p: &Pat, it: &It, k: &Expr, binds: &mut Vec<Stmt>, subs: &mut Vec<(String, Expr)>) -> Res<()> {
    let p = match p {
        Pat::Paren(q) => &q.pat,
        p => p,
    };
    if matches!(p, Pat::Wild(_)) {
        return Ok(());
    }
    match it {
        It::Enumerate(i) => {
            let (a, b) = pair(p)?;
            bind_val(a, k, binds)?;
            bind(b, i, k, binds, subs)
        }
        It::Zip(x, y) => {
            let (a, b) = pair(p)?;
            bind(a, x, k, binds, subs)?;
            bind(b, y, k, binds, subs)
        }
        It::Take(i, _) => bind(p, i, k, binds, subs),
        It::Skip(i, n) => {
            let k2: Expr = parse_quote!((#k + (#n)));
            bind(p, i, &k2, binds, subs)
        }
        It::Rev(i, v) => {
            let v = v.borrow().clone().ok_or("unsupported construct: rev")?;
            let k2: Expr = parse_quote!((#v - 1 - (#k)));
            bind(p, i, &k2, binds, subs)
        }
        It::Copied(i) => {
            // by-value pattern over a by-reference iterator
            let q: Pat = parse_quote!(&#p);
            bind(&q, i, k, binds, subs)
        }
        It::Range { lo, step, .. } => {
            let e: Expr = match step {
                None => parse_quote!((#lo) + #k),
                Some(s) => parse_quote!((#lo) + #k * (#s)),
            };
            bind_val(p, &e, binds)
        }
        It::Slice { place, lo, mutable, .. } => {
            let ix: Expr = match lo {
                None => parse_quote!(#place[#k]),
                Some(l) => parse_quote!(#place[(#l) + #k]),
            };
            match p {
                Pat::Reference(r) => {
                    let q = &r.pat;
                    binds.push(parse_quote!(let #q = #ix;));
                    Ok(())
                }
                Pat::Ident(i) => {
                    if *mutable {
                        subs.push((i.ident.to_string(), ix));
                    } else {
                        let n = &i.ident;
                        binds.push(parse_quote!(let #n = &#ix;));
                    }
                    Ok(())
                }
                Pat::Tuple(t) => {
                    // default binding modes: by-reference components
                    for (j, q) in t.elems.iter().enumerate() {
                        let jx = Index::from(j);
                        match q {
                            Pat::Ident(i) => {
                                let n = &i.ident;
                                binds.push(parse_quote!(let #n = &#ix.#jx;));
                            }
                            Pat::Wild(_) => {}
                            _ => return Err("unsupported construct: nested tuple pattern".into()),
                        }
                    }
                    Ok(())
                }
                _ => Err(format!("unsupported construct: loop pattern `{}`", p.to_token_stream())),
            }
        }
        It::Chunks { place, n, exact, mutable } => {
            let i = match p {
                Pat::Ident(i) => i.ident.clone(),
                _ => return Err("unsupported construct: chunk pattern".into()),
            };
            let hi: Expr = if *exact {
                parse_quote!(#k * (#n) + (#n))
            } else {
                parse_quote!(kx_min(#k * (#n) + (#n), (#place).len()))
            };
            if *mutable {
                binds.push(parse_quote!(let kx_hi = #hi;));
                binds.push(parse_quote!(let #i = &mut #place[#k * (#n)..kx_hi];));
            } else {
                binds.push(parse_quote!(let #i = &#place[#k * (#n)..#hi];));
            }
            Ok(())
        }
        It::Windows { place, n } => {
            let i = match p {
                Pat::Ident(i) => i.ident.clone(),
                _ => return Err("unsupported construct: windows pattern".into()),
            };
            binds.push(parse_quote!(let #i = &#place[#k..#k + (#n)];));
            Ok(())
        }
    }
}
fn bind_val(p: &Pat, e: &Expr, binds: &mut Vec<Stmt>) -> Res<()> {
    match p {
        Pat::Wild(_) => {}
        Pat::Ident(i) => {
            let n = &i.ident;
            binds.push(parse_quote!(let #n = #e;));
        }
        _ => return Err("unsupported construct: value pattern".into()),
    }
    Ok(())
}
fn pair(p: &Pat) -> Res<(&Pat, &Pat)> {
    match p {
        Pat::Tuple(t) if t.elems.len() == 2 => Ok((&t.elems[0], &t.elems[1])),
        _ => Err(format!("unsupported construct: pattern `{}` for a pair", p.to_token_stream())),
    }
}

/// replaces uses of `&mut`-bound loop variables by the indexed place
/// `type X = ..;` inside a function body is replaced by its definition
fn local_types(b: &mut Block) {
    struct Sub(String, Type);
    impl VisitMut for Sub {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if p.path.is_ident(&self.0) {
                    *t = self.1.clone();
                    return;
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    let mut defs: Vec<(String, Type)> = vec![];
    for s in &b.stmts {
        if let Stmt::Item(Item::Type(t)) = s {
            if t.generics.params.is_empty() {
                defs.push((t.ident.to_string(), (*t.ty).clone()));
            }
        }
    }
    for (n, t) in defs.into_iter().rev() {
        Sub(n, t).visit_block_mut(b);
    }
}

/// `?` in an inlined closure ends the iteration with the error; `return` is not supported
struct Escapes {
    err: Option<String>,
    depth: usize,
    kerr: Option<Ident>,
}
impl VisitMut for Escapes {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) => {
                self.err = Some("unsupported construct: return inside a closure".into());
                return;
            }
            Expr::Closure(_) => return,
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = (*t.expr).clone();
            match (&self.kerr, self.depth) {
                (Some(k), 0) => {
                    *e = parse_quote!(match #x { Ok(kxv) => kxv, Err(kxx) => { #k = Err(kxx); break; } });
                }
                _ => self.err = Some("unsupported construct: `?` inside a closure".into()),
            }
        }
    }
}

struct SubstMut {
    subs: Vec<(String, Expr)>,
}
impl SubstMut {
    fn get(&self, e: &Expr) -> Option<Expr> {
        if let Expr::Path(p) = unparen(e) {
            if let Some(i) = p.path.get_ident() {
                for (n, x) in &self.subs {
                    if i == n {
                        return Some(x.clone());
                    }
                }
            }
        }
        None
    }
}
impl VisitMut for SubstMut {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if let Some(x) = self.get(expr) {
                    *e = x;
                    return;
                }
            }
            Expr::Field(f) => {
                if let Some(x) = self.get(&f.base) {
                    f.base = Box::new(x);
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.get(&m.receiver) {
                    m.receiver = Box::new(x);
                    for a in &mut m.args {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Index(m) => {
                if let Some(x) = self.get(&m.expr) {
                    m.expr = Box::new(x);
                    self.visit_expr_mut(&mut m.index);
                    return;
                }
            }
            Expr::Path(_) => {
                if let Some(x) = self.get(e) {
                    *e = parse_quote!(&mut #x);
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---- cfg / attribute stripping --------------------------------------------
struct Strip<'a> {
    src: &'a Source,
}
fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::Block(x) => x.attrs.clone(),
        Expr::Unsafe(x) => x.attrs.clone(),
        Expr::If(x) => x.attrs.clone(),
        Expr::Return(x) => x.attrs.clone(),
        Expr::Call(x) => x.attrs.clone(),
        Expr::MethodCall(x) => x.attrs.clone(),
        Expr::Match(x) => x.attrs.clone(),
        Expr::ForLoop(x) => x.attrs.clone(),
        Expr::While(x) => x.attrs.clone(),
        Expr::Assign(x) => x.attrs.clone(),
        Expr::Macro(x) => x.attrs.clone(),
        _ => vec![],
    }
}
fn clear_attrs(e: &mut Expr) {
    match e {
        Expr::Block(x) => x.attrs.clear(),
        Expr::Unsafe(x) => x.attrs.clear(),
        Expr::If(x) => x.attrs.clear(),
        Expr::Return(x) => x.attrs.clear(),
        Expr::Call(x) => x.attrs.clear(),
        Expr::MethodCall(x) => x.attrs.clear(),
        Expr::Match(x) => x.attrs.clear(),
        Expr::ForLoop(x) => x.attrs.clear(),
        Expr::While(x) => x.attrs.clear(),
        Expr::Assign(x) => x.attrs.clear(),
        Expr::Macro(x) => x.attrs.clear(),
        _ => {}
    }
}
/// Statements with no effect on the computation: `let _ = <pure>;`, literals, `();`
fn is_noop(s: &Stmt) -> bool {
    fn pure_(e: &Expr) -> bool {
        match unparen(e) {
            Expr::Lit(_) | Expr::Path(_) => true,
            Expr::Tuple(t) => t.elems.iter().all(pure_),
            Expr::Reference(r) => pure_(&r.expr),
            Expr::Binary(b) => {
                !matches!(
                    b.op,
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)
                        | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_)
                        | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
                        | BinOp::Div(_) | BinOp::Rem(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Add(_)
                        | BinOp::Shl(_) | BinOp::Shr(_)
                ) && pure_(&b.left)
                    && pure_(&b.right)
            }
            Expr::Field(f) => pure_(&f.base),
            Expr::Call(c) => {
                matches!(&*c.func, Expr::Path(p) if matches!(path_str(&p.path).as_str(),
                    "core::hint::black_box" | "std::hint::black_box" | "black_box" | "drop" | "core::mem::drop"))
                    && c.args.iter().all(pure_lit)
            }
            Expr::Block(b) => b.block.stmts.is_empty(),
            Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && pure_(&m.receiver),
            _ => false,
        }
    }
    fn pure_lit(e: &Expr) -> bool {
        match unparen(e) {
            Expr::Lit(_) => true,
            Expr::Tuple(t) => t.elems.iter().all(pure_lit),
            _ => false,
        }
    }
    match s {
        Stmt::Local(l) => match (&l.pat, &l.init) {
            (Pat::Wild(_), Some(i)) => i.diverge.is_none() && pure_(&i.expr),
            (Pat::Type(t), Some(i)) if matches!(&*t.pat, Pat::Wild(_)) => i.diverge.is_none() && pure_(&i.expr),
            (Pat::Ident(p), Some(i)) => {
                p.ident.to_string().starts_with('_') && i.diverge.is_none() && pure_lit(&i.expr)
            }
            _ => false,
        },
        Stmt::Expr(e, Some(_)) => match unparen(e) {
            Expr::If(i) => {
                matches!(&*i.cond, Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) if !b.value) && i.else_branch.is_none()
            }
            e => pure_(e),
        },
        Stmt::Expr(Expr::If(i), None) => {
            matches!(&*i.cond, Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) if !b.value) && i.else_branch.is_none()
        }
        _ => false,
    }
}
impl VisitMut for Strip<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => self.src.cfg_ok(&l.attrs),
            Stmt::Expr(e, _) => self.src.cfg_ok(&expr_attrs(e)),
            Stmt::Macro(m) => self.src.cfg_ok(&m.attrs),
            Stmt::Item(Item::Use(_)) => false,
            Stmt::Item(Item::Type(_)) => false,
            Stmt::Item(_) => true,
        });
        b.stmts.retain(|s| !is_noop(s));
        for s in &mut b.stmts {
            match s {
                Stmt::Local(l) => l.attrs.clear(),
                Stmt::Expr(e, _) => clear_attrs(e),
                Stmt::Macro(m) => m.attrs.clear(),
                _ => {}
            }
        }
        // `#[cfg] { return X; }` blocks left as statements are fine as they are
        visit_mut::visit_block_mut(self, b);
        // flatten bare nested blocks that only came from cfg'd braces at the tail
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| self.src.cfg_ok(&a.attrs));
        for a in &mut m.arms {
            a.attrs.clear();
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("cfg") {
                if let Ok(meta) = m.mac.parse_body::<Meta>() {
                    let v = self.src.eval(&meta);
                    *e = parse_quote!(#v);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---- associated constants: `Self::NAME` is the constant's expression; arrays become a local
fn assoc_consts(b: &mut Block, cs: &[(String, Type, Expr)]) {
    struct V<'a> {
        cs: &'a [(String, Type, Expr)],
        used: BTreeMap<String, Stmt>,
    }
    impl VisitMut for V<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e {
                if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                    let n = last(&p.path);
                    if let Some((_, _, x)) = self.cs.iter().find(|c| c.0 == n) {
                        let v = format_ident!("kxc_{}", n);
                        match unparen(x) {
                            Expr::Reference(r) if matches!(unparen(&r.expr), Expr::Array(_)) => {
                                let a = &r.expr;
                                let ety = match &self.cs.iter().find(|c| c.0 == n).unwrap().1 {
                                    Type::Reference(t) => match &*t.elem {
                                        Type::Slice(s) => Some((*s.elem).clone()),
                                        _ => None,
                                    },
                                    _ => None,
                                };
                                let len = match unparen(&r.expr) {
                                    Expr::Array(a) => a.elems.len(),
                                    _ => 0,
                                };
                                self.used.insert(n.clone(), match ety {
                                    Some(t) => parse_quote!(let #v: [#t; #len] = #a;),
                                    None => parse_quote!(let #v = #a;),
                                });
                                *e = parse_quote!(#v);
                            }
                            x => *e = x.clone(),
                        }
                        return;
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut v = V { cs, used: Default::default() };
    v.visit_block_mut(b);
    for (_, s) in v.used {
        b.stmts.insert(0, s);
    }
}
/// `Vec<MaybeUninit<X>>` used as scratch: a buffer of X with arbitrary contents
struct Uninit;
impl VisitMut for Uninit {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let Pat::Type(t) = &l.pat {
            let ts = t.ty.to_token_stream().to_string().replace(' ', "");
            if let Some(x) = ts.split("Vec<MaybeUninit<").nth(1).or_else(|| ts.split("Vec<core::mem::MaybeUninit<").nth(1)) {
                if let (Some(x), Some(i)) = (x.strip_suffix(">>"), &mut l.init) {
                    if let (Ok(x), Expr::Call(c)) = (parse_str::<Type>(x), unparen(&i.expr)) {
                        if c.func.to_token_stream().to_string().replace(' ', "").ends_with("Vec::with_capacity") {
                            let n = &c.args[0];
                            let e: Expr = parse_quote!(kx_uninit(#n));
                            let p = &t.pat;
                            l.pat = parse_quote_pat(quote::quote!(#p: KxUninit<#x>));
                            *i.expr = e;
                        }
                    }
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if c.func.to_token_stream().to_string().replace(' ', "").ends_with("slice::from_raw_parts_mut") && c.args.len() == 2 {
                let mut x = unparen(&c.args[0]).clone();
                while let Expr::Cast(k) = &x {
                    x = unparen(&k.expr).clone();
                }
                if let Expr::MethodCall(m) = &x {
                    if m.method == "as_mut_ptr" {
                        let (r, n) = (&m.receiver, &c.args[1]);
                        *e = parse_quote!(#r.kx_slice_mut(#n));
                    }
                }
            }
        }
    }
}
fn parse_quote_pat(t: TokenStream) -> Pat {
    use syn::parse::Parser;
    let s: Stmt = syn::parse::Parser::parse2(|i: parse::ParseStream| i.parse::<Stmt>(), quote::quote!(let #t;)).unwrap();
    match s {
        Stmt::Local(l) => l.pat,
        _ => unreachable!(),
    }
}

// ---- TypeId specialisation --------------------------------------------------
struct TypeIdRule {
    t: String,
}
impl VisitMut for TypeIdRule {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_)) {
                let s = b.to_token_stream().to_string().replace(' ', "");
                if s.contains("TypeId::of::<T>()") {
                    let is32 = s.contains("TypeId::of::<f32>()");
                    let v = if is32 { self.t == "f32" } else { self.t == "f64" };
                    *e = parse_quote!(#v);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // unsafe { &mut *(x as *mut [..] as *mut [..]) }  ->  x   (same object, same type after substitution)
        if let Expr::Unsafe(u) = e {
            if u.block.stmts.len() == 1 {
                if let Stmt::Expr(Expr::Reference(r), None) = &u.block.stmts[0] {
                    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                        let mut x = unparen(expr).clone();
                        let mut casts = 0;
                        while let Expr::Cast(c) = &x {
                            if !matches!(&*c.ty, Type::Ptr(_)) {
                                break;
                            }
                            casts += 1;
                            x = unparen(&c.expr).clone();
                        }
                        if casts > 0 {
                            *e = parse_quote!(kx_same!(#x));
                        }
                    }
                }
            }
        }
    }
}
/// constant-fold `if true/false` left by the TypeId rule
fn prune_true(b: &mut Block) {
    fn const_of(e: &Expr) -> Option<bool> {
        match unparen(e) {
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Some(b.value),
            Expr::Binary(x) if matches!(x.op, BinOp::And(_)) => match (const_of(&x.left), const_of(&x.right)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            _ => None,
        }
    }
    let stmts = std::mem::take(&mut b.stmts);
    for s in stmts {
        if let Stmt::Expr(Expr::If(i), semi) = &s {
            match const_of(&i.cond) {
                Some(true) => {
                    let mut t = i.then_branch.clone();
                    prune_true(&mut t);
                    let ends = ends_in_return(&t);
                    b.stmts.extend(t.stmts);
                    if ends {
                        return;
                    }
                    continue;
                }
                Some(false) => {
                    if let Some((_, x)) = &i.else_branch {
                        b.stmts.push(Stmt::Expr((**x).clone(), *semi));
                    }
                    continue;
                }
                None => {}
            }
        }
        b.stmts.push(s);
    }
}
/// `let v = <same object as p>;` where p is a plain variable: v is another name for p
struct Alias;
impl VisitMut for Alias {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let mut names: Vec<(String, Ident)> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) = &s {
                if let Expr::Macro(m) = &*i.expr {
                    if m.mac.path.is_ident("kx_same") {
                        if let Ok(Expr::Path(x)) = m.mac.parse_body::<Expr>() {
                            if let Some(t) = x.path.get_ident() {
                                names.push((p.ident.to_string(), t.clone()));
                                continue;
                            }
                        }
                    }
                }
            }
            struct Ren<'a>(&'a [(String, Ident)]);
            impl VisitMut for Ren<'_> {
                fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
                    if let Some(i) = e.path.get_ident() {
                        if let Some((_, t)) = self.0.iter().find(|(n, _)| i == n) {
                            e.path = t.clone().into();
                        }
                    }
                }
            }
            Ren(&names).visit_stmt_mut(&mut s);
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        b.stmts = out;
    }
}
fn ends_in_return(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

// ---- ping-pong buffers ------------------------------------------------------
/// `let mut S: &mut [..] = A; let mut D: &mut [..] = &mut B[..]; ... swap(&mut S,&mut D) ...
///  if S.as_ptr() != P { copy_nonoverlapping(S.as_ptr(), P, n) }`
/// becomes owned copies S, D (initialised from A and B), a swap flag per pair that is toggled at
/// each swap, and a final write-back of whichever owned copy aliases A.
fn pingpong(b: &mut Block) -> Res<()> {
    let mut pairs: Vec<(String, Expr)> = vec![]; // buffer var -> backing
    for s in &mut b.stmts {
        if let Stmt::Local(l) = s {
            if let Pat::Type(t) = &l.pat {
                if let (Type::Reference(r), Some(init)) = (&*t.ty, &l.init) {
                    if r.mutability.is_some() {
                        let n = pat_ident(&t.pat).ok_or("unsupported construct: ping-pong pattern")?;
                        let backing = (*init.expr).clone();
                        pairs.push((n.clone(), backing.clone()));
                        let ni = id(&n);
                        let fl = format_ident!("kx_swapped_{}", n);
                        let _ = &fl;
                        *s = parse_quote!(let mut #ni = kx_own!(#backing););
                    }
                }
            }
        }
    }
    if pairs.is_empty() {
        return Err("unsupported construct: no ping-pong buffers found".into());
    }
    struct V {
        pairs: Vec<(String, Expr)>,
        ptrs: BTreeMap<String, String>,
    }
    impl V {
        fn is_buf(&self, e: &Expr) -> Option<String> {
            if let Expr::Path(p) = unparen(e) {
                let i = p.path.get_ident()?.to_string();
                if self.pairs.iter().any(|(n, _)| *n == i) {
                    return Some(i);
                }
            }
            None
        }
    }
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Call(c) = e {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.ends_with("mem::swap") && c.args.len() == 2 {
                    let strip = |x: &Expr| match unparen(x) {
                        Expr::Reference(r) => (*r.expr).clone(),
                        x => x.clone(),
                    };
                    let (a, d) = (strip(&c.args[0]), strip(&c.args[1]));
                    if let Some(n) = self.is_buf(&a) {
                        let fl = format_ident!("kx_swapped_{}", n);
                        *e = parse_quote!({ kx_swap_vec(&mut #a, &mut #d); #fl = !#fl; });
                        return;
                    }
                }
                if f.ends_with("ptr::copy_nonoverlapping") && c.args.len() == 3 {
                    // copy(S.as_ptr(), P, n)
                    let s = match unparen(&c.args[0]) {
                        Expr::MethodCall(m) if m.method == "as_ptr" => self.is_buf(&m.receiver),
                        _ => None,
                    };
                    let pv = match unparen(&c.args[1]) {
                        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                        _ => None,
                    };
                    if let (Some(s), Some(pv)) = (s, pv) {
                        if let Some(dst) = self.ptrs.get(&pv) {
                            let (si, di) = (id(&s), id(dst));
                            let n = &c.args[2];
                            *e = parse_quote!(kx_copy_nonoverlapping(&#si, #di, #n));
                            return;
                        }
                    }
                }
            }
            if let Expr::Binary(bx) = e {
                if matches!(bx.op, BinOp::Ne(_) | BinOp::Eq(_)) {
                    if let (Expr::MethodCall(m), Expr::Path(p)) = (unparen(&bx.left), unparen(&bx.right)) {
                        if m.method == "as_ptr" {
                            if let (Some(n), Some(pi)) = (self.is_buf(&m.receiver), p.path.get_ident()) {
                                if self.ptrs.contains_key(&pi.to_string()) {
                                    let fl = format_ident!("kx_swapped_{}", n);
                                    *e = if matches!(bx.op, BinOp::Ne(_)) { parse_quote!(#fl) } else { parse_quote!(!#fl) };
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut ptrs = BTreeMap::new();
    let mut keep = vec![];
    for s in std::mem::take(&mut b.stmts) {
        if let Stmt::Local(l) = &s {
            if let (Some(n), Some(i)) = (pat_ident(&l.pat), &l.init) {
                if let Expr::MethodCall(m) = &*i.expr {
                    if m.method == "as_mut_ptr" {
                        ptrs.insert(n, m.receiver.to_token_stream().to_string());
                        continue;
                    }
                }
            }
        }
        keep.push(s);
    }
    b.stmts = keep;
    let mut v = V { pairs: pairs.clone(), ptrs: ptrs.clone() };
    v.visit_block_mut(b);
    // flags after the owned copies; write-back after the copy-back `if`
    let mut out = vec![];
    for s in std::mem::take(&mut b.stmts) {
        let mut decl = None;
        if let Stmt::Local(l) = &s {
            if let (Some(n), Some(i)) = (pat_ident(&l.pat), &l.init) {
                if i.expr.to_token_stream().to_string().starts_with("kx_own") {
                    decl = Some(n);
                }
            }
        }
        let mut wb = None;
        if let Stmt::Expr(Expr::If(i), _) = &s {
            if i.cond.to_token_stream().to_string().starts_with("kx_swapped_") {
                wb = Some(i.clone());
            }
        }
        match wb {
            Some(mut i) => {
                // not swapped: the owned copy *is* the input
                let mut st: Vec<Stmt> = vec![];
                for (n, backing) in &pairs {
                    if let Expr::Path(p) = unparen(backing) {
                        if let Some(bi) = p.path.get_ident() {
                            if ptrs.values().any(|x| x == &bi.to_string()) {
                                let ni = id(n);
                                st.push(parse_quote!(kx_write_back(&#ni, #bi);));
                            }
                        }
                    }
                }
                i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#st)* }))));
                out.push(Stmt::Expr(Expr::If(i), None));
            }
            None => out.push(s),
        }
        if let Some(n) = decl {
            let fl = format_ident!("kx_swapped_{}", n);
            out.push(parse_quote!(let mut #fl = false;));
        }
    }
    b.stmts = out;
    Ok(())
}

// ---- term-level rules ---------------------------------------------------------
pub struct Terms {
    pub o: Opts,
    pub err: Option<String>,
}
fn is_float_ty(t: &Type) -> bool {
    matches!(t, Type::Path(p) if matches!(last(&p.path).as_str(), "f32" | "f64"))
}
impl Terms {
    fn is_t(&self, s: &str) -> bool {
        self.o.tparams.contains(s) || (!self.o.keepf32 && (s == "f32" || s == "f64"))
    }
    pub fn ty(&self, t: &mut Type) {
        struct V<'a>(&'a Terms);
        impl VisitMut for V<'_> {
            fn visit_path_mut(&mut self, p: &mut Path) {
                self.0.path(p);
                visit_mut::visit_path_mut(self, p);
            }
        }
        V(self).visit_type_mut(t);
    }
    fn path(&self, p: &mut Path) {
        // T / f32 / f64 -> R, also as the first segment of T::zero
        let n = p.segments.len();
        if n >= 1 {
            let f = p.segments[0].ident.to_string();
            if self.is_t(&f) && n <= 2 {
                p.segments[0].ident = id("R");
            }
        }
        let ps = path_str(p);
        let l = last(p);
        if ps.starts_with("alloc::") || ps.starts_with("crate::") || ps.starts_with("super::") {
            let keep = p.segments.iter().rposition(|s| {
                s.ident.to_string().chars().next().map(|c| c.is_uppercase()).unwrap_or(false)
            });
            let from = match keep {
                Some(k) if k + 2 == n => k,
                Some(k) if k + 1 == n => k,
                _ => n - 1,
            };
            let segs: Vec<PathSegment> = p.segments.iter().skip(from).cloned().collect();
            p.segments = segs.into_iter().collect();
        }
        for s in p.segments.iter_mut() {
            let nm = s.ident.to_string();
            if matches!(nm.as_str(), "Complex32" | "Complex64") {
                s.ident = id("Complex");
            }
            if matches!(nm.as_str(), "SplitComplex32" | "SplitComplex64") {
                s.ident = id("SplitComplex");
            }
            if matches!(
                nm.as_str(),
                "Complex" | "Complex32" | "BluesteinPair" | "ScalarFftImpl" | "FftPlanner" | "FftPlan" | "RfftPlanner" | "DctPlanner" | "DstPlanner" | "Flatten3dResult"
            ) {
                if let PathArguments::AngleBracketed(_) = s.arguments {
                    s.arguments = PathArguments::None;
                }
            }
        }
        for s in p.segments.iter_mut() {
            if s.ident == "SplitComplex" || s.ident == "Fft3dScratch" {
                // the scalar parameter is dropped, lifetimes stay
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    let l: Vec<GenericArgument> = a.args.iter().filter(|g| matches!(g, GenericArgument::Lifetime(_))).cloned().collect();
                    if l.is_empty() {
                        s.arguments = PathArguments::None;
                    } else {
                        s.arguments = PathArguments::AngleBracketed(parse_quote!(<#(#l),*>));
                    }
                }
            }
        }
        // f::<T>(..): the scalar parameter is dropped from functions as well
        if let Some(s) = p.segments.last_mut() {
            if s.ident.to_string().chars().next().map(|c| c.is_lowercase()).unwrap_or(false) {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if a.args.iter().all(|g| matches!(g, GenericArgument::Type(t) if is_float_ty(t) || matches!(t, Type::Path(p) if self.is_t(&path_str(&p.path)) || path_str(&p.path) == "R"))) {
                        s.arguments = PathArguments::None;
                    }
                }
            }
        }
        // Arc<[X]> -> ArcSlice<X>
        if let Some(s) = p.segments.last_mut() {
            if s.ident == "Arc" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(GenericArgument::Type(Type::Slice(x))) = a.args.first() {
                        let x = &x.elem;
                        *s = parse_quote!(ArcSlice<#x>);
                    }
                }
            }
        }
        let _ = l;
    }
    fn lit(&mut self, f: &LitFloat) -> Expr {
        let txt = f.base10_digits().to_string();
        if let Ok(v) = txt.parse::<f64>() {
            if let Some(c) = named_const(v) {
                let c = id(c);
                return parse_quote!(R::#c());
            }
        }
        match ratio(&txt) {
            Some((n, d)) if n >= 0 && n <= u64::MAX as i128 && d <= u64::MAX as u128 => {
                let ns = LitInt::new(&format!("{}", n), Span::call_site());
                let ds = LitInt::new(&format!("{}", d), Span::call_site());
                parse_quote!(R::lit(#ns, #ds))
            }
            Some((n, d)) => {
                let ns = LitInt::new(&format!("{}u128", n), Span::call_site());
                let ds = LitInt::new(&format!("{}u128", d), Span::call_site());
                parse_quote!(R::lit_big(#ns, #ds))
            }
            None => {
                self.err = Some(format!("unsupported construct: literal {}", txt));
                parse_quote!(R::lit(0, 1))
            }
        }
    }
}
impl VisitMut for Terms {
    fn visit_type_mut(&mut self, t: &mut Type) {
        self.ty(t);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // const X: f32 = ..;  ->  let X = ..;
        for s in &mut b.stmts {
            if let Stmt::Item(Item::Const(c)) = s {
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                *s = parse_quote!(let #n: #t = #e;);
            }
        }
        // let [a, b, c] = E;  ->  let kxq = E; let a = kxq[0]; ..
        let mut split = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(Local { pat: Pat::Slice(p), init: Some(i), .. }) = &s {
                if i.diverge.is_none() && p.elems.iter().all(|x| matches!(x, Pat::Ident(_))) {
                    let v = format_ident!("kxq{}", split.len());
                    let ex = &i.expr;
                    split.push(parse_quote!(let #v = #ex;));
                    for (k, x) in p.elems.iter().enumerate() {
                        split.push(parse_quote!(let #x = #v[#k];));
                    }
                    continue;
                }
            }
            split.push(s);
        }
        b.stmts = split;
        // lower statement macros
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(m) => {
                    let n = last(&m.mac.path);
                    match n.as_str() {
                        "kx_inv" | "kx_at" => out.push(Stmt::Macro(m)),
                        "assert" | "debug_assert" => {
                            let args = m.mac.parse_body_with(
                                punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
                            );
                            match args {
                                Ok(a) if !a.is_empty() => {
                                    let mut c = a[0].clone();
                                    self.visit_expr_mut(&mut c);
                                    let f = id(if self.o.refuse { "kx_refuse" } else { "kx_assert" });
                                    out.push(parse_quote!(#f(#c);));
                                }
                                _ => self.err = Some("unsupported construct: assert".into()),
                            }
                        }
                        "assert_eq" | "debug_assert_eq" => {
                            let args = m.mac.parse_body_with(
                                punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
                            );
                            match args {
                                Ok(a) if a.len() >= 2 => {
                                    let mut c = a[0].clone();
                                    self.visit_expr_mut(&mut c);
                                    let mut d = a[1].clone();
                                    self.visit_expr_mut(&mut d);
                                    let f = id(if self.o.refuse { "kx_refuse" } else { "kx_assert" });
                                    out.push(parse_quote!(#f(#c == #d);));
                                }
                                _ => self.err = Some("unsupported construct: assert_eq".into()),
                            }
                        }
                        "unreachable" | "panic" | "todo" | "unimplemented" => {
                            out.push(parse_quote!(kx_panic();));
                        }
                        _ => {
                            self.err = Some(format!("unsupported construct: macro {}!", n));
                        }
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        if self.o.mutself {
            // engines take `&mut self` here, so a local engine is a mutable local
            for s in &mut b.stmts {
                if let Stmt::Local(l) = s {
                    if let Pat::Ident(i) = &mut l.pat {
                        if i.by_ref.is_none() {
                            i.mutability = Some(Default::default());
                        }
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // literals
        if let Expr::Lit(ExprLit { lit, .. }) = e {
            if self.o.keepf32 {
                return;
            }
            match lit {
                Lit::Float(f) => {
                    *e = self.lit(&f.clone());
                    return;
                }
                Lit::Int(i) if i.suffix() == "f32" || i.suffix() == "f64" => {
                    let f = LitFloat::new(&format!("{}.0", i.base10_digits()), Span::call_site());
                    *e = self.lit(&f);
                    return;
                }
                _ => return,
            }
        }
        if let Expr::Macro(m) = e {
            let n = last(&m.mac.path);
            match n.as_str() {
                "vec" => {
                    if let Ok(a) = m.mac.parse_body_with(|i: parse::ParseStream| {
                        let x: Expr = i.parse()?;
                        i.parse::<Token![;]>()?;
                        let n: Expr = i.parse()?;
                        Ok((x, n))
                    }) {
                        let (mut x, mut n) = a;
                        self.visit_expr_mut(&mut x);
                        self.visit_expr_mut(&mut n);
                        let t = x.to_token_stream().to_string();
                        let f = if t.starts_with("Vec :: new") || t.starts_with("kx_vec (") { id("kx_vecs") } else { id("kx_vec") };
                        *e = parse_quote!(#f(#x, #n));
                        return;
                    }
                    let items = m
                        .mac
                        .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                        .map(|p| p.into_iter().collect::<Vec<_>>())
                        .unwrap_or_default();
                    if items.is_empty() {
                        *e = parse_quote!(Vec::new());
                    } else {
                        let mut its = items;
                        for i in its.iter_mut() {
                            self.visit_expr_mut(i);
                        }
                        *e = parse_quote!({ let mut kxv = Vec::new(); #(kxv.push(#its);)* kxv });
                    }
                    return;
                }
                "unreachable" | "panic" => {
                    *e = parse_quote!(kx_panic());
                    return;
                }
                "kx_same" => {
                    if let Ok(x) = m.mac.parse_body::<Expr>() {
                        let mut x = x;
                        self.visit_expr_mut(&mut x);
                        if x.to_token_stream().to_string() == "self" && self.o.mutself {
                            x = parse_quote!(&mut *self);
                        } else if self.o.reborrow && matches!(x, Expr::Path(_)) {
                            x = parse_quote!(&mut *#x);
                        }
                        *e = x;
                    }
                    return;
                }
                "kx_own" => {
                    if let Ok(x) = m.mac.parse_body::<Expr>() {
                        let mut x = x;
                        self.visit_expr_mut(&mut x);
                        let x = match x {
                            Expr::Reference(r) => *r.expr,
                            x => x,
                        };
                        *e = match &x {
                            Expr::Index(_) => parse_quote!(kx_to_vec(&#x)),
                            _ => parse_quote!(kx_to_vec(&*#x)),
                        };
                    }
                    return;
                }
                "kx_inv" | "kx_at" => return,
                _ => {
                    self.err = Some(format!("unsupported construct: macro {}!", n));
                    return;
                }
            }
        }
        // unsafe pointer helpers
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            match n.as_str() {
                "get_unchecked" if m.args.len() == 1 => {
                    let (r, i) = (&m.receiver, &m.args[0]);
                    let mut x: Expr = parse_quote!(&#r[#i]);
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
                "get_unchecked_mut" if m.args.len() == 1 => {
                    let (r, i) = (&m.receiver, &m.args[0]);
                    let mut x: Expr = parse_quote!(&mut #r[#i]);
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
                "is_multiple_of" => {
                    let (mut r, mut i) = ((*m.receiver).clone(), m.args[0].clone());
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut i);
                    *e = parse_quote!(kx_is_multiple_of(#r, #i));
                    return;
                }
                "saturating_mul" => {
                    let (mut r, mut i) = ((*m.receiver).clone(), m.args[0].clone());
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut i);
                    *e = parse_quote!(kx_satmul(#r, #i));
                    return;
                }
                "div_ceil" => {
                    let (mut r, mut i) = ((*m.receiver).clone(), m.args[0].clone());
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut i);
                    *e = parse_quote!(kx_div_ceil(#r, #i));
                    return;
                }
                "count_ones" => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(kx_count_ones(#r));
                    return;
                }
                "is_power_of_two" => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(kx_is_power_of_two(#r));
                    return;
                }
                "next_power_of_two" => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(kx_next_power_of_two(#r));
                    return;
                }
                "trailing_zeros" => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(kx_trailing_zeros(#r));
                    return;
                }
                "copy_from_slice" | "clone_from_slice" => {
                    let mut r = (*m.receiver).clone();
                    let mut a = m.args[0].clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut a);
                    *e = match unparen(&r) {
                        Expr::Index(_) => parse_quote!(kx_copy_from_slice(&mut #r, #a)),
                        Expr::Field(_) => parse_quote!(kx_copy_from_slice(&mut #r, #a)),
                        _ => parse_quote!(kx_copy_from_slice(&mut *#r, #a)),
                    };
                    return;
                }
                "fill" => {
                    let mut r = (*m.receiver).clone();
                    let mut a = m.args[0].clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut a);
                    *e = match unparen(&r) {
                        Expr::Index(_) | Expr::Field(_) => parse_quote!(kx_fill(&mut #r, #a)),
                        _ => parse_quote!(kx_fill(&mut *#r, #a)),
                    };
                    return;
                }
                "swap" if m.args.len() == 2 => {
                    let mut r = (*m.receiver).clone();
                    let mut a = m.args[0].clone();
                    let mut b = m.args[1].clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    let f = id(if self.o.arrays.contains(&r.to_token_stream().to_string()) { "kx_array_swap" } else { "kx_slice_swap" });
                    *e = parse_quote!(#f(&mut *#r, #a, #b));
                    return;
                }
                "resize" if m.args.len() == 2 => {
                    let mut r = (*m.receiver).clone();
                    let mut a = m.args[0].clone();
                    let mut b = m.args[1].clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    *e = parse_quote!(kx_resize(&mut #r, #a, #b));
                    return;
                }
                // appending a whole vector or slice by name
                "extend" | "extend_from_slice" if m.args.len() == 1 && matches!(m.args[0], Expr::Path(_)) => {
                    let mut r = (*m.receiver).clone();
                    let mut a = m.args[0].clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut a);
                    *e = parse_quote!(kx_extend(&mut #r, &#a[..]));
                    return;
                }
                "to_vec" if m.args.is_empty() => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = match unparen(&r) {
                        Expr::Index(_) => parse_quote!(kx_to_vec(&#r)),
                        _ => parse_quote!(kx_to_vec(&*#r)),
                    };
                    return;
                }
                "as_slice" if m.args.is_empty() => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(&#r[..]);
                    return;
                }
                "as_mut_slice" if m.args.is_empty() => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(kx_mut_slice(&mut #r));
                    return;
                }
                // Option::and_then / Option::map written out
                "and_then" | "map" if m.args.len() == 1 && opt_receiver(&m.receiver) => {
                    if let Expr::Closure(c) = unparen(&m.args[0]) {
                        if c.inputs.len() == 1 && !has_exit(&c.body) {
                            let mut r = (*m.receiver).clone();
                            let mut b = (*c.body).clone();
                            let p = c.inputs[0].clone();
                            self.visit_expr_mut(&mut r);
                            self.visit_expr_mut(&mut b);
                            *e = if m.method == "map" {
                                parse_quote!((match #r { Some(#p) => Some(#b), None => None }))
                            } else {
                                parse_quote!((match #r { Some(#p) => #b, None => None }))
                            };
                            return;
                        }
                    }
                }
                "or_insert_with" if m.args.len() == 1 => {
                    if let (Expr::MethodCall(en), Expr::Closure(c)) = (unparen(&m.receiver), unparen(&m.args[0])) {
                        if en.method == "entry" && en.args.len() == 1 && c.inputs.is_empty() {
                            let mut r = (*en.receiver).clone();
                            let mut k = en.args[0].clone();
                            let mut b = (*c.body).clone();
                            self.visit_expr_mut(&mut r);
                            self.visit_expr_mut(&mut k);
                            self.visit_expr_mut(&mut b);
                            *e = parse_quote!({ if !#r.contains_key(&#k) { let kxv = #b; #r.insert(#k, kxv); } #r.get(&#k).unwrap() });
                            return;
                        }
                    }
                }
                "planner_mut" => {
                    *e = parse_quote!(&mut self.planner);
                    return;
                }
                _ => {}
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Index(ix) = unparen(&r.expr) {
                    if matches!(unparen(&ix.index), Expr::Range(_)) {
                        let mut b = (*ix.expr).clone();
                        let mut k = (*ix.index).clone();
                        self.visit_expr_mut(&mut b);
                        self.visit_expr_mut(&mut k);
                        *e = parse_quote!(&mut #b.kx_ms()[#k]);
                        return;
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f == "UnsafeCell::new" && c.args.len() == 1 {
                let mut x = c.args[0].clone();
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            if f.ends_with("Vec::from") && c.args.len() == 1 {
                let mut x = c.args[0].clone();
                self.visit_expr_mut(&mut x);
                *e = parse_quote!(kx_to_vec(#x));
                return;
            }
            if f.ends_with("mem::take") && c.args.len() == 1 {
                let mut x = c.args[0].clone();
                self.visit_expr_mut(&mut x);
                *e = parse_quote!(kx_take(#x));
                return;
            }
        }
        // a value computed once per process is the value of its initialiser
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if let Expr::MethodCall(m) = unparen(expr) {
                if m.method == "get_or_init" && m.args.len() == 1 {
                    if let Expr::Closure(c) = unparen(&m.args[0]) {
                        if c.inputs.is_empty() && !has_exit(&c.body) {
                            let mut x = (*c.body).clone();
                            self.visit_expr_mut(&mut x);
                            *e = x;
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if c.args.is_empty() && f.contains("mem::size_of::<") {
                let n: Option<usize> = [("Complex32>", 8), ("Complex64>", 16), ("<f32>", 4), ("<f64>", 8)]
                    .iter()
                    .find(|x| f.ends_with(x.0))
                    .map(|x| x.1);
                if let Some(n) = n {
                    *e = parse_quote!(#n);
                    return;
                }
            }
            if f.ends_with("cmp::max") && c.args.len() == 2 {
                let (mut a, mut b) = (c.args[0].clone(), c.args[1].clone());
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                *e = parse_quote!(kx_umax(#a, #b));
                return;
            }
        }
        // SIMD loads and stores: `_mm_loadu_ps(A.as_ptr().add(E))`
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = last(&p.path);
                if n.starts_with("_mm") && n.contains("loadu") && c.args.len() == 1 {
                    if let Some((base, off)) = ptr_add(&c.args[0], "as_ptr") {
                        let (mut base, mut off) = (base, off);
                        self.visit_expr_mut(&mut base);
                        self.visit_expr_mut(&mut off);
                        let f = id(&n[1..]);
                        *e = parse_quote!(#f(&#base, #off));
                        return;
                    }
                }
                if n.starts_with("_mm") && n.contains("storeu") && c.args.len() == 2 {
                    if let Some((base, off)) = ptr_add(&c.args[0], "as_mut_ptr") {
                        let (mut base, mut off) = (base, off);
                        let mut v = c.args[1].clone();
                        self.visit_expr_mut(&mut base);
                        self.visit_expr_mut(&mut off);
                        self.visit_expr_mut(&mut v);
                        let f = id(&n[1..]);
                        *e = parse_quote!(#f(&mut #base, #off, #v));
                        return;
                    }
                }
                if n.starts_with("_mm") {
                    let f = id(&n[1..]);
                    c.func = parse_quote!(#f);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if s.ends_with("consts::PI") || s == "PI" || s == "PI32" {
                    *e = parse_quote!(R::pi());
                } else if s.ends_with("consts::FRAC_1_SQRT_2") {
                    *e = parse_quote!(R::c_sqrt1_2());
                } else if s.ends_with("consts::SQRT_2") {
                    *e = parse_quote!(R::c_sqrt2());
                } else if s.ends_with("consts::TAU") {
                    *e = parse_quote!((R::lit(2, 1) * R::pi()));
                } else if s.ends_with("consts::FRAC_PI_2") {
                    *e = parse_quote!((R::pi() / R::lit(2, 1)));
                } else if s.ends_with("consts::FRAC_PI_4") {
                    *e = parse_quote!((R::pi() / R::lit(4, 1)));
                } else if s == "f32::EPSILON" || s == "f64::EPSILON" {
                    *e = parse_quote!(R::epsilon());
                } else if s == "f32::MIN_POSITIVE" || s == "f64::MIN_POSITIVE" {
                    *e = parse_quote!(R::min_positive());
                } else if s == "f32::MAX" || s == "f64::MAX" {
                    *e = parse_quote!(R::max_value());
                } else if s == "usize::MAX" {
                } else {
                    self.path(&mut p.path);
                }
            }
            Expr::Struct(s) => {
                self.path(&mut s.path);
            }
            Expr::Cast(c) if self.o.gcast => {
                let x = &c.expr;
                let t = c.ty.to_token_stream().to_string();
                if is_float_ty(&c.ty) || t == "R" {
                    *e = parse_quote!(kx_cast_r(#x));
                } else {
                    let f = format_ident!("kx_cast_{}", t);
                    *e = parse_quote!(#f(#x));
                }
            }
            Expr::Cast(c) => {
                if is_float_ty(&c.ty) || c.ty.to_token_stream().to_string() == "R" {
                    let x = &c.expr;
                    *e = parse_quote!(kx_as_r(#x));
                } else {
                    let s = c.expr.to_token_stream().to_string();
                    let mc = match unparen(&c.expr) {
                        Expr::MethodCall(m) => {
                            matches!(m.method.to_string().as_str(), "floor" | "ceil" | "round" | "trunc")
                        }
                        Expr::Call(f) => {
                            let s = f.func.to_token_stream().to_string();
                            matches!(s.as_str(), "floorf" | "ceilf" | "roundf" | "R :: floor" | "R :: ceil" | "R :: round")
                        }
                        _ => false,
                    };
                    if mc || self.o.rcast.contains(&s) {
                        let x = &c.expr;
                        let t = c.ty.to_token_stream().to_string();
                        let f = format_ident!("kx_r_as_{}", t);
                        *e = parse_quote!(#f(#x));
                    }
                }
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(BinOp::Add(Default::default())),
                    BinOp::SubAssign(_) => Some(BinOp::Sub(Default::default())),
                    BinOp::MulAssign(_) => Some(BinOp::Mul(Default::default())),
                    BinOp::DivAssign(_) => Some(BinOp::Div(Default::default())),
                    BinOp::RemAssign(_) => Some(BinOp::Rem(Default::default())),
                    BinOp::BitXorAssign(_) => Some(BinOp::BitXor(Default::default())),
                    BinOp::BitAndAssign(_) => Some(BinOp::BitAnd(Default::default())),
                    BinOp::BitOrAssign(_) => Some(BinOp::BitOr(Default::default())),
                    BinOp::ShlAssign(_) => Some(BinOp::Shl(Default::default())),
                    BinOp::ShrAssign(_) => Some(BinOp::Shr(Default::default())),
                    _ => None,
                };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l = #l #op (#r));
                }
            }
            Expr::Call(c) => {
                // libm free functions
                if let Expr::Path(p) = &*c.func {
                    let n = last(&p.path);
                    let one = c.args.len() == 1;
                    let map = match n.as_str() {
                        "sqrtf" | "sqrt" => Some("sqrt"),
                        "floorf" | "floor" => Some("floor"),
                        "ceilf" => Some("ceil"),
                        "cosf" | "cos" => Some("cos"),
                        "sinf" | "sin" => Some("sin"),
                        "expf" => Some("exp"),
                        "logf" => Some("ln"),
                        "log10f" => Some("log10"),
                        "fabsf" => Some("abs"),
                        _ => None,
                    };
                    if let (Some(m), true) = (map, one && p.path.segments.len() == 1) {
                        let m = id(m);
                        let x = &c.args[0];
                        *e = parse_quote!(R::#m(#x));
                    } else if n == "powf" && c.args.len() == 2 && p.path.segments.len() == 1 {
                        let (x, y) = (&c.args[0], &c.args[1]);
                        *e = parse_quote!(R::powf(#x, #y));
                    }
                }
            }
            _ => {}
        }
    }
}
/// calls known to return an Option
fn opt_receiver(e: &Expr) -> bool {
    match unparen(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            matches!(n.as_str(), "file_name" | "to_str" | "get" | "first" | "last" | "cloned" | "copied" | "find")
                || (matches!(n.as_str(), "and_then" | "map") && opt_receiver(&m.receiver))
        }
        _ => false,
    }
}
fn has_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}
fn ptr_add(e: &Expr, kind: &str) -> Option<(Expr, Expr)> {
    if let Expr::MethodCall(m) = unparen(e) {
        if m.method == "add" && m.args.len() == 1 {
            if let Expr::MethodCall(b) = unparen(&m.receiver) {
                if b.method == kind {
                    return Some(((*b.receiver).clone(), m.args[0].clone()));
                }
            }
        }
        if m.method == kind {
            return Some(((*m.receiver).clone(), parse_quote!(0usize)));
        }
    }
    None
}

pub fn tokens_to_string(t: TokenStream) -> String {
    t.to_string()
}
pub fn q(b: &Block) -> String {
    tokens_to_string(quote!(#b))
}
