//! Contract files (`UNIT.vk`) and generation of the Verus text.
//!
//! A unit is a sequence of blocks, emitted in order:
//!   #feature NAME            cargo feature assumed on when evaluating cfg
//!   #include FILE            raw Verus text from the contract directory
//!   #verus ... #end          raw Verus text (spec functions, lemmas, `impl X {`)
//!   #struct FILE :: NAME     a struct definition, types lowered
//!   #fn FILE :: PATH ... #end  a function with its contract:
//!       opt KEY[=VALUE] ...
//!       requires / ensures / decreases   (following lines until next keyword)
//!       loop N               invariants of the N-th loop (pre-order)
//!       at ANCHOR            proof text at an anchor
//!       attr TEXT            attribute line
use crate::lower::*;
use crate::source::*;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::path::Path;
use syn::*;

#[derive(Default)]
struct FnSpec {
    file: String,
    path: String,
    opts: Vec<String>,
    attrs: Vec<String>,
    requires: String,
    ensures: String,
    decreases: String,
    loops: BTreeMap<usize, String>,
    ats: BTreeMap<String, String>,
}

pub fn generate(repo: &Path, dir: &Path, unit: &str, vac: bool) -> Res<(String, Vec<String>)> {
    let mut src = Source::new(repo);
    let mut out = String::from("// generated by kx from the current sources; do not edit\n");
    let mut fns = vec![];
    unit_text(&mut src, dir, &format!("{}.vk", unit), vac, &mut out, &mut fns)?;
    Ok((out, fns))
}

fn unit_text(
    src: &mut Source,
    dir: &Path,
    name: &str,
    vac: bool,
    out: &mut String,
    fns: &mut Vec<String>,
) -> Res<()> {
    let text = std::fs::read_to_string(dir.join(name)).map_err(|e| format!("contract file {}: {}", name, e))?;
    let text = src.sets.iter().fold(text, |t, (k, v)| t.replace(&format!("${}$", k), v));
    let mut it = text.lines().peekable();
    while let Some(l) = it.next() {
        let t = l.trim();
        if t.is_empty() || t.starts_with("##") {
            continue;
        }
        if let Some(f) = t.strip_prefix("#set ") {
            let (k, v) = f.split_once(" ").unwrap_or((f, ""));
            src.sets.insert(k.trim().to_string(), v.trim().to_string());
            continue;
        }
        if let Some(f) = t.strip_prefix("#setfile ") {
            let (k, v) = f.split_once(' ').ok_or("bad #setfile")?;
            let x = std::fs::read_to_string(dir.join(v.trim())).map_err(|e| format!("contract file {}: {}", v, e))?;
            src.sets.insert(k.trim().to_string(), x);
            continue;
        }
        if let Some(f) = t.strip_prefix("#feature ") {
            src.features.insert(f.trim().to_string());
        } else if let Some(f) = t.strip_prefix("#nofeature ") {
            src.features.remove(f.trim());
        } else if let Some(f) = t.strip_prefix("#include ") {
            let f = f.trim();
            if f.ends_with(".vk") {
                unit_text(src, dir, f, vac, out, fns)?;
            } else {
                let p = std::fs::read_to_string(dir.join(f)).map_err(|e| format!("include {}: {}", f, e))?;
                out.push_str(&p);
                out.push('\n');
            }
        } else if t == "#assume" {
            src.assume = true;
        } else if t == "#endassume" {
            src.assume = false;
        } else if t == "#verus" {
            for l in it.by_ref() {
                if l.trim() == "#end" {
                    break;
                }
                out.push_str(l);
                out.push('\n');
            }
        } else if let Some(f) = t.strip_prefix("#struct ") {
            let (file, nm) = f.split_once("::").ok_or("bad #struct")?;
            out.push_str(&struct_text(src, file.trim(), nm.trim())?);
        } else if let Some(f) = t.strip_prefix("#type ") {
            let (file, nm) = f.split_once("::").ok_or("bad #type")?;
            out.push_str(&type_text(src, file.trim(), nm.trim())?);
        } else if let Some(f) = t.strip_prefix("#const ") {
            let (file, nm) = f.split_once("::").ok_or("bad #const")?;
            out.push_str(&const_text(src, file.trim(), nm.trim())?);
        } else if let Some(f) = t.strip_prefix("#fn ") {
            let (file, path) = f.split_once(" :: ").ok_or("bad #fn")?;
            let mut s = FnSpec { file: file.trim().into(), path: path.trim().into(), ..Default::default() };
            #[derive(Clone)]
            enum Cur {
                None,
                Req,
                Ens,
                Dec,
                Loop(usize),
                At(String),
            }
            let mut cur = Cur::None;
            for l in it.by_ref() {
                let t = l.trim();
                if t == "#end" {
                    break;
                }
                if let Some(x) = t.strip_prefix("opt ") {
                    s.opts.extend(x.split_whitespace().map(String::from));
                    continue;
                }
                if let Some(x) = t.strip_prefix("attr ") {
                    s.attrs.push(x.to_string());
                    continue;
                }
                match t {
                    "requires" => {
                        cur = Cur::Req;
                        continue;
                    }
                    "ensures" => {
                        cur = Cur::Ens;
                        continue;
                    }
                    _ => {}
                }
                if let Some(x) = t.strip_prefix("decreases ") {
                    if !matches!(cur, Cur::Loop(_)) {
                        s.decreases = x.to_string();
                        cur = Cur::Dec;
                        continue;
                    }
                }
                if let Some(x) = t.strip_prefix("loop ") {
                    let n = x.trim().parse().map_err(|_| format!("bad loop line: {}", t))?;
                    s.loops.entry(n).or_default();
                    cur = Cur::Loop(n);
                    continue;
                }
                if let Some(x) = t.strip_prefix("at ") {
                    s.ats.entry(x.trim().to_string()).or_default();
                    cur = Cur::At(x.trim().to_string());
                    continue;
                }
                let dst = match &cur {
                    Cur::None => {
                        if t.is_empty() {
                            continue;
                        }
                        return Err(format!("{}: stray line `{}`", name, t));
                    }
                    Cur::Req => &mut s.requires,
                    Cur::Ens => &mut s.ensures,
                    Cur::Dec => &mut s.decreases,
                    Cur::Loop(n) => s.loops.get_mut(n).unwrap(),
                    Cur::At(a) => s.ats.get_mut(a).unwrap(),
                };
                dst.push_str(l);
                dst.push('\n');
            }
            let label = format!("{}::{}", s.file, s.path);
            out.push_str(&format!("// KXFN {}\n", label));
            out.push_str(&fn_text(src, &s, vac).map_err(|e| format!("{}: {}", label, e))?);
            out.push_str("// KXFNEND\n");
            fns.push(if src.assume { format!("assumed {}", label) } else { label });
        } else {
            return Err(format!("{}: unknown directive `{}`", name, t));
        }
    }
    Ok(())
}

fn struct_text(src: &mut Source, file: &str, nm: &str) -> Res<String> {
    let f = src.file(file)?;
    if let Some(e) = f.items.iter().find_map(|i| match i {
        Item::Enum(e) if e.ident == nm && src.cfg_ok(&e.attrs) => Some(e.clone()),
        _ => None,
    }) {
        let mut r = format!("pub enum {} {{ ", nm);
        for v in &e.variants {
            if !matches!(v.fields, Fields::Unit) {
                return Err(format!("enum {}: only unit variants are supported", nm));
            }
            r.push_str(&format!("{}, ", v.ident));
        }
        r.push_str("}\n");
        return Ok(r);
    }
    let s = f
        .items
        .iter()
        .find_map(|i| match i {
            Item::Struct(s) if s.ident == nm && src.cfg_ok(&s.attrs) => Some(s.clone()),
            _ => None,
        })
        .ok_or_else(|| format!("lost anchor: struct {} in {}", nm, file))?;
    let mut o = Opts::default();
    o.tparams.insert("T".into());
    let t = Terms { o, err: None };
    let mut lts: Vec<String> = s.generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
    // a parameter standing for an FFT engine stays; the scalar parameter is dropped
    for tp in s.generics.type_params() {
        if tp.bounds.to_token_stream().to_string().contains("FftImpl") {
            lts.push(format!("{}: FftImpl", tp.ident));
        }
    }
    let g = if lts.is_empty() { String::new() } else { format!("<{}>", lts.join(", ")) };
    if matches!(s.fields, Fields::Unnamed(_)) {
        let fs: Vec<String> = s
            .fields
            .iter()
            .map(|fd| {
                let mut ty = fd.ty.clone();
                t.ty(&mut ty);
                format!("pub {}", ty.to_token_stream())
            })
            .collect();
        return Ok(format!("pub struct {}{}({});\n", nm, g, fs.join(", ")));
    }
    let mut r = format!("pub struct {}{} {{\n", nm, g);
    for fd in &s.fields {
        let mut ty = fd.ty.clone();
        t.ty(&mut ty);
        let mut tt = ty.to_token_stream().to_string();
        if let Some(x) = tt.strip_prefix("UnsafeCell <").or(tt.strip_prefix("core :: cell :: UnsafeCell <")) {
            // interior mutability of a single-threaded planner: treated as an ordinary field
            tt = x.trim_end().trim_end_matches('>').to_string();
        }
        let n = fd.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
        if tt.contains("PhantomData") {
            continue;
        }
        r.push_str(&format!("  pub {}: {},\n", n, tt));
    }
    r.push_str("}\n");
    Ok(r)
}

/// `type Name<T> = ..;` with the scalar parameter dropped
fn type_text(src: &mut Source, file: &str, nm: &str) -> Res<String> {
    let f = src.file(file)?;
    for i in f.items.clone() {
        if let Item::Type(t) = i {
            if t.ident == nm && src.cfg_ok(&t.attrs) {
                let mut o = Opts::default();
                o.tparams.insert("T".into());
                let tm = Terms { o, err: None };
                let mut ty = (*t.ty).clone();
                tm.ty(&mut ty);
                return Ok(format!("pub type {} = {};\n", nm, ty.to_token_stream()));
            }
        }
    }
    Err(format!("type {} not found in {}", nm, file))
}
fn const_text(src: &mut Source, file: &str, nm: &str) -> Res<String> {
    // `const X: [f32; N] = [..]` becomes an exec function `kx_const_X()` returning a Vec<R>,
    // other integer constants stay constants
    let f = src.file(file)?;
    let c = f
        .items
        .iter()
        .find_map(|i| match i {
            Item::Const(s) if s.ident == nm && src.cfg_ok(&s.attrs) => Some(s.clone()),
            _ => None,
        })
        .ok_or_else(|| format!("lost anchor: const {} in {}", nm, file))?;
    let mut e = (*c.expr).clone();
    let mut t = Terms { o: Opts::default(), err: None };
    syn::visit_mut::VisitMut::visit_expr_mut(&mut t, &mut e);
    if let Some(x) = t.err {
        return Err(x);
    }
    let ty = c.ty.to_token_stream().to_string();
    Ok(format!("pub const {}: {} = {};\n", nm, ty, e.to_token_stream()))
}

/// `fn f(a) -> impl FnMut(X) -> R { pre; move |x| e }` is read as planning and running at once:
/// `fn f(a, x: X) -> R { pre; e }`
fn uncurry(sig: &mut Signature, block: &mut Block) -> Res<()> {
    let bad = || "uncurry: not a function returning a closure".to_string();
    let (tys, out) = match &sig.output {
        ReturnType::Type(_, t) => match &**t {
            Type::ImplTrait(it) => it
                .bounds
                .iter()
                .find_map(|b| match b {
                    TypeParamBound::Trait(tb) => match &tb.path.segments.last()?.arguments {
                        PathArguments::Parenthesized(p) => Some((p.inputs.iter().cloned().collect::<Vec<_>>(), p.output.clone())),
                        _ => None,
                    },
                    _ => None,
                })
                .ok_or_else(bad)?,
            _ => return Err(bad()),
        },
        _ => return Err(bad()),
    };
    let c = match block.stmts.pop() {
        Some(Stmt::Expr(Expr::Closure(c), None)) => c,
        _ => return Err(bad()),
    };
    if c.inputs.len() != tys.len() {
        return Err(bad());
    }
    for (p, t) in c.inputs.iter().zip(tys) {
        let p = match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        sig.inputs.push(syn::parse_quote!(#p: #t));
    }
    sig.output = out;
    block.stmts.push(Stmt::Expr((*c.body).clone(), None));
    Ok(())
}

/// locals bound to the Arc<[T]> a function returns: `&x` becomes `x.as_ref()` (deref coercion made explicit)
struct DerefCall {
    f: String,
    vars: std::collections::HashSet<String>,
}
impl DerefCall {
    fn is(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => m.method == self.f,
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.vars.contains(&i.to_string())),
            Expr::Paren(p) => self.is(&p.expr),
            _ => false,
        }
    }
}
impl syn::visit_mut::VisitMut for DerefCall {
    fn visit_local_mut(&mut self, l: &mut Local) {
        syn::visit_mut::visit_local_mut(self, l);
        let init = l.init.as_ref().is_some_and(|i| self.is(&i.expr));
        if let Pat::Ident(i) = &l.pat {
            if init {
                self.vars.insert(i.ident.to_string());
            } else {
                self.vars.remove(&i.ident.to_string());
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Reference(r) = e {
            let x = (*r.expr).clone();
            if r.mutability.is_none() && self.is(&x) {
                *e = syn::parse_quote!(#x.as_ref());
            }
        }
    }
}

fn fn_text(src: &mut Source, s: &FnSpec, vac: bool) -> Res<String> {
    let found = src.find(&s.file, &s.path)?;
    let (mut sig, mut block) = match found {
        Found::Free(f) => (f.sig, *f.block),
        Found::Method(m) => (m.sig, m.block),
    };
    if s.opts.iter().any(|x| x == "uncurry") {
        uncurry(&mut sig, &mut block)?;
    }
    for x in &s.opts {
        if let Some(f) = x.strip_prefix("derefcall=") {
            let mut d = DerefCall { f: f.to_string(), vars: Default::default() };
            syn::visit_mut::VisitMut::visit_block_mut(&mut d, &mut block);
        }
    }
    let mut o = Opts::default();
    o.tparams.insert("T".into());
    if let Some((h, _)) = s.path.rsplit_once("::") {
        let ty = h.split('@').next().unwrap_or("").split('<').next().unwrap_or("").trim().to_string();
        o.assoc = src.assoc(&s.file, &ty);
    }
    let mut selfmut = false;
    let mut rename = None;
    let mut retname = "r".to_string();
    let mut novis = false;
    let mut sigover: Option<String> = None;
    let mut isolate = false;
    let mut mutparams: Vec<String> = vec![];
    let mut ltypes: Vec<(String, String)> = vec![];
    let mut byvals: Vec<String> = vec![];
    for x in &s.opts {
        let (k, v) = x.split_once('=').map(|(a, b)| (a, b.to_string())).unwrap_or((x.as_str(), String::new()));
        match k {
            "mutself" => {
                selfmut = true;
                o.mutself = true;
            }
            "typeid" => o.typeid = Some(v),
            "reborrow" => o.reborrow = true,
            "text" => o.text = true,
            "alias" => o.alias = true,
            "gcast" => o.gcast = true,
            "pingpong" => o.pingpong = true,
            "keepf32" => o.keepf32 = true,
            k if k.starts_with("acc") && k[3..].parse::<usize>().is_ok() => {
                o.acc.insert(k[3..].parse().unwrap(), v.replace('~', " "));
            }
            "rcast" => {
                o.rcast.insert(v.replace('~', " "));
            }
            "tparam" => {
                o.tparams.insert(v);
            }
            "rename" => rename = Some(v),
            "ret" => retname = v,
            "novis" => novis = true,
            "sig" => sigover = Some(v.replace('~', " ")),
            "isolate" => isolate = true,
            // a shared engine parameter whose interior-mutable cache is modelled as an ordinary field
            "mutparam" => mutparams.push(v),
            // type annotation for a local (rustc infers it from a later use, the contract needs it earlier)
            "lty" => {
                let (a, b) = v.split_once(':').ok_or("bad lty")?;
                ltypes.push((a.to_string(), b.replace('~', " ")));
            }
            "refuse" => o.refuse = true,
            "uncurry" => {}
            "derefcall" => {}
            // a Copy component bound by value in a loop pattern
            "byvalue" => byvals.push(v),
            // loop N collects into a Result: the first Err ends it
            "rescol" => {
                o.rescol.insert(v.parse().map_err(|_| "bad rescol")?);
            }
            _ => return Err(format!("unknown option {}", k)),
        }
    }
    // signature
    let t = Terms { o: o.clone(), err: None };
    let mut gens: Vec<String> = vec![];
    for g in &sig.generics.params {
        match g {
            GenericParam::Type(tp) => {
                if o.tparams.contains(&tp.ident.to_string()) {
                    continue;
                }
                let mut tp = tp.clone();
                tp.attrs.clear();
                let mut txt = tp.ident.to_string();
                let b: Vec<String> = tp
                    .bounds
                    .iter()
                    .filter_map(|b| {
                        let mut x = b.to_token_stream().to_string();
                        if x.contains("Sync") || x.contains("Send") || x == "'static" {
                            return None;
                        }
                        if x == "? Sized" {
                            return None;
                        }
                        if let Some(i) = x.rfind(":: FftImpl") {
                            x = x[i + 3..].to_string();
                        }
                        x = x.replace("FftImpl < T >", "FftImpl").replace("FftImpl < f32 >", "FftImpl").replace("FftImpl < Self >", "FftImpl");
                        x = x.replace("f32", "R").replace("f64", "R");
                        Some(x)
                    })
                    .collect();
                if !b.is_empty() {
                    txt.push_str(": ");
                    txt.push_str(&b.join(" + "));
                }
                gens.push(txt);
            }
            GenericParam::Lifetime(l) => gens.push(l.to_token_stream().to_string()),
            GenericParam::Const(c) => gens.push(c.to_token_stream().to_string()),
        }
    }
    let mut wh: Vec<String> = vec![];
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            let x = p.to_token_stream().to_string();
            if let WherePredicate::Type(pt) = p {
                let n = pt.bounded_ty.to_token_stream().to_string();
                if o.tparams.contains(&n) || n.starts_with('[') {
                    continue;
                }
            }
            wh.push(
                x.replace("FftImpl < T >", "FftImpl")
                    .replace("FftImpl < f32 >", "FftImpl")
                    .replace("f32", "R")
                    .replace("f64", "R")
                    .replace("+ Sync", "")
                    .replace("+ Send", "")
                    .replace("Sync +", ""),
            );
        }
    }
    let mut ins: Vec<String> = vec![];
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) => {
                let mut x = r.clone();
                x.attrs.clear();
                let mut x = x.to_token_stream().to_string();
                if selfmut && x == "& self" {
                    x = "&mut self".into();
                }
                ins.push(x);
            }
            FnArg::Typed(p) => {
                if matches!(&*p.ty, Type::Reference(r) if matches!(&*r.elem, Type::Array(_))) {
                    o.arrays.insert(p.pat.to_token_stream().to_string());
                }
                let mut ty = (*p.ty).clone();
                t.ty(&mut ty);
                let tt = ty
                    .to_token_stream()
                    .to_string()
                    .replace("FftImpl < R >", "FftImpl")
                    .replace("FftImpl < T >", "FftImpl");
                let pn = p.pat.to_token_stream().to_string();
                let tt = match tt.strip_prefix("& ") {
                    Some(x) if mutparams.contains(&pn) => format!("&mut {}", x),
                    _ => tt,
                };
                ins.push(format!("{}: {}", pn, tt));
            }
        }
    }
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, ty) => {
            let mut ty = (**ty).clone();
            t.ty(&mut ty);
            let tt = ty.to_token_stream().to_string();
            format!(" -> ({}: {})", retname, tt)
        }
    };
    let name = rename.unwrap_or_else(|| sig.ident.to_string());
    let mut r = String::new();
    if src.assume {
        r.push_str("#[verifier::external_body]\n");
    } else if !isolate {
        r.push_str("#[verifier::loop_isolation(false)]\n");
    }
    for a in &s.attrs {
        r.push_str(a);
        r.push('\n');
    }
    let g = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
    match sigover {
        Some(x) => r.push_str(&x),
        None => {
            let vis = if novis { "" } else { "pub " };
            r.push_str(&format!("{}fn {}{}({}){}", vis, name, g, ins.join(", "), ret));
            if !wh.is_empty() {
                r.push_str(&format!(" where {}", wh.join(", ")));
            }
        }
    }
    r.push('\n');
    if !s.requires.trim().is_empty() {
        r.push_str(&format!("  requires\n{}", s.requires));
    }
    if !s.ensures.trim().is_empty() {
        r.push_str(&format!("  ensures\n{}", s.ensures));
    }
    if !s.decreases.trim().is_empty() {
        r.push_str(&format!("  decreases {}\n", s.decreases));
    }
    // body
    if src.assume {
        r.push_str("{ unimplemented!() }\n");
        return Ok(r);
    }
    let mut lw = Lower::new(src, o);
    let b = lw.body(&block)?;
    let mut body = q(&b);
    for n in &byvals {
        body = body.replace(&format!("let {} = & ", n), &format!("let {} = ", n));
    }
    for (n, t) in &ltypes {
        body = body.replace(&format!("let mut {} =", n), &format!("let mut {} : {} =", n, t));
        body = body.replace(&format!("let {} =", n), &format!("let {} : {} =", n, t));
    }
    r.push_str(&render(&body, s, vac)?);
    r.push('\n');
    Ok(r)
}

/// number after a marker, e.g. `kx_inv ! (3) ;`
fn render(body: &str, s: &FnSpec, vac: bool) -> Res<String> {
    let mut body = body.to_string();
    // which automatic bounds belong to which loop
    let mut auto: BTreeMap<usize, (String, String)> = BTreeMap::new();
    let atpat = "kx_at ! (\"";
    let mut pos = 0;
    let mut last_end = None;
    while let Some(i) = body[pos..].find(atpat) {
        let a = pos + i + atpat.len();
        let e = a + body[a..].find('"').unwrap();
        let name = &body[a..e];
        if let Some(x) = name.strip_prefix("auto") {
            let p: Vec<&str> = x.split('.').collect();
            let n: usize = p[0].parse().unwrap();
            auto.insert(n, (p[1].to_string(), p.get(2).unwrap_or(&"").to_string()));
        }
        if name == "fn.end?" {
            // only the tail of the function body itself counts
            let d = body[..pos + i].chars().fold(0i64, |d, c| d + (c == '{') as i64 - (c == '}') as i64);
            if d == 1 {
                last_end = Some(pos + i);
            }
        }
        pos = e;
    }
    if let Some(p) = last_end {
        body.replace_range(p..p + "kx_at ! (\"fn.end?\")".len(), "kx_at ! (\"fn.end\" )");
    }
    let mut used: Vec<String> = vec!["fn.start".into()];
    let mut seen_loops: Vec<usize> = vec![];
    let mut out = String::new();
    let mut rest: &str = &body;
    // fn.start
    let st = rest.find('{').unwrap();
    out.push_str("{\n");
    let mut vacn = 0;
    if vac {
        out.push_str("if kx_vac() { assert(false); }\n");
    }
    if let Some(h) = s.ats.get("fn.start") {
        out.push_str(h);
    }
    rest = &rest[st + 1..];
    loop {
        let i1 = rest.find("{ kx_inv ! (");
        let i2 = rest.find(atpat);
        let (i, is_inv) = match (i1, i2) {
            (None, None) => break,
            (Some(a), None) => (a, true),
            (None, Some(b)) => (b, false),
            (Some(a), Some(b)) => {
                if a < b {
                    (a, true)
                } else {
                    (b, false)
                }
            }
        };
        out.push_str(&pretty(&rest[..i]));
        rest = &rest[i..];
        if is_inv {
            let a = "{ kx_inv ! (".len();
            let e = rest.find(')').unwrap();
            let n: usize = rest[a..e].trim().parse().unwrap();
            let after = e + rest[e..].find(';').unwrap() + 1;
            seen_loops.push(n);
            let mut inv = String::new();
            let mut dec = String::new();
            let mut ens = String::new();
            match auto.get(&n) {
                Some((k, v)) if k == "range" => {
                    inv.push_str(&format!("    kxlo{n} <= {v}, {v} <= kxhi{n} || {v} == kxlo{n},\n"));
                    dec = format!("kxhi{n} - {v}");
                }
                Some((k, _)) if k == "idx" => {
                    inv.push_str(&format!("    kx{n} <= kxn{n},\n"));
                    dec = format!("kxn{n} - kx{n}");
                }
                _ => {}
            }
            if let Some(x) = s.loops.get(&n) {
                let mut mode = 0;
                for l in x.lines() {
                    let t = l.trim();
                    if let Some(d) = t.strip_prefix("decreases ") {
                        dec = d.trim_end_matches(',').to_string();
                        continue;
                    }
                    if t == "ensures" {
                        mode = 1;
                        continue;
                    }
                    if mode == 0 {
                        inv.push_str(l);
                        inv.push('\n');
                    } else {
                        ens.push_str(l);
                        ens.push('\n');
                    }
                }
            }
            out.push('\n');
            if !inv.trim().is_empty() {
                out.push_str(&format!("  invariant\n{}", inv));
            }
            if !ens.is_empty() {
                out.push_str(&format!("  ensures\n{}", ens));
            }
            if !dec.is_empty() {
                out.push_str(&format!("  decreases {}\n", dec));
            }
            out.push_str("{\n");
            if vac {
                out.push_str("if kx_vac() { assert(false); }\n");
                vacn += 1;
            }
            rest = &rest[after..];
        } else {
            let a = atpat.len();
            let e = a + rest[a..].find('"').unwrap();
            let nm = &rest[a..e];
            let after = e + rest[e..].find(';').map(|x| x + 1).unwrap_or(2);
            if let Some(h) = s.ats.get(nm) {
                if used.iter().any(|u| u == nm) {
                    // a name that occurs several times: first one wins
                } else {
                    used.push(nm.to_string());
                    if nm.starts_with("clo.") {
                        // `-> T {` becomes `-> (kxr: T) <contract> {`
                        let t = out.trim_end();
                        let t = t.strip_suffix('{').ok_or("closure contract: body is not a block")?;
                        let k = t.rfind("->").ok_or("closure contract: no return type")?;
                        let ty = t[k + 2..].trim().to_string();
                        out = format!("{}-> (kxr: {})\n{}{{\n", &t[..k], ty, h);
                    } else {
                        out.push('\n');
                        out.push_str(h);
                    }
                }
            }
            rest = &rest[after..];
        }
    }
    let _ = vacn;
    // before the closing brace of a unit function
    let tail = pretty(rest);
    let lastk = if last_end.is_none() && s.ats.contains_key("fn.end") { "fn.end" } else { "fn.last" };
    if let Some(h) = s.ats.get(lastk) {
        // only for functions without a tail expression
        let t = tail.trim_end();
        let t = t.strip_suffix('}').unwrap_or(t);
        out.push_str(t);
        out.push('\n');
        out.push_str(h);
        out.push_str("}\n");
        used.push(lastk.into());
    } else {
        out.push_str(&tail);
    }
    for k in s.ats.keys() {
        if !used.contains(k) {
            return Err(format!("lost anchor: {}", k));
        }
    }
    for n in s.loops.keys() {
        if !seen_loops.contains(n) {
            return Err(format!("lost anchor: loop {}", n));
        }
    }
    Ok(out)
}

fn pretty(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        o.push(c);
        if matches!(c, ';' | '{' | '}') {
            o.push('\n');
        }
    }
    o
}
