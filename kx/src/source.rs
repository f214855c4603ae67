//! Locating items in the real sources, with cfg evaluation.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::*;

pub struct Source {
    root: PathBuf,
    files: BTreeMap<String, File>,
    pub features: BTreeSet<String>,
    /// contracts read now belong to another unit: emit them as assumed
    pub assume: bool,
    /// `#set NAME VALUE`: `$NAME$` in later contract files
    pub sets: BTreeMap<String, String>,
}

pub enum Found {
    Free(ItemFn),
    Method(ImplItemFn),
}

impl Source {
    pub fn new(root: &Path) -> Self {
        Source { root: root.to_path_buf(), files: BTreeMap::new(), features: BTreeSet::new(), assume: false, sets: BTreeMap::new() }
    }
    pub fn file(&mut self, p: &str) -> std::result::Result<File, String> {
        if let Some(f) = self.files.get(p) {
            return Ok(f.clone());
        }
        let t = std::fs::read_to_string(self.root.join(p)).map_err(|e| format!("lost anchor: {}: {}", p, e))?;
        let f = parse_file(&t).map_err(|e| format!("cannot parse {}: {}", p, e))?;
        self.files.insert(p.to_string(), f.clone());
        Ok(f)
    }

    pub fn cfg_ok(&self, attrs: &[Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                match &a.meta {
                    Meta::List(l) => match l.parse_args::<Meta>() {
                        Ok(m) => self.eval(&m),
                        Err(_) => true,
                    },
                    _ => true,
                }
            } else {
                true
            }
        })
    }
    pub fn eval(&self, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => {
                if p.is_ident("test") || p.is_ident("kani") {
                    false
                } else {
                    p.is_ident("debug_assertions") || p.is_ident("unix")
                }
            }
            Meta::NameValue(nv) => {
                let v = match &nv.value {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                    _ => return false,
                };
                if nv.path.is_ident("feature") {
                    self.features.contains(&v)
                } else if nv.path.is_ident("target_arch") {
                    if self.features.contains("arch:aarch64") { v == "aarch64" } else { v == "x86_64" }
                } else if nv.path.is_ident("target_feature") {
                    v == "sse" || v == "sse2" || self.features.contains(&format!("tf:{}", v))
                } else if nv.path.is_ident("target_pointer_width") {
                    v == "64"
                } else {
                    v == "linux" || v == "unix"
                }
            }
            Meta::List(l) => {
                let args = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect::<Vec<_>>())
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !self.eval(&args[0])
                } else if l.path.is_ident("all") {
                    args.iter().all(|m| self.eval(m))
                } else {
                    args.iter().any(|m| self.eval(m))
                }
            }
        }
    }

    /// path forms: `name`, `Type::name`, `Type<f32>::name`, `Type@Trait::name`, `trait Trait::name`
    pub fn find(&mut self, file: &str, path: &str) -> std::result::Result<Found, String> {
        let f = self.file(file)?;
        let mut out: Vec<Found> = vec![];
        self.search(&f.items, path.trim(), &mut out);
        if out.len() == 1 {
            Ok(out.pop().unwrap())
        } else {
            Err(format!("lost anchor: {} `{}` matches {} items", file, path, out.len()))
        }
    }
    /// associated constants of the impls of type `ty` in a file
    pub fn assoc(&mut self, file: &str, ty: &str) -> Vec<(String, Type, Expr)> {
        let mut out = vec![];
        if let Ok(f) = self.file(file) {
            for it in &f.items {
                if let Item::Impl(i) = it {
                    if matches!(&*i.self_ty, Type::Path(p) if p.path.segments.last().unwrap().ident == ty) {
                        for x in &i.items {
                            if let ImplItem::Const(c) = x {
                                out.push((c.ident.to_string(), c.ty.clone(), c.expr.clone()));
                            }
                        }
                    }
                }
            }
        }
        out
    }
    /// All free functions of a file by name (cfg-enabled), for automatic helper pickup.
    pub fn free_fn(&mut self, file: &str, name: &str) -> Option<ItemFn> {
        match self.find(file, name) {
            Ok(Found::Free(f)) => Some(f),
            _ => None,
        }
    }
    fn search(&self, items: &[Item], path: &str, out: &mut Vec<Found>) {
        let (is_trait, path) = match path.strip_prefix("trait ") {
            Some(p) => (true, p),
            None => (false, path),
        };
        let (head, name) = match path.rsplit_once("::") {
            Some((h, n)) => (Some(h.trim().to_string()), n.trim().to_string()),
            None => (None, path.to_string()),
        };
        for it in items {
            match it {
                Item::Mod(m) => {
                    if self.cfg_ok(&m.attrs) {
                        if let Some((_, its)) = &m.content {
                            self.search(its, if is_trait { "" } else { path }, out);
                        }
                    }
                }
                Item::Fn(f) if head.is_none() && !is_trait => {
                    if f.sig.ident == name && self.cfg_ok(&f.attrs) {
                        out.push(Found::Free(f.clone()));
                    }
                }
                Item::Impl(i) if head.is_some() && !is_trait => {
                    if !self.cfg_ok(&i.attrs) {
                        continue;
                    }
                    let h = head.as_ref().unwrap();
                    let (ty, tr) = match h.split_once('@') {
                        Some((a, b)) => (a.trim(), Some(b.trim())),
                        None => (h.as_str(), None),
                    };
                    let (base, targ) = match ty.split_once('<') {
                        Some((a, b)) => (a.trim(), Some(b.trim_end_matches('>').trim())),
                        None => (ty, None),
                    };
                    let ok_ty = match &*i.self_ty {
                        Type::Path(p) => {
                            let s = p.path.segments.last().unwrap();
                            s.ident == base
                                && match targ {
                                    None => true,
                                    Some(t) => match &s.arguments {
                                        PathArguments::AngleBracketed(ab) => {
                                            quote::quote!(#ab).to_string().contains(&format!("< {} >", t))
                                        }
                                        _ => false,
                                    },
                                }
                        }
                        _ => false,
                    };
                    if !ok_ty {
                        continue;
                    }
                    let ok_tr = match (tr, &i.trait_) {
                        (None, None) => true,
                        (None, Some(_)) => false,
                        (Some(t), Some((_, p, _))) => p.segments.last().unwrap().ident == t,
                        _ => false,
                    };
                    if !ok_tr {
                        continue;
                    }
                    for ii in &i.items {
                        if let ImplItem::Fn(m) = ii {
                            if m.sig.ident == name && self.cfg_ok(&m.attrs) {
                                out.push(Found::Method(m.clone()));
                            }
                        }
                    }
                }
                Item::Trait(t) if is_trait => {
                    if Some(t.ident.to_string()) != head {
                        continue;
                    }
                    for ti in &t.items {
                        if let TraitItem::Fn(m) = ti {
                            if m.sig.ident == name && self.cfg_ok(&m.attrs) {
                                if let Some(b) = &m.default {
                                    out.push(Found::Method(ImplItemFn {
                                        attrs: vec![],
                                        vis: Visibility::Inherited,
                                        defaultness: None,
                                        sig: m.sig.clone(),
                                        block: b.clone(),
                                    }));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
