//! Text rules (`opt text`): str/String/Command idioms rewritten to the stand-ins of contracts/cmdenv.rs.
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

pub struct Text;
impl VisitMut for Text {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                // builder chains: one statement per call
                Stmt::Expr(Expr::MethodCall(m), Some(semi)) if builder(&m) => {
                    let mut calls = vec![];
                    let mut e = Expr::MethodCall(m);
                    while let Expr::MethodCall(m) = &e {
                        if !builder(m) {
                            break;
                        }
                        let r = (*m.receiver).clone();
                        calls.push(m.clone());
                        e = r;
                    }
                    for mut c in calls.into_iter().rev() {
                        c.receiver = Box::new(e.clone());
                        out.push(Stmt::Expr(Expr::MethodCall(c), Some(semi)));
                    }
                }
                Stmt::Expr(Expr::ForLoop(mut f), semi) => {
                    if let Expr::MethodCall(m) = &*f.expr {
                        if m.method == "split_whitespace" && m.args.is_empty() {
                            let r = &m.receiver;
                            out.push(parse_quote!(let kxw = kx_words(#r);));
                            f.expr = Box::new(parse_quote!(kxw.iter().copied()));
                        }
                    }
                    out.push(Stmt::Expr(Expr::ForLoop(f), semi));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = (*m.receiver).clone();
                if n == "contains" && m.args.len() == 1 && lit(&m.args[0]) {
                    let a = m.args[0].clone();
                    *e = parse_quote!(kx_has(#r, #a));
                } else if n == "join" && m.args.len() == 1 && lit(&m.args[0]) {
                    let a = m.args[0].clone();
                    *e = parse_quote!(kx_join(&#r, #a));
                } else if matches!(n.as_str(), "into" | "to_string" | "to_owned") && m.args.is_empty() && lit(&r) {
                    *e = parse_quote!(kx_str(#r));
                }
            }
            Expr::Call(c) => {
                let f = quote::ToTokens::to_token_stream(&c.func).to_string().replace(' ', "");
                if f == "String::from" && c.args.len() == 1 && lit(&c.args[0]) {
                    let a = c.args[0].clone();
                    *e = parse_quote!(kx_str(#a));
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (lit(&b.left) || lit(&b.right)) => {
                let (l, r) = (b.left.clone(), b.right.clone());
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(kx_eq(#l, #r)) } else { parse_quote!(!kx_eq(#l, #r)) };
            }
            Expr::Array(a) if a.elems.iter().any(lit) => {
                for x in a.elems.iter_mut() {
                    if let Expr::Reference(r) = x {
                        let y = (*r.expr).clone();
                        *x = parse_quote!(kx_sref(&#y));
                    }
                }
            }
            _ => {}
        }
    }
}
fn builder(m: &ExprMethodCall) -> bool {
    matches!(m.method.to_string().as_str(), "arg" | "args" | "env")
}
