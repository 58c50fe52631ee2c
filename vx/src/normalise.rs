use crate::{ann, FnSrc, Source};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

pub struct Normalised {
    pub block: Block,
    pub mut_params: Vec<syn::Ident>,
    pub locals: Vec<String>,
    pub loops: usize,
    pub lost: Vec<String>,
    /// proof hints whose place is gone: dropped, not fatal
    pub soft: Vec<String>,
    /// structural sites per kind, in traversal order (see align)
    pub sites: BTreeMap<String, Vec<String>>,
    pub inlined: Vec<String>,
    pub called: Vec<String>,
    pub tokens: String,
    pub hook_texts: Vec<String>,
}

fn cfg_of(attrs: &[syn::Attribute]) -> Option<bool> {
    // Some(true): active only in non-test builds; Some(false): test only
    for a in attrs {
        if a.path().is_ident("cfg") {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            if s == "cfg(test)" { return Some(false); }
            if s == "cfg(not(test))" { return Some(true); }
        }
    }
    None
}

fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<syn::Attribute>> {
    Some(match e {
        Expr::Array(x) => &mut x.attrs, Expr::Assign(x) => &mut x.attrs, Expr::Binary(x) => &mut x.attrs, Expr::Block(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs, Expr::Cast(x) => &mut x.attrs, Expr::Closure(x) => &mut x.attrs, Expr::Field(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs, Expr::If(x) => &mut x.attrs, Expr::Index(x) => &mut x.attrs, Expr::Lit(x) => &mut x.attrs,
        Expr::Loop(x) => &mut x.attrs, Expr::Macro(x) => &mut x.attrs, Expr::Match(x) => &mut x.attrs, Expr::MethodCall(x) => &mut x.attrs,
        Expr::Paren(x) => &mut x.attrs, Expr::Path(x) => &mut x.attrs, Expr::Return(x) => &mut x.attrs, Expr::Struct(x) => &mut x.attrs,
        Expr::Unary(x) => &mut x.attrs, Expr::Unsafe(x) => &mut x.attrs, Expr::While(x) => &mut x.attrs, Expr::Reference(x) => &mut x.attrs,
        Expr::Break(x) => &mut x.attrs, Expr::Continue(x) => &mut x.attrs, Expr::Tuple(x) => &mut x.attrs,
        _ => return None,
    })
}

/// N1: drop test-only statements and every attribute.
struct DropTest;
impl VisitMut for DropTest {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let keep = match &mut s {
                Stmt::Local(l) => { let k = cfg_of(&l.attrs) != Some(false); l.attrs.clear(); k }
                Stmt::Macro(m) => { let k = cfg_of(&m.attrs) != Some(false); m.attrs.clear(); k }
                Stmt::Expr(e, _) => match expr_attrs(e) { Some(a) => { let k = cfg_of(a) != Some(false); a.clear(); k } None => true },
                Stmt::Item(_) => true,
            };
            if keep { b.stmts.push(s); }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| cfg_of(&a.attrs) != Some(false));
        for a in m.arms.iter_mut() { a.attrs.clear(); }
        visit_mut::visit_expr_match_mut(self, m);
    }
}

fn lit_u128(e: &Expr) -> Option<(u128, String)> {
    match e {
        Expr::Lit(l) => if let syn::Lit::Int(i) = &l.lit { i.base10_parse::<u128>().ok().map(|v| (v, i.suffix().to_string())) } else { None },
        Expr::Paren(p) => lit_u128(&p.expr),
        Expr::Group(p) => lit_u128(&p.expr),
        _ => None,
    }
}

fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => path_ident(&p.expr),
        _ => None,
    }
}

/// N5 literal shifts, N6 concat, N7 error strings, N8 assert macros
struct Simple { uniq: usize }
impl VisitMut for Simple {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // N11: x /= y and x %= y, spelled out for a plain variable
        if let Expr::Binary(b) = e {
            if path_ident(&b.left).is_some() {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    syn::BinOp::DivAssign(_) => { *e = parse_quote!(#l = #l / (#r)); return; }
                    syn::BinOp::RemAssign(_) => { *e = parse_quote!(#l = #l % (#r)); return; }
                    _ => {}
                }
            }
        }
        // N15: comparison of tuple literals, element by element
        if let Expr::Binary(b) = e {
            if let (Expr::Tuple(x), Expr::Tuple(y)) = (&*b.left, &*b.right) {
                if x.elems.len() == y.elems.len() && x.elems.len() > 0 {
                    let (a, c): (Vec<&Expr>, Vec<&Expr>) = (x.elems.iter().collect(), y.elems.iter().collect());
                    match b.op {
                        syn::BinOp::Eq(_) => { *e = parse_quote!((#(#a == #c)&&*)); return; }
                        syn::BinOp::Ne(_) => { *e = parse_quote!((#(#a != #c)||*)); return; }
                        _ => {}
                    }
                }
            }
        }
        // N16: `e?` on a Result whose error type is the function's
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!(match #x { Ok(vx_ok) => vx_ok, Err(vx_err) => { return Err(vx_err); } });
            return;
        }
        // N17: `while let P = E B`
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#lab loop { match #x { #p => #b, _ => { break; } } });
                return;
            }
        }
        // N22: `loop { if C { break; } .. }`
        if let Expr::Loop(l) = e {
            if let Some(Stmt::Expr(Expr::If(i), _)) = l.body.stmts.first() {
                let brk = match i.then_branch.stmts.as_slice() { [Stmt::Expr(Expr::Break(b), _)] => b.label.is_none() && b.expr.is_none(), _ => false };
                if brk && i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) && !own_break_value(&l.body) {
                    let cond: Expr = match &*i.cond { Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => (*u.expr).clone(), c => parse_quote!(!(#c)) };
                    let rest = &l.body.stmts[1..];
                    let lab = &l.label;
                    *e = parse_quote!(#lab while #cond { #(#rest)* });
                    return;
                }
            }
        }
        // N23: comparison with a variant of Ordering
        if let Expr::Binary(b) = e {
            let neg = match b.op { syn::BinOp::Eq(_) => Some(false), syn::BinOp::Ne(_) => Some(true), _ => None };
            if let Some(neg) = neg {
                let ord = |x: &Expr| matches!(x, Expr::Path(p) if p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "Ordering");
                let (v, x) = if ord(&b.right) { (&b.right, &b.left) } else if ord(&b.left) { (&b.left, &b.right) } else { (&b.right, &b.right) };
                if ord(v) && !ord(x) {
                    *e = if neg { parse_quote!((match #x { #v => false, _ => true })) } else { parse_quote!((match #x { #v => true, _ => false })) };
                    return;
                }
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("unreachable") || m.mac.path.is_ident("todo") { *e = parse_quote!(vx_unreachable()); return; }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "get" && m.args.len() == 1 && !matches!(m.args[0], Expr::Range(_)) {
                let (x, i) = (&m.receiver, &m.args[0]);
                *e = parse_quote!(vx_get(&#x, #i)); return;
            }
            if m.method == "into" && m.args.is_empty() && lit_u128(&m.receiver).is_some() {
                let x = &m.receiver;
                *e = parse_quote!(Ratio::from_i32(#x)); return;
            }
        }
        // N5: LIT << LIT
        if let Expr::Binary(b) = e {
            if let syn::BinOp::Shl(_) = b.op {
                if let (Some((x, sx)), Some((y, _))) = (lit_u128(&b.left), lit_u128(&b.right)) {
                    if y < 128 && (x << y) >> y == x {
                        let lit = proc_macro2::Literal::from_str_checked(&format!("{}{}", x << y, sx));
                        *e = Expr::Lit(syn::ExprLit { attrs: vec![], lit: syn::Lit::Int(syn::LitInt::new(&lit, proc_macro2::Span::call_site())) });
                        return;
                    }
                }
            }
        }
        // N6: vec![A, B, ..].concat()
        if let Expr::MethodCall(m) = e {
            if m.method == "concat" && m.args.is_empty() {
                if let Some(elems) = vec_macro_elems(&m.receiver) {
                    let mut it = elems.into_iter();
                    if let Some(first) = it.next() {
                        let rest: Vec<Expr> = it.collect();
                        *e = parse_quote!({ let mut vx_cat = #first; #( { let mut vx_tail = #rest; vx_cat.append(&mut vx_tail); } )* vx_cat });
                        return;
                    }
                }
            }
            if m.method == "to_vec" && m.args.is_empty() {
                let r = &m.receiver;
                if let Expr::Index(ix) = &**r {
                    if let Expr::Range(rg) = &*ix.index {
                        let base = &ix.expr;
                        let lo: Expr = rg.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                        *e = match &rg.end {
                            Some(hi) => parse_quote!(vx_slice_to_vec(&#base, #lo, #hi)),
                            None => parse_quote!(vx_slice_from_to_vec(&#base, #lo)),
                        };
                        return;
                    }
                }
                *e = parse_quote!(vx_to_vec(&#r));
                return;
            }
        }
        // N6b: &x[a..] borrowed
        if let Expr::Reference(rf) = e {
            if rf.mutability.is_none() {
                if let Expr::Index(ix) = &*rf.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        if let (Some(lo), None) = (&rg.start, &rg.end) {
                            let base = &ix.expr;
                            *e = parse_quote!(vx_slice_from(&#base, #lo));
                            return;
                        }
                    }
                }
            }
        }
        // N7: the text carried by NotInRange
        if let Expr::Struct(s) = e {
            if s.path.segments.last().map_or(false, |x| x.ident == "NotInRange") {
                *e = parse_quote!(vx_not_in_range());
                return;
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "assert" || n == "debug_assert" {
                if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    let c = &args[0];
                    *s = parse_quote!(if !(#c) { panic!("assertion failed"); });
                }
            } else if n == "assert_eq" || n == "debug_assert_eq" {
                if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    let (x, y) = (&args[0], &args[1]);
                    *s = parse_quote!(if !(#x == #y) { panic!("assertion failed"); });
                }
            } else if n == "panic" || n == "unreachable" {
                *s = parse_quote!(panic!("panic"););
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if m.path.is_ident("panic") { m.tokens = quote!("panic"); }
        // normalise inside vec![..]
        if m.path.is_ident("vec") {
            if let Ok(mut args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                m.tokens = quote!(#args);
            } else if let Ok((mut a, mut b)) = m.parse_body_with(|i: syn::parse::ParseStream| { let a: Expr = i.parse()?; let _: syn::Token![;] = i.parse()?; let b: Expr = i.parse()?; Ok((a, b)) }) {
                self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                m.tokens = quote!(#a; #b);
            }
        }
    }
}

fn own_break_value(b: &Block) -> bool {
    struct H(bool);
    impl<'a> Visit<'a> for H { fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) { self.0 |= b.expr.is_some(); } }
    let mut h = H(false); h.visit_block(b); h.0
}
trait FromStrChecked { fn from_str_checked(s: &str) -> String; }
impl FromStrChecked for proc_macro2::Literal { fn from_str_checked(s: &str) -> String { s.to_string() } }

fn vec_macro_elems(e: &Expr) -> Option<Vec<Expr>> {
    if let Expr::Macro(m) = e {
        if m.mac.path.is_ident("vec") {
            if let Ok(a) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) { return Some(a.into_iter().collect()); }
        }
    }
    None
}

/// N9: inlining of calls to functions of this crate that carry no contract.
struct Inline<'a> { source: &'a Source, anns: &'a ann::Anns, depth: usize, done: Vec<String>, self_ty: Option<String>, stack: Vec<String>, uniq: usize }

fn has_return(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false); v.visit_block(b); v.0
}

struct Subst { m: BTreeMap<String, Expr>, deref: BTreeSet<String> }
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if let syn::UnOp::Deref(_) = u.op {
                if let Some(n) = path_ident(&u.expr) { if self.deref.contains(&n) { let r = self.m[&n].clone(); *e = r; return; } }
            }
        }
        if let Expr::Path(_) = e {
            if let Some(n) = path_ident(e) { if let Some(r) = self.m.get(&n) { *e = r.clone(); return; } }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if m.path.is_ident("vec") {
            if let Ok(mut args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                m.tokens = quote!(#args);
            } else if let Ok((mut a, mut b)) = m.parse_body_with(|i: syn::parse::ParseStream| { let a: Expr = i.parse()?; let _: syn::Token![;] = i.parse()?; let b: Expr = i.parse()?; Ok((a, b)) }) {
                self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                m.tokens = quote!(#a; #b);
            }
        }
    }
}

fn is_place(e: &Expr) -> bool {
    match e { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Paren(p) => is_place(&p.expr), _ => false }
}

impl<'a> Inline<'a> {
    fn body(&mut self, f: &FnSrc, recv: Option<&Expr>, args: &[Expr]) -> Option<Expr> {
        if self.stack.contains(&f.key) || self.stack.len() > 3 || self.depth > 40 { return None; }
        let f = &instantiate(f);
        let mut b = f.block.clone();
        crate::macros::Expand(&self.source.macros, self.anns.macro_fns()).visit_block_mut(&mut b);
        DropTest.visit_block_mut(&mut b);
        if has_return(&b) { return None; }
        let mut subst = Subst { m: BTreeMap::new(), deref: BTreeSet::new() };
        let mut lets: Vec<Stmt> = vec![];
        let mut ai = args.iter();
        for p in f.sig.inputs.iter() {
            match p {
                syn::FnArg::Receiver(r) => {
                    let re = match recv { Some(x) => x.clone(), None => ai.next()?.clone() };
                    let re = match re { Expr::Reference(x) => (*x.expr).clone(), x => x };
                    if r.reference.is_none() || !is_place(&re) {
                        self.uniq += 1;
                        let id = format_ident!("vx_self{}", self.uniq);
                        if r.reference.is_some() { lets.push(parse_quote!(let #id = &#re;)); } else { lets.push(parse_quote!(let #id = #re;)); }
                        subst.m.insert("self".into(), parse_quote!(#id));
                    } else { subst.m.insert("self".into(), re); }
                }
                syn::FnArg::Typed(t) => {
                    let arg = ai.next()?.clone();
                    let Pat::Ident(pi) = &*t.pat else { return None };
                    let id = &pi.ident; let ty = &t.ty;
                    if let (syn::Type::Reference(tr), Expr::Reference(ar)) = (&**ty, &arg) {
                        if tr.mutability.is_some() {
                            if !is_place(&ar.expr) { return None; }
                            subst.m.insert(id.to_string(), (*ar.expr).clone());
                            subst.deref.insert(id.to_string());
                            continue;
                        }
                    }
                    if let syn::Type::Reference(tr) = &**ty {
                        if tr.mutability.is_some() { return None; }
                    }
                    if path_ident(&arg).as_deref() == Some(&id.to_string()) && pi.mutability.is_none() { continue; }
                    let mu = &pi.mutability;
                    if args.len() == 1 || true { lets.push(parse_quote!(let #mu #id: #ty = #arg;)); }
                }
            }
        }
        // an argument that mentions a name bound by an earlier parameter `let` would be captured
        let mut bound: BTreeSet<String> = BTreeSet::new();
        let mut renames: BTreeMap<String, Expr> = BTreeMap::new();
        for s in lets.iter_mut() {
            if let Stmt::Local(l) = s {
                if let Some(init) = &l.init {
                    let mut ids = Idents(BTreeSet::new()); ids.visit_expr(&init.expr);
                    if ids.0.iter().any(|x| bound.contains(x)) { return None; }
                }
                if let Pat::Type(pt) = &l.pat { if let Pat::Ident(pi) = &*pt.pat { bound.insert(pi.ident.to_string()); } }
            }
        }
        let _ = &mut renames;
        subst.visit_block_mut(&mut b);
        // captured names in substituted places
        let mut used: BTreeSet<String> = BTreeSet::new();
        for e in subst.m.values() { let mut ids = Idents(BTreeSet::new()); ids.visit_expr(e); used.extend(ids.0); }
        let mut ls = Locals(vec![]); ls.visit_block(&b);
        if ls.0.iter().any(|x| used.contains(x)) || bound.iter().any(|x| used.contains(x)) { return None; }
        self.done.push(f.key.clone());
        self.depth += 1;
        self.stack.push(f.key.clone());
        self.visit_block_mut(&mut b);
        self.stack.pop();
        let st = &b.stmts;
        Some(parse_quote!({ #(#lets)* #(#st)* }))
    }
}

struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if p.path.segments.len() == 1 { self.0.insert(p.path.segments[0].ident.to_string()); } }
}

impl<'a> VisitMut for Inline<'a> {
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if m.path.is_ident("vec") {
            if let Ok(mut args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                m.tokens = quote!(#args);
            } else if let Ok((mut a, mut b)) = m.parse_body_with(|i: syn::parse::ParseStream| { let a: Expr = i.parse()?; let _: syn::Token![;] = i.parse()?; let b: Expr = i.parse()?; Ok((a, b)) }) {
                self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                m.tokens = quote!(#a; #b);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let rep = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().cloned().unwrap_or_default();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    let key = if segs.len() >= 2 {
                        let t = if segs[segs.len() - 2] == "Self" { self.self_ty.clone().unwrap_or_default() } else { segs[segs.len() - 2].clone() };
                        let k = format!("{}::{}", t, name);
                        if self.source.fns.contains_key(&k) { k } else { name.clone() }
                    } else { name.clone() };
                    match self.source.fns.get(&key) {
                        Some(f) if !self.anns.fns.contains_key(&key) => self.body(f, None, &args),
                        _ => None,
                    }
                } else { None }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let suffix = format!("::{}", name);
                let cands: Vec<&FnSrc> = self.source.fns.values().filter(|f| f.self_ty.is_some() && f.trait_.is_none() && f.key.ends_with(&suffix) && crate::layer(&f.key, self.source) <= crate::layer(&self.stack[0], self.source)).collect();
                let annotated = self.anns.fns.keys().any(|k| k.ends_with(&suffix));
                if !annotated && cands.len() == 1 && !matches!(name.as_str(), "len" | "clone" | "push" | "pop" | "min" | "max" | "iter" | "map" | "collect" | "unwrap" | "to_vec" | "is_empty" | "rev" | "ilog2" | "abs" | "abs_diff" | "unsigned_abs" | "leading_zeros" | "chars" | "find" | "get") {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    let recv = (*m.receiver).clone();
                    self.body(cands[0], Some(&recv), &args)
                } else { None }
            }
            _ => None,
        };
        if let Some(r) = rep { *e = r; }
    }
}

/// N20: reading the bits of a float through a pointer cast
/// `let p = &x as *const f32 as *const u32; .. unsafe { *p }` becomes `let p = x.to_bits(); .. { p }`, and back with `from_bits`
struct Casts { names: BTreeSet<String> }
impl Casts {
    fn cast(e: &Expr) -> Option<Expr> {
        let Expr::Cast(o) = e else { return None };
        let Expr::Cast(i) = &*o.expr else { return None };
        let Expr::Reference(r) = &*i.expr else { return None };
        if r.mutability.is_some() { return None; }
        let (a, b) = (i.ty.to_token_stream().to_string().replace(' ', ""), o.ty.to_token_stream().to_string().replace(' ', ""));
        let x = &r.expr;
        match (a.as_str(), b.as_str()) {
            ("*constf32", "*constu32") | ("*constf64", "*constu64") => Some(parse_quote!((#x).to_bits())),
            ("*constu32", "*constf32") => Some(parse_quote!(f32::from_bits(#x))),
            ("*constu64", "*constf64") => Some(parse_quote!(f64::from_bits(#x))),
            _ => None,
        }
    }
}
impl VisitMut for Casts {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &mut l.init) {
            if let Some(x) = Self::cast(&i.expr) { *i.expr = x; self.names.insert(p.ident.to_string()); return; }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                let mut inner = (*u.expr).clone();
                while let Expr::Paren(p) = inner { inner = *p.expr; }
                if let Some(x) = Self::cast(&inner) { *e = x; return; }
                if path_ident(&inner).map_or(false, |n| self.names.contains(&n)) { *e = inner; return; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unsafe(u) = e { let b = &u.block; *e = parse_quote!(#b); }
    }
}

/// N21: `format!`, `to_string` and the string functions of std become calls of specified helpers
struct Strings { strs: BTreeSet<String> }
enum Piece { Lit(String), Arg(Expr, usize, u32) }
fn format_pieces(m: &syn::Macro) -> Option<Vec<Piece>> {
    let args = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
    let mut it = args.into_iter();
    let t = match it.next()? { Expr::Lit(l) => match l.lit { syn::Lit::Str(x) => x.value(), _ => return None }, _ => return None };
    let mut out = vec![];
    let mut lit = String::new();
    let mut cs = t.chars().peekable();
    while let Some(c) = cs.next() {
        if c == '{' && cs.peek() == Some(&'{') { cs.next(); lit.push('{'); continue; }
        if c == '}' { if cs.next() != Some('}') { return None; } lit.push('}'); continue; }
        if c != '{' { lit.push(c); continue; }
        let mut hole = String::new();
        loop { match cs.next()? { '}' => break, x => hole.push(x) } }
        let (name, spec) = match hole.split_once(':') { Some((n, s)) => (n.to_string(), s.to_string()), None => (hole, String::new()) };
        let arg: Expr = if name.is_empty() { it.next()? } else { let id = syn::parse_str::<syn::Ident>(&name).ok()?; parse_quote!(#id) };
        if !lit.is_empty() { out.push(Piece::Lit(std::mem::take(&mut lit))); }
        let (spec, radix) = match spec.chars().last() { Some('x') => (spec[..spec.len() - 1].to_string(), 16), Some('o') => (spec[..spec.len() - 1].to_string(), 8), Some('b') => (spec[..spec.len() - 1].to_string(), 2), _ => (spec, 10) };
        let width = if spec.is_empty() { 0 } else { spec.strip_prefix('0')?.parse::<usize>().ok()? };
        out.push(Piece::Arg(arg, width, radix));
    }
    if it.next().is_some() { return None; }
    if !lit.is_empty() || out.is_empty() { out.push(Piece::Lit(lit)); }
    Some(out)
}
impl VisitMut for Strings {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if let Some(Stmt::Macro(m)) = b.stmts.last() {
            if m.semi_token.is_none() && (m.mac.path.is_ident("format") || m.mac.path.is_ident("write")) { let mac = m.mac.clone(); b.stmts.pop(); b.stmts.push(Stmt::Expr(Expr::Macro(syn::ExprMacro { attrs: vec![], mac }), None)); }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // write!(f, ..) appends what format!(..) gives
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("write") {
                if let Ok((f, rest)) = m.mac.parse_body_with(|i: syn::parse::ParseStream| { let f: Expr = i.parse()?; let _: syn::Token![,] = i.parse()?; let r: proc_macro2::TokenStream = i.parse()?; Ok((f, r)) }) {
                    *e = parse_quote!(vx_write(#f, format!(#rest)));
                    if let Expr::Call(c) = e { self.visit_expr_mut(&mut c.args[1]); }
                    return;
                }
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("format") {
                if let Some(ps) = format_pieces(&m.mac) {
                    let mut acc: Option<Expr> = None;
                    for p in ps {
                        let p = match p { Piece::Arg(a @ (Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::If(_)), w, r) => Piece::Arg(parse_quote!((#a)), w, r), p => p };
                        let x: Expr = match p {
                            Piece::Lit(l) => parse_quote!(vx_str(#l)),
                            Piece::Arg(a, 0, 10) => parse_quote!(vx_show(&#a)),
                            Piece::Arg(a, w, r) => { let w = proc_macro2::Literal::usize_unsuffixed(w); let r = proc_macro2::Literal::u32_unsuffixed(r); parse_quote!(vx_fmt(&#a, #w, #r)) }
                        };
                        acc = Some(match acc { None => x, Some(y) => parse_quote!(vx_cat(#y, #x)) });
                    }
                    *e = acc.unwrap();
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let r = &m.receiver;
            let char_lit = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_)));
            match (m.method.to_string().as_str(), m.args.len()) {
                ("to_string", 0) => *e = parse_quote!(vx_show(&#r)),
                ("starts_with", 1) if char_lit(&m.args[0]) => { let a = &m.args[0]; *e = parse_quote!(vx_starts_with(&#r, #a)) }
                ("trim_start_matches", 1) if char_lit(&m.args[0]) => { let a = &m.args[0]; *e = parse_quote!(vx_trim_start(&#r, #a)) }
                ("find", 1) if char_lit(&m.args[0]) => { let a = &m.args[0]; *e = parse_quote!(vx_find_char(&#r, #a)) }
                ("find", 1) if matches!(m.args[0], Expr::Closure(_)) && path_ident(r).map_or(false, |n| self.strs.contains(&n)) => { let a = &m.args[0]; *e = parse_quote!(vx_find_by(&#r, #a)) }
                ("concat", 0) if path_ident(r).is_some() => *e = parse_quote!(vx_concat(&#r)),
                ("join", 1) if matches!(&m.args[0], Expr::Lit(l) if matches!(&l.lit, syn::Lit::Str(t) if t.value().is_empty())) => *e = parse_quote!(vx_concat(&#r)),
                ("reverse", 0) if path_ident(r).is_some() => *e = parse_quote!(vx_reverse(&mut #r)),
                ("len", 0) if path_ident(r).map_or(false, |n| self.strs.contains(&n)) => *e = parse_quote!(vx_str_len(&#r)),
                ("get", 1) => if let Expr::Range(rg) = &m.args[0] {
                    if matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) {
                        let lo: Expr = rg.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                        *e = match &rg.end { Some(hi) => parse_quote!(vx_str_get(&#r, #lo, #hi)), None => parse_quote!(vx_str_get_from(&#r, #lo)) };
                    }
                },
                _ => {}
            }
        }
    }
    fn visit_macro_mut(&mut self, _: &mut syn::Macro) {}
}
/// N10: eager `&`/`|` on bools become calls of vx_and/vx_or
struct BoolOps { names: BTreeSet<String> }
impl BoolOps {
    fn boolish(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.boolish(&p.expr),
            Expr::Lit(l) => matches!(l.lit, syn::Lit::Bool(_)),
            Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && self.boolish(&u.expr),
            Expr::Path(_) => path_ident(e).map_or(false, |n| self.names.contains(&n) || n.starts_with("is_")),
            Expr::Field(f) => matches!(&f.member, syn::Member::Named(i) if i.to_string().trim_start_matches('_').starts_with("is_")),
            Expr::MethodCall(m) => { let n = m.method.to_string(); n.starts_with("is_") || ["lt", "gt", "eq", "neq", "leq", "geq"].iter().any(|p| n == *p || n.starts_with(&format!("{}_", p))) }
            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_and") || p.path.is_ident("vx_or")),
            Expr::Binary(b) => match b.op {
                syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::And(_) | syn::BinOp::Or(_) => true,
                syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_) | syn::BinOp::BitXor(_) => self.boolish(&b.left) || self.boolish(&b.right),
                _ => false,
            },
            _ => false,
        }
    }
}
impl VisitMut for BoolOps {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) { if self.boolish(&i.expr) { self.names.insert(p.ident.to_string()); } }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let rep: Option<Expr> = match e {
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    syn::BinOp::BitAnd(_) if self.boolish(l) || self.boolish(r) => Some(parse_quote!(vx_and(#l, #r))),
                    syn::BinOp::BitOr(_) if self.boolish(l) || self.boolish(r) => Some(parse_quote!(vx_or(#l, #r))),
                    syn::BinOp::BitAndAssign(_) if self.boolish(r) => Some(parse_quote!(#l = vx_and(#l, #r))),
                    syn::BinOp::BitOrAssign(_) if self.boolish(r) => Some(parse_quote!(#l = vx_or(#l, #r))),
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(r) = rep { *e = r; }
    }
}

struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with("vx_") && n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.0.push(n); }
        syn::visit::visit_pat_ident(self, p);
    }
}

/// the associated types of a trait impl
pub struct Assoc<'a>(pub &'a BTreeMap<String, syn::Type>);
impl<'a> VisitMut for Assoc<'a> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t { if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" { if let Some(x) = self.0.get(&p.path.segments[1].ident.to_string()) { *t = x.clone(); return; } } }
        visit_mut::visit_type_mut(self, t);
    }
}
/// N26: std's Formatter is the stand-in VxSink of the contracts
pub struct Fmt;
impl VisitMut for Fmt {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        let s = t.to_token_stream().to_string().replace(' ', "");
        if s.trim_start_matches("std::").trim_start_matches("fmt::").trim_end_matches("<'_>") == "Formatter" { *t = parse_quote!(VxSink); }
        else if s.ends_with("fmt::Result") { *t = parse_quote!(Result<(), VxFmtError>); }
    }
}
/// N25: conversions go through the traits of the contracts
struct Conv(bool);
impl VisitMut for Conv {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "into" || m.method == "try_into") => { m.method = format_ident!("vx_{}", m.method); self.0 = true; }
            Expr::Call(c) => if let Expr::Path(p) = &mut *c.func {
                let q = p.qself.is_some() || p.path.segments.len() > 1;
                if let Some(l) = p.path.segments.last_mut() { if q && (l.ident == "from" || l.ident == "try_from") { l.ident = format_ident!("vx_{}", l.ident); self.0 = true; } }
                if p.path.segments.len() == 2 && (p.path.segments[0].ident == "TryInto" || p.path.segments[0].ident == "Into") { let t = format_ident!("Vx{}", p.path.segments[0].ident); p.path.segments[0].ident = t; let l = &mut p.path.segments[1]; l.ident = format_ident!("vx_{}", l.ident); self.0 = true; }
            },
            _ => {}
        }
    }
}
pub fn const_expr(e: &mut Expr) { Simple { uniq: 0 }.visit_expr_mut(e); }
/// N27: associated constants become free ones
struct AssocConst<'a> { source: &'a Source, self_ty: Option<String> }
impl<'a> VisitMut for AssocConst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e { if p.qself.is_none() && p.path.segments.len() == 2 {
            let t = p.path.segments[0].ident.to_string();
            let t = if t == "Self" { self.self_ty.clone().unwrap_or_default() } else { t };
            let c = p.path.segments[1].ident.to_string();
            if self.source.consts.contains_key(&format!("{}::{}", t, c)) { let id = format_ident!("{}_{}", t, c); *e = parse_quote!(#id); }
        } }
    }
}
pub fn uses_conv(f: &FnSrc) -> bool { let mut b = f.block.clone(); let mut c = Conv(false); c.visit_block_mut(&mut b); c.0 }
pub fn locals(f: &FnSrc) -> Vec<String> {
    let mut ls = Locals(vec![]);
    ls.visit_block(&f.block);
    ls.0
}
/// mutable locals that some loop inherits from outside
pub fn carried(f: &FnSrc) -> BTreeSet<String> {
    struct Muts(BTreeSet<String>);
    impl<'a> Visit<'a> for Muts { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { if p.mutability.is_some() { self.0.insert(p.ident.to_string()); } } }
    struct V(BTreeSet<String>, BTreeSet<String>);
    impl V {
        fn body(&mut self, b: &Block, cond: Option<&Expr>) {
            let mut inner = Muts(BTreeSet::new()); inner.visit_block(b);
            let mut t = b.to_token_stream(); if let Some(c) = cond { t.extend(c.to_token_stream()); }
            let text = t.to_string();
            let words: BTreeSet<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
            for m in &self.0 { if words.contains(m.as_str()) && !inner.0.contains(m) { self.1.insert(m.clone()); } }
        }
    }
    impl<'a> Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) { self.body(&l.body, None); syn::visit::visit_expr_for_loop(self, l); }
        fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) { self.body(&l.body, Some(&l.cond)); syn::visit::visit_expr_while(self, l); }
        fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) { self.body(&l.body, None); syn::visit::visit_expr_loop(self, l); }
    }
    let mut m = Muts(BTreeSet::new()); m.visit_block(&f.block);
    let mut v = V(m.0, BTreeSet::new()); v.visit_block(&f.block);
    v.1
}
/// N24: alpha-renaming of locals whose name a contract also uses
pub fn rename_locals(f: &FnSrc, names: &BTreeSet<String>) -> Option<FnSrc> {
    use proc_macro2::{Group, Ident, TokenStream, TokenTree};
    fn go(t: TokenStream, names: &BTreeSet<String>) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut out = vec![];
        for (i, x) in v.iter().enumerate() {
            let dot = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.') && !(i > 1 && matches!(&v[i - 2], TokenTree::Punct(p) if p.as_char() == '.'));
            out.push(match x {
                TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), go(g.stream(), names)); h.set_span(g.span()); TokenTree::Group(h) }
                TokenTree::Ident(id) if names.contains(&id.to_string()) && !dot => TokenTree::Ident(Ident::new(&format!("{}_l", id), id.span())),
                y => y.clone(),
            });
        }
        out.into_iter().collect()
    }
    let b: Block = syn::parse2(go(f.block.to_token_stream(), names)).ok()?;
    Some(FnSrc { block: b, ..f.clone() })
}

/// N2..N4 loop desugaring, ordinals and hook placement
struct Hooks<'a> {
    a: &'a ann::FnAnn,
    used: BTreeSet<String>,
    used_loops: BTreeSet<usize>,
    texts: Vec<String>,
    closures: usize, loops: usize,
    ifs: usize,
    arms: usize,
    rets: usize,
    lets: BTreeMap<String, usize>,
    callc: BTreeMap<String, usize>,
    lost: Vec<String>,
    sites: BTreeMap<String, Vec<String>>,
}

impl<'a> Hooks<'a> {
    fn site(&mut self, kind: &str, text: String) { self.sites.entry(kind.to_string()).or_default().push(text); }
    fn text(&mut self, t: String) -> usize { self.texts.push(t); self.texts.len() - 1 }
    fn hook(&mut self, key: &str, lp: Option<usize>) -> Option<Stmt> {
        let t = self.a.hooks.get(key)?.clone();
        self.used.insert(key.to_string());
        let t = match lp { Some(k) => crate::print::loop_subst(&t, k), None => t };
        let id = self.text(t);
        Some(parse_quote!(vx_hook!(#id);))
    }
    fn wrap_end(&mut self, b: &mut Block, key: &str, lp: Option<usize>) {
        if let Some(h) = self.hook(key, lp) {
            let is_tail = matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)));
            let is_macro_tail = matches!(b.stmts.last(), Some(Stmt::Macro(m)) if m.semi_token.is_none());
            if is_tail {
                let Some(Stmt::Expr(e, None)) = b.stmts.pop() else { unreachable!() };
                b.stmts.push(parse_quote!(let vx_r = #e;));
                b.stmts.push(h);
                b.stmts.push(Stmt::Expr(parse_quote!(vx_r), None));
            } else if is_macro_tail { self.lost.push(format!("{}: macro tail", key)); }
            else { b.stmts.push(h); }
        }
    }
    fn loop_body(&mut self, k: usize, b: &mut Block, pre: Vec<Stmt>) {
        self.used_loops.insert(k);
        self.visit_block_mut(b);
        self.wrap_end(b, &format!("loop {} end", k), Some(k));
        let mut st: Vec<Stmt> = vec![parse_quote!(vx_inv!(#k);)];
        if let Some(h) = self.hook(&format!("loop {} top", k), Some(k)) { st.push(h); }
        st.extend(pre);
        if let Some(h) = self.hook(&format!("loop {} begin", k), Some(k)) { st.push(h); }
        st.extend(std::mem::take(&mut b.stmts));
        b.stmts = st;
    }
    fn around(&mut self, k: usize, e: Expr, setup: Vec<Stmt>, ret: Option<Expr>) -> Expr {
        let before = self.hook(&format!("loop {} before", k), Some(k));
        let after = self.hook(&format!("loop {} after", k), Some(k));
        if setup.is_empty() && before.is_none() && after.is_none() && ret.is_none() { return e; }
        let mut st = setup;
        st.extend(before);
        st.push(Stmt::Expr(e, None));
        st.extend(after);
        if let Some(r) = ret { st.push(Stmt::Expr(r, None)); }
        parse_quote!({ #(#st)* })
    }
    fn range_parts(e: &Expr) -> Option<(Expr, Expr, bool)> {
        match e {
            Expr::Paren(p) => Self::range_parts(&p.expr),
            Expr::Range(r) => {
                let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                Some(((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone(), incl))
            }
            _ => None,
        }
    }
    /// source of iteration -> (setup, condition, per-iteration statements)
    fn source(&mut self, k: usize, it: &Expr, pat: &Pat) -> Option<(Vec<Stmt>, Expr, Vec<Stmt>, Option<(String, Expr)>)> {
        let c = format_ident!("vx_c{}", k); let en = format_ident!("vx_e{}", k);
        let strip = |e: &Expr| -> Expr { let mut x = e.clone(); while let Expr::Paren(p) = x { x = *p.expr; } x };
        let it = strip(it);
        if let Some((lo, hi, incl)) = Self::range_parts(&it) {
            let setup: Vec<Stmt> = vec![parse_quote!(let mut #c = #lo;), parse_quote!(let #en = #hi;)];
            if incl {
                // a..=b : stop flag instead of b + 1
                let d = format_ident!("vx_d{}", k);
                let setup2: Vec<Stmt> = vec![setup[0].clone(), setup[1].clone(), parse_quote!(let mut #d = #c <= #en;)];
                return Some((setup2, parse_quote!(#d), vec![parse_quote!(let #pat = #c;), parse_quote!(if #c < #en { #c = #c + 1; } else { #d = false; })], None));
            }
            return Some((setup, parse_quote!(#c < #en), vec![parse_quote!(let #pat = #c;), parse_quote!(#c = #c + 1;)], None));
        }
        if let Expr::MethodCall(m) = &it {
            let name = m.method.to_string();
            if name == "rev" && m.args.is_empty() {
                if let Some((lo, hi, false)) = Self::range_parts(&m.receiver) {
                    return Some((vec![parse_quote!(let #en = #lo;), parse_quote!(let mut #c = #hi;)], parse_quote!(#en < #c), vec![parse_quote!(#c = #c - 1;), parse_quote!(let #pat = #c;)], None));
                }
                if let Expr::MethodCall(m2) = &*m.receiver {
                    let x = &m2.receiver;
                    if m2.method == "iter" {
                        return Some((vec![parse_quote!(let mut #c = #x.len();)], parse_quote!(#c > 0), vec![parse_quote!(#c = #c - 1;), parse_quote!(let #pat = &#x[#c];)], None));
                    }
                    if m2.method == "iter_mut" {
                        let Pat::Ident(pi) = pat else { return None };
                        return Some((vec![parse_quote!(let mut #c = #x.len();)], parse_quote!(#c > 0), vec![parse_quote!(#c = #c - 1;)], Some((pi.ident.to_string(), parse_quote!(#x[#c])))));
                    }
                }
            }
            if name == "iter" && m.args.is_empty() {
                let x = &m.receiver;
                return Some((vec![parse_quote!(let mut #c: usize = 0;), parse_quote!(let #en: usize = #x.len();)], parse_quote!(#c < #en), vec![parse_quote!(let #pat = &#x[#c];), parse_quote!(#c = #c + 1;)], None));
            }
            if name == "iter_mut" && m.args.is_empty() {
                let x = &m.receiver;
                let Pat::Ident(pi) = pat else { return None };
                let ix = format_ident!("vx_i{}", k);
                return Some((vec![parse_quote!(let mut #c: usize = 0;), parse_quote!(let #en: usize = #x.len();)], parse_quote!(#c < #en), vec![parse_quote!(let #ix = #c;), parse_quote!(#c = #c + 1;)], Some((pi.ident.to_string(), parse_quote!(#x[#ix])))));
            }
        }
        if let Expr::Reference(r) = &it {
            let x = &r.expr;
            if r.mutability.is_none() && is_place(x) {
                return Some((vec![parse_quote!(let mut #c: usize = 0;), parse_quote!(let #en: usize = #x.len();)], parse_quote!(#c < #en), vec![parse_quote!(let #pat = &#x[#c];), parse_quote!(#c = #c + 1;)], None));
            }
        }
        if let Some(ra) = Ra::parse(&it, k) {
            let mut setup = ra.setup(k);
            let ra = ra.owned(k);
            let len = ra.len();
            setup.push(parse_quote!(let mut #c: usize = 0;));
            setup.push(parse_quote!(let #en: usize = #len;));
            let mut pre = vec![];
            let mut sub = None;
            ra.bind(pat, parse_quote!(#c), k, &mut pre, &mut sub)?;
            // `#c` advances at the end of the bindings, which only mention its old value
            let ix = format_ident!("vx_k{}", k);
            let mut all: Vec<Stmt> = vec![];
            if let Some((n, to)) = sub.take() {
                // the index is evaluated once, before `#c` advances
                let Expr::Index(x) = to else { return None };
                let (b, i) = (&x.expr, &x.index);
                all.push(parse_quote!(let #ix = #i;));
                sub = Some((n, parse_quote!(#b[#ix])));
            }
            all.extend(pre);
            all.push(parse_quote!(#c = #c + 1;));
            return Some((setup, parse_quote!(#c < #en), all, sub));
        }
        None
    }
}

/// random-access view of an iterator expression: a length and the element at an index
enum Ra { Range(Expr, Expr), Slice(Expr), SliceMut(Expr), Take(Expr), Chars(Expr), Rev(Box<Ra>), Enum(Box<Ra>), Chain(Box<Ra>, Box<Ra>) }
impl Ra {
    fn parse(e: &Expr, k: usize) -> Option<Ra> {
        match e {
            Expr::Paren(p) => Ra::parse(&p.expr, k),
            Expr::Range(r) => {
                if matches!(r.limits, syn::RangeLimits::Closed(_)) { return None; }
                Some(Ra::Range((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone()))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("rev", 0) => Some(Ra::Rev(Box::new(Ra::parse(&m.receiver, k)?))),
                    ("enumerate", 0) => Some(Ra::Enum(Box::new(Ra::parse(&m.receiver, k)?))),
                    ("clone", 0) => Ra::parse(&m.receiver, k),
                    ("chain", 1) => Some(Ra::Chain(Box::new(Ra::parse(&m.receiver, k)?), Box::new(Ra::parse(&m.args[0], k)?))),
                    ("iter", 0) => Some(Ra::Slice((*m.receiver).clone())),
                    ("iter_mut", 0) => Some(Ra::SliceMut((*m.receiver).clone())),
                    ("into_iter", 0) => Some(Ra::Take((*m.receiver).clone())),
                    ("chars", 0) => Some(Ra::Chars((*m.receiver).clone())),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn setup(&self, k: usize) -> Vec<Stmt> {
        let v = format_ident!("vx_s{}", k);
        match self {
            Ra::Rev(a) | Ra::Enum(a) => a.setup(k),
            Ra::Take(x) => if path_ident(x).is_some() { vec![] } else { vec![parse_quote!(let #v = #x;)] },
            Ra::Chars(x) => vec![parse_quote!(let #v = vx_chars(&#x);)],
            _ => vec![],
        }
    }
    fn len(&self) -> Expr {
        match self {
            Ra::Range(a, b) => match lit_u128(a) { Some((0, _)) => parse_quote!(#b), _ => parse_quote!(vx_range_len(#a, #b)) },
            Ra::Slice(x) | Ra::SliceMut(x) => parse_quote!(#x.len()),
            Ra::Take(x) => parse_quote!(#x.len()),
            Ra::Chars(x) => parse_quote!(#x.len()),
            Ra::Rev(a) | Ra::Enum(a) => a.len(),
            Ra::Chain(a, b) => { let (x, y) = (a.len(), b.len()); parse_quote!(#x + #y) }
        }
    }
    fn at(&self, i: Expr) -> Option<Expr> {
        Some(match self {
            Ra::Range(a, _) => match lit_u128(a) { Some((0, _)) => i, _ => parse_quote!(#a + (#i)) },
            Ra::Slice(x) => parse_quote!(&#x[#i]),
            Ra::Take(x) => parse_quote!(vx_take(&#x, #i)),
            Ra::Chars(x) => parse_quote!(#x[#i]),
            Ra::SliceMut(_) => return None,
            Ra::Rev(a) => { let n = a.len(); a.at(parse_quote!(#n - 1 - (#i)))? }
            Ra::Enum(a) => { let x = a.at(i.clone())?; parse_quote!((#i, #x)) }
            Ra::Chain(a, b) => { let n = a.len(); let x = a.at(i.clone())?; let y = b.at(parse_quote!(#i - #n))?; parse_quote!(if #i < #n { #x } else { #y }) }
        })
    }
    fn bind(&self, pat: &Pat, i: Expr, k: usize, pre: &mut Vec<Stmt>, sub: &mut Option<(String, Expr)>) -> Option<()> {
        match (self, pat) {
            (Ra::Enum(a), Pat::Tuple(t)) if t.elems.len() == 2 => {
                let p0 = &t.elems[0];
                pre.push(parse_quote!(let #p0 = #i;));
                a.bind(&t.elems[1], i, k, pre, sub)
            }
            (Ra::Rev(a), _) => { let n = a.len(); a.bind(pat, parse_quote!(#n - 1 - (#i)), k, pre, sub) }
            (Ra::SliceMut(x), Pat::Ident(pi)) => { *sub = Some((pi.ident.to_string(), parse_quote!(#x[#i]))); Some(()) }
            _ => { let x = self.at(i)?; pre.push(parse_quote!(let #pat = #x;)); Some(()) }
        }
    }
    /// the owned or collected source lives in vx_s{k}
    fn owned(self, k: usize) -> Ra {
        let v = format_ident!("vx_s{}", k);
        match self {
            Ra::Take(x) => if path_ident(&x).is_some() { Ra::Take(x) } else { Ra::Take(parse_quote!(#v)) }, Ra::Chars(_) => Ra::Chars(parse_quote!(#v)),
            Ra::Rev(a) => Ra::Rev(Box::new(a.owned(k))), Ra::Enum(a) => Ra::Enum(Box::new(a.owned(k))),
            x => x,
        }
    }
}

/// N13: a parameter `k: T` with `T: Into<R>` is instantiated at T = R, where `k.into()` is `k`
pub fn into_params(sig: &syn::Signature) -> BTreeMap<String, syn::Type> {
    let mut m = BTreeMap::new();
    for g in &sig.generics.params {
        if let syn::GenericParam::Type(t) = g {
            for b in &t.bounds {
                if let syn::TypeParamBound::Trait(tb) = b {
                    let seg = tb.path.segments.last().unwrap();
                    if seg.ident == "Into" { if let syn::PathArguments::AngleBracketed(a) = &seg.arguments { if let Some(syn::GenericArgument::Type(ty)) = a.args.first() { m.insert(t.ident.to_string(), ty.clone()); } } }
                }
            }
        }
    }
    m
}
pub struct TySubst(pub BTreeMap<String, syn::Type>);
impl VisitMut for TySubst {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t { if let Some(i) = p.path.get_ident() { if let Some(n) = self.0.get(&i.to_string()) { *t = n.clone(); return; } } }
        visit_mut::visit_type_mut(self, t);
    }
}
pub fn instantiate(f: &FnSrc) -> FnSrc {
    let m = into_params(&f.sig);
    if m.is_empty() { return f.clone(); }
    let mut f = f.clone();
    let keys: BTreeSet<String> = m.keys().cloned().collect();
    let mut ts = TySubst(m);
    ts.visit_signature_mut(&mut f.sig);
    f.sig.generics.params = f.sig.generics.params.iter().filter(|g| !matches!(g, syn::GenericParam::Type(t) if keys.contains(&t.ident.to_string()))).cloned().collect();
    if f.sig.generics.params.is_empty() { f.sig.generics = Default::default(); }
    struct Into_;
    impl VisitMut for Into_ {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::MethodCall(c) = e { if c.method == "into" && c.args.is_empty() { if let Some(_n) = path_ident(&c.receiver) { *e = (*c.receiver).clone(); } } }
        }
    }
    Into_.visit_block_mut(&mut f.block);
    f
}

/// N14: `let it = <range / chain of ranges>` used only as an iterator is substituted
struct IterLets;
impl VisitMut for IterLets {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = if let Stmt::Local(l) = &b.stmts[i] {
                match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(init)) if p.mutability.is_none() && matches!(Ra::parse(&init.expr, 0), Some(Ra::Chain(..)) | Some(Ra::Range(..))) && simple_range(&init.expr) => Some((p.ident.to_string(), (*init.expr).clone())),
                    _ => None,
                }
            } else { None };
            if let Some((n, e)) = hit {
                let e: Expr = parse_quote!((#e));
                let mut s = Subst { m: BTreeMap::from([(n, e)]), deref: BTreeSet::new() };
                for st in b.stmts[i + 1..].iter_mut() { s.visit_stmt_mut(st); }
                b.stmts.remove(i);
            } else { i += 1; }
        }
    }
}
fn simple_range(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => simple_range(&p.expr),
        Expr::Range(r) => r.start.as_ref().map_or(true, |x| simple_range(x)) && r.end.as_ref().map_or(true, |x| simple_range(x)),
        Expr::MethodCall(m) => m.method == "chain" && simple_range(&m.receiver) && m.args.iter().all(simple_range),
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple_range(&f.base),
        Expr::Binary(b) => simple_range(&b.left) && simple_range(&b.right),
        _ => false,
    }
}

/// a `let` is named by the first variable its pattern binds
fn first_name(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(p) => Some(p.ident.to_string()),
        Pat::Type(t) => first_name(&t.pat),
        Pat::Tuple(t) => t.elems.iter().find_map(first_name),
        _ => None,
    }
}
impl<'a> VisitMut for Hooks<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            self.visit_stmt_mut(&mut s);
            let mut before = None; let mut after = None;
            match &s {
                Stmt::Local(l) => {
                    let id = first_name(&l.pat);
                    if let Some(id) = id {
                        self.site(&format!("let {}", id), l.init.as_ref().map(|i| i.expr.to_token_stream().to_string()).unwrap_or_default());
                        let n = *self.lets.entry(id.clone()).and_modify(|x| *x += 1).or_insert(0);
                        let suffix = if n == 0 { String::new() } else { format!("#{}", n) };
                        before = self.hook(&format!("before let {}{}", id, suffix), None);
                        after = self.hook(&format!("after let {}{}", id, suffix), None);
                    }
                }
                Stmt::Expr(e, Some(_)) => {
                    let rhs = match e { Expr::Assign(x) => (*x.right).clone(), x => x.clone() };
                    let nm = match &rhs {
                        Expr::MethodCall(m) => Some(m.method.to_string()),
                        Expr::Call(c) => match &*c.func { Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()), _ => None },
                        _ => None,
                    };
                    let nm = nm.map(|n| format!("call {}", n));
                    let am = match e {
                        Expr::Assign(x) => Some(format!("assign {}", x.left.to_token_stream().to_string().replace(' ', ""))),
                        Expr::Binary(x) => match x.op {
                            syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_) | syn::BinOp::DivAssign(_) | syn::BinOp::RemAssign(_) | syn::BinOp::ShlAssign(_) | syn::BinOp::ShrAssign(_)
                                => Some(format!("assign {}", x.left.to_token_stream().to_string().replace(' ', ""))),
                            _ => None,
                        },
                        _ => None,
                    };
                    for key in [nm, am].into_iter().flatten() {
                        self.site(&key, e.to_token_stream().to_string());
                        let n = *self.callc.entry(key.clone()).and_modify(|x| *x += 1).or_insert(0);
                        let suffix = if n == 0 { String::new() } else { format!("#{}", n) };
                        if before.is_none() { before = self.hook(&format!("before {}{}", key, suffix), None); }
                        if after.is_none() { after = self.hook(&format!("after {}{}", key, suffix), None); }
                    }
                }
                _ => {}
            }
            b.stmts.extend(before);
            b.stmts.push(s);
            b.stmts.extend(after);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // map/collect
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" {
                if let Expr::MethodCall(mp) = &*m.receiver {
                    if mp.method == "map" && mp.args.len() == 1 {
                        if let Expr::Closure(cl) = &mp.args[0] {
                            let k = self.loops;
                            let pat = match &cl.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                            if let Some((mut setup, cond, pre, sub)) = self.source(k, &mp.receiver, &pat) {
                                self.loops += 1;
                                let h = format!("collect {}", mp.receiver.to_token_stream());
                                self.site("loop", h);
                                let v = format_ident!("vx_v{}", k);
                                let mut body_e = (*cl.body).clone();
                                if let Some((n, to)) = sub { let mut s = Subst { m: BTreeMap::from([(n.clone(), to)]), deref: BTreeSet::from([n]) }; s.visit_expr_mut(&mut body_e); }
                                let mut body: Block = parse_quote!({ #v.push(#body_e); });
                                self.loop_body(k, &mut body, pre);
                                setup.push(parse_quote!(let mut #v = Vec::new();));
                                let w: Expr = Expr::While(syn::ExprWhile { attrs: vec![], label: None, while_token: Default::default(), cond: Box::new(cond), body });
                                *e = self.around(k, w, setup, Some(parse_quote!(#v)));
                                return;
                            }
                        }
                    }
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let k = self.loops;
                let it = (*f.expr).clone();
                self.site("loop", format!("for {} in {}", f.pat.to_token_stream(), it.to_token_stream()));
                match self.source(k, &it, &f.pat) {
                    Some((setup, cond, pre, sub)) => {
                        self.loops += 1;
                        let mut body = f.body.clone();
                        if let Some((n, to)) = sub { let mut s = Subst { m: BTreeMap::from([(n.clone(), to)]), deref: BTreeSet::from([n]) }; s.visit_block_mut(&mut body); }
                        self.loop_body(k, &mut body, pre);
                        let w = Expr::While(syn::ExprWhile { attrs: vec![], label: f.label.clone(), while_token: Default::default(), cond: Box::new(cond), body });
                        *e = self.around(k, w, setup, None);
                    }
                    None => { self.lost.push(format!("for loop over {}", it.to_token_stream())); self.loops += 1; }
                }
            }
            Expr::While(w) => {
                let k = self.loops; self.loops += 1;
                self.site("loop", format!("while {}", w.cond.to_token_stream()));
                self.visit_expr_mut(&mut w.cond);
                let mut body = w.body.clone();
                self.loop_body(k, &mut body, vec![]);
                w.body = body;
                let we = e.clone();
                *e = self.around(k, we, vec![], None);
            }
            Expr::Loop(l) => {
                let k = self.loops; self.loops += 1;
                self.site("loop", "loop".into());
                let mut body = l.body.clone();
                self.loop_body(k, &mut body, vec![]);
                l.body = body;
                let we = e.clone();
                *e = self.around(k, we, vec![], None);
            }
            Expr::If(i) => {
                let k = self.ifs; self.ifs += 1;
                self.site("if", i.cond.to_token_stream().to_string());
                self.visit_expr_mut(&mut i.cond);
                self.visit_block_mut(&mut i.then_branch);
                self.wrap_end(&mut i.then_branch, &format!("then {} end", k), None);
                if let Some(h) = self.hook(&format!("then {}", k), None) { i.then_branch.stmts.insert(0, h); }
                if let Some((_, el)) = &mut i.else_branch {
                    if let Expr::Block(eb) = &mut **el {
                        self.visit_block_mut(&mut eb.block);
                        self.wrap_end(&mut eb.block, &format!("else {} end", k), None);
                        if let Some(h) = self.hook(&format!("else {}", k), None) { eb.block.stmts.insert(0, h); }
                    } else { self.visit_expr_mut(el); }
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    let k = self.arms; self.arms += 1;
                    self.site("arm", format!("{} => {}", a.pat.to_token_stream(), a.body.to_token_stream()));
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
                    self.visit_expr_mut(&mut a.body);
                    let (kb, ke) = (format!("arm {}", k), format!("arm {} end", k));
                    if self.a.hooks.contains_key(&kb) || self.a.hooks.contains_key(&ke) {
                        let mut blk: Block = match &*a.body { Expr::Block(b) => b.block.clone(), x => { let x = x.clone(); parse_quote!({ #x }) } };
                        self.wrap_end(&mut blk, &ke, None);
                        if let Some(h) = self.hook(&kb, None) { blk.stmts.insert(0, h); }
                        a.body = Box::new(parse_quote!(#blk));
                        a.comma = None;
                    }
                }
            }
            Expr::Return(r) => {
                let k = self.rets; self.rets += 1;
                self.site("return", r.expr.to_token_stream().to_string());
                if let Some(x) = &mut r.expr { self.visit_expr_mut(x); }
                let key = format!("return {}", k);
                let h = if self.a.hooks.contains_key(&key) { self.hook(&key, None) } else { None };
                if let Some(h) = h {
                    *e = match &r.expr { Some(x) => parse_quote!({ let vx_r = #x; #h return vx_r; }), None => parse_quote!({ #h return; }) };
                }
            }
            Expr::Closure(c) => {
                let k = self.closures; self.closures += 1;
                self.site("closure", c.body.to_token_stream().to_string());
                self.visit_expr_mut(&mut c.body);
                let pre = format!("closure {} ", k);
                let key = self.a.hooks.keys().find(|x| x.starts_with(&pre)).cloned();
                // @closure k (T, U) -> (z: R): the types of the parameters, the result and the contract
                let parsed = key.as_ref().and_then(|key| {
                    let (tys, ret) = key[pre.len()..].split_once("->")?;
                    let t: syn::Type = syn::parse_str(tys.trim()).ok()?;
                    let tys: Vec<syn::Type> = match t { syn::Type::Tuple(t) => t.elems.into_iter().collect(), syn::Type::Paren(p) => vec![*p.elem], _ => return None };
                    if tys.len() == c.inputs.len() { Some((tys, ret.trim().to_string())) } else { None }
                });
                match (key, parsed) {
                    (Some(key), Some((tys, ret))) => {
                        for (i, (p, t)) in c.inputs.iter_mut().zip(tys).enumerate() { let q = match &*p { Pat::Type(x) => (*x.pat).clone(), x => x.clone() }; let q = if let Pat::Wild(_) = q { let id = format_ident!("vx_wild{}", i); parse_quote!(#id) } else { q }; *p = Pat::Type(syn::PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(t) }); }
                        let text = format!("-> {}\n{}", ret, self.a.hooks[&key]);
                        self.used.insert(key);
                        let id = self.text(text);
                        let b = c.body.clone();
                        c.output = syn::ReturnType::Default;
                        c.body = Box::new(parse_quote!({ vx_clo!(#id); #b }));
                    }
                    _ => self.lost.push("closure without a contract".into()),
                }
            }
            Expr::MethodCall(m) if self.a.hooks.keys().any(|k| k.starts_with(&format!("recv {}", m.method))) => {
                // N19: the receiver of a call is named (`vx_o`) so that a hook can speak of it
                let key = format!("recv {}", m.method);
                self.site(&key, m.to_token_stream().to_string());
                let n = *self.callc.entry(key.clone()).and_modify(|x| *x += 1).or_insert(0);
                let key = if n == 0 { key } else { format!("{}#{}", key, n) };
                visit_mut::visit_expr_mut(self, e);
                let Expr::MethodCall(m) = e else { unreachable!() };
                let m = m.clone();
                if let Some(h) = self.hook(&key, None) {
                    let r = (*m.receiver).clone();
                    *e = if is_place(&r) { let id = self.text(format!("let ghost vx_o = {};", r.to_token_stream())); parse_quote!({ vx_hook!(#id); #h #m }) }
                    else { let mut m2 = m.clone(); m2.receiver = Box::new(parse_quote!(vx_o)); parse_quote!({ let vx_o = #r; #h #m2 }) };
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

pub fn normalise(f: &FnSrc, a: &ann::FnAnn, source: &Source, anns: &ann::Anns) -> Normalised {
    let f = &instantiate(f);
    let mut b = f.block.clone();
    crate::macros::Expand(&source.macros, anns.macro_fns()).visit_block_mut(&mut b);
    DropTest.visit_block_mut(&mut b);
    if f.is_conv() || f.conv_user() { Conv(false).visit_block_mut(&mut b); }
    AssocConst { source, self_ty: f.self_ty.clone() }.visit_block_mut(&mut b);
    let mut inl = Inline { source, anns, depth: 0, done: vec![], self_ty: f.self_ty.clone(), stack: vec![f.key.clone()], uniq: 0 };
    inl.visit_block_mut(&mut b);
    Casts { names: BTreeSet::new() }.visit_block_mut(&mut b);
    BoolOps { names: BTreeSet::new() }.visit_block_mut(&mut b);
    IterLets.visit_block_mut(&mut b);
    let strs = f.sig.inputs.iter().filter_map(|p| match p { syn::FnArg::Typed(t) => match (&*t.pat, &*t.ty) { (Pat::Ident(i), syn::Type::Reference(r)) if r.elem.to_token_stream().to_string() == "str" => Some(i.ident.to_string()), _ => None }, _ => None }).collect();
    Strings { strs }.visit_block_mut(&mut b);
    Simple { uniq: 0 }.visit_block_mut(&mut b);
    let tokens = b.to_token_stream().to_string();
    let called: Vec<String> = crate::calls::called(&b).into_iter().collect();
    let mut ls = Locals(vec![]);
    for p in f.sig.inputs.iter() { if let syn::FnArg::Typed(t) = p { ls.visit_pat(&t.pat); } }
    ls.visit_block(&b);
    let mut mut_params = vec![];
    for p in f.sig.inputs.iter() {
        if let syn::FnArg::Typed(t) = p { if let Pat::Ident(pi) = &*t.pat { if pi.mutability.is_some() { mut_params.push(pi.ident.clone()); } } }
    }
    let mut h = Hooks { a, used: BTreeSet::new(), used_loops: BTreeSet::new(), texts: vec![], loops: 0, closures: 0, ifs: 0, arms: 0, rets: 0, lets: BTreeMap::new(), callc: BTreeMap::new(), lost: vec![], sites: BTreeMap::new() };
    h.visit_block_mut(&mut b);
    h.wrap_end(&mut b, "end", None);
    if let Some(s) = h.hook("begin", None) { b.stmts.insert(0, s); }
    let mut lost = h.lost.clone();
    let mut soft = a.soft.clone();
    for k in a.hooks.keys() { if !h.used.contains(k) { soft.push(format!("anchor `{}` not found", k)); } }
    for k in a.loops.keys() { if !h.used_loops.contains(k) { lost.push(format!("loop {} not found", k)); } }
    for k in &h.used_loops { if !a.loops.contains_key(k) { lost.push(format!("loop {} has no invariant", k)); } }
    Normalised { block: b, mut_params, locals: ls.0, loops: h.loops, lost, soft, sites: h.sites, inlined: inl.done, called, tokens, hook_texts: h.texts }
}
