//! N12: expansion of the crate's own `macro_rules!` (fragments ident, ty, expr, tt, literal; one level of repetition)
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::parse::Parser;
use syn::visit_mut::{self, VisitMut};

#[derive(Clone)]
pub struct Rule { pat: Vec<TokenTree>, body: Vec<TokenTree> }
pub type Macros = BTreeMap<String, Vec<Rule>>;
#[derive(Clone, Debug)]
enum Bind { One(TokenStream), Many(Vec<BTreeMap<String, Bind>>) }

pub fn parse_rules(ts: TokenStream) -> Vec<Rule> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut r = vec![];
    let mut i = 0;
    while i + 3 < t.len() {
        if let (TokenTree::Group(p), TokenTree::Punct(_), TokenTree::Punct(_), TokenTree::Group(b)) = (&t[i], &t[i + 1], &t[i + 2], &t[i + 3]) {
            r.push(Rule { pat: p.stream().into_iter().collect(), body: b.stream().into_iter().collect() });
        } else { return r; }
        i += 4;
        if let Some(TokenTree::Punct(p)) = t.get(i) { if p.as_char() == ';' { i += 1; } }
    }
    r
}

fn frag(kind: &str, input: &mut Vec<TokenTree>) -> Option<TokenStream> {
    if input.is_empty() { return None; }
    if kind == "ident" {
        return if let TokenTree::Ident(_) = &input[0] { Some(input.remove(0).into()) } else { None };
    }
    if kind == "tt" { return Some(input.remove(0).into()); }
    let ts: TokenStream = input.iter().cloned().collect();
    let k = kind.to_string();
    let p = move |i: syn::parse::ParseStream| -> syn::Result<(TokenStream, TokenStream)> {
        let a = match k.as_str() {
            "ty" => i.parse::<syn::Type>()?.to_token_stream(),
            "expr" => i.parse::<syn::Expr>()?.to_token_stream(),
            "literal" => i.parse::<syn::Lit>()?.to_token_stream(),
            "path" => i.parse::<syn::Path>()?.to_token_stream(),
            _ => return Err(i.error("fragment")),
        };
        Ok((a, i.parse::<TokenStream>()?))
    };
    let (a, rest) = p.parse2(ts).ok()?;
    *input = rest.into_iter().collect();
    let a = if kind == "expr" { TokenTree::Group(Group::new(Delimiter::Parenthesis, a)).into() } else { a };
    Some(a)
}

fn do_match(pat: &[TokenTree], input: &mut Vec<TokenTree>, b: &mut BTreeMap<String, Bind>) -> Option<()> {
    let mut i = 0;
    while i < pat.len() {
        if let TokenTree::Punct(p) = &pat[i] { if p.as_char() == '$' {
            match pat.get(i + 1)? {
                TokenTree::Ident(n) => {
                    let TokenTree::Ident(k) = pat.get(i + 3)? else { return None };
                    b.insert(n.to_string(), Bind::One(frag(&k.to_string(), input)?));
                    i += 4; continue;
                }
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut j = i + 2;
                    let mut sep = None;
                    let op = loop {
                        let TokenTree::Punct(p) = pat.get(j)? else { return None };
                        if matches!(p.as_char(), '*' | '+' | '?') { break p.as_char(); }
                        sep = Some(p.as_char()); j += 1;
                    };
                    let mut many = vec![];
                    loop {
                        let mut tmp = input.clone();
                        if !many.is_empty() { if let Some(s) = sep { match tmp.first() { Some(TokenTree::Punct(p)) if p.as_char() == s => { tmp.remove(0); } _ => break } } }
                        if tmp.is_empty() { break; }
                        let mut bb = BTreeMap::new();
                        if do_match(&inner, &mut tmp, &mut bb).is_none() { break; }
                        *input = tmp; many.push(bb);
                        if op == '?' { break; }
                    }
                    if op == '+' && many.is_empty() { return None; }
                    b.insert(format!("#{}", i), Bind::Many(many.clone()));
                    // reachable by the names used inside
                    for n in names(&inner) { b.insert(n, Bind::Many(many.clone())); }
                    i = j + 1; continue;
                }
                _ => return None,
            }
        } }
        let x = if input.is_empty() { return None } else { input.remove(0) };
        match (&pat[i], &x) {
            (TokenTree::Group(a), TokenTree::Group(c)) if a.delimiter() == c.delimiter() => {
                let p2: Vec<TokenTree> = a.stream().into_iter().collect();
                let mut i2: Vec<TokenTree> = c.stream().into_iter().collect();
                do_match(&p2, &mut i2, b)?;
                if !i2.is_empty() { return None; }
            }
            (a, c) => if a.to_string() != c.to_string() { return None; },
        }
        i += 1;
    }
    Some(())
}

fn names(t: &[TokenTree]) -> Vec<String> {
    let mut r = vec![];
    for (i, x) in t.iter().enumerate() {
        if let TokenTree::Punct(p) = x { if p.as_char() == '$' { if let Some(TokenTree::Ident(n)) = t.get(i + 1) { r.push(n.to_string()); } } }
        if let TokenTree::Group(g) = x { r.extend(names(&g.stream().into_iter().collect::<Vec<_>>())); }
    }
    r
}

fn transcribe(body: &[TokenTree], b: &BTreeMap<String, Bind>) -> Option<TokenStream> {
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < body.len() {
        match &body[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match body.get(i + 1)? {
                TokenTree::Ident(n) if n == "crate" => { out.push(body[i + 1].clone()); i += 2; continue; }
                TokenTree::Ident(n) => {
                    match b.get(&n.to_string())? { Bind::One(t) => out.extend(t.clone()), _ => return None }
                    i += 2; continue;
                }
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut j = i + 2;
                    let mut sep: Option<TokenTree> = None;
                    loop {
                        let TokenTree::Punct(p) = body.get(j)? else { return None };
                        if matches!(p.as_char(), '*' | '+' | '?') { break; }
                        sep = Some(body[j].clone()); j += 1;
                    }
                    let many = names(&inner).into_iter().find_map(|n| match b.get(&n) { Some(Bind::Many(m)) => Some(m.clone()), _ => None })?;
                    for (x, m) in many.iter().enumerate() {
                        if x > 0 { if let Some(s) = &sep { out.push(s.clone()); } }
                        let mut bb = b.clone(); bb.extend(m.clone());
                        out.extend(transcribe(&inner, &bb)?);
                    }
                    i = j + 1; continue;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                out.push(TokenTree::Group(Group::new(g.delimiter(), transcribe(&inner, b)?)));
            }
            x => out.push(x.clone()),
        }
        i += 1;
    }
    Some(out.into_iter().collect())
}

pub fn expand(m: &Macros, name: &str, ts: TokenStream) -> Option<TokenStream> {
    for r in m.get(name)? {
        let mut input: Vec<TokenTree> = ts.clone().into_iter().collect();
        let mut b = BTreeMap::new();
        if do_match(&r.pat, &mut input, &mut b).is_some() && input.is_empty() { return transcribe(&r.body, &b); }
    }
    None
}

/// N18: an arm `([tokens,] $a: ident, $b: ident, ..)` of an expression macro is a function of its arguments; its name carries the leading tokens and the arity
fn arm_shape(r: &Rule) -> Option<(String, Vec<String>)> {
    let mut tag = String::new();
    let mut ps = vec![];
    let mut i = 0;
    while i < r.pat.len() {
        match &r.pat[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let (TokenTree::Ident(n), TokenTree::Ident(k)) = (r.pat.get(i + 1)?, r.pat.get(i + 3)?) else { return None };
                if k != "ident" { return None; }
                ps.push(n.to_string()); i += 4;
            }
            TokenTree::Punct(p) if p.as_char() == ',' => i += 1,
            TokenTree::Punct(p) if p.as_char() == '-' && ps.is_empty() => { tag.push('m'); i += 1; }
            TokenTree::Ident(n) if ps.is_empty() => { tag.push_str(&n.to_string()); i += 1; }
            _ => return None,
        }
    }
    Some((format!("{}{}", tag, ps.len()), ps))
}
/// the arms as (function name, parameters, body)
pub fn arm_fns(m: &Macros) -> Vec<(String, Vec<String>, TokenStream)> {
    let mut out = vec![];
    for (n, rs) in m { for r in rs {
        if let Some((t, ps)) = arm_shape(r) {
            let b: BTreeMap<String, Bind> = ps.iter().map(|p| { let id = proc_macro2::Ident::new(p, proc_macro2::Span::call_site()); (p.clone(), Bind::One(id.to_token_stream())) }).collect();
            if let Some(body) = transcribe(&r.body, &b) { out.push((format!("{}_{}", n, t), ps, body)); }
        }
    } }
    out
}
fn arm_call(m: &Macros, name: &str, ts: TokenStream, with: &std::collections::BTreeSet<String>) -> Option<TokenStream> {
    for r in m.get(name)? {
        let mut input: Vec<TokenTree> = ts.clone().into_iter().collect();
        let mut b = BTreeMap::new();
        if do_match(&r.pat, &mut input, &mut b).is_some() && input.is_empty() {
            let (t, ps) = arm_shape(r)?;
            let f = format!("{}_{}", name, t);
            if !with.contains(&f) { return None; }
            let id = proc_macro2::Ident::new(&f, proc_macro2::Span::call_site());
            let args: Vec<TokenStream> = ps.iter().map(|p| match &b[p] { Bind::One(t) => t.clone(), _ => TokenStream::new() }).collect();
            return Some(quote::quote!(#id(#(#args),*)));
        }
    }
    None
}

pub struct Expand<'a>(pub &'a Macros, pub std::collections::BTreeSet<String>);
impl<'a> Expand<'a> {
    fn expr(&self, mac: &syn::Macro) -> Option<syn::Expr> {
        let n = mac.path.segments.last()?.ident.to_string();
        if let Some(t) = arm_call(self.0, &n, mac.tokens.clone(), &self.1) { return syn::parse2::<syn::Expr>(t).ok(); }
        let t = expand(self.0, &n, mac.tokens.clone())?;
        syn::parse2::<syn::Expr>(t.clone()).ok().or_else(|| syn::parse2::<syn::Expr>(quote::quote!({ #t })).ok())
    }
}
impl<'a> VisitMut for Expand<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e { if let Some(x) = self.expr(&m.mac) { *e = syn::Expr::Paren(syn::ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) }); } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s { if let Some(x) = self.expr(&m.mac) { *s = syn::Stmt::Expr(x, m.semi_token); } }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if m.path.is_ident("vec") {
            if let Ok(mut args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                m.tokens = quote::quote!(#args);
            }
        }
    }
}
