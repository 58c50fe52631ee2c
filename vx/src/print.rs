use crate::{ann::FnAnn, normalise::Normalised, FnSrc};
use proc_macro2::{Delimiter, TokenStream, TokenTree, Spacing};
use quote::ToTokens;

struct P<'a> { out: String, ind: usize, a: &'a FnAnn, n: &'a Normalised, nosp: bool }

pub fn loop_subst(t: &str, k: usize) -> String {
    let mut s = t.to_string();
    for j in (0..20).rev() {
        s = s.replace(&format!("$c{}", j), &format!("vx_c{}", j)).replace(&format!("$e{}", j), &format!("vx_e{}", j)).replace(&format!("$v{}", j), &format!("vx_v{}", j));
    }
    s.replace("$c", &format!("vx_c{}", k)).replace("$e", &format!("vx_e{}", k)).replace("$v", &format!("vx_v{}", k)).replace("$d", &format!("vx_d{}", k))
}

impl<'a> P<'a> {
    fn nl(&mut self) { self.out.push('\n'); for _ in 0..self.ind { self.out.push_str("    "); } self.nosp = true; }
    fn w(&mut self, s: &str) { if !self.nosp { self.out.push(' '); } self.out.push_str(s); self.nosp = false; }
    fn raw(&mut self, t: &str) { for l in t.lines() { if !l.trim().is_empty() { self.nl(); self.out.push_str(l); } } self.nl(); }
    fn hook_at(toks: &[TokenTree], i: usize, name: &str) -> Option<usize> {
        if let TokenTree::Ident(id) = &toks[i] { if id == name {
            if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (toks.get(i + 1), toks.get(i + 2)) {
                if p.as_char() == '!' { let s = g.stream().to_string(); return s.trim_end_matches("usize").trim().parse().ok(); }
            }
        } }
        None
    }
    fn ts(&mut self, t: TokenStream) {
        let toks: Vec<TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            if let Some(k) = Self::hook_at(&toks, i, "vx_hook") {
                let t = self.n.hook_texts[k].clone();
                self.raw(&loop_subst(&t, 0));
                i += 4; continue;
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let mut skip = 0;
                            if !inner.is_empty() {
                                if let Some(k) = Self::hook_at(&inner, 0, "vx_clo") {
                                    skip = 4;
                                    let t = self.n.hook_texts[k].clone();
                                    self.raw(&t);
                                }
                                if let Some(k) = Self::hook_at(&inner, 0, "vx_inv") {
                                    skip = 4;
                                    let t = self.a.loops.get(&k).cloned().unwrap_or_default();
                                    self.raw(&loop_subst(&t, k));
                                }
                            }
                            self.w("{"); self.ind += 1; self.nl();
                            self.ts(inner.into_iter().skip(skip).collect());
                            self.ind -= 1; self.nl(); self.out.push('}'); self.nosp = false;
                            // newline after a block unless followed by else / . / , / ) etc.
                            match toks.get(i + 1) {
                                Some(TokenTree::Ident(id)) if id == "else" || id == "as" => {}
                                Some(TokenTree::Punct(p)) if !matches!(p.as_char(), '*' | '&' | '#') => {}
                                None => {}
                                _ => self.nl(),
                            }
                        }
                        Delimiter::Parenthesis => { self.out.push('('); self.nosp = true; self.ts(g.stream()); self.out.push(')'); self.nosp = false; }
                        Delimiter::Bracket => { self.out.push('['); self.nosp = true; self.ts(g.stream()); self.out.push(']'); self.nosp = false; }
                        Delimiter::None => self.ts(g.stream()),
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    match c {
                        ';' => { self.out.push(';'); self.nl(); }
                        ',' => { self.out.push(','); self.nosp = false; }
                        '.' | '?' => { self.out.push(c); self.nosp = true; }
                        ':' if p.spacing() == Spacing::Joint => { self.out.push(':'); self.nosp = true; }
                        ':' => { self.out.push(':'); self.nosp = self.out.ends_with("::"); }
                        _ => { self.w(&c.to_string()); self.nosp = p.spacing() == Spacing::Joint || matches!(c, '&' | '!' | '*'); if matches!(c, '<'|'>') && p.spacing()==Spacing::Alone { self.nosp = false; } }
                    }
                }
                other => { self.w(&other.to_string()); }
            }
            i += 1;
        }
    }
}

pub fn fn_name(f: &FnSrc) -> String {
    match &f.trait_ { None => f.sig.ident.to_string(), Some(_) if f.is_conv() => format!("vx_{}{}", f.sig.ident, if f.unit_err() { "_u" } else { "" }), Some(t) => format!("vx_{}_{}", t.rsplit("::").next().unwrap().to_lowercase(), f.sig.ident) }
}
pub fn emit_fn(f: &FnSrc, a: &FnAnn, n: &Normalised, external: bool) -> String {
    let mut s = String::new();
    s.push_str(&format!("// @SRC {}:{} {}\n", f.file, f.line, f.key));
    let conv = f.is_conv();
    if conv {
        // the contract becomes the two spec functions of the trait
        let u = f.sig.inputs.iter().find_map(|p| match p { syn::FnArg::Typed(t) => Some(t.ty.to_token_stream().to_string()), _ => None }).unwrap_or_default().replace('&', "&'vx ");
        let (pre, post) = a.spec.split_once("ensures").unwrap_or(("", "true"));
        let pre = pre.trim().trim_start_matches("requires").trim().trim_end_matches(',');
        let tr = if f.unit_err() { "u" } else if f.sig.ident == "try_from" { "t" } else { "" };
        let ret = if f.unit_err() { "Result<Self, ()>" } else if f.sig.ident == "try_from" { "Result<Self, ConversionError>" } else { "Self" };
        s.push_str(&format!("open spec fn vx_{}pre(n: {}) -> bool {{ {} }}\nopen spec fn vx_{}rel(n: {}, r: {}) -> bool {{ {} }}\n", tr, u, if pre.is_empty() { "true" } else { pre }, tr, u, ret, post.trim().trim_end_matches(',')));
    }
    if external { s.push_str("#[verifier::external_body]\n"); }
    s.push_str(&a.attrs);
    if !conv { s.push_str("pub "); }
    let gen = f.sig.generics.to_token_stream().to_string();
    // N25: a method of a trait impl is verified under a name of its own
    let name = fn_name(f);
    s.push_str(&format!("fn {}{}(", name, gen));
    let mut ps = vec![];
    for p in f.sig.inputs.iter() {
        match p {
            syn::FnArg::Receiver(r) => ps.push(r.to_token_stream().to_string()),
            syn::FnArg::Typed(t) => {
                let mut t = t.clone(); t.attrs.clear();
                if let syn::Pat::Ident(pi) = &mut *t.pat { pi.mutability = None; }
                ps.push(t.to_token_stream().to_string());
            }
        }
    }
    s.push_str(&ps.join(", "));
    s.push(')');
    if let syn::ReturnType::Type(_, t) = &f.sig.output { s.push_str(&format!(" -> ({}: {})", a.ret, t.to_token_stream())); }
    s.push('\n');
    if !conv { s.push_str(&a.spec); }
    if external { s.push_str("{ unimplemented!() }\n"); return s; }
    let mut p = P { out: String::new(), ind: 1, a, n, nosp: true };
    p.nl();
    if std::env::args().any(|a| a == "--vacuity") { p.w("proof { assert(false); }"); p.nl(); }
    for m in &n.mut_params { p.w(&format!("let mut {} = {};", m, m)); p.nl(); }
    let st = &n.block.stmts;
    let mut t = TokenStream::new();
    for x in st { x.to_tokens(&mut t); }
    p.ts(t);
    s.push('{');
    s.push_str(&p.out);
    s.push_str("\n}\n");
    s
}
