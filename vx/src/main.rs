//! vx: mechanical extraction of functions from /repo/src into one Verus file.
//!
//!   vx gen --src DIR --ann DIR --out FILE --map FILE [--prop ID,..|--all] [--external KEY,..] [--bless FILE] [--baseline FILE]
//!
//! See DESIGN.md for the complete list of the normalisation rules (N1..N9) applied here.
mod ann;
mod normalise;
mod print;
mod calls;
mod macros;

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

#[derive(Clone)]
pub struct FnSrc {
    pub key: String,
    pub self_ty: Option<String>,
    pub trait_: Option<String>, // trait tokens for trait impls
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub file: String,
    pub line: usize,
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote::ToTokens::to_token_stream(&a.meta).to_string().replace(' ', "");
            s == "cfg(test)"
        }
    })
}

fn rs_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = match std::fs::read_dir(dir) { Ok(r) => r.flatten().map(|e| e.path()).collect(), _ => return };
    es.sort();
    for p in es {
        if p.is_dir() { rs_files(&p, out) } else if p.extension().map_or(false, |e| e == "rs") { out.push(p) }
    }
}

pub struct Source {
    pub fns: BTreeMap<String, FnSrc>,
    pub consts: BTreeMap<String, String>,
    /// struct and enum definitions (tokens), compared with the blessed ones by the driver
    pub types: BTreeMap<String, String>,
    pub parse_errors: Vec<String>,
    pub macros: macros::Macros,
}

fn walk(items: &[syn::Item], file: &str, s: &mut Source) {
    for it in items {
        match it {
            syn::Item::Fn(f) if !has_cfg_test(&f.attrs) => {
                let key = f.sig.ident.to_string();
                let fs = FnSrc { key: key.clone(), self_ty: None, trait_: None, sig: f.sig.clone(), block: (*f.block).clone(), file: file.into(), line: f.sig.ident.span().start().line };
                let k = if s.fns.contains_key(&key) { format!("{}@{}", key, file) } else { key };
                s.fns.insert(k.clone(), FnSrc { key: k, ..fs });
            }
            syn::Item::Impl(im) if !has_cfg_test(&im.attrs) => {
                let ty = quote::ToTokens::to_token_stream(&im.self_ty).to_string().replace(' ', "");
                let tr = im.trait_.as_ref().map(|(_, p, _)| quote::ToTokens::to_token_stream(p).to_string().replace(' ', ""));
                let assoc: BTreeMap<String, syn::Type> = im.items.iter().filter_map(|i| match i { syn::ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())), _ => None }).collect();
                for ii in &im.items {
                    if let (syn::ImplItem::Const(c), None) = (ii, &tr) {
                        let mut ex = c.expr.clone();
                        normalise::const_expr(&mut ex);
                        s.consts.insert(format!("{}::{}", ty, c.ident), format!("pub const {}_{}: {} = {};", ty, c.ident, quote::ToTokens::to_token_stream(&c.ty), quote::ToTokens::to_token_stream(&ex)));
                    }
                    if let syn::ImplItem::Fn(f) = ii {
                        if has_cfg_test(&f.attrs) { continue; }
                        let mut f = f.clone();
                        if tr.is_some() { normalise::Assoc(&assoc).visit_impl_item_fn_mut(&mut f); if f.sig.ident == "fmt" { normalise::Fmt.visit_signature_mut(&mut f.sig); } }
                        let key = match &tr {
                            Some(t) => format!("{}::{}::{}", ty, t, f.sig.ident),
                            None => format!("{}::{}", ty, f.sig.ident),
                        };
                        s.fns.insert(key.clone(), FnSrc { key, self_ty: Some(ty.clone()), trait_: tr.clone(), sig: f.sig.clone(), block: f.block.clone(), file: file.into(), line: f.sig.ident.span().start().line });
                    }
                }
            }
            syn::Item::Const(c) if !has_cfg_test(&c.attrs) => {
                let name = c.ident.to_string();
                let ty = quote::ToTokens::to_token_stream(&c.ty).to_string();
                let mut ex = (*c.expr).clone();
                normalise::const_expr(&mut ex);
                let ex = quote::ToTokens::to_token_stream(&ex).to_string();
                s.consts.insert(name.clone(), format!("pub const {}: {} = {};", name, ty, ex));
            }
            syn::Item::Struct(t) if !has_cfg_test(&t.attrs) => {
                let mut t = t.clone();
                t.attrs.retain(|a| a.path().is_ident("derive"));
                for f in t.fields.iter_mut() { f.attrs.clear(); }
                s.types.insert(t.ident.to_string(), quote::ToTokens::to_token_stream(&t).to_string());
            }
            syn::Item::Enum(t) if !has_cfg_test(&t.attrs) => {
                let mut t = t.clone();
                t.attrs.retain(|a| a.path().is_ident("derive"));
                for v in t.variants.iter_mut() { v.attrs.clear(); }
                s.types.insert(t.ident.to_string(), quote::ToTokens::to_token_stream(&t).to_string());
            }
            syn::Item::Mod(m) if !has_cfg_test(&m.attrs) => {
                if let Some((_, items)) = &m.content { walk(items, file, s); }
            }
            syn::Item::Macro(m) if !m.mac.path.is_ident("macro_rules") && !has_cfg_test(&m.attrs) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(t) = macros::expand(&s.macros, &n, m.mac.tokens.clone()) {
                    match syn::parse2::<syn::File>(t.clone()) { Ok(f) => walk(&f.items, file, s), Err(e) => s.parse_errors.push(format!("{}: expansion of {}: {}", file, n, e)) }
                }
            }
            _ => {}
        }
    }
}

fn load(src: &Path) -> Source {
    let mut files = vec![];
    rs_files(src, &mut files);
    let mut s = Source { fns: BTreeMap::new(), consts: BTreeMap::new(), types: BTreeMap::new(), parse_errors: vec![], macros: Default::default() };
    let mut asts = vec![];
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        match syn::parse_file(&text) {
            Ok(ast) => { collect_macros(&ast.items, &mut s); asts.push((ast, f.strip_prefix(src).unwrap().display().to_string())); }
            Err(e) => s.parse_errors.push(format!("{}: {}", f.display(), e)),
        }
    }
    for (ast, f) in &asts { walk(&ast.items, f, &mut s); }
    s
}

fn collect_macros(items: &[syn::Item], s: &mut Source) {
    for it in items {
        match it {
            syn::Item::Macro(m) if m.mac.path.is_ident("macro_rules") && !has_cfg_test(&m.attrs) => { if let Some(id) = &m.ident { s.macros.insert(id.to_string(), macros::parse_rules(m.mac.tokens.clone())); } }
            syn::Item::Mod(m) if !has_cfg_test(&m.attrs) => { if let Some((_, items)) = &m.content { collect_macros(items, s); } }
            _ => {}
        }
    }
}

pub fn layer(key: &str, source: &Source) -> u32 {
    if !key.contains("::") {
        let file = source.fns.get(key).map(|f| f.file.clone()).unwrap_or_default();
        return if file.starts_with("ubigint") { 1 } else if file.starts_with("bigint") { 2 } else if file.starts_with("ratio") { 3 } else if file.contains('/') { 4 } else { 0 };
    }
    let t = key.split("::").next().unwrap_or("");
    match t { "UBigInt" => 1, "BigInt" => 2, "Ratio" => 3, "Matrix" | "Polynomial" | "F192" | "Complex" => 4, _ => if key.contains("::") { 5 } else { 0 } }
}

// of the conversions between other types, the ones that fp192 uses
const F192_CONV: [&str; 5] = ["Ratio::From<u128>::from", "u32::TryFrom<BigInt>::try_from", "u128::TryFrom<BigInt>::try_from", "i32::TryFrom<BigInt>::try_from", "BigInt::From<u128>::from"];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let src = PathBuf::from(get("--src").unwrap_or("/repo/src".into()));
    let annd = PathBuf::from(get("--ann").unwrap_or("/verif/contracts".into()));
    let mut source = load(&src);
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for (k, f) in &source.fns { println!("{} {}:{}", k, f.file, f.line); }
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("lits") {
        // integer literals of non-test code, for the failing-input search
        let mut lits = BTreeSet::new();
        struct V<'a>(&'a mut BTreeSet<u128>);
        impl<'a, 'b> Visit<'b> for V<'a> {
            fn visit_lit_int(&mut self, l: &'b syn::LitInt) { if let Ok(v) = l.base10_parse::<u128>() { self.0.insert(v); } }
        }
        for f in source.fns.values() { V(&mut lits).visit_block(&f.block); }
        for l in lits { println!("{}", l); }
        return;
    }
    let anns = ann::load(&annd);
    for (n, ps, body) in macros::arm_fns(&source.macros) {
        let Some((pt, rt)) = anns.fns.get(&n).and_then(|a| a.macro_ty.clone()) else { continue };
        let sig = format!("fn {}({}) -> {}", n, ps.iter().map(|p| format!("{}: {}", p, pt)).collect::<Vec<_>>().join(", "), rt);
        if let (Ok(sig), Ok(block)) = (syn::parse_str::<syn::Signature>(&sig), syn::parse2::<syn::Block>(quote::quote!({ #body }))) {
            source.fns.insert(n.clone(), FnSrc { key: n, self_ty: None, trait_: None, sig, block, file: "matrix/det.rs".into(), line: 0 });
        }
    }
    let external: BTreeSet<String> = get("--external").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let focus: Option<BTreeSet<String>> = get("--focus").map(|s| s.split(',').map(|x| x.to_string()).collect());
    let noiso: BTreeSet<String> = get("--noiso").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let baseline: serde_json::Value = get("--baseline").and_then(|p| std::fs::read_to_string(p).ok()).and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(serde_json::json!({}));

    // roots
    let mut roots: BTreeSet<String> = BTreeSet::new();
    let all = args.iter().any(|a| a == "--all");
    let props: Vec<String> = get("--prop").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let only: Option<Vec<String>> = get("--fn").map(|s| s.split(',').map(|x| x.to_string()).collect());
    for (k, a) in &anns.fns {
        if let Some(o) = &only { if o.contains(k) { roots.insert(k.clone()); } continue; }
        if all || a.props.iter().any(|p| props.iter().any(|q| p.trim_end_matches('~') == q)) { roots.insert(k.clone()); }
    }

    // closure over annotated callees, and normalised bodies
    let mut by_name: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for k in anns.fns.keys() { by_name.entry(k.rsplit("::").next().unwrap().split('@').next().unwrap().to_string()).or_default().push(k.clone()); }
    let mut emit: BTreeMap<String, Emit> = BTreeMap::new();
    let mut work: Vec<String> = roots.iter().cloned().collect();
    let mut report = serde_json::Map::new();
    while let Some(k) = work.pop() {
        if emit.contains_key(&k) { continue; }
        let a = &anns.fns[&k];
        let Some(f) = source.fns.get(&k) else {
            report.insert(k.clone(), serde_json::json!({"status": "missing", "props": a.props}));
            emit.insert(k.clone(), Emit { text: a.stub.clone().unwrap_or_default(), f: None, lost: vec!["function not found in source".into()], n: None });
            continue;
        };
        let e = process(f, a, external.contains(&k) || focus.as_ref().map_or(false, |f| !f.contains(&k)), &source, &anns, baseline.get(&k), noiso.contains(&k));
        let deps = e.n.as_ref().map(|n| n.called.clone()).unwrap_or_default();
        emit.insert(k.clone(), e);
        for c in deps {
            for cand in by_name.get(&c).into_iter().flatten() {
                if layer(cand, &source) <= layer(&k, &source) && !emit.contains_key(cand) { work.push(cand.clone()); }
            }
        }
        // a conversion may go through any other one
        let user = f.conv_user();
        if (f.is_conv() || user) && source.fns.get(&k).map_or(false, |f| normalise::uses_conv(f)) { for (c, g) in &anns.fns { if source.fns.get(c).map_or(false, |f| f.is_conv()) && (!user || c.contains("F192") || F192_CONV.contains(&c.as_str())) && !emit.contains_key(&g.key) { work.push(c.clone()); } } }
        for c in &a.needs { if anns.fns.contains_key(c) { work.push(c.clone()); } }
    }

    // output
    let mut out = String::new();
    out.push_str("// GENERATED by vx from the current source tree. Do not edit.\n");
    out.push_str(&anns.header);
    out.push_str("\nverus! {\npub mod lem {\n");
    for l in anns.header.lines().filter(|l| l.starts_with("use ")) { out.push_str("pub "); out.push_str(l); out.push('\n'); }
    // the F192 theory is the last part of the prelude and only needed when a function of F192 is in the run
    let f192 = emit.keys().any(|k| k.contains("F192"));
    out.push_str(if f192 { &anns.prelude[..] } else { anns.prelude.split("// ---- 0f_f192").next().unwrap() });
    out.push_str("} // mod lem\npub use lem::*;\n");
    let mut map = serde_json::Map::new();
    for c in &anns.consts {
        match source.consts.get(c) { Some(t) if !f192 && t.contains("F192") => {}, Some(t) => { out.push_str(t); out.push('\n'); }, None => {} }
    }
    let mut convs: Vec<(String, &String)> = vec![];
    let mut groups: BTreeMap<(u32, String), Vec<&String>> = BTreeMap::new();
    for (k, e) in &emit {
        if e.f.is_none() && e.text.is_empty() { continue; }
        if let Some(h) = e.f.as_ref().and_then(|f| f.conv_head()) { convs.push((h, k)); continue; }
        let (ty, tr) = match &e.f { Some(f) => (f.self_ty.clone(), f.trait_.clone()), None => (k.rsplit_once("::").map(|x| x.0.to_string()), None) };
        let head = match (ty, tr) { (Some(t), Some(tr)) => { let _ = tr; format!("impl {}", t) }, (Some(t), None) => format!("impl {}", t), _ => String::new() };
        groups.entry((layer(k, &source), head)).or_default().push(k);
    }
    // modules of at most 12 functions: verus works on modules in parallel
    let mut mods: Vec<Vec<(String, Vec<&String>)>> = vec![];
    for ((_, head), ks) in &groups { for c in ks.chunks(12) { mods.push(vec![(head.clone(), c.to_vec())]); } }
    for c in convs.chunks(24) { mods.push(c.iter().map(|(h, k)| (h.clone(), vec![*k])).collect()); }
    let mut uses = String::new();
    for (mi, parts) in mods.iter().enumerate() {
        out.push_str(&format!("pub mod f{} {{\nuse super::*;\n", mi));
        if parts[0].0.is_empty() { uses.push_str(&format!("pub use f{}::*;\n", mi)); }
        out.push_str("broadcast use g_shift;\n");
        for (head, ks) in parts {
        if !head.is_empty() { out.push_str(&format!("{} {{\n", head)); }
        for k in ks {
            let e = &emit[*k];
            let start = out.matches('\n').count() + 1;
            out.push_str(&e.text);
            out.push('\n');
            let end = out.matches('\n').count();
            let a = &anns.fns[*k];
            let mut j = serde_json::json!({"start": start, "end": end, "props": a.props, "lost": e.lost, "external": external.contains(*k) || a.trusted || !e.lost.is_empty(), "trusted": a.trusted, "root": roots.contains(*k)});
            if let Some(f) = &e.f { j["name"] = print::fn_name(f).into(); j["file"] = f.file.clone().into(); j["line"] = f.line.into(); }
            if let Some(n) = &e.n {
                j["locals"] = serde_json::json!(n.locals); j["loops"] = n.loops.into(); j["inlined"] = serde_json::json!(n.inlined);
                j["called"] = serde_json::json!(n.called);
                j["soft"] = serde_json::json!(n.soft);
                j["tokens"] = n.tokens.clone().into();
                j["changed"] = baseline.get(*k).map_or(true, |b| b["tokens"].as_str() != Some(&n.tokens)).into();
            }
            map.insert((*k).clone(), j);
        }
        if !head.is_empty() { out.push_str("}\n"); }
        }
        out.push_str("}\n");
    }
    out.push_str(&uses);
    out.push_str("} // verus!\nfn main() {}\n");
    if let Some(p) = get("--out") { std::fs::write(p, out).unwrap(); } else { println!("{}", out); }
    let mut top = serde_json::Map::new();
    top.insert("functions".into(), map.into());
    top.insert("missing".into(), report.into());
    top.insert("types".into(), serde_json::json!(source.types));
    top.insert("parse_errors".into(), serde_json::json!(source.parse_errors));
    if let Some(p) = get("--map") { std::fs::write(p, serde_json::to_string_pretty(&top).unwrap()).unwrap(); }
    if let Some(p) = get("--bless") {
        let mut b = serde_json::Map::new();
        for (k, e) in &emit {
            if let Some(n) = &e.n { b.insert(k.clone(), serde_json::json!({"locals": n.locals, "loops": n.loops, "sites": n.sites, "tokens": n.tokens})); }
        }
        b.insert("#types".into(), serde_json::json!(source.types));
        std::fs::write(p, serde_json::to_string_pretty(&serde_json::Value::Object(b)).unwrap()).unwrap();
    }
}

impl FnSrc {
    /// N25: `impl From<U> for T` and `impl TryFrom<U> for T`
    pub fn is_conv(&self) -> bool { self.trait_.as_ref().map_or(false, |t| t.starts_with("From<") || t.starts_with("TryFrom<")) }
    /// functions whose conversions are renamed as well
    /// `TryFrom` with `Error = ()`
    pub fn unit_err(&self) -> bool { use quote::ToTokens; self.sig.ident == "try_from" && self.sig.output.to_token_stream().to_string().contains("()") }
    pub fn conv_user(&self) -> bool { self.file.starts_with("fp192") }
    pub fn conv_head(&self) -> Option<String> {
        if !self.is_conv() { return None; }
        let t = self.trait_.as_ref()?;
        let lt = if t.contains('&') { "<'vx>" } else { "" };
        let t = if self.unit_err() { t.replacen("TryFrom<", "TryFromU<", 1) } else { t.clone() };
        Some(format!("impl{} Vx{} for {}", lt, t.replace('&', "&'vx "), self.self_ty.as_ref()?))
    }
}
pub struct Emit { text: String, f: Option<FnSrc>, lost: Vec<String>, n: Option<normalise::Normalised> }

fn process(f: &FnSrc, a: &ann::FnAnn, external: bool, source: &Source, anns: &ann::Anns, base: Option<&serde_json::Value>, noiso: bool) -> Emit {
    let renamed = base.and_then(|b| {
        // a local that the blessed tree does not have must not shadow a name of the contracts
        let bl: BTreeSet<String> = b["locals"].as_array().map(|v| v.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
        let clash: BTreeSet<String> = normalise::locals(f).into_iter().filter(|l| !bl.contains(l) && anns.names.contains(l)).collect();
        if clash.is_empty() { None } else { normalise::rename_locals(f, &clash) }
    });
    let f = renamed.as_ref().unwrap_or(f);
    let mut n = normalise::normalise(f, a, source, anns);
    let mut a = a.clone();
    if noiso && !a.attrs.contains("loop_isolation") { a.attrs.push_str("#[verifier::loop_isolation(false)]\n"); }
    let mut heur = false;
    let mut extra: Vec<String> = vec![];
    // the annotation text speaks about the locals and the sites of the blessed baseline
    if let Some(b) = base {
        let bl: Vec<String> = b["locals"].as_array().map(|v| v.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
        let old: BTreeMap<String, Vec<String>> = serde_json::from_value(b["sites"].clone()).unwrap_or_default();
        if bl != n.locals {
            let m = ann::rename_map(&bl, &n.locals);
            // a loop that carries a variable the blessed tree does not have: its invariant says nothing about it
            for c in normalise::carried(f) { if !bl.contains(&c) && !m.values().any(|x| x == &c) { extra.push(format!("a loop carries the new local `{}`", c)); } }
            if !m.is_empty() {
                a.rename(&m);
                // sites of the old tree, in the new names
                let old: BTreeMap<String, Vec<String>> = old.iter().map(|(k, v)| (ann::rename_text(k, &m), v.iter().map(|s| ann::rename_text(s, &m)).collect())).collect();
                a.realign(&old, &n.sites);
            } else { a.realign(&old, &n.sites); }
        } else if old != n.sites { a.realign(&old, &n.sites); }
        if old != n.sites {
            let (e, ol, nl) = (vec![], old.get("loop"), n.sites.get("loop"));
            let (ol, nl) = (ol.unwrap_or(&e), nl.unwrap_or(&e));
            for (o, w) in ann::align(ol, nl) {
                if !ol[o].starts_with("while") && nl[w].starts_with("while ") { a.for_to_while(w, &nl[w]["while ".len()..]); heur = true; }
            }
            n = normalise::normalise(f, &a, source, anns);
        } else if bl != n.locals { n = normalise::normalise(f, &a, source, anns); }
    }
    n.soft.extend(extra);
    if heur { n.soft.push("a counting loop was rewritten".into()); }
    let ext = external || a.trusted || !n.lost.is_empty();
    let text = print::emit_fn(&normalise::instantiate(f), &a, &n, ext);
    Emit { text, f: Some(f.clone()), lost: n.lost.clone(), n: Some(n) }
}
