use std::collections::BTreeSet;
use syn::visit::{self, Visit};

pub struct Calls(pub BTreeSet<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) { self.0.insert(m.method.to_string()); visit::visit_expr_method_call(self, m); }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func { if let Some(s) = p.path.segments.last() { self.0.insert(s.ident.to_string()); } }
        visit::visit_expr_call(self, c);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if m.path.is_ident("vec") { for e in vec_args(m) { let mut c = Calls(BTreeSet::new()); c.visit_expr(&e); self.0.extend(c.0); } }
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) { self.0.insert("eq".into()); }
        visit::visit_expr_binary(self, b);
    }
}
pub fn vec_args(m: &syn::Macro) -> Vec<syn::Expr> {
    if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) { return a.into_iter().collect(); }
    m.parse_body_with(|i: syn::parse::ParseStream| { let a: syn::Expr = i.parse()?; let _: syn::Token![;] = i.parse()?; let b: syn::Expr = i.parse()?; Ok(vec![a, b]) }).unwrap_or_default()
}
pub fn called(b: &syn::Block) -> BTreeSet<String> { let mut c = Calls(BTreeSet::new()); c.visit_block(b); c.0 }
