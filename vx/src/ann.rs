use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Default, Debug)]
pub struct FnAnn {
    pub key: String,
    pub props: Vec<String>,
    pub ret: String,
    pub attrs: String,
    pub spec: String,
    pub needs: Vec<String>,
    pub trusted: bool,
    /// type of the parameters and of the result, for an arm of a macro
    pub macro_ty: Option<(String, String)>,
    pub noinline: Vec<String>,
    /// hints dropped by `realign`
    pub soft: Vec<String>,
    pub stub: Option<String>,
    /// anchor -> text
    pub hooks: BTreeMap<String, String>,
    /// loop ordinal -> loop spec
    pub loops: BTreeMap<usize, String>,
}

pub struct Anns {
    pub fns: BTreeMap<String, FnAnn>,
    pub header: String,
    pub prelude: String,
    pub consts: Vec<String>,
    /// names of the spec and proof functions
    pub names: std::collections::BTreeSet<String>,
}

impl Anns { pub fn macro_fns(&self) -> std::collections::BTreeSet<String> { self.fns.iter().filter(|(_, f)| f.macro_ty.is_some()).map(|(k, _)| k.clone()).collect() } }

pub fn load(dir: &Path) -> Anns {
    let mut a = Anns { fns: BTreeMap::new(), header: String::new(), prelude: String::new(), consts: vec![], names: Default::default() };
    let mut fs: Vec<_> = std::fs::read_dir(dir).unwrap().flatten().map(|e| e.path()).collect();
    fs.sort();
    for p in fs {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        let text = match std::fs::read_to_string(&p) { Ok(t) => t, _ => continue };
        if name == "header.rs" { a.header.push_str(&text); }
        else if name.ends_with(".rs") { 
            let m = name.trim_end_matches(".rs");
            a.prelude.push_str(&format!("// ---- {}\npub mod l{} {{\nuse super::*;\n", name, m)); a.prelude.push_str(&text); a.prelude.push_str(&format!("}}\npub use l{}::*;\n", m)); }
        else if name.ends_with(".vc") { parse(&text, &mut a); }
    }
    let w: Vec<&str> = a.prelude.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
    for x in w.windows(2) { if x[0] == "fn" { a.names.insert(x[1].to_string()); } }
    // a function whose contract promises the canonical form also serves the property about that form, for that clause only ("C04~")
    for (k, f) in a.fns.iter_mut() {
        let ens = f.spec.split_once("ensures").map_or("", |x| x.1);
        if !ens.contains("wf()") && !ens.contains("canon(") { continue; }
        let ratio = k.starts_with("Ratio::");
        let w = if ratio && !k.ends_with("_bi") { "C12" } else { "C04" };
        if !k.contains("F192") && !k.starts_with("Matrix") && !k.starts_with("Polynomial") && !f.props.iter().any(|p| p == w) { f.props.push(format!("{}~", w)); }
    }
    a
}

fn flush(cur: &mut Option<FnAnn>, sec: &Option<String>, buf: &mut String) {
    if let (Some(c), Some(s)) = (cur.as_mut(), sec) {
        let t = buf.clone();
        if s == "spec" { c.spec.push_str(&t); }
        else if s == "stub" { c.stub = Some(t); }
        else if let Some(k) = s.strip_prefix("loop ").and_then(|x| x.trim().parse::<usize>().ok()) { c.loops.entry(k).or_default().push_str(&t); }
        else { c.hooks.entry(s.clone()).or_default().push_str(&t); }
    }
    buf.clear();
}

fn parse(text: &str, a: &mut Anns) {
    let mut cur: Option<FnAnn> = None;
    let mut sec: Option<String> = None;
    let mut buf = String::new();
    for line in text.lines() {
        if let Some(d) = line.strip_prefix('@') {
            flush(&mut cur, &sec, &mut buf);
            sec = None;
            let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            match w {
                "fn" => {
                    if let Some(c) = cur.take() { put(a, c); }
                    cur = Some(FnAnn { key: rest.to_string(), ret: "r".into(), ..Default::default() });
                }
                "const" => a.consts.push(rest.to_string()),
                "prop" => cur.as_mut().unwrap().props = rest.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(),
                "ret" => cur.as_mut().unwrap().ret = rest.into(),
                "attr" => { let c = cur.as_mut().unwrap(); c.attrs.push_str(rest); c.attrs.push('\n'); }
                "needs" => cur.as_mut().unwrap().needs.extend(rest.split(',').map(|s| s.trim().to_string())),
                "macro" => cur.as_mut().unwrap().macro_ty = rest.split_once("->").map(|(a, b)| (a.trim().to_string(), b.trim().to_string())),
                "trusted" => cur.as_mut().unwrap().trusted = true,
                "" | "#" => {}
                _ => sec = Some(d.trim().split_whitespace().collect::<Vec<_>>().join(" ")),
            }
        } else if !line.trim_start().starts_with("//#") {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&mut cur, &sec, &mut buf);
    if let Some(c) = cur.take() { put(a, c); }
}
/// `@fn A B ..`: one contract for several functions
fn put(a: &mut Anns, c: FnAnn) { for k in c.key.split_whitespace() { a.fns.insert(k.to_string(), FnAnn { key: k.to_string(), ..c.clone() }); } }

/// Positional alignment of the old and new ordered local names.
pub fn rename_map(old: &[String], new: &[String]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    // LCS on equal names, then pair up gaps of equal length
    let (n, k) = (old.len(), new.len());
    let mut t = vec![vec![0usize; k + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..k).rev() { t[i][j] = if old[i] == new[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) }; } }
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let mut close = |gi: &mut Vec<usize>, gj: &mut Vec<usize>| {
        if gi.len() == gj.len() { for (x, y) in gi.iter().zip(gj.iter()) { m.insert(old[*x].clone(), new[*y].clone()); } }
        gi.clear(); gj.clear();
    };
    while i < n || j < k {
        if i < n && j < k && old[i] == new[j] { close(&mut gi, &mut gj); i += 1; j += 1; }
        else if j >= k || (i < n && t[i + 1][j] >= t[i][j + 1]) { gi.push(i); i += 1; }
        else { gj.push(j); j += 1; }
    }
    close(&mut gi, &mut gj);
    m
}

impl FnAnn {
    pub fn rename(&mut self, m: &BTreeMap<String, String>) {
        let f = |s: &String| rename_text(s, m);
        self.spec = f(&self.spec);
        self.loops = self.loops.iter().map(|(k, v)| (*k, f(v))).collect();
        self.hooks = self.hooks.iter().map(|(k, v)| (f(k), f(v))).collect();
    }
}

/// index map old -> new: equal texts by longest common subsequence, then gaps of equal length pairwise
pub fn align(old: &[String], new: &[String]) -> BTreeMap<usize, usize> {
    let mut m = BTreeMap::new();
    let (n, k) = (old.len(), new.len());
    let mut t = vec![vec![0usize; k + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..k).rev() { t[i][j] = if old[i] == new[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) }; } }
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let mut pairs = vec![];
    let mut close = |gi: &mut Vec<usize>, gj: &mut Vec<usize>| {
        if gi.len() == gj.len() { for (x, y) in gi.iter().zip(gj.iter()) { pairs.push((*x, *y)); } }
        gi.clear(); gj.clear();
    };
    while i < n || j < k {
        if i < n && j < k && old[i] == new[j] { close(&mut gi, &mut gj); m.insert(i, j); i += 1; j += 1; }
        else if j >= k || (i < n && t[i + 1][j] >= t[i][j + 1]) { gi.push(i); i += 1; }
        else { gj.push(j); j += 1; }
    }
    close(&mut gi, &mut gj);
    m.extend(pairs);
    m
}

impl FnAnn {
    /// move the ordinal anchors from the sites of the blessed tree to those of the current one
    pub fn realign(&mut self, old: &BTreeMap<String, Vec<String>>, new: &BTreeMap<String, Vec<String>>) -> bool {
        let empty = vec![];
        let mut maps: BTreeMap<String, BTreeMap<usize, usize>> = BTreeMap::new();
        for (k, o) in old { maps.insert(k.clone(), align(o, new.get(k).unwrap_or(&empty))); }
        let map = |kind: &str, i: usize| -> Option<usize> { match maps.get(kind) { Some(m) => m.get(&i).copied(), None => Some(i) } };
        let mut changed = false;
        let lm = maps.get("loop").cloned().unwrap_or_default();
        let retext = |s: &String| -> String {
            let mut s = s.clone();
            for (o, n) in &lm { if o != n { for v in ["c", "e", "v", "d"] { s = s.replace(&format!("${}{}", v, o), &format!("\u{1}{}{}", v, n)); } } }
            s.replace('\u{1}', "$")
        };
        let mut hooks = BTreeMap::new();
        for (k, v) in &self.hooks {
            let w: Vec<&str> = k.split(' ').collect();
            let nk = match w[0] {
                "then" | "else" => map("if", w[1].parse().unwrap_or(0)).map(|n| { let mut x = vec![w[0].to_string(), n.to_string()]; x.extend(w[2..].iter().map(|s| s.to_string())); x.join(" ") }),
                "arm" | "return" | "loop" | "closure" => map(w[0], w[1].parse().unwrap_or(0)).map(|n| { let mut x = vec![w[0].to_string(), n.to_string()]; x.extend(w[2..].iter().map(|s| s.to_string())); x.join(" ") }),
                "before" | "after" if w.len() == 3 => {
                    let (name, n) = w[2].split_once('#').map(|(a, b)| (a, b.parse().unwrap_or(0))).unwrap_or((w[2], 0usize));
                    map(&format!("{} {}", w[1], name), n).map(|n| format!("{} {} {}{}", w[0], w[1], name, if n == 0 { String::new() } else { format!("#{}", n) }))
                }
                "recv" if w.len() == 2 => {
                    let (name, n) = w[1].split_once('#').map(|(a, b)| (a, b.parse().unwrap_or(0))).unwrap_or((w[1], 0usize));
                    map(&format!("recv {}", name), n).map(|n| format!("recv {}{}", name, if n == 0 { String::new() } else { format!("#{}", n) }))
                }
                _ => Some(k.clone()),
            };
            match nk {
                Some(nk) => { changed |= &nk != k; hooks.insert(nk, retext(v)); }
                None => { changed = true; self.soft.push(format!("anchor `{}` has no counterpart", k)); }
            }
        }
        let mut loops = BTreeMap::new();
        for (k, v) in &self.loops {
            match map("loop", *k) { Some(n) => { changed |= n != *k; loops.insert(n, retext(v)); } None => { changed = true; self.soft.push(format!("loop {} has no counterpart", k)); } }
        }
        if changed { self.hooks = hooks; self.loops = loops; }
        changed
    }
    /// a counting `for` rewritten as `while A < B`: the counter of the invariants becomes A, its bound B
    pub fn for_to_while(&mut self, k: usize, cond: &str) {
        if let Some((a, b)) = cond.split_once(" < ") {
            if b.contains("&&") || b.contains("||") || a.contains("||") || a.contains("&&") { return; }
            let f = |s: &String, ctx: bool| -> String {
                let mut s = s.replace(&format!("$c{}", k), &format!("({})", a)).replace(&format!("$e{}", k), &format!("({})", b));
                if ctx { s = bare(&s, "$c", &format!("({})", a)); s = bare(&s, "$e", &format!("({})", b)); }
                s
            };
            self.loops = self.loops.iter().map(|(i, v)| (*i, f(v, *i == k))).collect();
            let pre = format!("loop {} ", k);
            self.hooks = self.hooks.iter().map(|(i, v)| (i.clone(), f(v, i.starts_with(&pre)))).collect();
        }
    }
}
fn bare(s: &str, pat: &str, to: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(pat) {
        out.push_str(&rest[..i]);
        let next = rest[i + pat.len()..].chars().next();
        if next.map_or(false, |c| c.is_ascii_digit()) { out.push_str(pat); } else { out.push_str(to); }
        rest = &rest[i + pat.len()..];
    }
    out.push_str(rest);
    out
}

pub fn rename_text(s: &str, m: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut w = String::new();
    let mut prev_dot = false;
    let mut last = ' ';
    for c in s.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' { if w.is_empty() { prev_dot = last == '.'; } w.push(c); }
        else {
            if !w.is_empty() {
                match m.get(&w) { Some(r) if !prev_dot => out.push_str(r), _ => out.push_str(&w) }
                w.clear();
            }
            if c != '\0' { out.push(c); }
        }
        last = c;
    }
    out
}
