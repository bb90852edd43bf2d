//! vx: mechanical extraction of functions of /repo/src into a Verus file, with contracts
//! attached from /verif/contracts/<unit>.vx.  See DESIGN.md ("What the extraction does").
use proc_macro2::{Delimiter, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type R<T> = std::result::Result<T, String>;

// ---------------------------------------------------------------- contract files
#[derive(Debug, Clone, Default)]
struct FnSpec {
    file: String,
    path: String,
    opts: Vec<String>,
    ret: Option<String>,
    spec: String,
    loops: BTreeMap<usize, String>,
    closures: BTreeMap<usize, (String, String)>,
    at: Vec<(String, String)>,
    imported_from: Option<String>,
    /// text added to the impl block of a trait implementation (its spec functions)
    imp: String,
}
#[derive(Debug, Clone)]
enum Part {
    Raw(String),
    Item { file: String, kind: String, name: String, opts: Vec<String> },
    Fn(FnSpec),
    Use { unit: String, path: String },
    Include(String),
}

fn parse_unit(path: &Path) -> R<Vec<Part>> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    // `#import NAME`: the text of contracts/NAME.vxi
    let mut full = String::new();
    for line in text.lines() {
        match line.strip_prefix("#import ") {
            Some(n) => { let p = path.with_file_name(format!("{}.vxi", n.trim())); full.push_str(&std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?); }
            None => full.push_str(line),
        }
        full.push('\n');
    }
    let text = full;
    let mut parts: Vec<Part> = vec![];
    enum Cur { None, Raw, Spec, Impl, Loop(usize), Closure(usize), At }
    let mut cur = Cur::None;
    for line in text.lines() {
        if let Some(d) = line.strip_prefix('#').filter(|d| !d.starts_with('[') && !d.starts_with('!')) {
            let w: Vec<&str> = d.split_whitespace().collect();
            if w.is_empty() { continue; }
            match w[0] {
                "#" => {}
                "raw" => { parts.push(Part::Raw(String::new())); cur = Cur::Raw; }
                "include" => { parts.push(Part::Include(w[1].into())); cur = Cur::None; }
                "use" => { parts.push(Part::Use { unit: w[1].into(), path: w[2].into() }); cur = Cur::None; }
                "item" => {
                    parts.push(Part::Item { file: w[1].into(), kind: w[2].into(), name: w[3].into(), opts: w[4..].iter().map(|s| s.to_string()).collect() });
                    cur = Cur::None;
                }
                "fn" => {
                    parts.push(Part::Fn(FnSpec { file: w[1].into(), path: w[2].into(), opts: w[3..].iter().map(|s| s.to_string()).collect(), ..Default::default() }));
                    cur = Cur::None;
                }
                "ret" => if let Some(Part::Fn(f)) = parts.last_mut() { f.ret = Some(d[3..].trim().to_string()) },
                "spec" => cur = Cur::Spec,
                "impl" => cur = Cur::Impl,
                "loop" => { cur = Cur::Loop(w[1].parse().map_err(|_| format!("bad directive {}", line))?);
                    if let (Some(Part::Fn(f)), Cur::Loop(n)) = (parts.last_mut(), &cur) { f.loops.insert(*n, String::new()); } }
                "closure" => {
                    let n: usize = w[1].parse().map_err(|_| format!("bad directive {}", line))?;
                    let head = d.splitn(3, char::is_whitespace).nth(2).unwrap_or("").to_string();
                    if let Some(Part::Fn(f)) = parts.last_mut() { f.closures.insert(n, (head, String::new())); }
                    cur = Cur::Closure(n);
                }
                "at" => {
                    if let Some(Part::Fn(f)) = parts.last_mut() { f.at.push((w[1..].join(" "), String::new())); }
                    cur = Cur::At;
                }
                _ => return Err(format!("{}: unknown directive {}", path.display(), line)),
            }
            continue;
        }
        let l = format!("{}\n", line);
        match (&cur, parts.last_mut()) {
            (Cur::Raw, Some(Part::Raw(s))) => s.push_str(&l),
            (Cur::Spec, Some(Part::Fn(f))) => f.spec.push_str(&l),
            (Cur::Impl, Some(Part::Fn(f))) => f.imp.push_str(&l),
            (Cur::Loop(n), Some(Part::Fn(f))) => f.loops.get_mut(n).unwrap().push_str(&l),
            (Cur::Closure(n), Some(Part::Fn(f))) => f.closures.get_mut(n).unwrap().1.push_str(&l),
            (Cur::At, Some(Part::Fn(f))) => f.at.last_mut().unwrap().1.push_str(&l),
            _ => if !line.trim().is_empty() { return Err(format!("{}: text outside a section: {}", path.display(), line)) },
        }
    }
    Ok(parts)
}

// ---------------------------------------------------------------- body rewriting
const RENAMED: &[&str] = &[
    "clone", "iter", "iter_mut", "into_iter", "chars", "char_indices", "keys", "values", "bytes", "get", "get_mut", "starts_with", "ends_with",
    "to_string", "to_lowercase", "to_uppercase", "contains", "contains_key", "sort_by", "sort_by_key", "sort", "sorted", "extend", "insert", "remove",
    "collect_vec", "entry", "first", "last", "split", "trim", "lines", "join", "as_ref", "as_slice", "as_str", "is_empty_str",
    "ok_or_else", "or_else", "unwrap_or", "drain", "retain", "truncate", "dedup", "reverse",
    "parse", "find_iter", "captures", "is_match", "cmp", "into", "with_context", "cloned", "sqrt", "max", "min", "ln", "exp", "abs", "powi",
    "swap_remove", "split_whitespace", "concat", "to_vec", "capacity", "repeat", "rsplit", "splitn", "windows", "chunks", "to_owned", "unwrap_or_default", "ok_or", "lock", "expect", "as_bytes", "display", "is_file", "is_dir", "exists", "file_name", "extension", "parent", "copied", "count", "union", "difference", "replace", "then", "tuple_combinations", "combinations", "iter_eq", "map_or", "map_or_else", "flatten", "sum", "position", "add_assign", "row_major",
];
fn renamed_here(name: &str, opts: &[String]) -> bool {
    if opts.iter().any(|o| o == &format!("keep={}", name)) { return false; }
    if opts.iter().any(|o| o == &format!("rename={}", name)) { return true; }
    RENAMED.contains(&name)
}

struct Rw<'a> {
    spec: &'a FnSpec,
    phs: Vec<String>,
    nloop: usize,
    nclosure: usize,
    used_at: BTreeSet<String>,
    used_closures: BTreeSet<usize>,
    used_loops: BTreeSet<usize>,
    err: Option<String>,
    dropped: BTreeSet<String>,
    float: bool,
    ord: bool,
    self_ty: Option<String>,
    probe: bool,
}
/// a field declared to be a map (option mapindex=NAME)
fn has_closure(e: &Expr) -> bool {
    struct H(bool);
    impl<'a> syn::visit::Visit<'a> for H { fn visit_expr_closure(&mut self, _: &'a ExprClosure) { self.0 = true; } }
    let mut h = H(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}
fn is_map_field(e: &Expr, opts: &[String]) -> bool {
    if opts.iter().any(|o| o == "mapindex=*") { return true; }
    if let Expr::Field(f) = e { if let Member::Named(n) = &f.member { return opts.iter().any(|o| o == &format!("mapindex={}", n)); } }
    false
}
fn is_whole_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_)),
        Expr::Paren(p) => is_whole_lit(&p.expr),
        Expr::Unary(u) => is_whole_lit(&u.expr),
        _ => false,
    }
}
fn is_int_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Bool(_) | Lit::Float(_)),
        Expr::Paren(p) => is_int_lit(&p.expr),
        Expr::Unary(u) => is_int_lit(&u.expr),
        _ => false,
    }
}
fn is_len_call(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => m.method == "len" && m.args.is_empty(),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_)) && (is_len_call(&b.left) || is_len_call(&b.right) || is_int_lit(&b.right) || is_int_lit(&b.left)),
        Expr::Paren(p) => is_len_call(&p.expr),
        _ => false,
    }
}
fn has_break(b: &Block) -> bool {
    struct V { found: bool }
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.found = true; }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V { found: false };
    syn::visit::Visit::visit_block(&mut v, b);
    v.found
}
fn is_range_like(e: &Expr) -> bool {
    match e {
        Expr::Range(_) => true,
        Expr::Paren(p) => is_range_like(&p.expr),
        Expr::MethodCall(m) if m.method == "clone" => is_range_like(&m.receiver),
        Expr::Field(f) => f.member.to_token_stream().to_string().contains("range"),
        Expr::Path(p) => p.path.segments.last().map(|s| { let s = s.ident.to_string(); s == "range" || s.ends_with("_range") || s == "r" || (s.starts_with("range") && !s.ends_with("_start") && !s.ends_with("_end") && !s.ends_with("_index")) }).unwrap_or(false),
        _ => false,
    }
}
/// split a loop contract into its clause groups
fn clauses(text: &str) -> BTreeMap<&'static str, String> {
    let mut m: BTreeMap<&'static str, String> = BTreeMap::new();
    let mut cur: &'static str = "invariant";
    for line in text.lines() {
        let t = line.trim_start();
        let mut rest = t;
        for k in ["invariant_except_break", "invariant", "ensures", "decreases"] {
            if let Some(r) = t.strip_prefix(k) {
                if r.is_empty() || r.starts_with(char::is_whitespace) { cur = k; rest = r; break; }
            }
        }
        let e = m.entry(cur).or_default();
        e.push_str(rest);
        e.push('\n');
    }
    m
}
impl<'a> Rw<'a> {
    fn ph(&mut self, text: String) -> Ident {
        self.phs.push(text);
        format_ident!("__VXP_{}__", self.phs.len() - 1)
    }
    fn at(&mut self, key: &str) -> Option<Ident> {
        let mut txt = String::new();
        for (k, t) in &self.spec.at { if k == key { txt.push_str(t); } }
        if txt.is_empty() { return None; }
        self.used_at.insert(key.to_string());
        Some(self.ph(txt))
    }
    fn loop_text(&mut self, n: usize, auto_inv: &str, auto_ens: &str, auto_dec: &str) -> String {
        let user = self.spec.loops.get(&n).cloned().unwrap_or_default();
        if self.spec.loops.contains_key(&n) { self.used_loops.insert(n); }
        let mut m = clauses(&user);
        let e = m.entry("invariant").or_default();
        *e = format!("{}{}", auto_inv, e);
        if !auto_ens.is_empty() { let e = m.entry("ensures").or_default(); *e = format!("{}{}", auto_ens, e); }
        if !auto_dec.is_empty() { m.entry("decreases").or_insert(auto_dec.to_string()); }
        let mut out = String::new();
        for k in ["invariant_except_break", "invariant", "ensures", "decreases"] {
            if let Some(t) = m.get(k) { if !t.trim().is_empty() { out.push_str(&format!("{} {}\n", k, t)); } }
        }
        out
    }
    fn stmt_verb(ts: TokenStream) -> Stmt { Stmt::Expr(Expr::Verbatim(ts), None) }

    fn rewrite_macro(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "bail" if has(&self.spec.opts, "errors") && mac.parse_body::<Expr>().map(|x| matches!(x, Expr::Struct(_) | Expr::Call(_))).unwrap_or(false) => {
                let mut x = mac.parse_body::<Expr>().unwrap();
                self.visit_expr_mut(&mut x);
                Some(Expr::Verbatim(quote!(return Err(vx_fail(#x)))))
            }
            "bail" => { self.dropped.insert("bail! message".into()); Some(Expr::Verbatim(quote!(return Err(vx_err())))) }
            "format_err" | "err_msg" => { self.dropped.insert("format_err! message".into()); Some(Expr::Verbatim(quote!(vx_err()))) }
            "debug" | "info" | "warn" | "error" | "trace" | "println" | "eprintln" => { self.dropped.insert(format!("{}! logging", name)); Some(Expr::Verbatim(quote!({}))) }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => { self.dropped.insert(format!("{}! (debug builds only)", name)); Some(Expr::Verbatim(quote!({}))) }
            "ensure" => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut c = args.first()?.clone();
                self.visit_expr_mut(&mut c);
                Some(Expr::Verbatim(quote!(if !(#c) { return Err(vx_err()) })))
            }
            "vec" => {
                if let Ok(args) = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let mut a: Vec<Expr> = args.into_iter().collect();
                    let closures = a.iter().any(has_closure);
                    for e in a.iter_mut() { self.visit_expr_mut(e); }
                    if a.is_empty() { return Some(parse_quote!(Vec::new())); }
                    if closures {
                        // closure contracts are not parsed inside a macro: name the elements first
                        let ids: Vec<Ident> = (0..a.len()).map(|i| format_ident!("vx_e{}", i)).collect();
                        return Some(Expr::Verbatim(quote!({ #(let #ids = #a;)* vec![ #(#ids),* ] })));
                    }
                    return Some(Expr::Verbatim(quote!(vec![ #(#a),* ])));
                }
                struct Rep { a: Expr, b: Expr }
                impl syn::parse::Parse for Rep { fn parse(i: syn::parse::ParseStream) -> Result<Self> { let a = i.parse()?; i.parse::<Token![;]>()?; Ok(Rep { a, b: i.parse()? }) } }
                let Rep { mut a, mut b } = mac.parse_body::<Rep>().ok()?;
                self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                Some(Expr::Verbatim(quote!(vx_vec_rep(#a, #b))))
            }
            "stack" | "array" => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut a: Vec<Expr> = args.into_iter().collect();
                for e in a.iter_mut() { self.visit_expr_mut(e); }
                if name == "stack" { if a.len() != 3 { return None; } let (x, y, z) = (&a[0], &a[1], &a[2]); return Some(parse_quote!(vx_stack2(#x, &(#y), &(#z)))); }
                if !a.iter().all(|x| matches!(x, Expr::Array(_))) { return None; }
                Some(parse_quote!(vx_array2([ #(#a),* ])))
            }
            "hashmap" | "hashset" if mac.tokens.is_empty() => Some(if name == "hashmap" { parse_quote!(HashMap::new()) } else { parse_quote!(HashSet::new()) }),
            "format" => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut it = args.into_iter();
                let lit = match it.next()? { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => return None };
                let mut a: Vec<Expr> = it.collect();
                for e in a.iter_mut() { self.visit_expr_mut(e); }
                // pieces
                let mut pieces: Vec<TokenStream> = vec![];
                let mut cur = String::new();
                let mut ai = 0;
                let cs: Vec<char> = lit.chars().collect();
                let mut i = 0;
                while i < cs.len() {
                    if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' { cur.push('{'); i += 2; continue; }
                    if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' { cur.push('}'); i += 2; continue; }
                    if cs[i] == '{' {
                        let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
                        let inner: String = cs[i + 1..j].iter().collect();
                        if !cur.is_empty() { let c = cur.clone(); pieces.push(quote!(vx_f.push_str(#c);)); cur.clear(); }
                        let (nm, fmt) = match inner.find(':') { Some(k) => (inner[..k].to_string(), inner[k + 1..].to_string()), None => (inner.clone(), String::new()) };
                        let arg = if nm.is_empty() { let e = a.get(ai)?.clone(); ai += 1; quote!(#e) } else if let Ok(k) = nm.parse::<usize>() { let e = a.get(k)?.clone(); quote!(#e) } else { let id = format_ident!("{}", nm); quote!(#id) };
                        match fmt.as_str() { "" => pieces.push(quote!(vx_push_disp(&mut vx_f, &(#arg));)), "+" => pieces.push(quote!(vx_push_signed(&mut vx_f, &(#arg));)), "?" => pieces.push(quote!(vx_push_debug(&mut vx_f, &(#arg));)), _ => return None }
                        i = j + 1;
                        continue;
                    }
                    cur.push(cs[i]);
                    i += 1;
                }
                if !cur.is_empty() { pieces.push(quote!(vx_f.push_str(#cur);)); }
                Some(Expr::Verbatim(quote!({ let mut vx_f = String::new(); #(#pieces)* vx_f })))
            }
            "wrap" if has(&self.spec.opts, "ffi") => {
                let mut x = mac.parse_body::<Expr>().ok()?;
                self.visit_expr_mut(&mut x);
                Some(Expr::Verbatim(quote!(vx_wrap(#x))))
            }
            "create_rust_string_from" if has(&self.spec.opts, "ffi") => {
                let mut x = mac.parse_body::<Expr>().ok()?;
                self.visit_expr_mut(&mut x);
                Some(Expr::Verbatim(quote!(vx_rust_string(#x)?)))
            }
            _ if has(&self.spec.opts, "ffi") => {
                // the repository's own expression macros
                let dir = MACRO_DIR.with(|d| d.borrow().clone());
                let mut x = syn::parse2::<Expr>(find_macro(&dir, &name).and_then(|r| mac_expand(&r, &mac.tokens))?).ok()?;
                self.visit_expr_mut(&mut x);
                Some(x)
            }
            _ => None,
        }
    }
    fn fix_path(&mut self, p: &mut Path_) { flatten_path(p) }
}
type Path_ = syn::Path;
fn flatten_path(p: &mut Path_) {
    let n = p.segments.len();
    if n < 2 { return; }
    let keep_from = {
        let prev = p.segments[n - 2].ident.to_string();
        let first_up = |s: &str| s.trim_start_matches('_').chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
        let prim = ["str", "u8", "u16", "u32", "u64", "usize", "i16", "i32", "i64", "f32", "f64"];
        if first_up(&prev) || prim.contains(&prev.as_str()) { n - 2 } else { n - 1 }
    };
    let lead = if keep_from == n - 2 { None } else { None };
    p.leading_colon = lead;
    let segs: Vec<PathSegment> = p.segments.iter().skip(keep_from).cloned().collect();
    // ops::Range, iter::X, slice::Iter keep only the last segment
    p.segments = segs.into_iter().collect();
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_path_mut(&mut self, p: &mut Path_) {
        visit_mut::visit_path_mut(self, p);
        self.fix_path(p);
        if let Some(last) = p.segments.last_mut() {
            // <str>::method function-path forms of renamed methods
            let n = last.ident.to_string();
            let _ = n;
        }
        let _ = &self.self_ty;
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // statements, with after-let anchors
        let old = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let n = old.len();
        for (idx, mut s) in old.into_iter().enumerate() {
            let mut anchor = None;
            if let Stmt::Local(l) = &s {
                fn pname(p: &Pat) -> Option<String> { match p { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Type(t) => pname(&t.pat), Pat::Tuple(t) => t.elems.iter().find_map(pname), _ => None } }
                anchor = pname(&l.pat);
            }
            if let Stmt::Item(it) = &s {
                if matches!(it, Item::Use(_)) { continue; }
            }
            if let Stmt::Macro(m) = &s {
                let mac = m.mac.clone();
                let semi = m.semi_token;
                match self.rewrite_macro(&mac) {
                    Some(e) => { let sc = if semi.is_some() || idx + 1 < n { Some(Default::default()) } else { None }; out.push(Stmt::Expr(e, sc)); }
                    None => { self.err.get_or_insert(format!("unsupported macro {}!", mac.path.to_token_stream())); }
                }
                continue;
            }
            let before = if let Some(name) = &anchor { self.at(&format!("before-let {}", name)) } else { None };
            if let Some(ph) = before { out.push(Self::stmt_verb(quote!(#ph))); }
            if let Stmt::Expr(e, semi) = &mut s {
                desugar_for_each(e);
                if let Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) = e {
                    let k = self.nloop;
                    if let Some(ph) = self.at(&format!("loop {} before", k)) { out.push(Self::stmt_verb(quote!(#ph))); }
                    let mut e2 = e.clone();
                    self.visit_expr_mut(&mut e2);
                    out.push(Stmt::Expr(e2, if semi.is_some() || idx + 1 < n { Some(Default::default()) } else { None }));
                    if let Some(ph) = self.at(&format!("loop {} after", k)) { out.push(Self::stmt_verb(quote!(#ph))); }
                    continue;
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if let Some(name) = anchor {
                if let Some(ph) = self.at(&format!("after-let {}", name)) { out.push(Self::stmt_verb(quote!(#ph))); }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        desugar_for_each(e);
        desugar_stateful_map(e);
        match e {
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                match self.rewrite_macro(&mac) {
                    Some(x) => *e = x,
                    None => { self.err.get_or_insert(format!("unsupported macro {}!", mac.path.to_token_stream())); }
                }
            }
            Expr::ForLoop(f) => {
                let n = self.nloop;
                self.nloop += 1;
                let mut f = f.clone();
                self.visit_expr_mut(&mut f.expr);
                self.visit_pat_mut(&mut f.pat);
                let brk = has_break(&f.body);
                let start = self.at(&format!("loop {} start", n));
                self.visit_block_mut(&mut f.body);
                let end = self.at(&format!("loop {} end", n));
                let (it, s, k) = (format_ident!("vx_it{}", n), format_ident!("vx_s{}", n), format_ident!("vx_k{}", n));
                let txt = self.loop_text(
                    n,
                    &format!("0 <= {k} <= {s}.len(), {it}@ == {s}.skip({k}),\n"),
                    &if brk { String::new() } else { format!("{k} == {s}.len(),\n") },
                    &format!("{s}.len() - {k},\n"),
                );
                let ph = self.ph(txt);
                let mut pat = (*f.pat).clone();
                let mut stmts = f.body.stmts.clone();
                if let Pat::Reference(r) = &pat {
                    // `&P`: bind the reference, then destructure what it points to
                    let (id, inner) = (format_ident!("vx_p{}", n), &r.pat);
                    stmts.insert(0, parse_quote!(let #inner = *#id;));
                    pat = parse_quote!(#id);
                }
                let (ex, pat, body) = (&f.expr, &pat, &stmts);
                let label = &f.label;
                let g0 = self.ph(format!("let ghost {s} = {it}@; let ghost mut {k}: int = 0;"));
                let g1 = self.ph(format!("proof {{ {k} = {k} + 1; }}"));
                let probe_ph = if self.probe { let p = self.ph("if vx_probe() { assert(false); }".into()); quote!(#p) } else { quote!() };
                let g2 = self.ph(format!("proof {{ lemma_seq_skip_step({s}, {k}); }}"));
                // `end`-anchored ghost code is placed after the body statements
                *e = Expr::Verbatim(quote!(match vx_for(#ex) { mut #it => {
                    #g0
                    #label loop #ph {
                        #g2
                        match #it.next() {
                            Some(#pat) => { #g1 #probe_ph #start #(#body)* #end }
                            None => { break; }
                        }
                    }
                } }));
            }
            Expr::While(w) => {
                let n = self.nloop;
                self.nloop += 1;
                let mut w = w.clone();
                let iflet = matches!(&*w.cond, Expr::Let(_));
                self.visit_expr_mut(&mut w.cond);
                let start = self.at(&format!("loop {} start", n));
                self.visit_block_mut(&mut w.body);
                let end = self.at(&format!("loop {} end", n));
                let txt = self.loop_text(n, "", "", "");
                let ph = self.ph(txt);
                let (c, body, label) = (&w.cond, &w.body.stmts, &w.label);
                *e = if iflet {
                    Expr::Verbatim(quote!(#label loop #ph { if #c { #start #(#body)* #end } else { break; } }))
                } else {
                    Expr::Verbatim(quote!(#label while #c #ph { #start #(#body)* #end }))
                };
            }
            Expr::Loop(l) => {
                let n = self.nloop;
                self.nloop += 1;
                let mut l = l.clone();
                let start = self.at(&format!("loop {} start", n));
                self.visit_block_mut(&mut l.body);
                let end = self.at(&format!("loop {} end", n));
                let txt = self.loop_text(n, "", "", "");
                let ph = self.ph(txt);
                let (body, label) = (&l.body.stmts, &l.label);
                *e = Expr::Verbatim(quote!(#label loop #ph { #start #(#body)* #end }));
            }
            Expr::Closure(c) => {
                let n = self.nclosure;
                self.nclosure += 1;
                let mut c = c.clone();
                c.attrs.clear();
                let start = self.at(&format!("closure {} start", n));
                // statements appended at the end of a block body / wrapped around an expression body
                for p in c.inputs.iter_mut() { self.visit_pat_mut(p); }
                self.visit_expr_mut(&mut c.body);
                // `closure N tail NAME`: name the result so that ghost code can follow it
                let tail = self.spec.at.iter().find(|(k, _)| k.starts_with(&format!("closure {} tail ", n))).cloned();
                if let Some((k, t)) = tail {
                    self.used_at.insert(k.clone());
                    let id = format_ident!("{}", k.rsplit(' ').next().unwrap());
                    let txt = self.ph(t);
                    let mut st: Vec<Stmt> = match &*c.body { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), b => vec![Stmt::Expr(b.clone(), None)] };
                    match st.pop() {
                        Some(Stmt::Expr(te, None)) => {
                            let ty: Option<Type> = self.spec.closures.get(&n).and_then(|(h, _)| split_closure_head(h)).and_then(|(_, r)| { let r = r.trim_start_matches("->").trim(); let r = r.strip_prefix('(')?.strip_suffix(')')?; syn::parse_str(r.splitn(2, ':').nth(1)?).ok() });
                            st.push(Self::stmt_verb(match ty { Some(t) => quote!(let #id: #t = #te;), None => quote!(let #id = #te;) }));
                            st.push(Self::stmt_verb(quote!(#txt)));
                            st.push(Self::stmt_verb(quote!(#id)));
                        }
                        _ => { self.err.get_or_insert(format!("closure {}: no tail expression", n)); }
                    }
                    let b = Block { brace_token: Default::default(), stmts: st };
                    c.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                }
                if let Some((head, text)) = self.spec.closures.get(&n).cloned() {
                    self.used_closures.insert(n);
                    // head: |a: T, b: U| -> (r: V)
                    let (ps, rest) = match split_closure_head(&head) { Some(x) => x, None => { self.err.get_or_insert(format!("bad closure header {}", head)); return; } };
                    if ps.len() != c.inputs.len() { self.err.get_or_insert(format!("closure {}: {} parameters expected, {} found", n, ps.len(), c.inputs.len())); return; }
                    let mut lets: Vec<TokenStream> = vec![];
                    for (decl, inp) in ps.iter().zip(c.inputs.iter()) {
                        let name = decl.split(':').next().unwrap().trim().trim_start_matches("mut ").trim().to_string();
                        let id = Ident::new(&name, Span::call_site());
                        let mut p = inp.clone();
                        if let Pat::Type(t) = &p { p = (*t.pat).clone(); }
                        let same = matches!(&p, Pat::Ident(i) if i.ident == name && i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none());
                        if let Pat::Reference(r) = &p { let inner = &r.pat; lets.push(quote!(let #inner = *#id;)); }
                        else if !same && !matches!(p, Pat::Wild(_)) { lets.push(quote!(let #p = #id;)); }
                    }
                    let ph = self.ph(format!("|{}| {}\n{}", ps.join(", "), rest, text));
                    let mv = &c.capture;
                    let body = &c.body;
                    *e = match &**body {
                        Expr::Block(b) if b.label.is_none() => { let st = &b.block.stmts; Expr::Verbatim(quote!(#mv #ph { #start #(#lets)* #(#st)* })) }
                        b => Expr::Verbatim(quote!(#mv #ph { #start #(#lets)* #b })),
                    };
                } else {
                    for (i, p) in c.inputs.iter_mut().enumerate() { if matches!(p, Pat::Wild(_)) { let id = format_ident!("vx_u{}", i); *p = parse_quote!(#id); } }
                    *e = Expr::Closure(c);
                }
            }
            Expr::Unsafe(u) if has(&self.spec.opts, "ffi") => {
                let mut b = u.block.clone();
                for s in b.stmts.iter_mut() {
                    if let Stmt::Expr(x, semi) = s { if let Some((p, v)) = ptr_write(x) { *x = parse_quote!(vx_write(#p, #v)); let _ = semi; } }
                }
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            Expr::Reference(r) if has(&self.spec.opts, "ffi") && matches!(&*r.expr, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(_))) => {
                let p = match &*r.expr { Expr::Unary(u) => (*u.expr).clone(), _ => unreachable!() };
                *e = parse_quote!(vx_deref(#p));
            }
            Expr::Call(c) if has(&self.spec.opts, "ffi") && matches!(&*c.func, Expr::Path(p) if p.qself.is_some()) => {
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                let (n, a) = (match &*c.func { Expr::Path(p) => format_ident!("vx_{}", p.path.segments.last().unwrap().ident), _ => unreachable!() }, &c.args);
                *e = parse_quote!(#n(#a));
            }
            Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "") == "HashMap::with_capacity" => {
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                let a = &c.args;
                *e = parse_quote!(vx_hashmap_cap(#a));
            }
            Expr::Call(c) if has(&self.spec.opts, "dyn") && matches!(c.func.to_token_stream().to_string().replace(' ', "").as_str(), "Arc::new" | "Box::new") => {
                // a value about to be coerced to a trait object: through the identity function
                visit_mut::visit_expr_call_mut(self, c);
                *e = parse_quote!(vx_id(#c));
            }
            Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "") == "Mutex::new" => {
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                let a = &c.args;
                let ph = self.ph("Ghost(vx_inv)".into());
                *e = Expr::Verbatim(quote!(Mutex::vx_new(#a, #ph)));
            }
            Expr::MethodCall(m) if m.method == "with_context" && m.args.len() == 1 => {
                self.dropped.insert("context message".into());
                self.visit_expr_mut(&mut m.receiver);
                let r = &m.receiver;
                *e = parse_quote!(#r.vx_context());
            }
            Expr::MethodCall(m) if m.method == "map_err" && matches!(&*m.receiver, Expr::MethodCall(l) if l.method == "lock" && l.args.is_empty()) => {
                self.dropped.insert("error value".into());
                let mut x = match &*m.receiver { Expr::MethodCall(l) => (*l.receiver).clone(), _ => unreachable!() };
                self.visit_expr_mut(&mut x);
                *e = parse_quote!(#x.vx_lock_res());
            }
            Expr::Call(c) if CALLS.iter().any(|(a, _)| c.func.to_token_stream().to_string().replace(' ', "") == *a) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                let id = format_ident!("{}", CALLS.iter().find(|(a, _)| f == *a).unwrap().1);
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                let a = &c.args;
                *e = parse_quote!(#id(#a));
            }
            Expr::MethodCall(m) if locked(&m.receiver).is_some() => {
                // M.lock().unwrap().f(args): the guard lives until the end of the statement
                let mut l = locked(&m.receiver).unwrap();
                self.visit_expr_mut(&mut l);
                for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                let mut name = m.method.clone();
                if renamed_here(&name.to_string(), &self.spec.opts) { name = format_ident!("vx_{}", name); }
                let a = &m.args;
                *e = Expr::Verbatim(quote!({ let vx_g = #l.vx_lock(); let vx_x = vx_g.#name(#a); #l.vx_unlock(vx_g); vx_x }));
            }
            Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "").starts_with("SnipsNluError::") && !has(&self.spec.opts, "errors") => {
                self.dropped.insert("error value".into());
                *e = parse_quote!(vx_err());
            }
            Expr::Struct(c) if c.path.to_token_stream().to_string().replace(' ', "").starts_with("NluInjectionErrorKind::") && !has(&self.spec.opts, "errors") => {
                self.dropped.insert("error value".into());
                *e = parse_quote!(vx_err());
            }
            Expr::MethodCall(m) if entry_chain(m).is_some() => {
                // m.entry(k).and_modify(f).or_insert_with(g), value unused
                let (mut x, mut k, mut f, mut g) = entry_chain(m).unwrap();
                for y in [&mut x, &mut k, &mut f, &mut g] { self.visit_expr_mut(y); }
                *e = Expr::Verbatim(quote!({ let vx_key = #k; vx_and_modify(&mut #x, &vx_key, #f); vx_or_insert_with(&mut #x, vx_key, #g); }));
            }
            Expr::MethodCall(m) if entry_insert(m).is_some() => {
                // m.entry(k).or_insert_with(g)
                let (mut x, mut k, mut g) = entry_insert(m).unwrap();
                for y in [&mut x, &mut k, &mut g] { self.visit_expr_mut(y); }
                *e = Expr::Verbatim(quote!(vx_entry_or_insert_with(&mut #x, #k, #g)));
            }
            Expr::Match(m) if str_match(m).is_some() => {
                let mut x = str_match(m).unwrap();
                self.visit_expr_mut(&mut x);
                *e = x;
            }
            Expr::MethodCall(_) => {
                if let Expr::MethodCall(m) = e {
                    if ["map", "filter", "filter_map", "flat_map", "rev", "all", "any", "find", "enumerate", "for_each", "fold", "zip", "chain", "skip", "take", "step_by"].contains(&m.method.to_string().as_str()) {
                        if let Expr::Paren(p) = &*m.receiver { if matches!(&*p.expr, Expr::Range(_)) { let r = (*m.receiver).clone(); m.receiver = Box::new(parse_quote!(#r.into_iter())); } }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    // a constructor as a function value
                    for a in m.args.iter_mut() { if let Expr::Path(p) = a { if p.path.is_ident("Some") { *a = parse_quote!(vx_some); } } }
                    let n = m.method.to_string();
                    if n == "as_ref" && has(&self.spec.opts, "path") && match &*m.receiver { Expr::Path(_) => true, Expr::Field(f) => matches!(&f.member, Member::Named(x) if self.spec.opts.iter().any(|o| o == &format!("path={}", x))), _ => false } { m.method = format_ident!("vx_path_ref"); }
                    else if n == "is_null" && has(&self.spec.opts, "ffi") { m.method = format_ident!("vx_is_null"); }
                    else if renamed_here(&n, &self.spec.opts) { m.method = format_ident!("vx_{}", n); }
                }
            }
            Expr::Binary(b) => {
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (l, r) = (b.left.clone(), b.right.clone());
                let lit = is_int_lit(&l) || is_int_lit(&r) || is_len_call(&l) || is_len_call(&r);
                match b.op {
                    BinOp::Eq(_) if !lit => *e = parse_quote!(vx_eq(&(#l), &(#r))),
                    BinOp::Ne(_) if !lit => *e = parse_quote!((!vx_eq(&(#l), &(#r)))),
                    BinOp::Lt(_) if self.ord && !lit => *e = parse_quote!(vx_lt(&(#l), &(#r))),
                    BinOp::Gt(_) if self.ord && !lit => *e = parse_quote!(vx_lt(&(#r), &(#l))),
                    BinOp::Le(_) if self.ord && !lit => *e = parse_quote!((!vx_lt(&(#r), &(#l)))),
                    BinOp::Ge(_) if self.ord && !lit => *e = parse_quote!((!vx_lt(&(#l), &(#r)))),
                    _ if !self.float || is_whole_lit(&l) || is_whole_lit(&r) => {}
                    BinOp::Add(_) => *e = parse_quote!(vx_add(#l, #r)),
                    BinOp::Sub(_) => *e = parse_quote!(vx_sub(#l, #r)),
                    BinOp::Mul(_) => *e = parse_quote!(vx_mul(#l, #r)),
                    BinOp::Div(_) => *e = parse_quote!(vx_div(#l, #r)),
                    BinOp::AddAssign(_) => *e = parse_quote!(#l = vx_add(#l, #r)),
                    BinOp::SubAssign(_) => *e = parse_quote!(#l = vx_sub(#l, #r)),
                    BinOp::MulAssign(_) => *e = parse_quote!(#l = vx_mul(#l, #r)),
                    BinOp::DivAssign(_) => *e = parse_quote!(#l = vx_div(#l, #r)),
                    _ => {}
                }
            }
            Expr::Unary(u) if self.float && matches!(u.op, UnOp::Neg(_)) && !is_int_lit(&u.expr) => {
                self.visit_expr_mut(&mut u.expr);
                let x = &u.expr;
                *e = parse_quote!(vx_neg(#x));
            }
            Expr::Cast(c) => {
                self.visit_expr_mut(&mut c.expr);
                self.visit_type_mut(&mut c.ty);
                let t = c.ty.to_token_stream().to_string();
                // `x as _`: an unsizing coercion
                if (t == "_" || t.replace(' ', "") == "Box<_>") && has(&self.spec.opts, "dyn") { let x = (*c.expr).clone(); *e = x; return; }
                if t == "f32" || t == "f64" {
                    let f = format_ident!("vx_as_{}", t);
                    let x = &c.expr;
                    *e = parse_quote!(#f(#x));
                }
            }
            Expr::Reference(r) => {
                if r.mutability.is_none() {
                    if let Expr::Index(ix) = &*r.expr {
                        if is_range_like(&ix.index) {
                            let mut inner = (*r.expr).clone();
                            self.visit_expr_mut(&mut inner);
                            *e = inner;
                            return;
                        }
                    }
                }
                // `&**x` on a string reference
                if r.mutability.is_none() {
                    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr: a, .. }) = &*r.expr {
                        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr: x, .. }) = &**a {
                            let mut x = (**x).clone();
                            self.visit_expr_mut(&mut x);
                            *e = parse_quote!(vx_deref_str(#x));
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_reference_mut(self, r);
            }
            Expr::Index(ix) if is_range_like(&ix.index) => {
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (b, i) = (&ix.expr, &ix.index);
                *e = parse_quote!(#b.vx_slice(#i));
            }
            Expr::Index(ix) if is_map_field(&ix.expr, &self.spec.opts) || matches!(&*ix.index, Expr::Reference(_)) || matches!(&*ix.index, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => {
                // HashMap indexing
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (b, i) = (&ix.expr, &ix.index);
                *e = parse_quote!((*#b.vx_index(#i)));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
/// X.map(|p| body).collect() whose body updates variables outside the closure: the loop that pushes the
/// values of the body, in order, on a vector
fn desugar_stateful_map(e: &mut Expr) {
    if let Expr::MethodCall(m) = e {
        if (m.method == "collect" || m.method == "collect_vec") && m.args.is_empty() {
            if let Expr::MethodCall(mp) = &*m.receiver {
                if mp.method == "map" && mp.args.len() == 1 {
                    if let Expr::Closure(c) = &mp.args[0] {
                        #[derive(Default)]
                        struct S { bound: BTreeSet<String>, assigned: BTreeSet<String>, ret: bool }
                        fn base(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Field(f) => base(&f.base), Expr::Index(i) => base(&i.expr), Expr::Unary(u) => base(&u.expr), Expr::Paren(p) => base(&p.expr), _ => None } }
                        impl<'a> syn::visit::Visit<'a> for S {
                            fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.bound.insert(p.ident.to_string()); syn::visit::visit_pat_ident(self, p); }
                            fn visit_expr_assign(&mut self, a: &'a ExprAssign) { if let Some(b) = base(&a.left) { self.assigned.insert(b); } syn::visit::visit_expr_assign(self, a); }
                            fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
                                if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) { if let Some(x) = base(&b.left) { self.assigned.insert(x); } }
                                syn::visit::visit_expr_binary(self, b);
                            }
                            fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.ret = true; }
                            fn visit_expr_try(&mut self, _: &'a ExprTry) { self.ret = true; }
                        }
                        let mut s = S::default();
                        syn::visit::Visit::visit_expr_closure(&mut s, c);
                        if c.inputs.len() == 1 && !s.ret && s.assigned.iter().any(|a| !s.bound.contains(a)) {
                            let mut pat = c.inputs[0].clone();
                            if let Pat::Type(t) = &pat { pat = (*t.pat).clone(); }
                            let r = (*mp.receiver).clone();
                            let body = &c.body;
                            let body: Expr = match &**body { Expr::Block(_) => (**body).clone(), b => { let b = b.clone(); parse_quote!({ #b }) } };
                            *e = parse_quote!({ let mut vx_out = Vec::new(); for #pat in #r { let vx_y = #body; vx_out.push(vx_y); } vx_out });
                        }
                    }
                }
            }
        }
    }
}
/// X.for_each(|p| body) is the loop `for p in X { body }`
fn desugar_for_each(e: &mut Expr) {
    if let Expr::MethodCall(m) = e {
        if m.method == "for_each" && m.args.len() == 1 {
            if let Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 && !c.body.to_token_stream().to_string().split(|x: char| !x.is_alphanumeric() && x != '_').any(|t| t == "return") {
                    let mut pat = c.inputs[0].clone();
                    if let Pat::Type(t) = &pat { pat = (*t.pat).clone(); }
                    let r = (*m.receiver).clone();
                    let body: Block = match &*c.body { Expr::Block(b) if b.label.is_none() => b.block.clone(), b => { let b = b.clone(); parse_quote!({ #b; }) } };
                    *e = parse_quote!(for #pat in #r #body);
                }
            }
        }
    }
}
fn entry_chain(m: &ExprMethodCall) -> Option<(Expr, Expr, Expr, Expr)> {
    if m.method != "or_insert_with" { return None; }
    if let Expr::MethodCall(a) = &*m.receiver { if a.method == "and_modify" {
        if let Expr::MethodCall(b) = &*a.receiver { if b.method == "entry" {
            return Some(((*b.receiver).clone(), b.args[0].clone(), a.args[0].clone(), m.args[0].clone()));
        } }
    } }
    None
}
fn entry_insert(m: &ExprMethodCall) -> Option<(Expr, Expr, Expr)> {
    if m.method != "or_insert_with" { return None; }
    if let Expr::MethodCall(b) = &*m.receiver { if b.method == "entry" { return Some(((*b.receiver).clone(), b.args[0].clone(), m.args[0].clone())); } }
    None
}
/// associated functions of std types that become functions of the prelude
const CALLS: &[(&str, &str)] = &[("String::from_utf8", "vx_from_utf8"), ("String::from_iter", "vx_string_from_iter"), ("HashMap::from_iter", "vx_from_iter"), ("HashSet::from_iter", "vx_from_iter"), ("Vec::from_iter", "vx_from_iter")];
fn locked(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(u) = e { if u.method == "unwrap" {
        if let Expr::MethodCall(l) = &*u.receiver { if l.method == "lock" && l.args.is_empty() { return Some((*l.receiver).clone()); } }
    } }
    None
}
fn split_closure_head(h: &str) -> Option<(Vec<String>, String)> {
    let h = h.trim();
    let h = h.strip_prefix('|')?;
    let end = h.find('|')?;
    let (ps, rest) = (&h[..end], &h[end + 1..]);
    let mut out = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    for c in ps.chars() {
        match c { '<' | '(' | '[' => depth += 1, '>' | ')' | ']' => depth -= 1, _ => {} }
        if c == ',' && depth == 0 { out.push(cur.trim().to_string()); cur.clear(); } else { cur.push(c); }
    }
    if !cur.trim().is_empty() { out.push(cur.trim().to_string()); }
    Some((out, rest.trim().to_string()))
}

// ---------------------------------------------------------------- printing
fn print_ts(ts: TokenStream, out: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{\n", "}\n"), Delimiter::Bracket => ("[", "]"), Delimiter::None => (" ", " ") };
                out.push_str(a);
                print_ts(g.stream(), out);
                out.push_str(b);
                if !b.ends_with('\n') { out.push(' '); }
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' { out.push('\n'); }
                else if p.spacing() == proc_macro2::Spacing::Alone { out.push(' '); }
            }
            x => { out.push_str(&x.to_string()); out.push(' '); }
        }
    }
}
fn subst(mut s: String, phs: &[String]) -> String {
    for _ in 0..4 {
        for (i, p) in phs.iter().enumerate() {
            let key = format!("__VXP_{}__", i);
            if s.contains(&key) { s = s.replace(&key, &format!("\n{}\n", p.trim_end())); }
        }
    }
    s
}


/// a match on text: as a chain of comparisons, in the order of the arms
fn str_match(m: &ExprMatch) -> Option<Expr> {
    fn lits(p: &Pat) -> Option<Vec<Expr>> {
        match p {
            Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![parse_quote!(#s)]),
            Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(lits(c)?); } Some(v) }
            _ => None,
        }
    }
    let n = m.arms.len();
    if n < 2 || m.arms.iter().any(|a| a.guard.is_some()) || m.arms[..n - 1].iter().any(|a| lits(&a.pat).is_none()) { return None; }
    let last = &m.arms[n - 1];
    let b = &last.body;
    let mut out: Expr = match &last.pat { Pat::Wild(_) => parse_quote!({ #b }), Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => { let i = &i.ident; parse_quote!({ let #i = vx_ms; #b }) } _ => return None };
    for a in m.arms[..n - 1].iter().rev() {
        let b = &a.body;
        let mut c: Option<Expr> = None;
        for l in lits(&a.pat)? { let t: Expr = parse_quote!(vx_eq(vx_ms, &(#l))); c = Some(match c { None => t, Some(c) => parse_quote!(#c || #t) }); }
        out = parse_quote!(if #c { #b } else #out);
    }
    let mut x = &*m.expr;
    loop {
        match x {
            Expr::Paren(p) => x = &p.expr,
            Expr::MethodCall(c) if c.args.is_empty() && ["as_ref", "as_str", "deref"].contains(&c.method.to_string().as_str()) => x = &c.receiver,
            Expr::Reference(r) if r.mutability.is_none() => match &*r.expr { Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => x = expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) => x = &ix.expr, _ => break },
            _ => break,
        }
    }
    Some(parse_quote!({ let vx_ms = &(#x); #out }))
}

// ---------------------------------------------------------------- macro_rules! expansion
thread_local! { static MACRO_DIR: std::cell::RefCell<PathBuf> = std::cell::RefCell::new(PathBuf::new()); }
/// `*p = v`
fn ptr_write(e: &Expr) -> Option<(Expr, Expr)> {
    if let Expr::Assign(a) = e { if let Expr::Unary(u) = &*a.left { if matches!(u.op, UnOp::Deref(_)) { return Some(((*u.expr).clone(), (*a.right).clone())); } } }
    None
}
// The repository's own declarative macros, invoked at item level, are expanded token by token.
#[derive(Clone)]
enum Bind { One(TokenStream), Rep(Vec<HashMap<String, Bind>>) }
type Binds = HashMap<String, Bind>;
fn tts(t: &TokenStream) -> Vec<TokenTree> { t.clone().into_iter().collect() }
fn is_p(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }
/// after `$( .. )`: the separator, and the index following the repetition operator
fn rep_tail(p: &[TokenTree], mut i: usize) -> Option<(Option<TokenTree>, usize)> {
    let op = |t: Option<&TokenTree>| is_p(t, '*') || is_p(t, '+') || is_p(t, '?');
    let mut sep = None;
    if !op(p.get(i)) { sep = p.get(i).cloned(); i += 1; }
    if op(p.get(i)) { Some((sep, i + 1)) } else { None }
}
fn mac_match(p: &[TokenTree], t: &[TokenTree], pos: &mut usize, b: &mut Binds) -> bool {
    let mut i = 0;
    while i < p.len() {
        if is_p(p.get(i), '$') {
            match p.get(i + 1) {
                Some(TokenTree::Ident(n)) if is_p(p.get(i + 2), ':') => {
                    let frag = match p.get(i + 3) { Some(x) => x.to_string(), None => return false };
                    let stop = p.get(i + 4).map(|x| x.to_string());
                    let start = *pos;
                    match frag.as_str() {
                        "ident" => { if !matches!(t.get(*pos), Some(TokenTree::Ident(_))) { return false; } *pos += 1; }
                        "tt" | "literal" | "lifetime" | "block" => { if t.get(*pos).is_none() { return false; } *pos += 1; }
                        _ => { while *pos < t.len() && Some(t[*pos].to_string()) != stop { *pos += 1; } if *pos == start { return false; } }
                    }
                    b.insert(n.to_string(), Bind::One(t[start..*pos].iter().cloned().collect()));
                    i += 4;
                }
                Some(TokenTree::Group(g)) => {
                    let sub = tts(&g.stream());
                    let (sep, next) = match rep_tail(p, i + 2) { Some(x) => x, None => return false };
                    let mut all = vec![];
                    loop {
                        let (mut q, mut bb) = (*pos, Binds::new());
                        if *pos >= t.len() || !mac_match(&sub, t, &mut q, &mut bb) || q == *pos { break; }
                        *pos = q;
                        all.push(bb);
                        if let Some(s) = &sep { if t.get(*pos).map(|x| x.to_string()) == Some(s.to_string()) { *pos += 1; } else { break; } }
                    }
                    let id = format!("\u{0}{}", names(&sub).join(" "));
                    b.insert(id, Bind::Rep(all));
                    i = next;
                }
                _ => return false,
            }
            continue;
        }
        match (&p[i], t.get(*pos)) {
            (TokenTree::Group(g), Some(TokenTree::Group(h))) if g.delimiter() == h.delimiter() => {
                let (mut q, inner) = (0, tts(&h.stream()));
                if !mac_match(&tts(&g.stream()), &inner, &mut q, b) || q != inner.len() { return false; }
            }
            (x, Some(y)) if !matches!(x, TokenTree::Group(_)) && x.to_string() == y.to_string() => {}
            _ => return false,
        }
        *pos += 1;
        i += 1;
    }
    true
}
/// the `$names` mentioned
fn names(p: &[TokenTree]) -> Vec<String> {
    let mut out = vec![];
    for i in 0..p.len() {
        if let TokenTree::Group(g) = &p[i] { out.extend(names(&tts(&g.stream()))); }
        if is_p(p.get(i), '$') { if let Some(TokenTree::Ident(n)) = p.get(i + 1) { out.push(n.to_string()); } }
    }
    out
}
fn mac_emit(p: &[TokenTree], b: &Binds) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < p.len() {
        if is_p(p.get(i), '$') {
            match p.get(i + 1) {
                Some(TokenTree::Ident(n)) if n == "crate" => { out.extend(quote!(crate)); i += 2; continue; }
                Some(TokenTree::Ident(n)) => { match b.get(&n.to_string()) { Some(Bind::One(t)) => out.extend(t.clone()), _ => return None } i += 2; continue; }
                Some(TokenTree::Group(g)) => {
                    let sub = tts(&g.stream());
                    let used = names(&sub);
                    let (sep, next) = rep_tail(p, i + 2)?;
                    let all = b.iter().find_map(|(k, v)| match v { Bind::Rep(r) if k.starts_with('\u{0}') && k[1..].split(' ').any(|x| used.iter().any(|u| u == x)) => Some(r), _ => None })?;
                    for (k, bb) in all.iter().enumerate() {
                        if k > 0 { if let Some(s) = &sep { out.extend(std::iter::once(s.clone())); } }
                        let mut m = b.clone();
                        m.extend(bb.clone());
                        out.extend(mac_emit(&sub, &m)?);
                    }
                    i = next;
                    continue;
                }
                _ => return None,
            }
        }
        match &p[i] {
            TokenTree::Ident(n) if n == "stringify" && is_p(p.get(i + 1), '!') => {
                if let Some(TokenTree::Group(g)) = p.get(i + 2) {
                    let s = mac_emit(&tts(&g.stream()), b)?.to_string();
                    out.extend(quote!(#s));
                    i += 3;
                    continue;
                }
            }
            TokenTree::Group(g) => { let mut h = proc_macro2::Group::new(g.delimiter(), mac_emit(&tts(&g.stream()), b)?); h.set_span(g.span()); out.extend(std::iter::once(TokenTree::Group(h))); i += 1; continue; }
            _ => {}
        }
        out.extend(std::iter::once(p[i].clone()));
        i += 1;
    }
    Some(out)
}
fn mac_expand(rules: &TokenStream, input: &TokenStream) -> Option<TokenStream> {
    let r = tts(rules);
    let mut i = 0;
    while i + 3 < r.len() + 1 && i < r.len() {
        let (p, body) = match (r.get(i), r.get(i + 3)) { (Some(TokenTree::Group(p)), Some(TokenTree::Group(b))) => (p, b), _ => return None };
        let (mut pos, mut b, inp) = (0, Binds::new(), tts(input));
        if mac_match(&tts(&p.stream()), &inp, &mut pos, &mut b) && pos == inp.len() { return mac_emit(&tts(&body.stream()), &b); }
        i += 4;
        if is_p(r.get(i), ';') { i += 1; }
    }
    None
}
fn find_macro(dir: &Path, name: &str) -> Option<TokenStream> {
    let mut es: Vec<PathBuf> = std::fs::read_dir(dir).ok()?.filter_map(|e| e.ok().map(|e| e.path())).collect();
    es.sort();
    for e in es {
        if e.is_dir() { if let Some(x) = find_macro(&e, name) { return Some(x); } continue; }
        if e.extension().map(|x| x != "rs").unwrap_or(true) { continue; }
        let t = std::fs::read_to_string(&e).ok()?;
        if !t.contains("macro_rules!") { continue; }
        if let Ok(f) = syn::parse_file(&t) {
            for it in &f.items { if let Item::Macro(m) = it { if m.mac.path.is_ident("macro_rules") && m.ident.as_ref().map(|i| i == name).unwrap_or(false) { return Some(m.mac.tokens.clone()); } } }
        }
    }
    None
}
fn expand_items(root: &Path, f: &mut File) {
    let items = std::mem::take(&mut f.items);
    for it in items {
        if let Item::Macro(m) = &it {
            if m.ident.is_none() {
                let x = m.mac.path.segments.last().and_then(|s| find_macro(root, &s.ident.to_string())).and_then(|r| mac_expand(&r, &m.mac.tokens)).and_then(|t| syn::parse2::<File>(t).ok());
                if let Some(x) = x { f.items.extend(x.items); continue; }
            }
        }
        f.items.push(it);
    }
}

// ---------------------------------------------------------------- item lookup
struct Src { root: PathBuf, files: HashMap<String, File> }
impl Src {
    fn file(&mut self, f: &str) -> R<&File> {
        if !self.files.contains_key(f) {
            let p = self.root.join(f);
            let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
            let mut a = syn::parse_file(&t).map_err(|e| format!("{}: {}", p.display(), e))?;
            expand_items(&self.root, &mut a);
            self.files.insert(f.to_string(), a);
        }
        Ok(&self.files[f])
    }
}
fn not_test(attrs: &[Attribute]) -> bool { !attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)")) }
fn ty_name(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), Type::Reference(r) => ty_name(&r.elem), _ => t.to_token_stream().to_string() }
}
struct Found { sig: Signature, block: Block, imp: Option<ItemImpl> }
fn find_fn(f: &File, path: &str) -> R<Found> {
    let (ty, name) = match path.rfind("::") { Some(i) => (Some(&path[..i]), &path[i + 2..]), None => (None, path) };
    let (ty, tr) = match ty { Some(t) => match t.find('/') { Some(i) => (Some(&t[..i]), Some(&t[i + 1..])), None => (Some(t), None) }, None => (None, None) };
    let mut hits = vec![];
    for it in &f.items {
        match it {
            Item::Fn(x) if ty.is_none() && x.sig.ident == name && not_test(&x.attrs) => hits.push(Found { sig: x.sig.clone(), block: (*x.block).clone(), imp: None }),
            Item::Impl(im) if ty.is_some() && not_test(&im.attrs) => {
                if ty_name(&im.self_ty) != ty.unwrap() { continue; }
                let trn = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                if let Some(t) = tr { if trn.as_deref() != Some(t) { continue; } }
                for ii in &im.items {
                    if let ImplItem::Fn(x) = ii {
                        if x.sig.ident == name {
                            let mut e = im.clone();
                            e.items.clear();
                            hits.push(Found { sig: x.sig.clone(), block: x.block.clone(), imp: Some(e) });
                        }
                    }
                }
            }
            Item::Trait(t) if ty == Some(&t.ident.to_string()) => {
                for ii in &t.items {
                    if let TraitItem::Fn(x) = ii {
                        if x.sig.ident == name { if let Some(b) = &x.default { hits.push(Found { sig: x.sig.clone(), block: b.clone(), imp: None }); } }
                    }
                }
            }
            _ => {}
        }
    }
    match hits.len() { 1 => Ok(hits.pop().unwrap()), 0 => Err(format!("function {} not found", path)), n => Err(format!("function {} found {} times", path, n)) }
}
struct Flatten;
impl VisitMut for Flatten {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_path_mut(&mut self, p: &mut Path_) { visit_mut::visit_path_mut(self, p); flatten_path(p); }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) { *v = Visibility::Inherited; }
    fn visit_type_param_mut(&mut self, t: &mut TypeParam) { let ty: Type = { let i = &t.ident; parse_quote!(#i) }; std_bounds(&ty, &mut t.bounds); visit_mut::visit_type_param_mut(self, t); }
    fn visit_predicate_type_mut(&mut self, t: &mut PredicateType) { let ty = t.bounded_ty.clone(); std_bounds(&ty, &mut t.bounds); visit_mut::visit_predicate_type_mut(self, t); }
}
/// std traits in bounds become the specified stand-ins of the prelude
fn std_bounds(ty: &Type, bounds: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
    for b in bounds.iter_mut() {
        if let TypeParamBound::Trait(t) = b {
            let last = t.path.segments.last().unwrap().clone();
            match last.ident.to_string().as_str() {
                "AsRef" if last.arguments.to_token_stream().to_string().contains("Path") => t.path = parse_quote!(VxAsPath),
                "Into" => { let a = &last.arguments; t.path = parse_quote!(VxInto #a); }
                "PartialEq" if last.arguments.is_empty() => t.path = parse_quote!(VxEq<#ty>),
                "IntoIterator" => if let PathArguments::AngleBracketed(a) = &last.arguments {
                    if let Some(GenericArgument::AssocType(x)) = a.args.first() { let it = &x.ty; t.path = parse_quote!(VxIntoIter<#it>); }
                },
                _ => {}
            }
        }
    }
}
fn opt<'a>(opts: &'a [String], k: &str) -> Option<&'a str> { opts.iter().find_map(|o| o.strip_prefix(&format!("{}=", k))) }
fn has(opts: &[String], k: &str) -> bool { opts.iter().any(|o| o == k) }

fn emit_item(src: &mut Src, file: &str, kind: &str, name: &str, opts: &[String]) -> R<String> {
    let f = src.file(file)?;
    let mut out = String::new();
    for it in &f.items {
        let mut it = it.clone();
        let hit = match (&it, kind) {
            (Item::Const(c), "const") => c.ident == name,
            (Item::Struct(c), "struct") => c.ident == name,
            (Item::Enum(c), "enum") => c.ident == name,
            (Item::Type(c), "type") => c.ident == name,
            (Item::Trait(c), "trait") => c.ident == name,
            _ => false,
        };
        if !hit { continue; }
        Flatten.visit_item_mut(&mut it);
        match &mut it {
            Item::Const(c) => {
                // Verus wants an explicit 'static
                if let Type::Reference(r) = &mut *c.ty { if r.lifetime.is_none() { r.lifetime = Some(Lifetime::new("'static", Span::call_site())); } }
            }
            Item::Struct(s) => {
                if let Some(fs) = opt(opts, "fields") {
                    let keep: Vec<&str> = fs.split(',').collect();
                    if let Fields::Named(n) = &mut s.fields {
                        let have: Vec<String> = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                        for k in &keep { if !have.iter().any(|h| h == k) { return Err(format!("field {} of {} not found", k, name)); } }
                        n.named = n.named.iter().filter(|f| keep.contains(&f.ident.as_ref().unwrap().to_string().as_str())).cloned().collect();
                    }
                }
            }
            _ => {}
        }
        let mut body = String::new();
        print_ts(it.to_token_stream(), &mut body);
        if has(opts, "external") { out.push_str("#[verifier::external_body]\n"); }
        for p in opts.iter().filter_map(|o| o.strip_prefix("reject=")) { out.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p)); }
        out.push_str(&body);
        let gen = opt(opts, "generics").unwrap_or("");
        let gb = opt(opts, "bounds").map(|b| b.replace('~', " ")).unwrap_or(gen.to_string());
        if has(opts, "clone") {
            out.push_str(&format!("\nimpl{gb} Clone for {name}{gen} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
        }
        if has(opts, "copy") { out.push_str(&format!("impl{gb} Copy for {name}{gen} {{}}\n")); }
        if has(opts, "eq") {
            out.push_str(&format!("impl{gb} VxEq<{name}{gen}> for {name}{gen} {{ open spec fn eqs(&self, o: &{name}{gen}) -> bool {{ *self == *o }} #[verifier::external_body] fn vx_eq_(&self, o: &{name}{gen}) -> (r: bool) {{ unimplemented!() }} }}\n"));
        }
        if has(opts, "hash") {
            out.push_str(&format!("#[verifier::external] impl PartialEq for {name} {{ fn eq(&self, _o: &Self) -> bool {{ unimplemented!() }} }}\n#[verifier::external] impl Eq for {name} {{ }}\n#[verifier::external] impl Hash for {name} {{ fn hash<H: std::hash::Hasher>(&self, _s: &mut H) {{ unimplemented!() }} }}\n"));
        }
        if let Some(p) = opt(opts, "raw") { out = p.to_string(); }
        return Ok(out);
    }
    Err(format!("{} {} not found in {}", kind, name, file))
}

struct Emitted { text: String, info: Value }
fn emit_fn(src: &mut Src, s: &FnSpec, probe: bool) -> R<Emitted> {
    MACRO_DIR.with(|d| *d.borrow_mut() = src.root.join(&s.file).parent().unwrap().to_path_buf());
    let f = src.file(&s.file)?;
    let found = match (find_fn(f, &s.path), opt(&s.opts, "default")) {
        // a method left to the default of its trait
        (Err(e), Some(d)) if e.ends_with("not found") => {
            let (file, path) = d.split_once(':').ok_or("default=FILE:TRAIT::METHOD")?;
            let mut x = find_fn(src.file(file)?, path)?;
            let t = s.path.rsplit_once("::").ok_or(e)?.0;
            let (ty, tr) = t.split_once('/').ok_or("default needs TYPE/TRAIT")?;
            let (ty, tr) = (format_ident!("{}", ty), format_ident!("{}", tr));
            x.imp = Some(parse_quote!(impl #tr for #ty {}));
            x
        }
        (r, _) => r?,
    };
    let mut sig = found.sig.clone();
    if has(&s.opts, "ffi") { sig.abi = None; sig.unsafety = None; }
    let assume = has(&s.opts, "assume") || s.imported_from.is_some();
    let mut rw = Rw { spec: s, phs: vec![], nloop: 0, nclosure: 0, used_at: Default::default(), used_closures: Default::default(), used_loops: Default::default(), err: None, dropped: Default::default(), float: has(&s.opts, "float"), ord: has(&s.opts, "ord"), self_ty: None, probe };
    let mut block = found.block.clone();
    let mut prelude_lets: Vec<TokenStream> = vec![];
    // signature
    for a in sig.inputs.iter_mut() {
        if let FnArg::Receiver(r) = a { if r.reference.is_none() && r.mutability.is_some() {
            // `mut self`
            r.mutability = None;
            prelude_lets.push(quote!(let mut vx_self = self;));
            struct S;
            impl VisitMut for S { fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { *p = parse_quote!(vx_self); } } }
            S.visit_block_mut(&mut block);
        } }
        if let FnArg::Typed(p) = a {
            p.attrs.clear();
            if !matches!(&*p.pat, Pat::Ident(_)) {
                let id = format_ident!("vx_arg{}", prelude_lets.len());
                let pat = p.pat.clone();
                prelude_lets.push(quote!(let #pat = #id;));
                p.pat = parse_quote!(#id);
            }
            if let Some(n) = opt(&s.opts, "nomut") { if let Pat::Ident(i) = &mut *p.pat { if i.ident == n { i.mutability = None; } } }
        }
    }
    Flatten.visit_signature_mut(&mut sig);
    if let Some(r) = opt(&s.opts, "rename_to") { sig.ident = format_ident!("{}", r); }
    let mut shape = json!({});
    if !assume {
        let entry = rw.at("entry");
        rw.visit_block_mut(&mut block);
        if let Some(e) = rw.err { return Err(e); }
        if probe {
            // vacuity guard: reachable with the precondition; the branch is arbitrary, so that it does not hide what follows
            let ph = rw.ph("if vx_probe() { assert(false); }".into());
            block.stmts.insert(0, Rw::stmt_verb(quote!(#ph)));
        }
        if let Some(ph) = entry { block.stmts.insert(0, Rw::stmt_verb(quote!(#ph))); }
        let end = rw.at("end");
        if let Some(ph) = end {
            let has_tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
            let pos = if has_tail { block.stmts.len() - 1 } else { block.stmts.len() };
            block.stmts.insert(pos, Rw::stmt_verb(quote!(#ph)));
        }
        // `bind-tail NAME`: name the tail expression so that ghost code can follow it
        if let Some(k) = s.at.iter().find(|(k, _)| k.starts_with("tail ")).cloned() {
            rw.used_at.insert(k.0.clone());
            if let Some(Stmt::Expr(te, None)) = block.stmts.pop() {
                let id = format_ident!("{}", k.0[5..].trim());
                let txt = rw.ph(k.1.clone());
                let ty = match &sig.output { ReturnType::Type(_, t) if !quote!(#t).to_string().contains("impl ") => quote!(: #t), _ => quote!() };
                block.stmts.push(Rw::stmt_verb(quote!(let #id #ty = #te;)));
                block.stmts.push(Rw::stmt_verb(quote!(#txt)));
                block.stmts.push(Rw::stmt_verb(quote!(#id)));
            } else { return Err("no tail expression".into()); }
        }
        for (k, _) in &s.at { if !rw.used_at.contains(k) { return Err(format!("anchor `{}` lost", k)); } }
        for k in s.loops.keys() { if !rw.used_loops.contains(k) { return Err(format!("loop {} lost", k)); } }
        for k in s.closures.keys() { if !rw.used_closures.contains(k) { return Err(format!("closure {} lost", k)); } }
        shape = json!({"loops": rw.nloop, "closures": rw.nclosure});
        if !prelude_lets.is_empty() { block.stmts.insert(0, Rw::stmt_verb(quote!(#(#prelude_lets)*))); }
    }
    let mut text = String::new();
    let spec_ph = rw.ph(s.spec.clone());
    // return type with a name
    let out_ty = match &sig.output { ReturnType::Default => quote!(()), ReturnType::Type(_, t) => quote!(#t) };
    let ret = s.ret.clone().unwrap_or("vx_r".into());
    let ret_name = format_ident!("{}", ret.split(':').next().unwrap().trim());
    // `impl Trait` in return position is not supported: overridden by `#ret r: T`
    let out_ty = if ret.contains(':') { let t: Type = syn::parse_str(ret.splitn(2, ':').nth(1).unwrap()).map_err(|e| e.to_string())?; quote!(#t) } else { out_ty };
    let where_ = sig.generics.where_clause.take();
    let (gen, ident) = (&sig.generics, &sig.ident);
    // `impl Trait` arguments are kept
    let inputs = &sig.inputs;
    let mut head = TokenStream::new();
    let arrow = if out_ty.to_string() == "()" && !ret.contains(':') && matches!(sig.output, ReturnType::Default) { quote!() } else { quote!(-> (#ret_name: #out_ty)) };
    let body = if assume { quote!({ unimplemented!() }) } else { let st = &block.stmts; quote!({ #(#st)* }) };
    let spinoff = if has(&s.opts, "spinoff") { quote!(#[verifier::spinoff_prover]) } else { quote!() };
    let rl = match opt(&s.opts, "rlimit") { Some(r) => { let l: Expr = syn::parse_str(r).unwrap(); quote!(#[verifier::rlimit(#l)]) } None => quote!() };
    let attr = if assume { quote!(#[verifier::external_body]) } else { quote!(#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #spinoff #rl) };
    let attr = if has(&s.opts, "nodecreases") { quote!(#attr #[verifier::exec_allows_no_decreases_clause]) } else { attr };
    head.extend(quote!(#attr fn #ident #gen ( #inputs ) #arrow #where_ #spec_ph #body));
    let imp_ph = rw.ph(s.imp.clone());
    let full = match &found.imp {
        Some(im) => {
            let mut im = im.clone();
            Flatten.visit_item_impl_mut(&mut im);
            let (g, w, t) = (&im.generics, &im.generics.where_clause, &im.self_ty);
            let mut g2 = g.clone();
            g2.where_clause = None;
            match (&im.trait_, has(&s.opts, "trait")) {
                (Some((_, p, _)), true) => quote!(impl #g2 #p for #t #w { #imp_ph #head }),
                _ => quote!(impl #g2 #t #w { #head }),
            }
        }
        None => head,
    };
    print_ts(full, &mut text);
    let text = subst(text, &rw.phs);
    let mut calls = BTreeSet::new();
    {
        struct C<'b>(&'b mut BTreeSet<String>);
        impl<'b, 'a> syn::visit::Visit<'a> for C<'b> {
            fn visit_expr_call(&mut self, c: &'a ExprCall) { if let Expr::Path(p) = &*c.func { self.0.insert(p.path.segments.last().unwrap().ident.to_string()); } syn::visit::visit_expr_call(self, c); }
            fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) { self.0.insert(c.method.to_string()); syn::visit::visit_expr_method_call(self, c); }
        }
        syn::visit::Visit::visit_block(&mut C(&mut calls), &found.block);
    }
    Ok(Emitted { text, info: json!({"fn": s.path, "file": s.file, "assumed": assume && s.imported_from.is_none(), "imported_from": s.imported_from, "shape": shape, "yesno": s.closures.iter().filter(|(_, c)| bool_ret(c).is_some()).map(|(k, _)| *k).collect::<Vec<_>>(), "dropped": rw.dropped, "calls": calls, "hash": fnv(&found.sig.to_token_stream().to_string(), &found.block.to_token_stream().to_string())}) })
}

/// name of the result of a closure contract that answers yes or no
fn bool_ret(c: &(String, String)) -> Option<String> {
    let (_, r) = split_closure_head(&c.0)?;
    let r = r.trim_start_matches("->").trim().strip_prefix('(')?.strip_suffix(')')?.to_string();
    let mut i = r.splitn(2, ':');
    let n = i.next()?.trim().to_string();
    if i.next()?.trim() == "bool" { Some(n) } else { None }
}
fn negated(c: &(String, String)) -> Option<(String, String)> {
    let n = bool_ret(c)?;
    let mut out = String::new();
    let mut word = String::new();
    for ch in c.1.chars().chain(std::iter::once('\n')) {
        if ch.is_alphanumeric() || ch == '_' { word.push(ch); continue; }
        if word == n { out.push_str(&format!("(!{})", n)); } else { out.push_str(&word); }
        word.clear();
        out.push(ch);
    }
    Some((c.0.clone(), out))
}
fn fnv(a: &str, b: &str) -> String { let mut h = 0xcbf29ce484222325u64; for x in a.bytes().chain(b.bytes()) { h ^= x as u64; h = h.wrapping_mul(0x100000001b3); } format!("{:016x}", h) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("vx REPO_SRC CONTRACTS_DIR UNIT OUT"); std::process::exit(2); }
    let mut src = Src { root: PathBuf::from(&a[1]), files: HashMap::new() };
    let dir = PathBuf::from(&a[2]);
    let unit = &a[3];
    let flag = |k: &str| -> Vec<String> { a.windows(2).filter(|w| w[0] == k).map(|w| w[1].clone()).collect() };
    let (demote, drop, negate) = (flag("--demote"), flag("--drop"), flag("--negate"));
    let probe = a.iter().any(|x| x == "--probe");
    let mut lost: Vec<Value> = vec![];
    let mut fns: Vec<Value> = vec![];
    let parts = match parse_unit(&dir.join(format!("{}.vx", unit))) { Ok(p) => p, Err(e) => { eprintln!("{}", e); std::process::exit(2); } };
    let mut out = String::new();
    let mut preludes: Vec<String> = vec!["base".into()];
    let mut body = String::new();
    for p in &parts {
        match p {
            Part::Include(n) => preludes.push(n.clone()),
            Part::Raw(t) => { body.push_str("// @@raw\n"); body.push_str(t); }
            Part::Item { file, kind, name, opts } => match emit_item(&mut src, file, kind, name, opts) {
                Ok(t) => { body.push_str(&format!("// @@item {} {}\n{}\n", file, name, t)); }
                Err(e) => lost.push(json!({"item": format!("{} {}", kind, name), "why": e})),
            },
            Part::Fn(s) => {
                if drop.contains(&s.path) { lost.push(json!({"fn": s.path, "why": "dropped"})); continue; }
                let mut s = s.clone();
                if demote.contains(&s.path) { s.opts.push("assume".into()); }
                // --negate FN@K: the contract of closure K for the negation of its result
                for k in s.closures.keys().cloned().collect::<Vec<_>>() {
                    if negate.contains(&format!("{}@{}", s.path, k)) { let c = s.closures.get_mut(&k).unwrap(); if let Some(n) = negated(c) { *c = n; } }
                }
                let r = emit_fn(&mut src, &s, probe);
                let r = match r {
                    Err(e) if !has(&s.opts, "assume") => { lost.push(json!({"fn": s.path, "why": e})); s.opts.push("assume".into()); emit_fn(&mut src, &s, probe) }
                    r => r,
                };
                match r {
                    Ok(e) => { body.push_str(&format!("// @@fn {} {}\n{}\n", s.file, s.path, e.text)); fns.push(e.info); }
                    Err(e) => lost.push(json!({"fn": s.path, "why": e})),
                }
            }
            Part::Use { unit: u, path } => {
                let ps = match parse_unit(&dir.join(format!("{}.vx", u))) { Ok(p) => p, Err(e) => { eprintln!("{}", e); std::process::exit(2); } };
                let mut done = false;
                for q in ps {
                    if let Part::Fn(mut s) = q {
                        if s.path == *path {
                            s.imported_from = Some(u.clone());
                            match emit_fn(&mut src, &s, probe) {
                                Ok(e) => { body.push_str(&format!("// @@use {} {}\n{}\n", s.file, s.path, e.text)); fns.push(e.info); }
                                Err(e) => lost.push(json!({"fn": s.path, "why": e})),
                            }
                            done = true;
                        }
                    }
                }
                if !done { eprintln!("no contract {} in {}", path, u); std::process::exit(2); }
            }
        }
    }
    out.push_str("#![allow(unused, non_snake_case, dead_code)]\n#![verifier::allow(undeclared_external_trait)]\nuse vstd::prelude::*;\n");
    for p in &preludes {
        let t = std::fs::read_to_string(dir.join(format!("prelude/{}.rs", p))).unwrap_or_else(|e| { eprintln!("{}: {}", p, e); std::process::exit(2) });
        out.push_str(&format!("// @@prelude {}\n{}\n", p, t));
        out.push_str(&format!("use {}::*;\n", p));
    }
    out.push_str("use std::collections::{HashMap, HashSet};\nuse std::ops::Range;\nuse core::cmp::Ordering;\nuse std::hash::Hash;\nverus! {\n");
    let groups: Vec<String> = preludes.iter().filter(|p| std::fs::read_to_string(dir.join(format!("prelude/{}.rs", p))).unwrap().contains(&format!("broadcast group {}_axioms", p))).map(|p| format!("crate::{}::{}_axioms", p, p)).collect();
    out.push_str(&format!("broadcast use {{ {} }};\n", groups.join(", ")));
    out.push_str(&body);
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(&a[4], out).unwrap();
    println!("{}", json!({"unit": unit, "lost": lost, "fns": fns}));
}
