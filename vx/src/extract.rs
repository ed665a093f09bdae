//! Mechanical extraction of the crate's real functions into one Verus file, with the
//! contracts spliced in.  The executable text is kept verbatim except for the rewrite
//! rules listed in `RULES` (each application is counted and reported).
use crate::contracts::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone, Debug)]
struct Edit {
    s: usize,
    e: usize,
    t: String,
    prio: i32,
    seq: usize,
}

pub struct Extractor {
    c: Contracts,
    used: BTreeSet<String>,
    rules: BTreeMap<String, usize>,
    dropped: Vec<(String, String)>,
    trusted: Vec<(String, String)>,
    under_contract: Vec<String>,
    uncontracted: Vec<String>,
    lost: Vec<String>,
    clauses: Vec<(String, String, Vec<String>, String)>, // fn, kind, tags, text ; index = id
    fns: Vec<(String, Vec<String>, usize)>, // key, tags, exec stmts
    loops: BTreeMap<String, String>, // the shape of a body: its loops in order, its closures
    pub extra: Option<String>, // code generated by the derive macros of the crate, as module derived
    pub probe: bool,                // assert(false) where a function returns
    pub stub: BTreeSet<String>,      // functions the verifier does not take on this tree: contract assumed, body dropped
    stubbed: Vec<String>,
    calls: BTreeMap<String, Vec<String>>,
}

pub const RULES: &[(&str, &str)] = &[
    ("macro-expand", "uses of macro_rules macros defined in the same file are replaced by their textual expansion"),
    ("try", "E? in a function returning Result becomes match E { Ok(v) => v, Err(e) => return Err(From::from(e)) } (its definition)"),
    ("map_err", "E.map_err(F) becomes match E { Ok(v) => Ok(v), Err(e) => Err(F(e)) } (its definition, F beta-reduced)"),
    ("ctor-eta", "a datatype constructor passed to .map() is eta-expanded to a closure"),
    ("assert_ne", "assert_ne!(a, b, ..) becomes assert!(!(a == b))"),
    ("assert_eq", "assert_eq!(a, b, ..) becomes assert!(a == b)"),
    ("panic-msg", "panic!(..) with a formatted message loses the message"),
    ("from_be_bytes", "uN::from_be_bytes(x) calls the trusted wrapper uN_from_be_bytes(x)"),
    ("to_be_bytes", "x.to_be_bytes() calls the trusted wrapper trait method be_bytes"),
    ("ptr-cast", "unsafe { &*(E as *const [u8] as *const T) } calls the trusted cast function into_T(E)"),
    ("reserve", "Vec::with_capacity(n) and v.reserve(n) call wrappers whose trusted contract demands that n elements are held in memory already"),
    ("push_str", "s.push_str(x) of two variables calls a verified function that says what the text of x is, for each type that dereferences to str"),
    ("format-display", "format!(\"{}\", x) calls a trusted function returning the displayed text of x, of which only is known that it is a function of x"),
    ("format", "format!(..) calls a trusted function returning an unspecified String"),
    ("visibility", "items, fields and inherent methods are made pub (specifications may mention them)"),
    ("derive", "derives are dropped, except those listed by the contract file"),
    ("hoist", "functions and constants nested in a function body are moved in front of it"),
    ("fold", "X.fold(INIT, |a, c| BODY) becomes { let mut acc = INIT; for it in X { acc = { let a = acc; let c = it; BODY }; } acc } (its definition)"),
    ("for-desugar", "for P in E BODY becomes { let mut it = E; loop { match it.next() { None => break, Some(P) => BODY } } } (its definition for an iterator E)"),
    ("map-collect", "X.map(F).collect() becomes map_collect(X, F), a verified function whose body is X.map(F).collect()"),
    ("try-collect", "X.map(F).collect::<Result<Vec<_>, E>>() becomes try_collect(X, F), a verified loop that pushes F's answers and stops at the first error"),
    ("enumerate", "for (i, P) in X.enumerate() becomes a counter variable and for P in X"),
    ("closure-pattern", "a closure parameter that is a pattern becomes a variable bound to the pattern by a let at the start of the closure body"),
    ("mut-self", "fn f(mut self) B becomes fn f(self) { let mut self__ = self; B with self__ for self }"),
    ("cfg-test", "#[cfg(test)] items dropped"),
];

fn norm(s: &str) -> String {
    let re = regex::Regex::new(r"'[a-z_]+\s*,?\s*").unwrap();
    let s = re.replace_all(s, "").to_string();
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    let s = s.replace("<>", "");
    s.replace("dyn", "dyn ")
}
fn toks<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn impl_key(i: &syn::ItemImpl) -> String {
    let ty = norm(&toks(&*i.self_ty));
    match &i.trait_ {
        None => ty,
        Some((_, p, _)) => format!("{} for {}", norm(&toks(p)), ty),
    }
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && toks(a).contains("test"))
}

fn cfg_feature(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && toks(a).contains("feature"))
}

fn range<T: Spanned>(t: &T) -> std::ops::Range<usize> {
    t.span().byte_range()
}

struct FileCx<'a> {
    text: &'a str,
    rel: String,
    edits: Vec<Edit>,
}

impl<'a> FileCx<'a> {
    fn ed(&mut self, s: usize, e: usize, t: impl Into<String>, prio: i32) {
        let seq = self.edits.len();
        self.edits.push(Edit { s, e, t: t.into(), prio, seq });
    }
    /// text before an expression that ends at `end`: of several starting at the same place the outermost comes first
    fn wrap(&mut self, s: usize, end: usize, t: impl Into<String>) {
        self.edits.push(Edit { s, e: s, t: t.into(), prio: 20, seq: usize::MAX - end });
    }
    fn render(&self, r: std::ops::Range<usize>) -> Result<String, String> {
        let mut es: Vec<&Edit> = self.edits.iter().filter(|e| e.s >= r.start && e.e <= r.end).collect();
        es.sort_by_key(|e| (e.s, if e.s == e.e { 0 } else { 1 }, e.prio, e.seq));
        let mut out = String::new();
        let mut pos = r.start;
        for e in es {
            if e.s < pos {
                // covered by an earlier replacement (nested in removed text)
                if e.e <= pos {
                    continue;
                }
                return Err(format!("overlapping edits at {} in {}", e.s, self.rel));
            }
            out.push_str(&self.text[pos..e.s]);
            out.push_str(&e.t);
            pos = e.e;
        }
        out.push_str(&self.text[pos..r.end]);
        Ok(out)
    }
}

#[derive(Default)]
struct BodyInfo {
    tries: Vec<(usize, usize, usize)>,                 // expr start, qmark start, qmark end
    method_calls: Vec<MC>,
    closures: Vec<Clo>,
    loops: Vec<LoopI>,
    macros: Vec<(String, std::ops::Range<usize>, std::ops::Range<usize>, String)>, // name, whole, args, args tokens
    unsafes: Vec<(std::ops::Range<usize>, String, std::ops::Range<usize>)>,  // whole, T, inner expr
    be_calls: Vec<(std::ops::Range<usize>, String)>,   // path range, type
    caps: Vec<(std::ops::Range<usize>, String)>, // Vec::with_capacity: path range, generic arguments
    names: Vec<(String, usize)>,                       // called names with position
    ops: BTreeSet<String>,                             // operators on bits, and products
    arms: Vec<(String, std::ops::Range<usize>, bool)>, // pattern text, body range, body is block
    stmts: Vec<(std::ops::Range<usize>, bool)>,        // stmt range, has following (not tail)
    returns: Vec<usize>,
    hoist: Vec<std::ops::Range<usize>>,
    lets: Vec<(String, String)>,                       // name, init text
    closure_depth: usize,
    ret_result: bool,
}
struct MC {
    name: String,
    recv: std::ops::Range<usize>,
    dot: usize,
    args: Vec<(std::ops::Range<usize>, ArgKind)>,
    end: usize,
}
enum ArgKind {
    Path(bool), // last segment starts with uppercase
    Closure { pat: std::ops::Range<usize>, body: std::ops::Range<usize>, nparams: usize, pat1: std::ops::Range<usize> },
    Other,
}
struct Clo {
    pats: Vec<std::ops::Range<usize>>, // non-variable parameter patterns
    params: std::ops::Range<usize>, // between the bars inclusive
    body: std::ops::Range<usize>,
    block: bool,
}
struct LoopI {
    whole: std::ops::Range<usize>,
    body: std::ops::Range<usize>,
    kind: &'static str,
    for_expr: Option<usize>,
    for_end: usize,
    pat: std::ops::Range<usize>,
    enum_pat: Option<(String, std::ops::Range<usize>)>, // counter name, element pattern of `(i, PAT)`
}

impl<'ast> Visit<'ast> for BodyInfo {
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        let q = range(&t.question_token);
        if self.ret_result || self.closure_depth > 0 {
            self.tries.push((range(&*t.expr).start, q.start, q.end));
        }
        syn::visit::visit_expr_try(self, t)
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let args = m
            .args
            .iter()
            .map(|a| {
                let k = match a {
                    syn::Expr::Path(p) => {
                        let l = p.path.segments.last().unwrap().ident.to_string();
                        ArgKind::Path(l.chars().next().unwrap().is_uppercase())
                    }
                    syn::Expr::Closure(c) => ArgKind::Closure {
                        pat: c.inputs.first().map(|p| range(p)).unwrap_or(0..0),
                        body: range(&*c.body),
                        nparams: c.inputs.len(),
                        pat1: c.inputs.iter().nth(1).map(|p| range(p)).unwrap_or(0..0),
                    },
                    _ => ArgKind::Other,
                };
                (range(a), k)
            })
            .collect();
        self.method_calls.push(MC {
            name: m.method.to_string(),
            recv: range(&*m.receiver),
            dot: range(&m.dot_token).start,
            args,
            end: range(m).end,
        });
        self.names.push((m.method.to_string(), range(&m.method).start));
        syn::visit::visit_expr_method_call(self, m)
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if let Some(l) = segs.last() {
                self.names.push((l.clone(), range(&p.path).start));
                if l == "from_be_bytes" && segs.len() == 2 {
                    self.be_calls.push((range(&p.path), segs[0].clone()));
                }
                if l == "with_capacity" && segs.len() >= 2 && segs[segs.len() - 2] == "Vec" {
                    self.caps.push((range(&p.path), toks(&p.path.segments[segs.len() - 2].arguments)));
                }
            }
        }
        syn::visit::visit_expr_call(self, c)
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        match b.op {
            BitAnd(_) | BitOr(_) | BitXor(_) | Shl(_) | Shr(_) | Mul(_) | Div(_) | Rem(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_)
            | ShlAssign(_) | ShrAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) => {
                self.ops.insert(toks(&b.op).trim_end_matches('=').to_string());
            }
            _ => {}
        }
        syn::visit::visit_expr_binary(self, b)
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let mut pats = vec![];
        for p in &c.inputs {
            match p {
                syn::Pat::Ident(i) if i.subpat.is_none() && i.mutability.is_none() => {}
                syn::Pat::Type(_) => {}
                _ => pats.push(range(p)),
            }
        }
        self.closures.push(Clo {
            pats,
            params: range(&c.or1_token).start..range(&c.or2_token).end,
            body: range(&*c.body),
            block: matches!(&*c.body, syn::Expr::Block(_)),
        });
        self.closure_depth += 1;
        syn::visit::visit_expr_closure(self, c);
        self.closure_depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.loops.push(LoopI { whole: range(l), body: range(&l.body), kind: "loop", for_expr: None, for_end: 0, pat: 0..0, enum_pat: None });
        syn::visit::visit_expr_loop(self, l)
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.loops.push(LoopI { whole: range(l), body: range(&l.body), kind: "while", for_expr: None, for_end: 0, pat: 0..0, enum_pat: None });
        syn::visit::visit_expr_while(self, l)
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let mut enum_pat = None;
        if let syn::Pat::Tuple(t) = &*l.pat {
            if let (2, Some(syn::Pat::Ident(i))) = (t.elems.len(), t.elems.first()) {
                enum_pat = Some((i.ident.to_string(), range(&t.elems[1])));
            }
        }
        let er = range(&*l.expr);
        self.loops.push(LoopI { whole: range(l), body: range(&l.body), kind: "for", for_expr: Some(er.start), for_end: er.end, pat: range(&*l.pat), enum_pat });
        syn::visit::visit_expr_for_loop(self, l)
    }
    fn visit_macro(&mut self, _m: &'ast syn::Macro) {}
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        let n = m.mac.path.segments.last().unwrap().ident.to_string();
        self.macros.push((n.clone(), range(m), m.mac.delimiter.span().join().byte_range(), m.mac.tokens.to_string()));
        self.names.push((n, range(m).start));
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        let n = m.mac.path.segments.last().unwrap().ident.to_string();
        let w = range(&m.mac);
        self.macros.push((n.clone(), w.clone(), m.mac.delimiter.span().join().byte_range(), m.mac.tokens.to_string()));
        self.names.push((n, w.start));
    }
    fn visit_expr_unsafe(&mut self, u: &'ast syn::ExprUnsafe) {
        if let Some(syn::Stmt::Expr(syn::Expr::Reference(r), None)) = u.block.stmts.first() {
            if let syn::Expr::Unary(un) = &*r.expr {
                let mut e = &*un.expr;
                while let syn::Expr::Paren(p) = e {
                    e = &*p.expr;
                }
                if let syn::Expr::Cast(c1) = e {
                    if let syn::Expr::Cast(c0) = &*c1.expr {
                        let t = toks(&*c1.ty).replace("* const ", "");
                        let inner = &*c0.expr;
                        if toks(&*c0.ty).replace(' ', "") == "*const[u8]" && u.block.stmts.len() == 1 {
                            self.unsafes.push((range(u), t, range(inner)));
                        }
                    }
                }
            }
        }
        syn::visit::visit_expr_unsafe(self, u)
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        let mut pt = norm(&toks(&a.pat));
        if let Some((_, g)) = &a.guard {
            pt.push_str("if");
            pt.push_str(&norm(&toks(g)));
        }
        self.arms.push((pt, range(&*a.body), matches!(&*a.body, syn::Expr::Block(_))));
        syn::visit::visit_arm(self, a)
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            if let syn::Stmt::Item(it) = s {
                match it {
                    syn::Item::Fn(_) | syn::Item::Const(_) | syn::Item::Use(_) => self.hoist.push(range(it)),
                    _ => {}
                }
                continue;
            }
            let tail = i + 1 == n
                && match s {
                    syn::Stmt::Expr(_, None) => true,
                    syn::Stmt::Macro(m) => m.semi_token.is_none(),
                    _ => false,
                };
            self.stmts.push((range(s), !tail));
            if let syn::Stmt::Local(l) = s {
                let mut p = &l.pat;
                if let syn::Pat::Type(t) = p {
                    p = &*t.pat;
                }
                if let Some(i) = &l.init {
                    let init = norm(&toks(&*i.expr));
                    match p {
                        syn::Pat::Ident(id) => self.lets.push((id.ident.to_string(), init)),
                        syn::Pat::Tuple(t) => {
                            for (k, e) in t.elems.iter().enumerate() {
                                if let syn::Pat::Ident(id) = e {
                                    self.lets.push((id.ident.to_string(), format!("{}#{}", init, k)));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        syn::visit::visit_block(self, b)
    }
    fn visit_item(&mut self, _i: &'ast syn::Item) {}
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        self.returns.push(range(r).start);
        syn::visit::visit_expr_return(self, r)
    }
}

impl Extractor {
    pub fn new(c: Contracts) -> Self {
        Extractor {
            c,
            used: Default::default(),
            rules: Default::default(),
            dropped: vec![],
            trusted: vec![],
            under_contract: vec![],
            uncontracted: vec![],
            lost: vec![],
            clauses: vec![],
            fns: vec![],
            loops: Default::default(),
            extra: None,
            probe: false,
            stub: Default::default(),
            stubbed: vec![],
            calls: Default::default(),
        }
    }

    fn rule(&mut self, r: &str) {
        debug_assert!(RULES.iter().any(|x| x.0 == r), "{}", r);
        *self.rules.entry(r.to_string()).or_default() += 1;
    }

    fn clause(&mut self, f: &str, kind: &str, tags: &[String], text: &str) -> String {
        let id = self.clauses.len();
        self.clauses.push((f.into(), kind.into(), tags.to_vec(), text.trim().to_string()));
        let t = text.trim().trim_end_matches(',');
        format!("\n/*@B:{}@*/ {} /*@E:{}@*/,", id, t, id)
    }

    pub fn run(&mut self, root: &str) -> Result<String, String> {
        let p = std::path::Path::new(root);
        let dir = p.parent().unwrap().to_path_buf();
        let mut out = String::new();
        out.push_str("#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unused_assignments, unreachable_code, private_interfaces)]\n");
        out.push_str("use vstd::prelude::*;\n");
        let pre = self.c.prelude.get("@crate").cloned().unwrap_or_default();
        out.push_str(&pre);
        // ghost functions of the preludes, for every module
        let re = regex::Regex::new(r"(?m)^  pub (?:open spec|closed spec|uninterp spec|proof|broadcast proof|broadcast axiom) fn (\w+)").unwrap();
        out.push_str("pub mod names_ {\n");
        for (f, t) in &self.c.prelude {
            if f.starts_with('@') || (f == "derived.rs" && self.extra.is_none()) {
                continue;
            }
            let m = f.trim_end_matches(".rs").trim_end_matches("/mod").replace('/', "::");
            let m = if m == "lib" { String::new() } else { format!("{}::", m) };
            for c in re.captures_iter(t) {
                out.push_str(&format!("pub use crate::{}{};\n", m, &c[1]));
            }
        }
        out.push_str("}\n");
        out.push_str(&self.file(p, &dir, &dir, true)?);
        if let Some(e) = self.extra.clone() {
            let ep = std::path::PathBuf::from(&e);
            let ed = ep.parent().unwrap().to_path_buf();
            out.push_str(&format!("\npub mod derived {{\n{}\n}} // mod derived\n", self.file(&ep, &ed, &ed, false)?));
        }
        out.push_str("\n// ---- theorems over the contracts\n");
        if !self.stub.contains("@theorems") {
            out.push_str(&self.c.prelude.get("@end").cloned().unwrap_or_default());
            if self.extra.is_some() {
                out.push_str(&self.c.prelude.get("@end_derived").cloned().unwrap_or_default());
            }
        }
        out.push_str("\nfn main() {}\n");
        for (k, f) in &self.c.fns {
            if !self.used.contains(k) && f.file != "@derive" && (f.file != "derived.rs" || self.extra.is_some()) {
                self.lost.push(format!("no function for contract {}", k));
            }
        }
        for k in self.c.impls.keys() {
            if !self.used.contains(&format!("impl {}", k)) && (!k.starts_with("derived.rs::") || self.extra.is_some()) {
                self.lost.push(format!("no impl for ghost members {}", k));
            }
        }
        Ok(out)
    }

    fn file(&mut self, path: &std::path::Path, dir: &std::path::Path, root: &std::path::Path, top: bool) -> Result<String, String> {
        let raw = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
        let rel = path.strip_prefix(root).unwrap().display().to_string();
        let (text, n) = crate::macros::expand(raw).map_err(|e| format!("{}: {}", rel, e))?;
        for _ in 0..n {
            self.rule("macro-expand");
        }
        let file = syn::parse_file(&text).map_err(|e| format!("{}: {}", rel, e))?;
        let mut cx = FileCx { text: &text, rel: rel.clone(), edits: vec![] };
        let mut uses = String::new();
        let mut mods = String::new();
        let mut body = String::new();
        if !top {
            uses.push_str("use vstd::prelude::*; use crate::spec_::*; use crate::names_::*;\n");
        }
        for it in &file.items {
            self.item(it, &mut cx, &mut uses, &mut mods, &mut body, dir, root)?;
        }
        let pre = self.c.prelude.get(&rel).cloned().unwrap_or_default();
        Ok(format!("{}\n{}\nverus! {{\n{}\n{}\n}} // verus!\n", uses, mods, pre, body))
    }

    fn widen(&mut self, vis: &syn::Visibility, at: usize, cx: &mut FileCx) {
        match vis {
            syn::Visibility::Inherited => {
                cx.ed(at, at, "pub ", 5);
                self.rule("visibility");
            }
            syn::Visibility::Restricted(r) => {
                let x = range(r);
                cx.ed(x.start, x.end, "pub", 5);
                self.rule("visibility");
            }
            _ => {}
        }
    }

    fn attrs(&mut self, attrs: &[syn::Attribute], name: &str, cx: &mut FileCx) {
        for a in attrs {
            let r = range(a);
            if a.path().is_ident("derive") {
                let keep = self.c.derives.get(&format!("{}::{}", cx.rel, name)).cloned();
                let t = toks(a);
                let has = |n: &str| regex::Regex::new(&format!(r"\b{}\b", n)).unwrap().is_match(&t);
                let ks = match keep {
                    Some(k) => k,
                    None => {
                        if has("Copy") && has("Clone") {
                            vec!["Clone".into(), "Copy".into()]
                        } else {
                            vec![]
                        }
                    }
                };
                let rep = if ks.is_empty() { String::new() } else { format!("#[derive({})]", ks.join(", ")) };
                cx.ed(r.start, r.end, rep, 0);
                self.rule("derive");
            } else if a.path().is_ident("doc") || a.path().is_ident("cfg") || a.path().is_ident("cborrepr") {
                cx.ed(r.start, r.end, "", 0);
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn item(
        &mut self,
        it: &syn::Item,
        cx: &mut FileCx,
        uses: &mut String,
        mods: &mut String,
        body: &mut String,
        dir: &std::path::Path,
        root: &std::path::Path,
    ) -> Result<(), String> {
        let r = range(it);
        let drop = |x: &mut Self, k: &str, why: &str| x.dropped.push((format!("{}::{}", cx.rel, k), why.to_string()));
        match it {
            syn::Item::Use(u) => {
                if cfg_feature(&u.attrs) {
                    drop(self, &toks(u), "optional feature re-export");
                    return Ok(());
                }
                for a in &u.attrs {
                    let x = range(a);
                    cx.ed(x.start, x.end, "", 0);
                }
                uses.push_str(&cx.render(r)?);
                uses.push('\n');
            }
            syn::Item::Mod(m) => {
                if is_cfg_test(&m.attrs) {
                    self.rule("cfg-test");
                    drop(self, &m.ident.to_string(), "test module");
                    return Ok(());
                }
                if m.content.is_some() {
                    return Err(format!("inline module {} in {}", m.ident, cx.rel));
                }
                let n = m.ident.to_string();
                let p1 = dir.join(format!("{}.rs", n));
                let p2 = dir.join(&n).join("mod.rs");
                let (p, d) = if p1.exists() { (p1, dir.join(&n)) } else { (p2, dir.join(&n)) };
                let t = self.file(&p, &d, root, false)?;
                mods.push_str(&format!("pub mod {} {{\n{}\n}} // mod {}\n", n, t, n));
            }
            syn::Item::Macro(m) => {
                if !m.mac.path.is_ident("macro_rules") {
                    return Err(format!("item macro {} in {}", toks(&m.mac.path), cx.rel));
                }
            }
            syn::Item::Enum(e) => {
                let name = e.ident.to_string();
                if let Some(why) = self.c.drop_items.get(&format!("{}::{}", cx.rel, name)).cloned() {
                    drop(self, &name, &why);
                    return Ok(());
                }
                self.attrs(&e.attrs, &name, cx);
                for v in &e.variants {
                    self.attrs(&v.attrs, "", cx);
                    for f in &v.fields {
                        self.attrs(&f.attrs, "", cx);
                    }
                }
                self.widen(&e.vis, range(&e.enum_token).start, cx);
                self.type_attr(&name, r.start, cx);
                body.push_str(&cx.render(r)?);
                body.push('\n');
            }
            syn::Item::Struct(e) => {
                let name = e.ident.to_string();
                if let Some(why) = self.c.drop_items.get(&format!("{}::{}", cx.rel, name)).cloned() {
                    drop(self, &name, &why);
                    return Ok(());
                }
                self.attrs(&e.attrs, &name, cx);
                self.widen(&e.vis, range(&e.struct_token).start, cx);
                for f in &e.fields {
                    self.attrs(&f.attrs, "", cx);
                    let at = match &f.ident {
                        Some(i) => range(i).start,
                        None => range(&f.ty).start,
                    };
                    self.widen(&f.vis, at, cx);
                }
                self.type_attr(&name, r.start, cx);
                body.push_str(&cx.render(r)?);
                body.push('\n');
            }
            syn::Item::Type(t) => {
                self.attrs(&t.attrs, "", cx);
                self.widen(&t.vis, range(&t.type_token).start, cx);
                body.push_str(&cx.render(r)?);
                body.push('\n');
            }
            syn::Item::Const(t) => {
                self.attrs(&t.attrs, "", cx);
                self.widen(&t.vis, range(&t.const_token).start, cx);
                body.push_str(&cx.render(r)?);
                body.push('\n');
            }
            syn::Item::Fn(f) => {
                if is_cfg_test(&f.attrs) {
                    self.rule("cfg-test");
                    return Ok(());
                }
                let key = f.sig.ident.to_string();
                self.attrs(&f.attrs, "", cx);
                self.widen(&f.vis, range(&f.sig).start, cx);
                let mut hoisted = String::new();
                let keep = self.func(&key, &f.sig, &f.block, cx, r.start, &mut hoisted)?;
                if keep {
                    body.push_str(&hoisted);
                    body.push_str(&format!("/*@F:{}::{}@*/", cx.rel, key));
                    body.push_str(&cx.render(r)?);
                    body.push_str("/*@G@*/\n");
                }
            }
            syn::Item::Trait(t) => {
                self.attrs(&t.attrs, "", cx);
                let name = t.ident.to_string();
                self.widen(&t.vis, range(&t.trait_token).start, cx);
                self.ghost_members(&format!("trait {}", name), t.brace_token.span.open().byte_range().end, cx);
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        self.attrs(&f.attrs, "", cx);
                        let key = format!("trait {}::{}", name, f.sig.ident);
                        if f.default.is_none() {
                            self.contract_only(&key, &f.sig, range(f).end - 1, cx)?;
                        } else {
                            return Err(format!("default trait method {}", key));
                        }
                    }
                }
                body.push_str(&cx.render(r)?);
                body.push('\n');
            }
            syn::Item::Impl(i) => {
                if is_cfg_test(&i.attrs) {
                    self.rule("cfg-test");
                    return Ok(());
                }
                let ik = impl_key(i);
                if let Some(why) = self.c.drop_items.get(&format!("{}::{}", cx.rel, ik)).cloned() {
                    drop(self, &ik, &why);
                    return Ok(());
                }
                if let Some((_, p, _)) = &i.trait_ {
                    let tn = p.segments.last().unwrap().ident.to_string();
                    if tn == "Display" || tn == "Error" || tn == "Debug" {
                        drop(self, &ik, "formatting of errors, no property speaks of it");
                        return Ok(());
                    }
                }
                self.ghost_members(&ik, i.brace_token.span.open().byte_range().end, cx);
                let mut hoisted = String::new();
                for m in &i.items {
                    match m {
                        syn::ImplItem::Fn(f) => {
                            let key = format!("{}::{}", ik, f.sig.ident);
                            self.attrs(&f.attrs, "", cx);
                            if i.trait_.is_none() {
                                self.widen(&f.vis, range(&f.sig).start, cx);
                            }
                            let fr = range(f);
                            let keep = self.func(&key, &f.sig, &f.block, cx, fr.start, &mut hoisted)?;
                            if !keep {
                                cx.ed(fr.start, fr.end, "", -100);
                            } else {
                                cx.ed(fr.start, fr.start, format!("/*@F:{}::{}@*/", cx.rel, key), -50);
                                cx.ed(fr.end, fr.end, "/*@G@*/", 50);
                            }
                        }
                        _ => {}
                    }
                }
                body.push_str(&hoisted);
                body.push_str(&cx.render(r)?);
                body.push('\n');
            }
            _ => return Err(format!("unsupported item in {}: {}", cx.rel, toks(it).chars().take(80).collect::<String>())),
        }
        Ok(())
    }

    fn type_attr(&mut self, name: &str, at: usize, cx: &mut FileCx) {
        if let Some(t) = self.c.type_attrs.get(&format!("{}::{}", cx.rel, name)) {
            let t = format!("{}\n", t);
            cx.ed(at, at, t, -10);
        }
    }

    fn ghost_members(&mut self, key: &str, at: usize, cx: &mut FileCx) {
        let k = format!("{}::{}", cx.rel, key);
        if let Some(g) = self.c.impls.get(&k) {
            let g = format!("\n{}\n", g);
            cx.ed(at, at, g, 0);
            self.used.insert(format!("impl {}", k));
        }
    }

    fn contract_text(&mut self, full: &str, f: &FnC, sub: &dyn Fn(&str) -> String) -> String {
        let mut t = String::new();
        if !f.reqs.is_empty() {
            t.push_str("\nrequires");
            for c in &f.reqs {
                let s = sub(&c.text);
                t.push_str(&self.clause(full, "requires", &[], &s));
            }
        }
        if !f.enss.is_empty() {
            t.push_str("\nensures");
            for c in &f.enss {
                let tags = if c.tags.is_empty() { f.tags.clone() } else { c.tags.clone() };
                let s = sub(&c.text);
                t.push_str(&self.clause(full, "ensures", &tags, &s));
            }
        }
        if let Some(d) = &f.decr {
            t.push_str(&format!("\ndecreases {}", sub(d).trim().trim_end_matches(',')));
        }
        t.push('\n');
        t
    }

    fn ret_edit(&mut self, sig: &syn::Signature, name: &str, cx: &mut FileCx) {
        if let syn::ReturnType::Type(_, ty) = &sig.output {
            let r = range(&**ty);
            cx.ed(r.start, r.start, format!("({}: ", name), 0);
            cx.ed(r.end, r.end, ")", 0);
        }
    }

    fn contract_only(&mut self, key: &str, sig: &syn::Signature, at: usize, cx: &mut FileCx) -> Result<(), String> {
        let full = format!("{}::{}", cx.rel, key);
        match self.c.fns.get(&full).cloned() {
            None => self.uncontracted.push(full),
            Some(f) => {
                self.used.insert(full.clone());
                let rn = f.ret.clone().unwrap_or("r".into());
                self.ret_edit(sig, &rn, cx);
                let t = self.contract_text(&full, &f, &|s| s.to_string());
                cx.ed(at, at, t, 0);
                self.fns.push((full, f.tags.clone(), 0));
            }
        }
        Ok(())
    }

    fn func(
        &mut self,
        key: &str,
        sig: &syn::Signature,
        block: &syn::Block,
        cx: &mut FileCx,
        start: usize,
        hoisted: &mut String,
    ) -> Result<bool, String> {
        let full = format!("{}::{}", cx.rel, key);
        let fc = self.c.fns.get(&full).cloned();
        if fc.is_some() {
            self.used.insert(full.clone());
        }
        if let Some(f) = &fc {
            if let Some(why) = &f.drop {
                self.dropped.push((full, why.clone()));
                return Ok(false);
            }
        }
        let mut bi = BodyInfo::default();
        bi.ret_result = match &sig.output {
            syn::ReturnType::Type(_, t) => toks(&**t).starts_with("Result"),
            _ => false,
        };
        bi.visit_block(block);
        let br = range(block);
        // hoist nested items
        for h in bi.hoist.clone() {
            self.rule("hoist");
            let txt = cx.text[h.clone()].to_string();
            if let Ok(f) = syn::parse_str::<syn::ItemFn>(&txt) {
                let sub = format!("{}/{}", key, f.sig.ident);
                let nf = syn::parse_file(&txt).map_err(|e| e.to_string())?;
                if let syn::Item::Fn(nf) = &nf.items[0] {
                    let mut ncx = FileCx { text: &txt, rel: cx.rel.clone(), edits: vec![] };
                    ncx.ed(0, 0, "pub ", 5);
                    let mut hh = String::new();
                    if self.func(&sub, &nf.sig, &nf.block, &mut ncx, 0, &mut hh)? {
                        hoisted.push_str(&hh);
                        hoisted.push_str(&format!("/*@F:{}::{}@*/", cx.rel, sub));
                        hoisted.push_str(&ncx.render(0..txt.len())?);
                        hoisted.push_str("/*@G@*/\n");
                    }
                }
            } else {
                hoisted.push_str(&format!("pub {}\n", txt));
            }
            cx.ed(h.start, h.end, "", -50);
        }
        let f = match fc {
            None => {
                self.uncontracted.push(full.clone());
                FnC::default()
            }
            Some(f) => f,
        };
        // a function without a contract is not verified: its callers know nothing about it
        let stub = self.stub.contains(&full) && !f.key.is_empty() && f.trusted.is_none();
        let trusted = f.trusted.is_some() || f.key.is_empty() || stub;
        // binds
        let mut binds: Vec<(String, String)> = vec![];
        for (n, re) in &f.binds {
            let rx = regex::Regex::new(re).map_err(|e| e.to_string())?;
            match bi.lets.iter().find(|(_, i)| rx.is_match(i)) {
                Some((name, _)) => binds.push((n.clone(), name.clone())),
                None => self.lost.push(format!("{}: no local matching {}", full, re)),
            }
        }
        // parameters by position
        for (i, a) in sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(p) = a {
                if let syn::Pat::Ident(id) = &*p.pat {
                    binds.push((format!("p{}", i), id.ident.to_string()));
                }
            }
        }
        let sub = move |s: &str| -> String {
            let mut t = s.to_string();
            for (n, v) in &binds {
                t = t.replace(&format!("${}", n), v);
            }
            t
        };
        let rn = f.ret.clone().unwrap_or("r".into());
        if !f.enss.is_empty() || f.wrap.is_some() {
            self.ret_edit(sig, &rn, cx);
        }
        let ct = self.contract_text(&full, &f, &sub);
        let mut head = String::new();
        for a in &f.attrs {
            head.push_str(a);
            head.push('\n');
        }
        if let Some(why) = &f.trusted {
            head.push_str("#[verifier::external_body]\n");
            self.trusted.push((full.clone(), why.clone()));
        }
        if f.key.is_empty() || stub {
            head.push_str("#[verifier::external_body]\n");
        }
        if stub {
            self.stubbed.push(full.clone());
        }
        if !head.is_empty() {
            // attributes must precede visibility
            let at = start;
            cx.ed(at, at, head, -5);
        }
        cx.ed(br.start, br.start, ct, 0);
        let nstmts = bi.stmts.len();
        self.fns.push((full.clone(), f.tags.clone(), nstmts));
        if f.key.is_empty() {
        } else if !trusted {
            self.under_contract.push(full.clone());
        }
        let mut kinds: Vec<(usize, &str)> = bi.loops.iter().map(|l| (l.whole.start, l.kind)).collect();
        kinds.sort();
        let kinds: Vec<&str> = kinds.iter().map(|k| k.1).collect();
        let caps = bi.caps.len() + bi.method_calls.iter().filter(|m| m.name == "reserve" || m.name == "reserve_exact").count();
        let caps = if caps == 0 { String::new() } else { format!(", {} reservations", caps) };
        self.loops.insert(full.clone(), format!("loops [{}], {} closures{}", kinds.join(" "), bi.closures.len(), caps));
        self.calls.insert(full.clone(), bi.names.iter().map(|n| n.0.clone()).chain(bi.ops.iter().cloned()).collect::<BTreeSet<_>>().into_iter().collect());
        if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
            if let (None, Some(m)) = (&r.reference, &r.mutability) {
                let x = range(m);
                cx.ed(x.start, x.end, "", 0);
                self.rule("mut-self");
                if !trusted {
                    cx.ed(br.start + 1, br.start + 1, " let mut self__ = self;", -40);
                    let rx = regex::Regex::new(r"\bself\b").unwrap();
                    let t = cx.text[br.clone()].to_string();
                    for m in rx.find_iter(&t) {
                        cx.ed(br.start + m.start(), br.start + m.end(), "self__", 0);
                    }
                }
            }
        }
        if trusted {
            let mut stub = "{ unimplemented!() }".to_string();
            if let syn::ReturnType::Type(_, ty) = &sig.output {
                let rt = &cx.text[range(&**ty)];
                if let Some(it) = rt.trim().strip_prefix("impl Iterator<Item = ").and_then(|x| x.strip_suffix('>')) {
                    stub = format!("{{ let r: ::std::vec::IntoIter<{}> = unimplemented!(); r }}", it);
                }
            }
            cx.ed(br.start, br.end, stub, 1);
            return Ok(true);
        }
        // rewrite rules
        for (s, q, qe) in &bi.tries {
            self.rule("try");
            cx.wrap(*s, *qe, "(match (");
            cx.ed(*q, *qe, ") { Ok(v__) => v__, Err(e__) => return Err(::core::convert::From::from(e__)) })", 0);
        }
        let mut nfold = 0;
        let mut beta: BTreeSet<usize> = BTreeSet::new(); // closures consumed by beta reduction (by body start)
        for m in &bi.method_calls {
            if m.name == "map_err" && m.args.len() == 1 && !f.nomap {
                let (ar, k) = &m.args[0];
                match k {
                    ArgKind::Path(_) => {
                        let p = &cx.text[ar.clone()];
                        let t = format!(") {{ Ok(v__) => Ok(v__), Err(e__) => Err({}(e__)) }})", p);
                        cx.wrap(m.recv.start, m.end, "(match (");
                        cx.ed(m.dot, m.end, t, 0);
                        self.rule("map_err");
                    }
                    ArgKind::Closure { pat, body, nparams, .. } if *nparams == 1 => {
                        let p = cx.text[pat.clone()].to_string();
                        cx.wrap(m.recv.start, m.end, "(match (");
                        cx.ed(m.dot, body.start, format!(") {{ Ok(v__) => Ok(v__), Err({}) => Err(", p), 0);
                        cx.ed(body.end, m.end, ") })", 0);
                        beta.insert(body.start);
                        self.rule("map_err");
                    }
                    _ => {}
                }
            }
            if m.name == "fold" && m.args.len() == 2 {
                if let (ir, (_, ArgKind::Closure { pat, body, nparams: 2, pat1 })) = (m.args[0].0.clone(), &m.args[1]) {
                    let lc = f.loops.get(&(100 + nfold)).cloned().unwrap_or_default();
                    let init = cx.text[ir.clone()].to_string();
                    let (p0, p1) = (cx.text[pat.clone()].to_string(), cx.text[pat1.clone()].to_string());
                    let mut t = String::new();
                    if !lc.inv.is_empty() {
                        t.push_str("\ninvariant");
                        for c in &lc.inv {
                            let tags = if c.tags.is_empty() { f.tags.clone() } else { c.tags.clone() };
                            let s = sub(&c.text);
                            t.push_str(&self.clause(&full, "fold invariant", &tags, &s));
                        }
                        t.push('\n');
                    } else if !f.key.is_empty() {
                        self.lost.push(format!("{}: fold {} has no invariant", full, nfold));
                    }
                    cx.wrap(m.recv.start, m.end, format!("{{ let mut acc__ = {}; {} for it__ in fit: ", init, sub(&lc.pre)));
                    cx.ed(m.dot, body.start, format!("{} {{ {} acc__ = {{ let {} = acc__; let {} = it__; ", t, sub(&lc.start), p0, p1), 0);
                    cx.ed(body.end, m.end, format!(" }}; {} }} acc__ }}", sub(&lc.end)), 0);
                    beta.insert(body.start);
                    nfold += 1;
                    self.rule("fold");
                }
            }
            if m.name == "collect" && m.args.is_empty() {
                // X.map(F).collect() -> map_collect(X, F), whose body is it.map(f).collect()
                if let Some(mm) = bi.method_calls.iter().find(|x| x.name == "map" && x.args.len() == 1 && x.recv.start == m.recv.start && x.end == m.recv.end) {
                    let into_result = cx.text[m.dot..m.end].replace(' ', "").starts_with(".collect::<Result<");
                    let callee = if into_result { "crate::spec_::try_collect(" } else { "crate::spec_::map_collect(" };
                    cx.wrap(mm.recv.start, m.end, callee);
                    cx.ed(mm.dot, mm.args[0].0.start, ", ", 0);
                    cx.ed(mm.end, m.end, "", 0);
                    self.rule(if into_result { "try-collect" } else { "map-collect" });
                }
            }
            if m.name == "enumerate" && m.args.is_empty() {
                if let Some(l) = bi.loops.iter().find(|l| l.kind == "for" && l.for_end == m.end) {
                    if let Some((i, pr)) = &l.enum_pat {
                        cx.ed(l.whole.start, l.whole.start, format!("let mut {}__: usize = 0;\n", i), 15);
                        let pt = cx.text[pr.clone()].to_string();
                        cx.ed(l.pat.start, l.pat.end, pt, 0);
                        cx.ed(m.dot, m.end, "", 0);
                        cx.ed(l.body.start + 1, l.body.start + 1, format!(" let {} = {}__; {}__ = {}__ + 1; ", i, i, i, i), -10);
                        self.rule("enumerate");
                    }
                }
            }
            if m.name == "map" && m.args.len() == 1 {
                if let (ar, ArgKind::Path(true)) = &m.args[0] {
                    let p = cx.text[ar.clone()].to_string();
                    cx.ed(ar.start, ar.end, format!("|e__| -> (r__: _) ensures same(r__, {}(e__)) {{ {}(e__) }}", p, p), 0);
                    self.rule("ctor-eta");
                }
            }
            if m.name == "to_be_bytes" && m.args.is_empty() {
                self.rule("to_be_bytes");
                let s = m.dot;
                cx.ed(s, m.end, ".be_bytes()", 0);
            }
            if m.name == "push_str" && m.args.len() == 1 {
                let word = |r: &str| !r.is_empty() && r.chars().all(|c| c.is_alphanumeric() || c == '_');
                let (a, r) = (m.args[0].0.clone(), m.recv.clone());
                let stmt = cx.text[m.end..].trim_start().starts_with(';') && cx.text[..r.start].trim_end().ends_with(|c| c == ';' || c == '{' || c == '}');
                if stmt && word(&cx.text[r.clone()]) && word(&cx.text[a.clone()]) {
                    self.rule("push_str");
                    cx.ed(r.start, r.start, "str_push(&mut (", 12);
                    cx.ed(m.dot, a.start, "), ", 0);
                }
            }
            if (m.name == "reserve" || m.name == "reserve_exact") && m.args.len() == 1 {
                self.rule("reserve");
                cx.ed(m.recv.start, m.recv.start, "vec_reserve(&mut (", 12);
                cx.ed(m.dot, m.args[0].0.start, "), ", 0);
            }
        }
        for (n, whole, args, tk) in &bi.macros {
            match n.as_str() {
                "assert_ne" | "assert_eq" => {
                    let inner = &cx.text[args.start + 1..args.end - 1];
                    let parts = split_top(inner);
                    if parts.len() >= 2 {
                        let op = if n == "assert_ne" { "!(" } else { "(" };
                        let t = format!("assert!({}({}) == ({})))", op, parts[0].trim(), parts[1].trim());
                        cx.ed(whole.start, whole.end, t, 0);
                        self.rule(n);
                    }
                }
                "panic" => {
                    if tk.contains(',') {
                        cx.ed(whole.start, whole.end, "panic!(\"\")", 0);
                        self.rule("panic-msg");
                    }
                }
                "format" => {
                    let inner = cx.text[args.start + 1..args.end - 1].trim();
                    let ident = |v: &str| !v.is_empty() && v.chars().all(|c| c.is_alphanumeric() || c == '_') && !v.starts_with(|c: char| c.is_numeric());
                    // one displayed variable and nothing else
                    let shown = match inner.strip_prefix("\"{}\"") {
                        Some(r) => r.trim().strip_prefix(',').map(|r| r.trim().trim_end_matches(',').trim()),
                        None => inner.strip_prefix("\"{").and_then(|r| r.strip_suffix("}\"")),
                    };
                    match shown {
                        Some(v) if ident(v) => {
                            cx.ed(whole.start, whole.end, format!("format_display(&{})", v), 0);
                            self.rule("format-display");
                        }
                        _ => {
                            cx.ed(whole.start, whole.end, "format_any()", 0);
                            self.rule("format");
                        }
                    }
                }
                _ => {}
            }
        }
        for (w, t, inner) in &bi.unsafes {
            let base: String = t.chars().take_while(|c| c.is_alphanumeric()).collect();
            cx.ed(w.start, inner.start, format!("into_{}(", base), 0);
            cx.ed(inner.end, w.end, ")", 0);
            self.rule("ptr-cast");
        }
        for (r, args) in &bi.caps {
            cx.ed(r.start, r.end, format!("vec_with_capacity{}", if args.is_empty() { String::new() } else { format!("::{}", args.trim_start_matches("::").trim()) }), 0);
            self.rule("reserve");
        }
        for (r, ty) in &bi.be_calls {
            cx.ed(r.start, r.end, format!("{}_from_be_bytes", ty), 0);
            self.rule("from_be_bytes");
        }
        // closures
        let mut ci = 0;
        for c in &bi.closures {
            if beta.contains(&c.body.start) {
                continue;
            }
            let mut lets = String::new();
            for (k, p) in c.pats.iter().enumerate() {
                let pt = cx.text[p.clone()].to_string();
                if pt != "_" {
                    lets.push_str(&format!("let {} = p{}__; ", pt, k));
                }
                if f.closures.get(&ci).map(|c| c.params.is_none()).unwrap_or(true) {
                    cx.ed(p.start, p.end, format!("p{}__", k), 0);
                }
                self.rule("closure-pattern");
            }
            if !lets.is_empty() {
                if c.block {
                    cx.ed(c.body.start + 1, c.body.start + 1, lets.clone(), -30);
                } else if f.closures.get(&ci).is_none() {
                    cx.ed(c.body.start, c.body.start, format!("{{ {}", lets), 10);
                    cx.ed(c.body.end, c.body.end, " }", 10);
                }
            }
            if let Some(cc) = f.closures.get(&ci) {
                if let Some(p) = &cc.params {
                    cx.ed(c.params.start, c.params.end, sub(p), 0);
                }
                let mut t = String::new();
                if let Some(r) = &cc.ret {
                    t.push_str(&format!(" -> {}", sub(r)));
                }
                if !cc.reqs.is_empty() {
                    t.push_str("\nrequires");
                    for q in &cc.reqs {
                        let s = sub(&q.text);
                        t.push_str(&self.clause(&full, "closure requires", &[], &s));
                    }
                }
                if !cc.enss.is_empty() {
                    t.push_str("\nensures");
                    for q in &cc.enss {
                        let s = sub(&q.text);
                        let tags = if q.tags.is_empty() { f.tags.clone() } else { q.tags.clone() };
                        t.push_str(&self.clause(&full, "closure ensures", &tags, &s));
                    }
                }
                t.push('\n');
                if c.block {
                    cx.ed(c.body.start, c.body.start, t, 10);
                } else {
                    cx.ed(c.body.start, c.body.start, t + "{ " + &lets, 10);
                    cx.ed(c.body.end, c.body.end, " }", 10);
                }
            }
            ci += 1;
        }
        for k in f.closures.keys() {
            if *k >= ci {
                self.lost.push(format!("{}: closure {} not found", full, k));
            }
        }
        // loops
        for (i, l) in bi.loops.iter().enumerate() {
            match f.loops.get(&i) {
                None => {
                    if !f.key.is_empty() {
                        self.lost.push(format!("{}: loop {} ({}) has no invariant", full, i, l.kind));
                    }
                }
                Some(lc) => {
                    let mut t = String::new();
                    let groups: [(&str, &Vec<Clause>); 3] =
                        [("invariant_except_break", &lc.inv_eb), ("invariant", &lc.inv), ("ensures", &lc.ens)];
                    for (kw, v) in groups {
                        if !v.is_empty() {
                            t.push_str(&format!("\n{}", kw));
                            for c in v {
                                let tags = if c.tags.is_empty() { f.tags.clone() } else { c.tags.clone() };
                                let s = sub(&c.text);
                                t.push_str(&self.clause(&full, &format!("loop {} {}", i, kw), &tags, &s));
                            }
                        }
                    }
                    if let Some(d) = &lc.decr {
                        t.push_str(&format!("\ndecreases {},\n", sub(d).trim().trim_end_matches(',')));
                    }
                    t.push('\n');
                    if lc.desugar && l.kind == "for" {
                        let it = lc.iter.clone().unwrap();
                        let at = l.for_expr.unwrap();
                        // for PAT in EXPR BODY  ->  { let mut it = EXPR; loop { match it.next() { None => break, Some(PAT) => BODY } } }
                        let mut pt = cx.text[l.pat.clone()].to_string();
                        if let (Some((_, pr)), true) = (&l.enum_pat, cx.edits.iter().any(|e| e.s == l.pat.start && e.e == l.pat.end)) {
                            pt = cx.text[pr.clone()].to_string();
                        }
                        cx.ed(l.whole.start, at, format!("{{ let mut {} = ", it), -1);
                        cx.ed(l.for_end, l.body.start, format!(";\n{}\nloop {}{{ match {}.next() {{ None => break, Some({}) => ", sub(&lc.pre), t, it, pt), 0);
                        cx.ed(l.body.end, l.body.end, " } } }", 50);
                        self.rule("for-desugar");
                    } else {
                        cx.ed(l.body.start, l.body.start, t, 0);
                        if !lc.pre.is_empty() || !lc.after.is_empty() {
                            cx.ed(l.whole.start, l.whole.start, format!("{{ {} ", sub(&lc.pre)), -30);
                            cx.ed(l.whole.end, l.whole.end, format!(" {} }}", sub(&lc.after)), 60);
                        }
                    }
                    if lc.desugar {
                    } else if let (Some(it), Some(at)) = (&lc.iter, l.for_expr) {
                        cx.ed(at, at, format!("{}: ", it), 0);
                    }
                    if !lc.start.is_empty() {
                        cx.ed(l.body.start + 1, l.body.start + 1, format!("\n{}", sub(&lc.start)), -20);
                    }
                    if !lc.end.is_empty() {
                        cx.ed(l.body.end - 1, l.body.end - 1, format!("\n{}", sub(&lc.end)), 40);
                    }
                    let _ = l.whole;
                }
            }
        }
        for k in f.loops.keys() {
            if *k >= bi.loops.len() && !(*k >= 100 && *k - 100 < nfold) {
                self.lost.push(format!("{}: loop {} not found", full, k));
            }
        }
        // anchors
        for w in f.anchors.iter().map(|a| (&a.kind, &a.what)).collect::<BTreeSet<_>>() {
            // the proof counts on how many there are
            let n = match (w.0.as_str(), w.1.as_str()) {
                ("ARM", x) => bi.arms.iter().filter(|y| y.0 == norm(x)).count(),
                (_, "tail") => continue,
                (_, "return") => bi.returns.len(),
                (_, x) => bi.names.iter().filter(|y| y.0 == x).count(),
            };
            if let Some(l) = self.loops.get_mut(&full) {
                l.push_str(&format!(", {} {} {}", n, if w.0 == "ARM" { "arms" } else { "uses of" }, w.1));
            }
        }
        for a in &f.anchors {
            let txt = sub(&a.text);
            match a.kind.as_str() {
                "ARM" => {
                    let want = norm(&a.what);
                    let ms: Vec<_> = bi.arms.iter().filter(|x| x.0 == want).collect();
                    match ms.get(a.k) {
                        None => self.lost.push(format!("{}: arm {} #{} not found", full, a.what, a.k)),
                        Some((_, b, block)) => {
                            if *block {
                                cx.ed(b.start + 1, b.start + 1, format!("\n{}", txt), -20);
                            } else {
                                cx.ed(b.start, b.start, format!("{{\n{} ", txt), -20);
                                cx.ed(b.end, b.end, " }", 30);
                            }
                        }
                    }
                }
                _ => {
                    let pos = if a.what == "return" {
                        bi.returns.get(a.k).cloned()
                    } else if a.what == "tail" {
                        block.stmts.last().map(|s| range(s).start)
                    } else {
                        let mut ps: Vec<usize> = bi.names.iter().filter(|x| x.0 == a.what).map(|x| x.1).collect();
                        ps.sort();
                        ps.get(a.k).cloned()
                    };
                    let st = pos.and_then(|p| {
                        bi.stmts
                            .iter()
                            .filter(|(r, _)| r.start <= p && p < r.end)
                            .min_by_key(|(r, _)| r.end - r.start)
                            .cloned()
                    });
                    match st {
                        None => self.lost.push(format!("{}: anchor {} #{} not found", full, a.what, a.k)),
                        Some((r, nottail)) => {
                            if a.kind == "BEFORE" {
                                cx.ed(r.start, r.start, format!("{}\n", txt), -10);
                            } else if nottail {
                                cx.ed(r.end, r.end, format!("\n{}", txt), 60);
                            } else {
                                self.lost.push(format!("{}: AFTER {} #{} is a tail expression", full, a.what, a.k));
                            }
                        }
                    }
                }
            }
        }
        if self.probe && f.wrap.is_none() {
            // is the end of the function reachable under its contract and those of what it calls?
            let ty = match &sig.output {
                syn::ReturnType::Type(_, ty) if !cx.text[range(&**ty)].contains("impl ") => format!(": {}", &cx.text[range(&**ty)]),
                _ => String::new(),
            };
            cx.ed(br.start, br.start, format!("{{ let probe__{} = ", ty), 1);
            cx.ed(br.end, br.end, "; assert(false); probe__ }".to_string(), 1);
        }
        if let Some(w) = &f.wrap {
            // let r = { body }; proof; r
            cx.ed(br.start, br.start, format!("{{ let {} = ", rn), 1);
            cx.ed(br.end, br.end, format!(";\n{}\n{} {} }}", sub(w), if self.probe { "assert(false);" } else { "" }, rn), 1);
            if !f.entry.is_empty() {
                cx.ed(br.start + 1, br.start + 1, format!("\n{}", sub(&f.entry)), -30);
            }
        } else if !f.entry.is_empty() {
            cx.ed(br.start + 1, br.start + 1, format!("\n{}", sub(&f.entry)), -30);
        }
        Ok(true)
    }

    pub fn report(&self, text: &str) -> serde_json::Value {
        // line maps
        let mut fn_ranges = vec![];
        let mut cl_ranges: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
        let mut stack: Vec<(String, usize)> = vec![];
        let re = regex::Regex::new(r"/\*@([FGBE]):?([^@]*)@\*/").unwrap();
        for (ln, line) in text.lines().enumerate() {
            for c in re.captures_iter(line) {
                match &c[1] {
                    "F" => stack.push((c[2].to_string(), ln + 1)),
                    "G" => {
                        if let Some((k, s)) = stack.pop() {
                            fn_ranges.push(json!({"fn": k, "start": s, "end": ln + 1}));
                        }
                    }
                    "B" => {
                        let id: usize = c[2].parse().unwrap();
                        cl_ranges.insert(id, (ln + 1, ln + 1));
                    }
                    _ => {
                        let id: usize = c[2].parse().unwrap();
                        cl_ranges.entry(id).or_insert((ln + 1, ln + 1)).1 = ln + 1;
                    }
                }
            }
        }
        let clauses: Vec<_> = self
            .clauses
            .iter()
            .enumerate()
            .map(|(i, (f, k, t, x))| {
                let (s, e) = cl_ranges.get(&i).cloned().unwrap_or((0, 0));
                json!({"fn": f, "kind": k, "tags": t, "text": x, "start": s, "end": e})
            })
            .collect();
        json!({
            "rules": self.rules.iter().map(|(k, n)| json!({"rule": k, "applied": n, "what": RULES.iter().find(|r| r.0 == k).map(|r| r.1)})).collect::<Vec<_>>(),
            "dropped": self.dropped, "trusted": self.trusted, "under_contract": self.under_contract,
            "uncontracted": self.uncontracted, "lost": self.lost,
            "fns": self.fns.iter().map(|(k,t,n)| json!({"fn": k, "tags": t, "stmts": n})).collect::<Vec<_>>(),
            "fn_ranges": fn_ranges, "clauses": clauses, "loops": self.loops, "calls": self.calls, "stubbed": self.stubbed,
        })
    }
}

fn split_top(s: &str) -> Vec<String> {
    let mut depth = 0;
    let mut out = vec![String::new()];
    let mut instr = false;
    for ch in s.chars() {
        match ch {
            '"' => instr = !instr,
            '(' | '[' | '{' if !instr => depth += 1,
            ')' | ']' | '}' if !instr => depth -= 1,
            ',' if depth == 0 && !instr => {
                out.push(String::new());
                continue;
            }
            _ => {}
        }
        out.last_mut().unwrap().push(ch);
    }
    out.retain(|x| !x.trim().is_empty());
    out
}

/// of the compiler's expansion of the sample definitions: the definitions and what the derive macros made of
/// them; paths into the crate are paths into the verified text
pub fn generated(path: &str, x: &Extractor) -> Result<String, String> {
    let raw = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let re = regex::Regex::new(r"(::)?\bcbored::").unwrap();
    let text = re.replace_all(&raw, "crate::").to_string();
    let file = syn::parse_file(&text).map_err(|e| format!("{}: {}", path, e))?;
    let mut out = String::new();
    for it in &file.items {
        let (name, keep) = match it {
            syn::Item::Struct(s) => (s.ident.to_string(), true),
            syn::Item::Enum(s) => (s.ident.to_string(), true),
            syn::Item::Impl(i) => (norm(&toks(&*i.self_ty)), true),
            _ => (String::new(), false),
        };
        if keep && !x.c.drop_items.contains_key(&format!("derived.rs::{}", name)) {
            out.push_str(&text[range(it)]);
            out.push('\n');
        }
    }
    Ok(out)
}
