//! Textual expansion of the macro_rules macros a source file defines, so that the
//! code they stand for can be put under contract.
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone)]
pub struct Arm {
    params: Vec<String>,
    seps: Vec<String>, // literal text between params (len = params.len()+1)
    body: String,
}

pub fn collect(text: &str, file: &syn::File) -> BTreeMap<String, Vec<Arm>> {
    let mut m = BTreeMap::new();
    for it in &file.items {
        if let syn::Item::Macro(im) = it {
            if im.mac.path.is_ident("macro_rules") {
                if let Some(id) = &im.ident {
                    if let Some(a) = arms(text, &im.mac.tokens) {
                        m.insert(id.to_string(), a);
                    }
                }
            }
        }
    }
    m
}

fn arms(text: &str, ts: &proc_macro2::TokenStream) -> Option<Vec<Arm>> {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.clone().into_iter().collect();
    let mut groups = vec![];
    for t in &v {
        if let T::Group(g) = t {
            groups.push(g.clone());
        }
    }
    let mut out = vec![];
    for p in groups.chunks(2) {
        if p.len() != 2 {
            return None;
        }
        let pat: Vec<T> = p[0].stream().into_iter().collect();
        let mut params = vec![];
        let mut seps = vec![String::new()];
        let mut i = 0;
        while i < pat.len() {
            match &pat[i] {
                T::Punct(d) if d.as_char() == '$' => {
                    let name = match &pat[i + 1] {
                        T::Ident(id) => id.to_string(),
                        _ => return None,
                    };
                    params.push(name);
                    seps.push(String::new());
                    i += 4;
                }
                T::Group(_) => return None,
                t => {
                    seps.last_mut().unwrap().push_str(&t.to_string());
                    i += 1;
                }
            }
        }
        let r = p[1].span().byte_range();
        let body = text[r.start + 1..r.end - 1].to_string();
        out.push(Arm { params, seps, body });
    }
    Some(out)
}

fn try_arm(a: &Arm, args: &str) -> Option<String> {
    let nows: String = args.trim().to_string();
    // match separators in order
    let mut rest = nows.as_str();
    let mut vals: Vec<String> = vec![];
    if !a.seps[0].is_empty() {
        rest = rest.trim_start().strip_prefix(a.seps[0].as_str())?;
    }
    for (i, _) in a.params.iter().enumerate() {
        let sep = &a.seps[i + 1];
        if sep.is_empty() {
            if i + 1 != a.params.len() {
                return None;
            }
            vals.push(rest.trim().trim_end_matches(',').trim().to_string());
            rest = "";
        } else {
            let p = rest.find(sep.as_str())?;
            vals.push(rest[..p].trim().to_string());
            rest = &rest[p + sep.len()..];
        }
    }
    if vals.iter().any(|v| v.contains("<=") || v.is_empty()) {
        return None;
    }
    let mut b = a.body.clone();
    for (p, v) in a.params.iter().zip(vals.iter()) {
        let re = regex::Regex::new(&format!(r"\${}\b", regex::escape(p))).unwrap();
        b = re.replace_all(&b, regex::NoExpand(v)).to_string();
    }
    Some(b)
}

struct V<'a> {
    macros: &'a BTreeMap<String, Vec<Arm>>,
    text: &'a str,
    edits: Vec<(usize, usize, String)>,
}

impl<'a> V<'a> {
    fn exp(&mut self, mac: &syn::Macro, whole: std::ops::Range<usize>, stmt: bool, item: bool) {
        if let Some(id) = mac.path.get_ident() {
            if let Some(arms) = self.macros.get(&id.to_string()) {
                let r = mac.delimiter.span().join().byte_range();
                let args = &self.text[r.start + 1..r.end - 1];
                for a in arms {
                    if let Some(b) = try_arm(a, args) {
                        let t = if item {
                            b
                        } else if stmt {
                            format!("{{ {} }}", b)
                        } else {
                            format!("({})", b)
                        };
                        self.edits.push((whole.start, whole.end, t));
                        return;
                    }
                }
            }
        }
    }
}

impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.exp(&m.mac, m.span().byte_range(), false, false);
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.exp(&m.mac, m.span().byte_range(), true, false);
    }
    fn visit_item_macro(&mut self, m: &'ast syn::ItemMacro) {
        if !m.mac.path.is_ident("macro_rules") {
            self.exp(&m.mac, m.span().byte_range(), false, true);
        }
    }
}

/// Returns the expanded text and the number of expansions done.
pub fn expand(mut text: String) -> Result<(String, usize), String> {
    let mut n = 0;
    for _ in 0..10 {
        let file = syn::parse_file(&text).map_err(|e| e.to_string())?;
        let macros = collect(&text, &file);
        if macros.is_empty() {
            break;
        }
        let mut v = V { macros: &macros, text: &text, edits: vec![] };
        v.visit_file(&file);
        if v.edits.is_empty() {
            break;
        }
        let mut edits = v.edits;
        edits.sort();
        n += edits.len();
        let mut out = String::new();
        let mut pos = 0;
        for (s, e, t) in edits {
            out.push_str(&text[pos..s]);
            out.push_str(&t);
            pos = e;
        }
        out.push_str(&text[pos..]);
        text = out;
    }
    Ok((text, n))
}
