//! Parser of the contract files (see /verif/contracts/README.md).
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct Clause {
    pub tags: Vec<String>,
    pub text: String,
}

#[derive(Debug, Clone, Default)]
pub struct LoopC {
    pub iter: Option<String>,
    pub inv: Vec<Clause>,
    pub inv_eb: Vec<Clause>, // invariant_except_break
    pub ens: Vec<Clause>,
    pub decr: Option<String>,
    pub start: String,
    pub end: String,
    pub used: bool,
    pub desugar: bool,
    pub pre: String,
    pub after: String,
}

#[derive(Debug, Clone)]
pub struct AnchorC {
    pub kind: String, // BEFORE | AFTER | ARM
    pub what: String,
    pub k: usize,
    pub text: String,
}

#[derive(Debug, Clone, Default)]
pub struct ClosureC {
    pub params: Option<String>,
    pub ret: Option<String>,
    pub reqs: Vec<Clause>,
    pub enss: Vec<Clause>,
}

#[derive(Debug, Clone, Default)]
pub struct FnC {
    pub key: String,
    pub file: String,
    pub tags: Vec<String>,
    pub ret: Option<String>,
    pub reqs: Vec<Clause>,
    pub enss: Vec<Clause>,
    pub decr: Option<String>,
    pub entry: String,
    pub wrap: Option<String>,
    pub loops: BTreeMap<usize, LoopC>,
    pub anchors: Vec<AnchorC>,
    pub closures: BTreeMap<usize, ClosureC>,
    pub attrs: Vec<String>,
    pub trusted: Option<String>,
    pub drop: Option<String>,
    pub binds: Vec<(String, String)>,
    pub nomap: bool,
}

#[derive(Debug, Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnC>,          // key = file::fnkey
    pub impls: BTreeMap<String, String>,     // file::implkey -> ghost members
    pub prelude: BTreeMap<String, String>,   // file -> ghost text inside verus!
    pub derives: BTreeMap<String, Vec<String>>, // file::Type -> derives kept
    pub type_attrs: BTreeMap<String, String>,
    pub drop_items: BTreeMap<String, String>, // file::item key -> reason
    pub default_tags: BTreeMap<String, Vec<String>>,
}

const DIRECTIVES: &[&str] = &[
    "FILE", "FN", "RET", "REQ", "ENS", "DEC", "ENTRY", "WRAP", "LOOP", "ITER", "INV", "INVEB", "LENS", "LDEC", "LSTART",
    "LEND", "LPRE", "LAFTER", "DESUGAR", "BEFORE", "AFTER", "ARM", "CLOSURE", "PARAMS", "CRET", "CREQ", "CENS", "ATTR", "TRUSTED", "DROP", "BIND",
    "IMPL", "PRELUDE", "DERIVE", "DROPITEM", "TAGS", "TYPEATTR",
];

pub fn parse_all(dir: &str) -> Result<Contracts, String> {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .map_err(|e| e.to_string())?
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false))
        .collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        parse(&mut c, &text, &f.display().to_string())?;
    }
    Ok(c)
}

fn parse(c: &mut Contracts, text: &str, fname: &str) -> Result<(), String> {
    // split into (directive, args, content, line)
    let mut blocks: Vec<(String, String, String, usize)> = Vec::new();
    for (ln, line) in text.lines().enumerate() {
        let first = line.split_whitespace().next().unwrap_or("");
        if !line.starts_with(' ') && !line.starts_with('\t') && !line.is_empty() {
            if line.starts_with('#') || line.starts_with("//") {
                continue;
            }
            if DIRECTIVES.contains(&first) {
                blocks.push((first.into(), line[first.len()..].trim().into(), String::new(), ln + 1));
                continue;
            }
            return Err(format!("{}:{}: unknown directive {:?}", fname, ln + 1, first));
        }
        if let Some(b) = blocks.last_mut() {
            b.2.push_str(line);
            b.2.push('\n');
        }
    }
    let mut file = String::new();
    let mut cur: Option<String> = None;
    let mut cur_loop: usize = 0;
    let mut cur_clo: usize = 0;
    let mut deftags: Vec<String> = vec![];
    for (d, args, content, ln) in blocks {
        let loc = format!("{}:{}", fname, ln);
        let tags = |a: &str| -> Vec<String> {
            let t: Vec<String> = a
                .trim_matches(|c| c == '[' || c == ']')
                .split(|c: char| c == ',' || c.is_whitespace())
                .filter(|s| !s.is_empty())
                .map(|s| s.to_string())
                .collect();
            t
        };
        match d.as_str() {
            "FILE" => {
                file = args.clone();
                deftags = vec![];
                cur = None;
                continue;
            }
            "PRELUDE" => {
                c.prelude.entry(file.clone()).or_default().push_str(&content);
                continue;
            }
            "IMPL" => {
                c.impls.entry(format!("{}::{}", file, args)).or_default().push_str(&content);
                continue;
            }
            "DERIVE" => {
                let mut p = args.split_whitespace();
                let ty = p.next().unwrap();
                c.derives.insert(format!("{}::{}", file, ty), p.map(|s| s.to_string()).collect());
                continue;
            }
            "TYPEATTR" => {
                c.type_attrs.insert(format!("{}::{}", file, args), content.trim().to_string());
                continue;
            }
            "DROPITEM" => {
                c.drop_items.insert(format!("{}::{}", file, args), content.trim().to_string());
                continue;
            }
            "TAGS" if cur.is_none() => {
                deftags = tags(&args);
                continue;
            }
            "FN" => {
                let key = format!("{}::{}", file, args);
                if c.fns.contains_key(&key) {
                    return Err(format!("{}: duplicate FN {}", loc, key));
                }
                c.fns.insert(key.clone(), FnC { key: args.clone(), file: file.clone(), tags: deftags.clone(), ..Default::default() });
                cur = Some(key);
                continue;
            }
            _ => {}
        }
        let f = match &cur {
            None => return Err(format!("{}: {} outside FN", loc, d)),
            Some(k) => c.fns.get_mut(k).unwrap(),
        };
        let cl = Clause { tags: tags(&args), text: content.trim_end().to_string() };
        match d.as_str() {
            "TAGS" => f.tags = tags(&args),
            "RET" => f.ret = Some(args),
            "REQ" => f.reqs.push(cl),
            "ENS" => f.enss.push(cl),
            "DEC" => f.decr = Some(if content.trim().is_empty() { args } else { content }),
            "ENTRY" => f.entry.push_str(&content),
            "WRAP" => f.wrap = Some(content),
            "LOOP" => {
                cur_loop = args.parse().map_err(|_| format!("{}: LOOP k", loc))?;
                f.loops.entry(cur_loop).or_default();
            }
            "ITER" => f.loops.get_mut(&cur_loop).unwrap().iter = Some(args),
            "INV" => f.loops.get_mut(&cur_loop).unwrap().inv.push(cl),
            "INVEB" => f.loops.get_mut(&cur_loop).unwrap().inv_eb.push(cl),
            "LENS" => f.loops.get_mut(&cur_loop).unwrap().ens.push(cl),
            "LDEC" => f.loops.get_mut(&cur_loop).unwrap().decr = Some(if content.trim().is_empty() { args } else { content }),
            "LSTART" => f.loops.get_mut(&cur_loop).unwrap().start.push_str(&content),
            "LPRE" => f.loops.get_mut(&cur_loop).unwrap().pre.push_str(&content),
            "LAFTER" => f.loops.get_mut(&cur_loop).unwrap().after.push_str(&content),
            "DESUGAR" => {
                let l = f.loops.get_mut(&cur_loop).unwrap();
                l.desugar = true;
                l.iter = Some(args);
            }
            "LEND" => f.loops.get_mut(&cur_loop).unwrap().end.push_str(&content),
            "BEFORE" | "AFTER" | "ARM" => {
                let (what, k) = match args.rsplit_once(' ') {
                    Some((w, k)) if k.parse::<usize>().is_ok() => (w.to_string(), k.parse().unwrap()),
                    _ => (args.clone(), 0),
                };
                f.anchors.push(AnchorC { kind: d, what, k, text: content });
            }
            "CLOSURE" => {
                cur_clo = args.parse().map_err(|_| format!("{}: CLOSURE k", loc))?;
                f.closures.entry(cur_clo).or_default();
            }
            "PARAMS" => f.closures.get_mut(&cur_clo).unwrap().params = Some(args),
            "CRET" => f.closures.get_mut(&cur_clo).unwrap().ret = Some(args),
            "CREQ" => f.closures.get_mut(&cur_clo).unwrap().reqs.push(cl),
            "CENS" => f.closures.get_mut(&cur_clo).unwrap().enss.push(cl),
            "ATTR" => f.attrs.push(args),
            "TRUSTED" => f.trusted = Some(args),
            "DROP" => f.drop = Some(args),
            "BIND" => {
                let (n, r) = args.split_once(' ').ok_or(format!("{}: BIND name regex", loc))?;
                f.binds.push((n.into(), r.trim().into()));
            }
            _ => return Err(format!("{}: unexpected {}", loc, d)),
        }
    }
    Ok(())
}
