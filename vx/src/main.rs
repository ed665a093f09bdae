mod contracts;
mod extract;
mod macros;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| -> String {
        args.iter()
            .position(|a| a == n)
            .and_then(|i| args.get(i + 1).cloned())
            .unwrap_or_else(|| {
                eprintln!("missing {}", n);
                std::process::exit(2)
            })
    };
    let root = get("--root"); // crate root source file, e.g. /repo/src/lib.rs
    let cdir = get("--contracts");
    let out = get("--out");
    let c = match contracts::parse_all(&cdir) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("contract error: {}", e);
            std::process::exit(2)
        }
    };
    let mut x = extract::Extractor::new(c);
    if let Some(i) = args.iter().position(|a| a == "--stub") {
        x.stub = args[i + 1].split('|').map(|s| s.to_string()).collect();
    }
    x.probe = args.iter().any(|a| a == "--probe");
    if let Some(i) = args.iter().position(|a| a == "--extra") {
        match extract::generated(&args[i + 1], &x) {
            Ok(t) => {
                std::fs::create_dir_all(&out).unwrap();
                let p = format!("{}/derived.rs", out);
                std::fs::write(&p, t).unwrap();
                x.extra = Some(p);
            }
            Err(e) => {
                eprintln!("extraction error: {}", e);
                std::process::exit(3)
            }
        }
    }
    match x.run(&root) {
        Ok(text) => {
            std::fs::create_dir_all(&out).unwrap();
            std::fs::write(format!("{}/gen.rs", out), &text).unwrap();
            std::fs::write(
                format!("{}/report.json", out),
                serde_json::to_string_pretty(&x.report(&text)).unwrap(),
            )
            .unwrap();
        }
        Err(e) => {
            eprintln!("extraction error: {}", e);
            std::process::exit(3)
        }
    }
}
