//! rv-extract: takes the real functions out of /repo's sources and merges them with a contract unit.
//!
//!   rv-extract <unit.vc> <repo root> <out.rs> <out.json>
//!
//! The body of every function is the text of the source file. The only edits are the ones listed in
//! DESIGN.md ("What the extraction changes"); each application is counted in out.json under "edits".
mod unit;
mod xform;

use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;

/// Functions that are written inside another function, moved behind it (they capture nothing).
fn hoist(names: &[String], text: String, file: syn::File) -> (String, syn::File) {
    use syn::spanned::Spanned;
    let (mut body, mut moved) = (text.clone().into_bytes(), String::new());
    for item in &file.items {
        let syn::Item::Fn(f) = item else { continue };
        if !names.contains(&f.sig.ident.to_string()) {
            continue;
        }
        for stmt in &f.block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(g)) = stmt {
                let r = g.span().byte_range();
                moved.push_str("\n\n");
                moved.push_str(&text[r.clone()]);
                body[r].iter_mut().filter(|b| **b != b'\n').for_each(|b| *b = b' ');
            }
        }
    }
    if moved.is_empty() {
        return (text, file);
    }
    let text = String::from_utf8(body).unwrap() + &moved + "\n";
    let file = syn::parse_file(&text).unwrap();
    (text, file)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 5 {
        eprintln!("usage: rv-extract unit.vc repo out.rs out.json");
        std::process::exit(2);
    }
    let dir = std::path::Path::new(&args[1]).parent().unwrap().to_path_buf();
    let u = unit::parse(&args[1], &dir);
    let repo = &args[2];
    let mut out = String::new();
    let mut ctx = xform::Ctx::new(&u);
    let mut sources: BTreeMap<String, xform::Source> = BTreeMap::new();
    for (alias, rel) in &u.sources {
        // `path#module`: the items of that inline module of the file
        let (rel, inner) = match rel.split_once('#') { Some((a, b)) => (a.to_string(), Some(b.to_string())), None => (rel.clone(), None) };
        let rel = &rel;
        match fs::read_to_string(format!("{repo}/{rel}")) {
            Ok(text) => match syn::parse_file(&text) {
                Ok(mut file) => {
                    if let Some(m) = &inner {
                        let found = file.items.iter().find_map(|i| match i { syn::Item::Mod(x) if x.ident == m.as_str() => x.content.clone(), _ => None });
                        match found { Some((_, items)) => file.items = items, None => { ctx.lost.push(format!("{rel}: no module {m}")); continue; } }
                    }
                    let (text, file) = hoist(&u.hoists, text, file);
                    sources.insert(alias.clone(), xform::Source { rel: rel.clone(), text, file });
                }
                Err(e) => ctx.lost.push(format!("{rel}: does not parse: {e}")),
            },
            Err(e) => ctx.lost.push(format!("{rel}: {e}")),
        }
    }
    for part in &u.parts {
        match part {
            unit::Part::Text(t) => out.push_str(t),
            unit::Part::Take { alias, items, all } => {
                if let Some(s) = sources.get(alias) {
                    ctx.alias = alias.clone();
                    out.push_str(&xform::take(&mut ctx, s, items, *all));
                } else {
                    ctx.lost.push(format!("source {alias} missing"));
                }
            }
        }
    }
    // contracts that matched no function
    for name in u.fns.keys() {
        if !ctx.seen_fns.contains(name) {
            ctx.lost.push(format!("function under contract not found: {name}"));
        }
    }
    // line map
    let mut lines: Vec<serde_json::Value> = vec![];
    let mut text = String::new();
    let mut cur: Option<String> = None;
    let mut ln = 0usize;
    let mut fnspans: Vec<(String, usize, usize)> = vec![];
    let mut stack: Vec<(String, usize)> = vec![];
    for line in out.lines() {
        let t = line.trim();
        if let Some(rest) = t.strip_prefix("//%begin ") {
            stack.push((rest.to_string(), ln + 1));
            continue;
        }
        if t.starts_with("//%end") {
            if let Some((n, l)) = stack.pop() {
                fnspans.push((n, l, ln));
            }
            continue;
        }
        if let Some(rest) = t.strip_prefix("//%tag ") {
            cur = Some(rest.to_string());
            continue;
        }
        if t.starts_with("//%endtag") {
            cur = None;
            continue;
        }
        ln += 1;
        text.push_str(line);
        text.push('\n');
        let mut tags: BTreeSet<String> = BTreeSet::new();
        if let Some(i) = line.find("//#") {
            for w in line[i + 3..].split_whitespace() {
                tags.insert(w.trim_matches(',').to_string());
            }
        }
        if let Some(c) = &cur {
            for w in c.split_whitespace() {
                tags.insert(w.to_string());
            }
        }
        if !tags.is_empty() {
            lines.push(json!([ln, tags]));
        }
    }
    fs::write(&args[3], &text).unwrap();
    let j = json!({
        "unit": u.name,
        "lost": ctx.lost,
        "uncontracted": ctx.uncontracted,
        "shapes": ctx.shapes,
        "taken": ctx.taken,
        "dropped": ctx.dropped,
        "edits": ctx.edit_counts,
        "substs": ctx.substs,
        "tags": lines,
        "fns": fnspans.iter().map(|(n,a,b)| json!([n,a,b])).collect::<Vec<_>>(),
        "props": u.fns.iter().map(|(n,f)| (n.clone(), f.props.clone())).collect::<BTreeMap<_,_>>(),
        "text_fn_props": u.text_props,
    });
    fs::write(&args[4], serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
