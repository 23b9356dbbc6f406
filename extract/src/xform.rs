//! Item selection and the textual edits applied to the real source.
use crate::unit::{FnContract, Unit};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Source {
    pub rel: String,
    pub text: String,
    pub file: syn::File,
}

pub struct Ctx<'u> {
    pub u: &'u Unit,
    pub lost: Vec<String>,
    pub uncontracted: Vec<String>,
    /// loops and closures of each function under contract
    pub shapes: BTreeMap<String, (usize, usize)>,
    pub seen_fns: BTreeSet<String>,
    pub taken: Vec<String>,
    pub dropped: Vec<String>,
    pub edit_counts: BTreeMap<String, usize>,
    pub substs: Vec<String>,
    pub vacuity: bool,
    /// alias of the source being emitted: `alias:name` contracts take precedence over `name`
    pub alias: String,
}

impl<'u> Ctx<'u> {
    pub fn new(u: &'u Unit) -> Self {
        Ctx {
            u,
            lost: vec![],
            uncontracted: vec![],
            shapes: Default::default(),
            seen_fns: BTreeSet::new(),
            taken: vec![],
            dropped: vec![],
            edit_counts: BTreeMap::new(),
            substs: vec![],
            vacuity: std::env::var("RV_VACUITY").is_ok(),
            alias: String::new(),
        }
    }
    fn rk(&self, key: &str) -> String {
        let q = format!("{}:{key}", self.alias);
        if self.u.fns.contains_key(&q) { q } else { key.to_string() }
    }
    fn contract(&self, key: &str) -> Option<&'u FnContract> {
        self.u.fns.get(&self.rk(key))
    }
    fn count(&mut self, k: &str) {
        *self.edit_counts.entry(k.to_string()).or_default() += 1;
    }
}

pub fn compact(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

fn ty_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", ty_ident(&r.elem)),
        other => compact(other),
    }
}

fn is_cfg_off(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = compact(a);
        s.contains("cfg(test)") || s.contains("cfg(target_arch") || s.contains("cfg(feature=\"js\")") || s.contains("cfg(all(target_arch")
    })
}

pub fn impl_key(i: &syn::ItemImpl) -> String {
    let ty = compact(&i.self_ty);
    match &i.trait_ {
        Some((_, path, _)) => format!("impl:{}:{}", compact(path), ty),
        None => format!("impl:{ty}"),
    }
}

pub fn method_key(i: &syn::ItemImpl, name: &str) -> String {
    let ty = ty_ident(&i.self_ty);
    match &i.trait_ {
        Some((_, path, _)) => format!("{}::{}::{}", ty, path.segments.last().unwrap().ident, name),
        None => format!("{ty}::{name}"),
    }
}

fn item_key(item: &syn::Item) -> Option<String> {
    Some(match item {
        syn::Item::Fn(f) => f.sig.ident.to_string(),
        syn::Item::Struct(s) => s.ident.to_string(),
        syn::Item::Enum(s) => s.ident.to_string(),
        syn::Item::Type(s) => s.ident.to_string(),
        syn::Item::Const(s) => s.ident.to_string(),
        syn::Item::Trait(s) => s.ident.to_string(),
        syn::Item::Impl(i) => impl_key(i),
        _ => return None,
    })
}

fn attrs_of(item: &syn::Item) -> &[syn::Attribute] {
    match item {
        syn::Item::Fn(f) => &f.attrs,
        syn::Item::Struct(s) => &s.attrs,
        syn::Item::Enum(s) => &s.attrs,
        syn::Item::Type(s) => &s.attrs,
        syn::Item::Const(s) => &s.attrs,
        syn::Item::Trait(s) => &s.attrs,
        syn::Item::Impl(i) => &i.attrs,
        syn::Item::Mod(i) => &i.attrs,
        _ => &[],
    }
}

pub fn take(ctx: &mut Ctx, src: &Source, items: &[String], all: bool) -> String {
    let mut out = String::new();
    let mut unmatched: BTreeSet<String> = items.iter().filter(|s| !s.starts_with('-')).cloned().collect();
    let minus: BTreeSet<&str> = items.iter().filter_map(|s| s.strip_prefix('-')).collect();
    for item in &src.file.items {
        let Some(key) = item_key(item) else { continue };
        if is_cfg_off(attrs_of(item)) {
            continue;
        }
        let listed = items.contains(&key);
        if let syn::Item::Impl(i) = item {
            let methods: Vec<String> = i
                .items
                .iter()
                .filter_map(|m| match m {
                    syn::ImplItem::Fn(f) if !is_cfg_off(&f.attrs) => Some(method_key(i, &f.sig.ident.to_string())),
                    _ => None,
                })
                .collect();
            let chosen: Vec<String> = methods
                .iter()
                .filter(|m| {
                    let whole = (all || listed) && !minus.contains(key.as_str());
                    (whole || items.contains(*m)) && !minus.contains(m.as_str())
                })
                .cloned()
                .collect();
            for m in &methods {
                if !chosen.contains(m) {
                    ctx.dropped.push(format!("{}: {m}", src.rel));
                } else {
                    unmatched.remove(m);
                }
            }
            let whole = (all || listed) && !minus.contains(key.as_str());
            if listed {
                unmatched.remove(&key);
            }
            if chosen.is_empty() && !whole {
                continue;
            }
            out.push_str(&emit_impl(ctx, src, i, &key, &chosen));
            continue;
        }
        if (all || listed) && !minus.contains(key.as_str()) {
            unmatched.remove(&key);
            out.push_str(&emit_item(ctx, src, item, &key));
        } else {
            ctx.dropped.push(format!("{}: {key}", src.rel));
        }
    }
    for m in unmatched {
        ctx.lost.push(format!("{}: item not found: {m}", src.rel));
    }
    out
}

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    seq: usize,
}

fn apply(text: &str, start: usize, end: usize, edits: &mut Vec<Edit>) -> String {
    edits.sort_by_key(|e| (e.start, e.end, e.seq));
    let mut out = String::new();
    let mut pos = start;
    for e in edits.iter() {
        if e.start < pos {
            // an edit inside a region already removed
            if e.end <= pos {
                continue;
            }
        }
        if e.start >= pos {
            out.push_str(&text[pos..e.start]);
        }
        out.push_str(&e.text);
        pos = e.end.max(pos);
    }
    out.push_str(&text[pos..end]);
    out
}

fn br(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn range<T: Spanned>(t: &T) -> (usize, usize) {
    br(t.span())
}

fn after_attrs(start: usize, end: usize, attrs: &[syn::Attribute]) -> (usize, usize) {
    let mut s = start;
    for a in attrs {
        let (_, e) = range(a);
        if e > s && e < end {
            s = e;
        }
    }
    (s, end)
}

struct Edits {
    v: Vec<Edit>,
}
impl Edits {
    fn rep(&mut self, start: usize, end: usize, text: impl Into<String>) {
        let seq = self.v.len();
        self.v.push(Edit { start, end, text: text.into(), seq });
    }
    fn ins(&mut self, at: usize, text: impl Into<String>) {
        self.rep(at, at, text)
    }
}

fn vis_edit(e: &mut Edits, vis: &syn::Visibility, at: usize) {
    match vis {
        syn::Visibility::Inherited => e.ins(at, "pub "),
        v => {
            let (a, b) = range(v);
            e.rep(a, b, "pub");
        }
    }
}

fn strip_attrs(e: &mut Edits, attrs: &[syn::Attribute]) {
    for a in attrs {
        let (s, t) = range(a);
        e.rep(s, t, "");
    }
}

fn do_substs(ctx: &mut Ctx, what: &str, mut s: String, substs: &[(String, String)]) -> String {
    for (a, b) in substs {
        if s.contains(a.as_str()) {
            ctx.substs.push(format!("{what}: `{a}` => `{b}`"));
            ctx.count("subst");
            s = s.replace(a.as_str(), b);
        } else {
            ctx.lost.push(format!("{what}: substitution anchor not found: `{a}`"));
        }
    }
    s
}

fn gsubsts(ctx: &mut Ctx, what: &str, mut s: String) -> String {
    for (a, b) in ctx.u.global_substs.clone() {
        if s.contains(a.as_str()) {
            ctx.substs.push(format!("{what}: `{a}` => `{b}`"));
            ctx.count("gsubst");
            s = s.replace(a.as_str(), &b);
        }
    }
    s
}

fn emit_item(ctx: &mut Ctx, src: &Source, item: &syn::Item, key: &str) -> String {
    let (s0, e0) = range(item);
    let (s, end) = after_attrs(s0, e0, attrs_of(item));
    let mut e = Edits { v: vec![] };
    let mut pre = String::new();
    if let Some(a) = ctx.u.item_attrs.get(key) {
        pre.push_str(a);
        pre.push('\n');
    }
    if let Some(d) = ctx.u.derives.get(key) {
        if !d.is_empty() {
            pre.push_str(&format!("#[derive({d})]\n"));
        }
    }
    let mut body;
    match item {
        syn::Item::Fn(f) => {
            vis_edit(&mut e, &f.vis, range(&f.sig).0);
            edit_fn(ctx, src, &mut e, key, &f.sig, Some(&f.block), key, true);
            let t = apply(&src.text, s, end, &mut e.v);
            return finish_fn(ctx, src, key, t);
        }
        syn::Item::Struct(st) => {
            vis_edit(&mut e, &st.vis, range(&st.struct_token).0);
            for f in &st.fields {
                strip_attrs(&mut e, &f.attrs);
                let at = match &f.ident {
                    Some(i) => range(i).0,
                    None => range(&f.ty).0,
                };
                vis_edit(&mut e, &f.vis, at);
            }
            ctx.count("visibility widened");
        }
        syn::Item::Enum(en) => {
            vis_edit(&mut e, &en.vis, range(&en.enum_token).0);
            for v in &en.variants {
                strip_attrs(&mut e, &v.attrs);
                for f in &v.fields {
                    strip_attrs(&mut e, &f.attrs);
                }
            }
        }
        syn::Item::Type(t) => vis_edit(&mut e, &t.vis, range(&t.type_token).0),
        syn::Item::Const(t) => {
            vis_edit(&mut e, &t.vis, range(&t.const_token).0);
            if let syn::Type::Reference(r) = &*t.ty {
                if r.lifetime.is_none() {
                    e.ins(range(&r.and_token).1, "'static ");
                }
            }
            let mut lits = ByteLits(Vec::new());
            lits.visit_expr(&t.expr);
            for (a, b, v) in lits.0 {
                e.rep(a, b, v);
                ctx.count("byte string literal written as an array");
            }
            // a constant with a contract: evaluated once, by code, with the postcondition proved
            if let Some(c) = ctx.contract(key).cloned() {
                { let k = ctx.rk(key); ctx.seen_fns.insert(k); }
                e.ins(range(&t.const_token).0, "exec ");
                let (a, b) = (range(&t.eq_token), range(&t.semi_token));
                e.rep(a.0, a.1, format!("\n{}\n{{\n{}\n", c.spec, c.entry));
                e.rep(b.0, b.1, "\n}");
            }
        }
        syn::Item::Trait(t) => {
            vis_edit(&mut e, &t.vis, range(&t.trait_token).0);
            if let Some(x) = ctx.contract(&format!("{key}/*")) {
                { let k = ctx.rk(&format!("{key}/*")); ctx.seen_fns.insert(k) };
                e.ins(br(t.brace_token.span.open()).1, format!("\n{}", x.spec));
            }
            for m in &t.items {
                if let syn::TraitItem::Fn(f) = m {
                    strip_attrs(&mut e, &f.attrs);
                    let k = format!("{key}::{}", f.sig.ident);
                    edit_fn(ctx, src, &mut e, &k, &f.sig, f.default.as_ref(), &k, true);
                    if f.default.is_none() {
                        if let Some(semi) = &f.semi_token {
                            let c = ctx.contract(&k).cloned().unwrap_or_default();
                            { let k2 = ctx.rk(&k); ctx.seen_fns.insert(k2); }
                            let (a, b) = range(semi);
                            let _ = b;
                            e.ins(a, format!("\n{}", c.spec));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    body = apply(&src.text, s, end, &mut e.v);
    if let Some(sub) = ctx.u.item_substs.get(key).cloned() {
        body = do_substs(ctx, key, body, &sub);
    }
    body = gsubsts(ctx, key, body);
    ctx.taken.push(format!("{}: {key}", src.rel));
    format!("{pre}{body}\n\n")
}

fn finish_fn(ctx: &mut Ctx, src: &Source, key: &str, t: String) -> String {
    let c = ctx.contract(key).cloned().unwrap_or_default();
    let t = do_substs(ctx, key, t, &c.substs);
    let t = gsubsts(ctx, key, t);
    ctx.taken.push(format!("{}: {key}", src.rel));
    format!("\n//%begin {}\n{}{}\n//%end\n\n", ctx.rk(key), c.attrs, t.trim_start())
}

fn emit_impl(ctx: &mut Ctx, src: &Source, i: &syn::ItemImpl, key: &str, chosen: &[String]) -> String {
    let (s0, e0) = range(i);
    let (s, _) = after_attrs(s0, e0, &i.attrs);
    let open = br(i.brace_token.span.open()).1;
    let mut head = src.text[s..open].trim().to_string();
    if let Some(sub) = ctx.u.item_substs.get(key).cloned() {
        head = do_substs(ctx, key, head, &sub);
    }
    head = gsubsts(ctx, key, head);
    let mut out = format!("{head}\n");
    if let Some(x) = ctx.contract(&format!("{key}/*")) {
        { let k = ctx.rk(&format!("{key}/*")); ctx.seen_fns.insert(k) };
        out.push_str(&x.spec);
    }
    for m in &i.items {
        match m {
            syn::ImplItem::Fn(f) => {
                let k = method_key(i, &f.sig.ident.to_string());
                if !chosen.contains(&k) {
                    continue;
                }
                let (s0, e0) = range(f);
                let (s, end) = after_attrs(s0, e0, &f.attrs);
                let mut e = Edits { v: vec![] };
                if i.trait_.is_none() {
                    vis_edit(&mut e, &f.vis, range(&f.sig).0);
                }
                edit_fn(ctx, src, &mut e, &k, &f.sig, Some(&f.block), &k, i.trait_.is_none());
                let t = apply(&src.text, s, end, &mut e.v);
                out.push_str(&finish_fn(ctx, src, &k, t));
            }
            // a trait impl turned into an inherent one has no associated types
            syn::ImplItem::Type(_) if i.trait_.is_some() && !head.contains(" for ") => {}
            other => {
                let (a, b) = range(other);
                out.push_str(&src.text[a..b]);
                out.push('\n');
            }
        }
    }
    out.push_str("}\n\n");
    out
}

fn edit_fn(
    ctx: &mut Ctx,
    src: &Source,
    e: &mut Edits,
    key: &str,
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    _outer: &str,
    _inherent: bool,
) {
    let has = ctx.contract(key).is_some();
    let c = ctx.contract(key).cloned().unwrap_or_default();
    if has {
        { let k2 = ctx.rk(key); ctx.seen_fns.insert(k2); }
    } else if !ctx.u.allow_uncontracted.contains(&key.to_string()) {
        ctx.uncontracted.push(key.to_string());
    }
    // const fn
    if let Some(k) = &sig.constness {
        let (a, b) = range(k);
        e.rep(a, b, "");
    }
    // a parameter named like its function would shadow it inside the verifier's clauses
    for p in &sig.inputs {
        if let syn::FnArg::Typed(t) = p {
            if let syn::Pat::Ident(pi) = &*t.pat {
                if pi.ident == sig.ident {
                    let (_, b) = range(&pi.ident);
                    e.ins(b, "_");
                    if let Some(block) = block {
                        let mut v = Uses { name: sig.ident.to_string(), at: vec![] };
                        v.visit_block(block);
                        for x in v.at {
                            e.ins(x, "_");
                        }
                    }
                    ctx.count("parameter renamed (it has the name of its function)");
                }
            }
        }
    }
    // parameters that are patterns are bound inside the body
    let mut pat_lets = String::new();
    for (k, p) in sig.inputs.iter().enumerate() {
        if let syn::FnArg::Typed(t) = p {
            if !matches!(&*t.pat, syn::Pat::Ident(_) | syn::Pat::Wild(_)) {
                let (a, b) = range(&t.pat);
                pat_lets.push_str(&format!("let {} = rv_p{k};\n", &src.text[a..b]));
                e.rep(a, b, format!("rv_p{k}"));
                ctx.count("function parameter pattern moved into its body");
            }
        }
    }
    // `mut self` by value: the body works on a mutable copy
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
        if let (None, Some(m), Some(block)) = (&r.reference, &r.mutability, block) {
            let (a, b) = range(m);
            e.rep(a, b, "");
            let mut v = Uses { name: "self".into(), at: vec![] };
            v.visit_block(block);
            for x in v.at {
                e.ins(x, "_");
            }
            pat_lets.push_str("let mut self_ = self;\n");
            ctx.count("`mut self` moved into a mutable local of the body");
        }
    }
    // fn-pointer parameters become generic `impl Fn + Copy`
    for p in &sig.inputs {
        if let syn::FnArg::Typed(t) = p {
            if let syn::Type::BareFn(_) = &*t.ty {
                let (a, b) = range(&t.ty);
                let ty = &src.text[a..b];
                let ty = ty.trim_start();
                let ty = ty.strip_prefix("fn").unwrap_or(ty);
                e.rep(a, b, format!("impl Fn{ty} + Copy"));
                ctx.count("fn pointer parameter generalised to impl Fn + Copy");
            }
        }
    }
    if let (Some(r), syn::ReturnType::Type(_, ty)) = (&c.ret, &sig.output) {
        let (a, b) = range(ty);
        e.ins(a, format!("({r}: "));
        e.ins(b, ")");
        ctx.count("return value named");
    }
    if let Some(block) = block {
        let open = br(block.brace_token.span.open());
        if !c.spec.trim().is_empty() {
            e.ins(open.0, format!("\n{}", c.spec));
        }
        // `hide(..)` headers have to stay at the very start of the body
        let n = c.entry.lines().take_while(|l| l.trim().is_empty() || l.trim().starts_with("hide(")).map(|l| l.len() + 1).sum::<usize>().min(c.entry.len());
        let (headers, entry) = c.entry.split_at(n);
        if !headers.trim().is_empty() {
            e.ins(open.1, format!("\n{}", headers));
        }
        if ctx.vacuity && has {
            // vacuity probe: the entry of the function must be reachable under its precondition
            e.ins(open.1, format!("\nproof {{ assert(false); }} //vac: {key}\n"));
        }
        if !pat_lets.is_empty() {
            e.ins(open.1, format!("\n{}", pat_lets));
        }
        if !entry.trim().is_empty() {
            e.ins(open.1, format!("\n{}", entry));
        }
        if !c.tail.trim().is_empty() {
            let close = br(block.brace_token.span.close()).0;
            match block.stmts.last() {
                Some(syn::Stmt::Expr(x, None)) if !matches!(x, syn::Expr::While(_) | syn::Expr::ForLoop(_)) && !matches!(sig.output, syn::ReturnType::Default) => {
                    let (a, b) = range(x);
                    let name = c.ret.clone().unwrap_or("r".into());
                    let ty = match &sig.output {
                        syn::ReturnType::Type(_, t) if c.opts.iter().any(|x| x == "tail-type") => {
                            let (ta, tb) = range(t.as_ref());
                            format!(": {}", &src.text[ta..tb])
                        }
                        _ => String::new(),
                    };
                    e.ins(a, format!("let {name}{ty} = "));
                    e.ins(b, format!(";\n{}\n{name}\n", c.tail));
                    ctx.count("tail expression bound to a name");
                }
                Some(syn::Stmt::Expr(x, None)) if !matches!(x, syn::Expr::While(_) | syn::Expr::ForLoop(_)) => {
                    let (_, b) = range(x);
                    e.ins(b, format!(";\n{}", c.tail));
                }
                _ => e.ins(close, format!("\n{}", c.tail)),
            }
        }
        let mut v = Body { ctx, src, e, c: &c, key, loops: 0, closures: 0, tail_closure: None, called: BTreeSet::new(), tries: BTreeSet::new() };
        let _ = &v.tail_closure;
        v.visit_block(block);
        let tried = v.tries.clone();
        let shape = (v_loops(block), v_closures(block));
        ctx.shapes.insert(key.to_string(), shape);
        for (k, (pat, _)) in c.tries.iter().enumerate() {
            if !tried.contains(&k) {
                ctx.lost.push(format!("{key}: `?` on an expression with `{pat}` not found"));
            }
        }
        // anchors
        let (bs, be) = range(block);
        let text = &src.text[bs..be];
        for (list, is_before) in [(&c.before, true), (&c.after, false)] {
            for (pat, ins, opt) in list.iter() {
                let (pat2, nth) = match pat.rsplit_once("##") {
                    Some((p, n)) => (p.to_string(), n.trim().parse::<usize>().unwrap_or(0)),
                    None => (pat.clone(), 0),
                };
                let pat2 = pat2.trim_matches('`').to_string();
                match text.match_indices(pat2.as_str()).nth(nth) {
                    Some((i, _)) => {
                        let at = if is_before { bs + i } else { bs + i + pat2.len() };
                        e.ins(at, format!("\n{ins}"));
                    }
                    None if *opt => {}
                    None => ctx.lost.push(format!("{key}: anchor not found: `{pat}`")),
                }
            }
        }
        for i in c.loops.keys().chain(c.loop_entry.keys()).chain(c.loop_end.keys()) {
            if *i >= v_loops(block) {
                ctx.lost.push(format!("{key}: loop {i} not found"));
            }
        }
        for i in c.closures.keys() {
            if *i >= v_closures(block) {
                ctx.lost.push(format!("{key}: closure {i} not found"));
            }
        }
    }
}

/// Byte string literals, as the array they stand for.
struct ByteLits(Vec<(usize, usize, String)>);
fn byte_lit(l: &syn::ExprLit) -> Option<String> {
    match &l.lit {
        syn::Lit::ByteStr(b) => Some(format!("&[{}]", b.value().iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", "))),
        _ => None,
    }
}
impl<'a> Visit<'a> for ByteLits {
    fn visit_expr_lit(&mut self, l: &'a syn::ExprLit) {
        if let Some(v) = byte_lit(l) {
            let (a, b) = range(l);
            self.0.push((a, b, v));
        }
    }
}
struct Uses {
    name: String,
    at: Vec<usize>,
}
impl<'a> Visit<'a> for Uses {
    fn visit_expr_call(&mut self, i: &'a syn::ExprCall) {
        if !matches!(&*i.func, syn::Expr::Path(_)) {
            self.visit_expr(&i.func);
        }
        for a in &i.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_path(&mut self, i: &'a syn::ExprPath) {
        if i.path.is_ident(&self.name) {
            self.at.push(range(&i.path).1);
        }
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
struct CountV(usize, usize);
impl<'a> Visit<'a> for CountV {
    fn visit_expr_while(&mut self, i: &'a syn::ExprWhile) {
        self.0 += 1;
        visit::visit_expr_while(self, i)
    }
    fn visit_expr_loop(&mut self, i: &'a syn::ExprLoop) {
        self.0 += 1;
        visit::visit_expr_loop(self, i)
    }
    fn visit_expr_for_loop(&mut self, i: &'a syn::ExprForLoop) {
        self.0 += 1;
        visit::visit_expr_for_loop(self, i)
    }
    fn visit_expr_closure(&mut self, i: &'a syn::ExprClosure) {
        self.1 += 1;
        visit::visit_expr_closure(self, i)
    }
    fn visit_expr_method_call(&mut self, i: &'a syn::ExprMethodCall) {
        if i.method == "for_each" || i.method == "filter_map" {
            self.0 += 1;
        }
        visit::visit_expr_method_call(self, i)
    }
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
}
fn v_loops(b: &syn::Block) -> usize {
    let mut c = CountV(0, 0);
    c.visit_block(b);
    c.0
}
fn v_closures(b: &syn::Block) -> usize {
    let mut c = CountV(0, 0);
    c.visit_block(b);
    c.1
}

struct Body<'x, 'u> {
    ctx: &'x mut Ctx<'u>,
    src: &'x Source,
    e: &'x mut Edits,
    c: &'x FnContract,
    key: &'x str,
    loops: usize,
    closures: usize,
    tail_closure: Option<()>,
    called: BTreeSet<usize>,
    tries: BTreeSet<usize>,
}

impl Body<'_, '_> {
    fn opt(&self, o: &str) -> bool {
        self.c.opts.iter().any(|x| x == o)
    }
    fn loop_edits(&mut self, body: &syn::Block) -> usize {
        let n = self.loops;
        self.loops += 1;
        let open = br(body.brace_token.span.open());
        let close = br(body.brace_token.span.close());
        if let Some(s) = self.c.loops.get(&n) {
            let s: String = s.lines().filter(|l| !l.trim_start().starts_with("iter ")).map(|l| format!("{l}\n")).collect();
            self.e.ins(open.0, format!("\n{s}"));
            self.ctx.count("loop invariant inserted");
        }
        if let Some(s) = self.c.loop_entry.get(&n) {
            self.e.ins(open.1, format!("\n{s}"));
        }
        if let Some(s) = self.c.loop_end.get(&n) {
            self.e.ins(close.0, format!("\n{s}"));
        }
        n
    }
}

/// First top-level comma-separated argument of a macro's token stream, as a byte range.
/// `format!("a{x}b{}", e)` as `Fmt::new().lit("a").dis(&(x)).lit("b").dis(&(e)).text()`; only plain `{}` and `{name}`.
fn fmt_pieces(m: &syn::Macro) -> Option<String> {
    use syn::punctuated::Punctuated;
    let args = m.parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
    let mut it = args.iter();
    let lit = match it.next()? {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let mut out = String::from("Fmt::new()");
    let mut cur = String::new();
    let mut cs = lit.chars().peekable();
    fn flush(cur: &mut String, out: &mut String) {
        if !cur.is_empty() {
            out.push_str(&format!(".lit({cur:?})"));
            cur.clear();
        }
    }
    while let Some(c) = cs.next() {
        match c {
            '{' if cs.peek() == Some(&'{') => { cs.next(); cur.push('{'); }
            '}' if cs.peek() == Some(&'}') => { cs.next(); cur.push('}'); }
            '{' => {
                let mut name = String::new();
                loop {
                    match cs.next()? {
                        '}' => break,
                        ':' => return None,
                        x => name.push(x),
                    }
                }
                flush(&mut cur, &mut out);
                let e = if name.is_empty() { it.next()?.to_token_stream().to_string() } else if name.chars().all(|c| c.is_ascii_digit()) { return None } else { name };
                out.push_str(&format!(".dis(&({e}))"));
            }
            '}' => return None,
            x => cur.push(x),
        }
    }
    flush(&mut cur, &mut out);
    if it.next().is_some() { return None; }
    out.push_str(".text()");
    Some(out)
}
fn macro_first_arg(m: &syn::Macro) -> Option<(usize, usize)> {
    let mut start = None;
    let mut end = 0;
    for t in m.tokens.clone() {
        if let proc_macro2::TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                break;
            }
        }
        let (a, b) = br(t.span());
        if start.is_none() {
            start = Some(a);
        }
        end = b;
    }
    start.map(|s| (s, end))
}

impl<'a> Visit<'a> for Body<'_, '_> {
    fn visit_block(&mut self, b: &'a syn::Block) {
        for st in &b.stmts {
            let attrs: &[syn::Attribute] = match st {
                syn::Stmt::Local(l) => &l.attrs,
                syn::Stmt::Macro(m) => &m.attrs,
                syn::Stmt::Item(syn::Item::Fn(f)) => &f.attrs,
                _ => &[],
            };
            if is_cfg_off(attrs) {
                let (s, t) = range(st);
                self.e.rep(s, t, "");
                self.ctx.count("cfg(test) statement dropped");
                continue;
            }
            strip_attrs(self.e, attrs);
            match st {
                syn::Stmt::Item(syn::Item::Fn(f)) => {
                    let k = format!("{}/{}", self.key, f.sig.ident);
                    edit_fn(self.ctx, self.src, self.e, &k, &f.sig, Some(&f.block), &k, true);
                    let c = self.ctx.contract(&k).cloned().unwrap_or_default();
                    let (s, t) = range(f);
                    let (s, _) = after_attrs(s, t, &f.attrs);
                    self.e.ins(s, format!("\n//%begin {}\n{}", self.ctx.rk(&k), c.attrs));
                    self.e.ins(t, "\n//%end\n");
                    if !c.substs.is_empty() {
                        // nested substitutions are applied with the outer function's text
                        self.ctx.lost.push(format!("{k}: nested subst unsupported"));
                    }
                }
                syn::Stmt::Item(_) => {}
                _ => self.visit_stmt(st),
            }
        }
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let (s, t) = range(m);
        match name.as_str() {
            "debug_assert" | "assert" => {
                if let Some((a, b)) = macro_first_arg(m) {
                    self.e.rep(s, a, "rt_assert(");
                    self.e.rep(b, t, ")");
                    self.ctx.count("assert!/debug_assert! turned into a proof obligation");
                }
            }
            "format" if self.opt("fmt") => match fmt_pieces(m) {
                Some(x) => {
                    self.e.rep(s, t, x);
                    self.ctx.count("format! written as the pieces it joins");
                }
                None => self.ctx.lost.push(format!("{}: format! not understood", self.key)),
            },
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.e.rep(s, t, "rt_unreachable()");
                self.ctx.count("panic! turned into an unreachability obligation");
            }
            _ => {}
        }
    }
    fn visit_expr_while(&mut self, i: &'a syn::ExprWhile) {
        self.visit_expr(&i.cond);
        self.loop_edits(&i.body);
        self.visit_block(&i.body);
    }
    fn visit_expr_loop(&mut self, i: &'a syn::ExprLoop) {
        self.loop_edits(&i.body);
        self.visit_block(&i.body);
    }
    fn visit_expr_for_loop(&mut self, i: &'a syn::ExprForLoop) {
        // `for p in e.iter_mut()` visits the elements by index
        if let syn::Expr::MethodCall(m) = &*i.expr {
            let shared = m.method == "iter" && self.opt("inline-iter");
            if (m.method == "iter_mut" || shared) && m.args.is_empty() && i.label.is_none() {
                let n = self.loops;
                let (fs, fe) = range(i);
                let (es, ee) = range(&m.receiver);
                let (ps, pe) = range(&i.pat);
                let open = br(i.body.brace_token.span.open());
                let place = matches!(&*m.receiver, syn::Expr::Path(_) | syn::Expr::Field(_));
                self.e.rep(fs, es, format!("{{ let mut rv_v{n} = {}", if !place { "" } else if shared { "&" } else { "&mut " }));
                self.e.rep(ee, open.0, format!("; let mut rv_i{n}: usize = 0; while rv_i{n} < rv_v{n}.len() "));
                let pat = self.src.text[ps..pe].to_string();
                self.e.ins(open.1, format!(" let {pat} = &{}rv_v{n}[rv_i{n}]; rv_i{n} += 1; ", if shared { "" } else { "mut " }));
                self.loop_edits(&i.body);
                self.e.ins(fe, " }");
                self.ctx.count("for over iter or iter_mut written as a loop over the indices");
                self.visit_expr(&m.receiver);
                self.visit_block(&i.body);
                return;
            }
        }
        // `for p in vec` takes the elements out from the front
        if self.opt("inline-own") && i.label.is_none() {
            let n = self.loops;
            let (fs, fe) = range(i);
            let (es, ee) = range(&i.expr);
            let (ps, pe) = range(&i.pat);
            let open = br(i.body.brace_token.span.open());
            let pat = self.src.text[ps..pe].to_string();
            self.e.rep(fs, es, format!("{{ let mut rv_v{n} = "));
            self.e.rep(ee, open.0, format!("; while rv_v{n}.len() > 0 "));
            self.e.ins(open.1, format!(" let {pat} = rv_v{n}.remove(0); "));
            self.loop_edits(&i.body);
            self.e.ins(fe, " }");
            self.ctx.count("for over an owned vector written as a loop that takes its elements out");
            self.visit_expr(&i.expr);
            self.visit_block(&i.body);
            return;
        }
        // `for p in slice` visits the elements by index (the contract says the expression is a shared slice)
        let by_it = self.opt("inline-it");
        if (self.opt("inline-slice") || by_it) && i.label.is_none() {
            let n = self.loops;
            let (fs, _) = range(i);
            let (es, ee) = range(&i.expr);
            let (ps, pe) = range(&i.pat);
            let (_, fe) = range(i);
            let open = br(i.body.brace_token.span.open());
            let pat = self.src.text[ps..pe].to_string();
            self.e.rep(fs, es, format!("{{ let rv_v{n} = "));
            self.e.rep(ee, open.0, format!("{}; let mut rv_i{n}: usize = 0; while rv_i{n} < rv_v{n}.len() ", if by_it { ".collect_vec()" } else { "" }));
            self.e.ins(open.1, format!(" let {pat} = {}rv_v{n}[rv_i{n}]; rv_i{n} += 1; ", if by_it { "" } else { "&" }));
            self.loop_edits(&i.body);
            self.e.ins(fe, " }");
            self.ctx.count("for over a slice written as a loop over the indices");
            self.visit_expr(&i.expr);
            self.visit_block(&i.body);
            return;
        }
        let n = self.loop_edits(&i.body);
        if let Some(s) = self.c.loops.get(&n) {
            for l in s.lines() {
                if let Some(name) = l.trim_start().strip_prefix("iter ") {
                    self.e.ins(range(&i.expr).0, format!("{}: ", name.trim()));
                }
            }
        }
        self.visit_expr(&i.expr);
        self.visit_block(&i.body);
    }
    fn visit_expr_closure(&mut self, i: &'a syn::ExprClosure) {
        let n = self.closures;
        self.closures += 1;
        // parameters that are patterns are bound inside the body
        let mut lets = String::new();
        let mut has_contract = false;
        for (k, p) in i.inputs.iter().enumerate() {
            let (pat, ty) = match p {
                syn::Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
                p => (p, None),
            };
            let _ = ty;
            let simple = matches!(pat, syn::Pat::Ident(x) if x.mutability.is_none() && x.subpat.is_none() && x.by_ref.is_none());
            if matches!(pat, syn::Pat::Wild(_)) {
                let (ps, pe) = range(pat);
                self.e.rep(ps, pe, format!("_p{k}"));
            } else if !simple {
                let (ps, pe) = range(pat);
                let text = &self.src.text[ps..pe];
                match pat {
                    syn::Pat::Reference(rf) => {
                        let (a, b) = range(&rf.pat);
                        lets.push_str(&format!("let {} = *_p{k}; ", &self.src.text[a..b]));
                    }
                    _ => lets.push_str(&format!("let {text} = _p{k}; ")),
                }
                self.e.rep(ps, pe, format!("_p{k}"));
                self.ctx.count("closure parameter pattern moved into its body");
            }
        }
        if let Some(s) = self.c.closures.get(&n) {
            let (a, b) = range(&i.body);
            has_contract = true;
            // the closure's own return type, when there is one, is replaced by the contract's
            let pipe_end = range(&i.or2_token).1;
            let is_block = matches!(&*i.body, syn::Expr::Block(_));
            self.e.rep(pipe_end, a, format!(" {} {}", s.trim(), if is_block { "" } else { "{ " }));
            if !is_block {
                // after the opening brace just inserted
                self.e.ins(a, lets.clone());
            }
            if !is_block {
                self.e.ins(b, " }");
            }
            self.ctx.count("closure contract inserted");
        }
        if !lets.is_empty() {
            match &*i.body {
                syn::Expr::Block(bl) => self.e.ins(br(bl.block.brace_token.span.open()).1, lets),
                _ if !has_contract => {
                    let (a, b) = range(&i.body);
                    self.e.ins(a, format!("{{ {lets}"));
                    self.e.ins(b, " }");
                }
                _ => {}
            }
        }
        self.visit_expr(&i.body);
    }
    fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
        if let syn::Expr::Call(inner) = &*m.func {
            if let syn::Expr::Path(p) = &*inner.func {
                let name = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if self.ctx.u.curry.contains(&name) {
                    // comb(args)(input)  ==>  comb_call(args, input)
                    let (_, pe) = range(&p.path);
                    self.e.ins(pe, "_call");
                    let (_, last) = inner.args.last().map(range).unwrap_or((0, br(inner.paren_token.span.open()).1));
                    let open = br(m.paren_token.span.open());
                    let has_args = !inner.args.is_empty();
                    self.e.rep(if has_args { last } else { br(inner.paren_token.span.close()).0 }, open.1, if has_args { ", " } else { "" });
                    self.ctx.count("curried combinator call merged into one call");
                    for a in inner.args.iter().chain(m.args.iter()) {
                        self.visit_expr(a);
                    }
                    return;
                }
            }
        }
        if let syn::Expr::Path(p) = &*m.func {
            self.called.insert(range(&p.path).0);
        }
        visit::visit_expr_call(self, m);
    }
    fn visit_expr_lit(&mut self, l: &'a syn::ExprLit) {
        if let Some(v) = byte_lit(l) {
            let (a, b) = range(l);
            self.e.rep(a, b, v);
            self.ctx.count("byte string literal written as an array");
        }
    }
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        // match e { [p, q] => .., _ => .. }  ==>  match slice_pat2(e) { Some((p, q)) => .., _ => .. }
        let mut n = None;
        let mut ok = true;
        for a in &m.arms {
            match &a.pat {
                syn::Pat::Slice(s) => {
                    ok &= !s.elems.iter().any(|p| matches!(p, syn::Pat::Rest(_)) || matches!(p, syn::Pat::Ident(i) if i.subpat.is_some()));
                    ok &= n.is_none() || n == Some(s.elems.len());
                    n = Some(s.elems.len());
                }
                syn::Pat::Wild(_) => {}
                _ => ok = false,
            }
        }
        if let (true, Some(n)) = (ok, n) {
            let (a, b) = range(&m.expr);
            self.e.ins(a, format!("slice_pat{n}("));
            self.e.ins(b, ")");
            for a in &m.arms {
                if let syn::Pat::Slice(s) = &a.pat {
                    let (o0, o1) = br(s.bracket_token.span.open());
                    let (c0, c1) = br(s.bracket_token.span.close());
                    self.e.rep(o0, o1, "Some((");
                    self.e.rep(c0, c1, if n == 1 { ",))" } else { "))" });
                }
            }
            self.ctx.count("slice pattern of fixed length written as a tuple pattern");
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_try(&mut self, m: &'a syn::ExprTry) {
        let (a, b) = range(&m.expr);
        let text = &self.src.text[a..b];
        let used = &self.tries;
        if let Some(k) = self.c.tries.iter().enumerate().position(|(k, (pat, _))| !used.contains(&k) && text.contains(pat.as_str())) {
            self.tries.insert(k);
            self.e.ins(a, "{ let t_ = ");
            self.e.ins(b, format!(";\n{}\nt_ }}", self.c.tries[k].1));
            self.ctx.count("ghost code before `?`");
        }
        visit::visit_expr_try(self, m);
    }
    fn visit_expr_path(&mut self, m: &'a syn::ExprPath) {
        let t = compact(&m.path);
        if self.ctx.u.ctors.contains(&t) && !self.called.contains(&range(&m.path).0) {
            let (a, b) = range(&m.path);
            let en = t.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
            self.e.rep(a, b, format!("(|x_| -> (r_: {en}) ensures r_ == {t}(x_) {{ {t}(x_) }})"));
            self.ctx.count("constructor passed as a function written as a closure");
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let name = m.method.to_string();
        if self.opt("inline-map-err") && name == "map_err" {
            if let Some(syn::Expr::Closure(cl)) = m.args.first() {
                if cl.inputs.len() == 1 {
                    // r.map_err(|p| e)  ==>  match r { Ok(x) => Ok(x), Err(p) => Err(e) }
                    self.closures += 1;
                    let (a, b) = range(&m.receiver);
                    let (ps, pe) = range(&cl.inputs[0]);
                    let (ba, bb) = range(&cl.body);
                    let (_, end) = range(m);
                    let pat = self.src.text[ps..pe].to_string();
                    self.e.ins(a, "(match ");
                    self.e.rep(b, ba, format!(" {{ Ok(x) => Ok(x), Err({pat}) => Err("));
                    self.e.rep(bb, end, ") })".to_string());
                    self.ctx.count("Result::map_err replaced by its definition");
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&cl.body);
                    return;
                }
            }
        }
        if self.opt("inline-option") && (name == "and_then" || name == "map") {
            if let Some(syn::Expr::Closure(cl)) = m.args.first() {
                if cl.inputs.len() == 1 {
                    // opt.map(|p| e)  ==>  match opt { Some(p) => Some(e), None => None }
                    self.closures += 1;
                    let (a, b) = range(&m.receiver);
                    let (_, pe) = range(&cl.inputs[0]);
                    let (ps, _) = range(&cl.inputs[0]);
                    let (ba, bb) = range(&cl.body);
                    let (_, end) = range(m);
                    let pat = self.src.text[ps..pe].to_string();
                    let wrap = name == "map";
                    self.e.ins(a, "(match ");
                    self.e.rep(b, ba, format!(" {{ Some({pat}) => {}", if wrap { "Some(" } else { "" }));
                    self.e.rep(bb, end, format!("{}, None => None }})", if wrap { ")" } else { "" }));
                    self.ctx.count("Option::map/and_then replaced by its definition");
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&cl.body);
                    return;
                }
            }
        }
        // R.iter().for_each(|p| e)  ==>  a loop over the indices of R
        if name == "for_each" && self.opt("inline-for-each") {
            if let (Some(syn::Expr::Closure(cl)), syn::Expr::MethodCall(r)) = (m.args.first(), &*m.receiver) {
                if cl.inputs.len() == 1 && r.method == "iter" && r.args.is_empty() {
                    self.closures += 1;
                    let n = self.loops;
                    self.loops += 1;
                    let (a, _) = range(m);
                    let (_, end) = range(m);
                    let (rs, re) = range(&r.receiver);
                    let (ps, pe) = range(&cl.inputs[0]);
                    let (bs, be) = range(&cl.body);
                    let pat = self.src.text[ps..pe].to_string();
                    let inv = self.c.loops.get(&n).cloned().unwrap_or_default();
                    let en = self.c.loop_entry.get(&n).cloned().unwrap_or_default();
                    let le = self.c.loop_end.get(&n).cloned().unwrap_or_default();
                    let _ = rs;
                    self.e.ins(a, format!("{{ let rv_v{n} = "));
                    self.e.rep(re, bs, format!("; let mut rv_i{n}: usize = 0; while rv_i{n} < rv_v{n}.len()\n{inv}\n{{ let {pat} = &rv_v{n}[rv_i{n}]; rv_i{n} += 1;\n{en}\n"));
                    self.e.rep(be, end, format!(";\n{le}\n}} }}"));
                    self.ctx.count("for_each over a slice written as a loop over the indices");
                    self.visit_expr(&r.receiver);
                    self.visit_expr(&cl.body);
                    return;
                }
            }
        }
        // R.iter().filter_map(|p| e).collect()  ==>  a function and a loop over the indices of R
        if name == "collect" && m.args.is_empty() {
            if let syn::Expr::MethodCall(fm) = &*m.receiver {
                if let (true, Some(syn::Expr::Closure(cl)), syn::Expr::MethodCall(r)) = (fm.method == "filter_map", fm.args.first(), &*fm.receiver) {
                    if let (true, Some((fname, caps, sig, entry))) = (cl.inputs.len() == 1 && r.method == "iter" && r.args.is_empty(), self.c.lifts.get(&self.closures).cloned()) {
                        self.closures += 1;
                        let n = self.loops;
                        self.loops += 1;
                        let (a, end) = range(m);
                        let (rs, re) = range(&r.receiver);
                        let (ps, pe) = range(&cl.inputs[0]);
                        let (bs, be) = range(&cl.body);
                        let pat = self.src.text[ps..pe].to_string();
                        let recv = self.src.text[rs..re].to_string();
                        let inv = self.c.loops.get(&n).cloned().unwrap_or_default();
                        let en = self.c.loop_entry.get(&n).cloned().unwrap_or_default();
                        let le = self.c.loop_end.get(&n).cloned().unwrap_or_default();
                        let sep = if caps.is_empty() { "" } else { ", " };
                        self.e.rep(a, bs, format!("{{ fn {fname}{sig} {{ let {pat} = rv_p;\n{entry}\n"));
                        self.e.rep(be, end, format!("\n}} let rv_v{n} = {recv}; let mut rv_out{n} = Vec::new(); let mut rv_i{n}: usize = 0; while rv_i{n} < rv_v{n}.len()\n{inv}\n{{\n{en}\n let rv_e{n} = &rv_v{n}[rv_i{n}]; rv_i{n} += 1; let rv_x{n} = {fname}({caps}{sep}rv_e{n}); if let Some(rv_y) = rv_x{n} {{ rv_out{n}.push(rv_y); }}\n{le}\n}} rv_out{n} }}"));
                        self.ctx.count("filter_map closure written as a function called in a loop over the indices");
                        self.visit_expr(&cl.body);
                        return;
                    }
                }
            }
        }
        if name == "map_err" && m.args.len() == 1 {
            if let Some(syn::Expr::Path(p)) = m.args.first() {
                if self.ctx.u.ctors.contains(&compact(&p.path)) {
                    // r.map_err(Ctor)  ==>  match r { Ok(x) => Ok(x), Err(e) => Err(Ctor(e)) }
                    let (a, b) = range(&m.receiver);
                    let (_, end) = range(m);
                    self.e.ins(a, "(match ");
                    self.e.rep(b, end, format!(" {{ Ok(x_) => Ok(x_), Err(e_) => Err({}(e_)) }})", compact(&p.path)));
                    self.ctx.count("map_err with a constructor replaced by its definition");
                    self.visit_expr(&m.receiver);
                    return;
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}
