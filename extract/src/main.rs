//! Mechanical extraction of the functions and types of /repo/src for the deductive verifier.
//!
//! usage: extract SRC_DIR OUT.json
//!
//! Nothing here knows what the code should do: every rewrite is a syntactic one, listed in
//! DESIGN.md ("what the extraction drops").  The output is a JSON object with, for every function,
//! its signature and body after the rewrites, with placeholders where the driver (bin/vp.py)
//! inserts the contracts, loop invariants and proof text.

use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::process::{Command, Stdio};
use syn::parse::{Parse, ParseStream};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

mod inline;
mod rewrite;
use rewrite::*;

fn rustfmt(src: &str) -> String {
    let mut child = match Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=120"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return src.to_string(),
    };
    child.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let out = child.wait_with_output().unwrap();
    if out.status.success() && !out.stdout.is_empty() {
        String::from_utf8(out.stdout).unwrap()
    } else {
        src.to_string()
    }
}

struct FnItem {
    key: String,
    file: String,
    line: usize,
    self_ty: Option<String>,
    trait_: Option<String>,
    sig: Signature,
    block: Block,
    vis_pub: bool,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]" || s.contains("tokio::test")
    })
}

fn walk_dir(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk_dir(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

fn module_of(rel: &str) -> String {
    let s = rel.trim_end_matches(".rs").replace('/', "::");
    let s = s.trim_end_matches("::mod").to_string();
    if s == "main" || s == "lib" || s == "mod" {
        String::new()
    } else {
        s
    }
}

fn join(m: &str, n: &str) -> String {
    if m.is_empty() {
        n.to_string()
    } else {
        format!("{m}::{n}")
    }
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn collect(
    items: &[Item],
    module: &str,
    file: &str,
    fns: &mut Vec<FnItem>,
    types: &mut Vec<(String, Item)>,
    consts: &mut Vec<(String, Item)>,
) {
    for it in items {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => fns.push(FnItem {
                key: join(module, &f.sig.ident.to_string()),
                file: file.into(),
                line: f.sig.ident.span().start().line,
                self_ty: None,
                trait_: None,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                vis_pub: matches!(f.vis, Visibility::Public(_)),
            }),
            Item::Impl(im) if !is_test(&im.attrs) => {
                let st = ty_name(&im.self_ty);
                let (tname, targ) = match &im.trait_ {
                    Some((_, p, _)) => {
                        let seg = p.segments.last().unwrap();
                        let a = match &seg.arguments {
                            PathArguments::AngleBracketed(a) => a
                                .args
                                .iter()
                                .map(|x| x.to_token_stream().to_string().replace(' ', ""))
                                .collect::<Vec<_>>()
                                .join(","),
                            _ => String::new(),
                        };
                        (Some(seg.ident.to_string()), a)
                    }
                    None => (None, String::new()),
                };
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let key = match &tname {
                            Some(t) if targ.is_empty() => {
                                join(module, &format!("<{st} as {t}>::{}", f.sig.ident))
                            }
                            Some(t) => join(module, &format!("<{st} as {t}<{targ}>>::{}", f.sig.ident)),
                            None => join(module, &format!("{st}::{}", f.sig.ident)),
                        };
                        fns.push(FnItem {
                            key,
                            file: file.into(),
                            line: f.sig.ident.span().start().line,
                            self_ty: Some(st.clone()),
                            trait_: tname.clone().map(|t| if targ.is_empty() { t } else { format!("{t}<{targ}>") }),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            vis_pub: matches!(f.vis, Visibility::Public(_)),
                        });
                    }
                }
            }
            Item::Struct(s) if !is_test(&s.attrs) => types.push((join(module, &s.ident.to_string()), it.clone())),
            Item::Enum(s) if !is_test(&s.attrs) => types.push((join(module, &s.ident.to_string()), it.clone())),
            Item::Type(s) if !is_test(&s.attrs) => types.push((join(module, &s.ident.to_string()), it.clone())),
            Item::Const(c) if !is_test(&c.attrs) => consts.push((join(module, &c.ident.to_string()), it.clone())),
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    collect(its, &join(module, &m.ident.to_string()), file, fns, types, consts);
                }
            }
            _ => {}
        }
    }
}

fn clean_type(it: &Item) -> (Item, Vec<String>, Value) {
    let mut derives = vec![];
    let grab = |attrs: &[Attribute], derives: &mut Vec<String>| {
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    derives.push(m.path.segments.last().unwrap().ident.to_string());
                    Ok(())
                });
            }
        }
    };
    let mut it = it.clone();
    let mut extra = json!({});
    let mut rw = Rewriter::default();
    match &mut it {
        Item::Struct(s) => {
            grab(&s.attrs, &mut derives);
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
        }
        Item::Enum(e) => {
            grab(&e.attrs, &mut derives);
            e.attrs.clear();
            e.vis = parse_quote!(pub);
            let mut from = vec![];
            let mut discs = vec![];
            let mut next: i128 = 0;
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                if let Some((_, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }))) = &v.discriminant {
                    next = i.base10_parse::<i128>().unwrap_or(-1);
                }
                discs.push(json!([v.ident.to_string(), next as i64, v.fields.is_empty()]));
                next += 1;
                for (i, f) in v.fields.iter_mut().enumerate() {
                    if f.attrs.iter().any(|a| a.path().is_ident("from")) && i == 0 {
                        let mut t = f.ty.clone();
                        rw.visit_type_mut(&mut t);
                        from.push(json!([v.ident.to_string(), t.to_token_stream().to_string()]));
                    }
                    f.attrs.clear();
                }
            }
            extra = json!({"from": from, "discriminants": discs});
        }
        Item::Type(t) => {
            t.attrs.clear();
            t.vis = parse_quote!(pub);
        }
        _ => {}
    }
    rw.visit_item_mut(&mut it);
    (it, derives, extra)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::path::PathBuf::from(&args[1]);
    let mut files = vec![];
    walk_dir(&root, &mut files);
    let (mut fns, mut types, mut consts) = (vec![], vec![], vec![]);
    let mut modules: BTreeSet<String> = BTreeSet::new();
    let mut errors = vec![];
    for f in &files {
        let rel = f.strip_prefix(&root).unwrap().to_string_lossy().to_string();
        let m = module_of(&rel);
        for s in m.split("::") {
            modules.insert(s.to_string());
        }
        let text = std::fs::read_to_string(f).unwrap();
        match syn::parse_file(&text) {
            Ok(ast) => collect(&ast.items, &m, &rel, &mut fns, &mut types, &mut consts),
            Err(e) => errors.push(format!("{rel}: {e}")),
        }
    }
    MODULES.with(|m| *m.borrow_mut() = modules.clone());

    // functions that have contracts; the others are put in the place of their calls
    let known: BTreeSet<String> = args.get(3).map(|p| std::fs::read_to_string(p).unwrap().lines().map(|l| l.to_string()).collect()).unwrap_or_default();
    if !known.is_empty() {
        inline::HELPERS.with(|h| *h.borrow_mut() = inline::candidates(&fns, &known));
    }

    // functions that (transitively) touch the world: channels, sockets, timers
    // (and reading the clock)
    let mut world: BTreeSet<String> = BTreeSet::from(["now".to_string()]);
    loop {
        let before = world.len();
        for f in &fns {
            let mut v = Touches { world: &world, hit: false };
            v.visit_block(&f.block);
            if v.hit {
                world.insert(f.sig.ident.to_string());
            }
        }
        if world.len() == before {
            break;
        }
    }
    WORLD.with(|w| *w.borrow_mut() = world.clone());

    // the body of the k-th `async` block of a function is a function of its own: f::async#k
    let mut blocks = vec![];
    for f in &fns {
        struct A(Vec<Block>);
        impl<'a> Visit<'a> for A {
            fn visit_expr_async(&mut self, a: &'a ExprAsync) {
                self.0.push(a.block.clone());
                visit::visit_expr_async(self, a);
            }
            fn visit_macro(&mut self, m: &'a Macro) {
                // select! { p = f => { .. } }: its branches
                if let Ok(s) = m.parse_body::<Select>() {
                    for a in s.0 {
                        let mut v = A(vec![]);
                        v.visit_expr(&a.body);
                        self.0.extend(v.0);
                    }
                }
            }
        }
        let mut v = A(vec![]);
        v.visit_block(&f.block);
        for (k, b) in v.0.into_iter().enumerate() {
            let mut sig: Signature = parse_quote!(fn async_block());
            sig.ident = Ident::new(&format!("{}_async_{k}", f.sig.ident), f.sig.ident.span());
            let line = b.brace_token.span.open().start().line;
            let mut t = Touches { world: &world, hit: false };
            t.visit_block(&b);
            if t.hit {
                world.insert(sig.ident.to_string());
            }
            blocks.push(FnItem { key: format!("{}::async#{k}", f.key), file: f.file.clone(), line, self_ty: None, trait_: None, sig, block: b, vis_pub: false });
        }
    }
    fns.extend(blocks);

    let mut out_fns = BTreeMap::new();
    for f in &fns {
        out_fns.insert(f.key.clone(), emit_fn(f, &world));
    }
    let mut out_types = BTreeMap::new();
    for (k, it) in &types {
        let (c, derives, extra) = clean_type(it);
        out_types.insert(
            k.clone(),
            json!({"text": rustfmt(&c.to_token_stream().to_string()), "derives": derives, "extra": extra}),
        );
    }
    struct Local<'a>(&'a str, &'a mut Vec<(String, Item)>);
    impl<'ast> Visit<'ast> for Local<'_> {
        fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
            self.1.push((format!("{}::{}", self.0, c.ident), Item::Const(c.clone())));
        }
    }
    for f in &fns {
        Local(&f.key, &mut consts).visit_block(&f.block);
    }
    let mut out_consts = BTreeMap::new();
    for (k, it) in &consts {
        let mut it = it.clone();
        if let Item::Const(c) = &mut it {
            c.attrs.clear();
            c.vis = parse_quote!(pub);
        }
        Rewriter::default().visit_item_mut(&mut it);
        out_consts.insert(k.clone(), json!({"text": it.to_token_stream().to_string()}));
    }
    let v = json!({"fns": out_fns, "types": out_types, "consts": out_consts, "errors": errors,
        "modules": modules, "world": world});
    std::fs::write(&args[2], serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

fn emit_fn(f: &FnItem, world: &BTreeSet<String>) -> Value {
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    let mut rw = Rewriter::default();
    // monomorphise iterator generics
    for g in sig.generics.params.iter() {
        if let GenericParam::Type(t) = g {
            let mut preds: Vec<String> = vec![t.bounds.to_token_stream().to_string()];
            if let Some(w) = &sig.generics.where_clause {
                for p in &w.predicates {
                    if let WherePredicate::Type(pt) = p {
                        if pt.bounded_ty.to_token_stream().to_string() == t.ident.to_string() {
                            preds.push(pt.bounds.to_token_stream().to_string());
                        }
                    }
                }
            }
            let p = preds.join(" ").replace(' ', "");
            if let Some(ty) = mono(&p) {
                rw.mono.insert(t.ident.to_string(), ty);
            }
        }
    }
    sig.generics = Generics::default();
    let is_async = sig.asyncness.is_some();
    sig.asyncness = None;
    rw.visit_signature_mut(&mut sig);
    rw.in_fn = true;
    rw.self_ty = f.self_ty.clone();
    rw.ret = if f.key.contains("::async#") { None } else { Some(f.sig.output.clone()) };
    if rw.ret.is_some() {
        inline::mark_tail_block(&mut block, &f.self_ty);
    }
    rw.visit_block_mut(&mut block);
    let mut lp = Loops::default();
    lp.visit_block_mut(&mut block);
    if world.contains(&f.sig.ident.to_string()) {
        Returns::default().visit_block_mut(&mut block);
    } else {
        Exits.visit_block_mut(&mut block);
    }

    let mut params = vec![];
    let mut self_kind = Value::Null;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => self_kind = json!(r.to_token_stream().to_string()),
            FnArg::Typed(t) => {
                let name = match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => "_".to_string(),
                };
                let mutable = matches!(&*t.pat, Pat::Ident(i) if i.mutability.is_some());
                params.push(json!({"name": name, "mut": mutable, "ty": t.ty.to_token_stream().to_string()}));
            }
        }
    }
    let ret = match &sig.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => json!(t.to_token_stream().to_string()),
    };
    let mut locals = Locals::default();
    locals.visit_block(&block);
    let mut calls = Calls::default();
    calls.visit_block(&block);

    let body_src = format!("fn __body() {}", block.to_token_stream());
    let body = rustfmt(&body_src);
    json!({
        "file": f.file, "line": f.line, "name": sig.ident.to_string(),
        "self_ty": f.self_ty, "trait": f.trait_, "pub": f.vis_pub,
        "async": is_async, "self": self_kind, "params": params, "ret": ret,
        "world": world.contains(&f.sig.ident.to_string()),
        "body": body, "loops": lp.kinds, "locals": locals.0, "calls": calls.0,
        "unsupported": rw.unsupported, "selects": rw.selects, "inlined": rw.inlined,
        "hash": format!("{:x}", fnv(&f.block.to_token_stream().to_string())),
    })
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[allow(dead_code)]
fn unused(_: TokenTree, _: TokenStream) {
    let _ = quote!();
}
#[allow(dead_code)]
struct P;
impl Parse for P {
    fn parse(_: ParseStream) -> Result<Self> {
        Ok(P)
    }
}
