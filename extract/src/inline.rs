//! Calls of functions that have no contract of their own (helpers) are replaced by the helper's body, at the call.
//! Purely syntactic: arguments are bound (or, when they are plain places, substituted), the body follows as a block.
use super::*;
use std::cell::RefCell;

#[derive(Clone)]
pub struct Helper {
    pub key: String,
    pub name: String,
    pub self_ty: Option<String>,
    pub trait_: bool,
    pub sig: Signature,
    pub block: Block,
}
thread_local! {
    pub static HELPERS: RefCell<Vec<Helper>> = RefCell::new(vec![]);
}
/// methods of std and the dependencies: never taken for a helper unless called on `self`
const COMMON: &[&str] = &["insert", "remove", "get", "get_mut", "push", "pop", "len", "iter", "next", "clone", "send", "recv", "write", "read", "add", "delete", "find",
    "map", "take", "contains", "entry", "extend", "reset", "split", "min", "max", "new", "from", "into", "as_ref", "as_mut", "first", "last", "is_empty", "clear", "append", "as_str", "as_bytes", "to_vec"];

fn simple_generics(sig: &Signature) -> bool {
    sig.generics.params.iter().all(|p| match p {
        GenericParam::Lifetime(_) => true,
        GenericParam::Type(_) => true,
        GenericParam::Const(_) => false,
    })
}
fn calls_of(b: &Block) -> Vec<String> {
    struct C(Vec<String>);
    impl<'a> Visit<'a> for C {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
            self.0.push(c.method.to_string());
            visit::visit_expr_method_call(self, c);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            fn toks(t: TokenStream, out: &mut Vec<String>) {
                for x in t {
                    match x {
                        TokenTree::Ident(i) => out.push(i.to_string()),
                        TokenTree::Group(g) => toks(g.stream(), out),
                        _ => {}
                    }
                }
            }
            toks(m.tokens.clone(), &mut self.0);
        }
    }
    let mut c = C(vec![]);
    c.visit_block(b);
    c.0
}
/// the functions without a contract that do not (through others of their kind) call themselves
pub fn candidates(fns: &[FnItem], known: &BTreeSet<String>) -> Vec<Helper> {
    let mut hs: Vec<Helper> = vec![];
    let known_short: BTreeSet<String> = known.iter().map(|k| k.rsplit("::").next().unwrap().to_string()).collect();
    for f in fns {
        if known.contains(&f.key) || f.key.contains("::async#") || f.trait_.is_some() || f.sig.ident == "main" || f.sig.unsafety.is_some() || !simple_generics(&f.sig) {
            continue;
        }
        let name = f.sig.ident.to_string();
        // a function with a contract that moved keeps it
        let moved = known_short.contains(&name) && !fns.iter().any(|g| known.contains(&g.key) && g.sig.ident == f.sig.ident);
        if moved {
            continue;
        }
        hs.push(Helper { key: f.key.clone(), name, self_ty: f.self_ty.clone(), trait_: f.trait_.is_some(), sig: f.sig.clone(), block: f.block.clone() });
    }
    // recursion
    let mut reach: BTreeMap<String, BTreeSet<String>> = hs.iter().map(|h| (h.name.clone(), calls_of(&h.block).into_iter().collect())).collect();
    loop {
        let mut grew = false;
        let snap = reach.clone();
        for v in reach.values_mut() {
            let before = v.len();
            let more: Vec<String> = v.iter().filter_map(|x| snap.get(x)).flatten().cloned().collect();
            v.extend(more);
            grew |= v.len() != before;
        }
        if !grew {
            break;
        }
    }
    hs.retain(|h| !reach[&h.name].contains(&h.name));
    hs
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
/// the helper that this expression calls, with the receiver and the arguments
pub fn called(e: &Expr, self_ty: &Option<String>) -> Option<(Helper, Option<Expr>, Vec<Expr>)> {
    let (e, awaited) = match strip(e) {
        Expr::Await(a) => (strip(&a.base), true),
        e => (e, false),
    };
    let found = HELPERS.with(|h| {
        let h = h.borrow();
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last().unwrap();
                let ty = if segs.len() >= 2 && segs[segs.len() - 2].chars().next().is_some_and(|c| c.is_uppercase()) { Some(segs[segs.len() - 2].clone()) } else { None };
                let ty = if ty.as_deref() == Some("Self") { self_ty.clone() } else { ty };
                let mut m = h.iter().filter(|x| &x.name == n && x.self_ty == ty);
                let x = m.next()?;
                if m.next().is_some() {
                    return None;
                }
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut recv = None;
                if x.sig.receiver().is_some() {
                    if args.is_empty() {
                        return None;
                    }
                    recv = Some(args.remove(0));
                }
                Some((x.clone(), recv, args))
            }
            Expr::MethodCall(c) => {
                let n = c.method.to_string();
                let on_self = matches!(strip(&c.receiver), Expr::Path(p) if p.path.is_ident("self"));
                let mut m = h.iter().filter(|x| x.name == n && x.sig.receiver().is_some() && (!on_self || x.self_ty == *self_ty));
                let x = m.next()?;
                if m.next().is_some() || (!on_self && COMMON.contains(&n.as_str())) {
                    return None;
                }
                Some((x.clone(), Some((*c.receiver).clone()), c.args.iter().cloned().collect()))
            }
            _ => None,
        }
    })?;
    if found.0.sig.asyncness.is_some() != awaited {
        return None;
    }
    if found.0.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).count() != found.2.len() {
        return None;
    }
    Some(found)
}

#[derive(Default)]
struct Exits {
    returns: Vec<Option<Expr>>,
    tries: usize,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.returns.push(r.expr.as_ref().map(|e| (**e).clone()));
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
}

/// places: a, self, a.b, self.a.b, *a
fn place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}
fn root(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Reference(r) => root(&r.expr),
        _ => None,
    }
}

/// an argument put in the place of a parameter
enum Sub {
    /// the parameter becomes this name
    Name(Ident),
    /// the parameter is a reference to this place
    Ref { mutable: bool, place: Expr },
}
struct Subst<'a> {
    subs: &'a BTreeMap<String, Sub>,
}
impl Subst<'_> {
    fn of(&self, e: &Expr) -> Option<&Sub> {
        match e {
            Expr::Path(p) if p.qself.is_none() => p.path.get_ident().and_then(|i| self.subs.get(&i.to_string())),
            _ => None,
        }
    }
    fn value(s: &Sub) -> Expr {
        match s {
            Sub::Name(i) => parse_quote!(#i),
            Sub::Ref { mutable: true, place } => parse_quote!((&mut #place)),
            Sub::Ref { mutable: false, place } => parse_quote!((&#place)),
        }
    }
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut prev_dot = false;
        for x in t {
            let mut dot = false;
            match x {
                TokenTree::Ident(i) if !prev_dot && self.subs.contains_key(&i.to_string()) => out.extend(Self::value(&self.subs[&i.to_string()]).to_token_stream()),
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()));
                    n.set_span(g.span());
                    out.extend([TokenTree::Group(n)]);
                }
                TokenTree::Punct(p) => {
                    dot = p.as_char() == '.';
                    out.extend([TokenTree::Punct(p)]);
                }
                x => out.extend([x]),
            }
            prev_dot = dot;
        }
        out
    }
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(Sub::Ref { place, .. }) = self.of(strip(&u.expr)) {
                    *e = place.clone();
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(Sub::Ref { place, .. }) = self.of(strip(&m.receiver)) {
                    // auto-reference
                    m.receiver = Box::new(place.clone());
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Field(f) => {
                if let Some(Sub::Ref { place, .. }) = self.of(strip(&f.base)) {
                    f.base = Box::new(place.clone());
                    return;
                }
            }
            Expr::Index(f) => {
                if let Some(Sub::Ref { place, .. }) = self.of(strip(&f.expr)) {
                    f.expr = Box::new(place.clone());
                    self.visit_expr_mut(&mut f.index);
                    return;
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    if f.colon_token.is_none() && self.of(&f.expr).is_some() {
                        f.colon_token = Some(Default::default());
                    }
                }
            }
            _ => {}
        }
        if let Some(s) = self.of(e) {
            *e = Self::value(s);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}
fn bound(b: &Block) -> BTreeSet<String> {
    struct B(BTreeSet<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            fn toks(t: TokenStream, out: &mut BTreeSet<String>) {
                for x in t {
                    match x {
                        TokenTree::Ident(i) => {
                            out.insert(i.to_string());
                        }
                        TokenTree::Group(g) => toks(g.stream(), out),
                        _ => {}
                    }
                }
            }
            if m.path.segments.last().is_some_and(|s| s.ident == "select") {
                toks(m.tokens.clone(), &mut self.0);
            }
        }
    }
    let mut v = B(BTreeSet::new());
    v.visit_block(b);
    v.0
}

fn pat_names(p: &Pat) -> BTreeSet<String> {
    struct B(BTreeSet<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut b = B(BTreeSet::new());
    b.visit_pat(p);
    b.0
}
/// calls of helpers in tail position, when the helper has exits of its own: `return helper(..)`
pub fn mark_tail(e: &mut Expr, self_ty: &Option<String>) {
    match e {
        Expr::Block(b) if b.label.is_none() => mark_tail_block(&mut b.block, self_ty),
        Expr::If(i) => {
            mark_tail_block(&mut i.then_branch, self_ty);
            if let Some((_, b)) = &mut i.else_branch {
                mark_tail(b, self_ty);
            }
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                mark_tail(&mut a.body, self_ty);
            }
        }
        _ => {
            if let Some((h, _, _)) = called(e, self_ty) {
                let mut x = Exits::default();
                x.visit_block(&h.block);
                if !x.returns.is_empty() || x.tries > 0 {
                    let c = e.clone();
                    *e = parse_quote!(return #c);
                }
            }
        }
    }
}
pub fn mark_tail_block(b: &mut Block, self_ty: &Option<String>) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        mark_tail(e, self_ty);
    }
}

/// how the call's value is used
#[derive(Clone, Copy, PartialEq)]
pub enum Use {
    Value,
    Try,
    Return,
}
fn err_of(t: &ReturnType) -> Option<String> {
    let ReturnType::Type(_, t) = t else { return None };
    let Type::Path(p) = &**t else { return None };
    let s = p.path.segments.last().unwrap();
    match s.ident.to_string().as_str() {
        "Option" => Some("Option".into()),
        "Result" => match &s.arguments {
            PathArguments::AngleBracketed(a) if a.args.len() == 2 => match &a.args[1] {
                GenericArgument::Type(Type::Path(p)) => Some(p.path.segments.last().unwrap().to_token_stream().to_string()),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
fn is_ctor(e: &Expr, names: &[&str]) -> bool {
    match strip(e) {
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if names.contains(&p.path.segments.last().unwrap().ident.to_string().as_str())),
        Expr::Path(p) => names.contains(&p.path.segments.last().unwrap().ident.to_string().as_str()),
        _ => false,
    }
}
/// apply `?` to the values of the block
fn try_tail(e: Expr) -> Expr {
    match e {
        Expr::Block(mut b) => {
            match b.block.stmts.pop() {
                Some(Stmt::Expr(t, None)) => b.block.stmts.push(Stmt::Expr(try_tail(t), None)),
                Some(s) => b.block.stmts.push(s),
                None => {}
            }
            Expr::Block(b)
        }
        Expr::If(mut i) if i.else_branch.is_some() => {
            let t = try_tail(Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }));
            if let Expr::Block(t) = t {
                i.then_branch = t.block;
            }
            let (k, b) = i.else_branch.take().unwrap();
            i.else_branch = Some((k, Box::new(try_tail(*b))));
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                a.body = Box::new(try_tail((*a.body).clone()));
                if a.comma.is_none() {
                    a.comma = Some(Default::default());
                }
            }
            Expr::Match(m)
        }
        Expr::Call(c) if is_ctor(&Expr::Call(c.clone()), &["Ok", "Some"]) && c.args.len() == 1 => c.args[0].clone(),
        Expr::Call(c) if is_ctor(&Expr::Call(c.clone()), &["Err"]) => parse_quote!(return #c),
        Expr::Path(p) if p.path.is_ident("None") => parse_quote!(return None),
        Expr::Return(r) => Expr::Return(r),
        e => parse_quote!((#e)?),
    }
}

/// statements after a test that may leave go into the branch that does not
pub fn returnless(stmts: &[Stmt]) -> Option<Expr> {
    let exits = |s: &Stmt| {
        let mut x = Exits::default();
        x.visit_stmt(s);
        (x.returns.len(), x.tries)
    };
    for (i, s) in stmts.iter().enumerate() {
        let (r, t) = exits(s);
        if t > 0 {
            return None;
        }
        if r == 0 {
            continue;
        }
        let before = &stmts[..i];
        let rest = &stmts[i + 1..];
        let done: Expr = match s {
            Stmt::Expr(Expr::Return(r), _) => match &r.expr {
                Some(e) => (**e).clone(),
                None => parse_quote!(()),
            },
            Stmt::Expr(Expr::If(iff), _) => {
                let leaves = matches!(iff.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                let tail = rest.is_empty();
                let a = if leaves || tail { returnless(&iff.then_branch.stmts)? } else { let v: Vec<Stmt> = iff.then_branch.stmts.iter().chain(rest).cloned().collect(); returnless(&v)? };
                let b = match &iff.else_branch {
                    None => returnless(rest)?,
                    Some((_, b)) => {
                        let st: Vec<Stmt> = match &**b { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
                        let v: Vec<Stmt> = if tail { st } else { st.iter().chain(rest).cloned().collect() };
                        returnless(&v)?
                    }
                };
                let c = &iff.cond;
                parse_quote!(if #c { #a } else { #b })
            }
            // let p = match e { a => v, b => return r };
            Stmt::Local(l) if l.init.is_some() => {
                let init = l.init.as_ref().unwrap();
                if init.diverge.is_some() {
                    let (p, x) = (&l.pat, &init.expr);
                    let d = (*init.diverge.as_ref().unwrap().1).clone();
                    let d = match d { Expr::Block(b) => returnless(&b.block.stmts)?, _ => return None };
                    let rest = returnless(rest)?;
                    parse_quote!(match #x { #p => { #rest } _ => { #d } })
                } else {
                    let Expr::Match(m) = &*init.expr else { return None };
                    let mut m = m.clone();
                    let p = &l.pat;
                    let mut through = 0;
                    for a in m.arms.iter_mut() {
                        let st: Vec<Stmt> = match &*a.body { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
                        let b = if matches!(st.last(), Some(Stmt::Expr(Expr::Return(_), _))) { returnless(&st)? } else {
                            through += 1;
                            if exits(&Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: st.clone() } }), None)) != (0, 0) {
                                return None;
                            }
                            let rest = returnless(rest)?;
                            parse_quote!({ let #p = { #(#st)* }; #rest })
                        };
                        a.body = Box::new(parse_quote!({ #b }));
                    }
                    if through > 2 {
                        return None;
                    }
                    Expr::Match(m)
                }
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let mut m = m.clone();
                let mut through = 0;
                for a in m.arms.iter_mut() {
                    let st: Vec<Stmt> = match &*a.body { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
                    let leaves = matches!(st.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                    let v: Vec<Stmt> = if leaves || rest.is_empty() { st } else { through += 1; st.iter().chain(rest).cloned().collect() };
                    let b = returnless(&v)?;
                    a.body = Box::new(parse_quote!({ #b }));
                }
                if through > 2 {
                    return None;
                }
                Expr::Match(m)
            }
            _ => return None,
        };
        return Some(if before.is_empty() { done } else { parse_quote!({ #(#before)* #done }) });
    }
    match stmts {
        [Stmt::Expr(e, None)] => Some(e.clone()),
        _ => Some(parse_quote!({ #(#stmts)* })),
    }
}

/// the call as a block
pub fn inlined(h: &Helper, recv: Option<Expr>, args: Vec<Expr>, usage: Use, caller_ret: &ReturnType, caller_self: &Option<String>, fresh: &mut dyn FnMut(&str) -> Ident) -> Option<Expr> {
    let mut block = h.block.clone();
    let mut x = Exits::default();
    x.visit_block(&block);
    let mut usage = usage;
    if x.returns.is_empty() && x.tries == 0 && usage == Use::Return {
        usage = Use::Value;
    }
    match usage {
        Use::Value if !x.returns.is_empty() || x.tries > 0 => {
            let e = returnless(&block.stmts)?;
            let mut y = Exits::default();
            y.visit_expr(&e);
            if !y.returns.is_empty() || y.tries > 0 {
                return None;
            }
            block = match e { Expr::Block(b) if b.label.is_none() => b.block, e => parse_quote!({ #e }) };
        }
        Use::Try => {
            let (a, b) = (err_of(&h.sig.output)?, err_of(caller_ret));
            if !x.returns.is_empty() || x.tries > 0 {
                if Some(a) != b || !x.returns.iter().all(|r| r.as_ref().is_some_and(|e| is_ctor(e, &["Err", "None"]))) {
                    return None;
                }
            } else if Some(a) != b {
                // converted by the `?` that stays
                usage = Use::Value;
            }
        }
        Use::Return if !x.returns.is_empty() || x.tries > 0 => {
            let (a, b) = (h.sig.output.to_token_stream().to_string(), caller_ret.to_token_stream().to_string());
            if a != b {
                return None;
            }
        }
        _ => {}
    }
    let mut generic: BTreeSet<String> = h.sig.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
    if h.self_ty != *caller_self {
        generic.insert("Self".into());
        // Self in the body
        struct S<'a>(&'a str);
        impl VisitMut for S<'_> {
            fn visit_path_mut(&mut self, p: &mut Path) {
                if p.segments[0].ident == "Self" {
                    p.segments[0].ident = Ident::new(self.0, p.segments[0].ident.span());
                }
                visit_mut::visit_path_mut(self, p);
            }
        }
        if let Some(t) = &h.self_ty {
            S(t).visit_block_mut(&mut block);
        }
    }
    let locals = bound(&block);
    let mut subs: BTreeMap<String, Sub> = BTreeMap::new();
    let mut first: Vec<Stmt> = vec![];
    let mut second: Vec<Stmt> = vec![];
    let mut taken: BTreeSet<String> = BTreeSet::new();
    let mut second_names: BTreeSet<String> = BTreeSet::new();
    for a in h.sig.inputs.iter() {
        if let FnArg::Receiver(r) = a {
            let e = recv.clone()?;
            let on_self = matches!(strip(&e), Expr::Path(p) if p.path.is_ident("self"));
            if on_self {
                taken.insert("self".into());
                continue;
            }
            let s = Ident::new("self", proc_macro2::Span::call_site());
            if r.reference.is_some() && place(&e) {
                taken.extend(root(&e));
                subs.insert("self".into(), Sub::Ref { mutable: r.mutability.is_some(), place: e });
            } else {
                let v = fresh("recv");
                let bound: Expr = if r.reference.is_none() { e } else if r.mutability.is_some() { parse_quote!(&mut #e) } else { parse_quote!(&#e) };
                first.push(parse_quote!(let #v = #bound;));
                subs.insert(s.to_string(), Sub::Name(v));
            }
        }
    }
    let mut bind = |name: Option<Ident>, pat: Pat, ty: Option<Type>, mutable: bool, arg: Expr, fresh: &mut dyn FnMut(&str) -> Ident| {
        let arg = strip(&arg).clone();
        if let (Some(n), false) = (&name, mutable) {
            let n = n.to_string();
            let direct = match &arg {
                Expr::Path(p) => p.path.get_ident().cloned().map(Sub::Name),
                Expr::Reference(r) if place(&r.expr) => Some(Sub::Ref { mutable: r.mutability.is_some(), place: (*r.expr).clone() }),
                _ => None,
            };
            if let Some(s) = direct {
                // the parameter's name is bound again inside: leave it alone
                if !locals.contains(&n) {
                    taken.extend(root(&arg));
                    if !matches!(&s, Sub::Name(i) if *i == n) {
                        subs.insert(n, s);
                    }
                    return;
                }
            }
        }
        let v = fresh("arg");
        let plain = name.as_ref().is_some_and(|n| !locals.contains(&n.to_string()));
        let m: Option<Token![mut]> = if plain && mutable { Some(Default::default()) } else { None };
        match ty {
            Some(t) => first.push(parse_quote!(let #m #v: #t = #arg;)),
            None => first.push(parse_quote!(let #m #v = #arg;)),
        }
        if plain {
            subs.insert(name.unwrap().to_string(), Sub::Name(v));
        } else {
            second.push(parse_quote!(let #pat = #v;));
            second_names.extend(pat_names(&pat));
        }
    };
    let typed: Vec<PatType> = h.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(t.clone()), _ => None }).collect();
    for (t, arg) in typed.into_iter().zip(args) {
        let (name, mutable) = match &*t.pat { Pat::Ident(i) if i.by_ref.is_none() => (Some(i.ident.clone()), i.mutability.is_some()), _ => (None, false) };
        let s = t.ty.to_token_stream().to_string();
        struct G<'a>(&'a BTreeSet<String>, bool);
        impl<'a> Visit<'a> for G<'_> {
            fn visit_ident(&mut self, i: &'a Ident) {
                self.1 |= self.0.contains(&i.to_string());
            }
        }
        let mut g = G(&generic, false);
        g.visit_type(&t.ty);
        let ty = if s.contains("impl ") || g.1 { None } else { Some((*t.ty).clone()) };
        bind(name, (*t.pat).clone(), ty, mutable, arg, fresh);
    }
    if second_names.iter().any(|n| taken.contains(n)) {
        return None;
    }
    // names of the caller that the helper binds itself get out of the way
    let clash: BTreeMap<String, Sub> = locals.iter().filter(|l| taken.contains(*l)).map(|l| (l.clone(), Sub::Name(Ident::new(&format!("{l}_in"), proc_macro2::Span::call_site())))).collect();
    if !clash.is_empty() {
        struct Pats<'a>(&'a BTreeMap<String, Sub>);
        impl VisitMut for Pats<'_> {
            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                if let Some(Sub::Name(n)) = self.0.get(&p.ident.to_string()) {
                    p.ident = n.clone();
                }
                visit_mut::visit_pat_ident_mut(self, p);
            }
            fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
                if p.colon_token.is_none() {
                    p.colon_token = Some(Default::default());
                }
                visit_mut::visit_field_pat_mut(self, p);
            }
        }
        Pats(&clash).visit_block_mut(&mut block);
        Subst { subs: &clash }.visit_block_mut(&mut block);
    }
    if !subs.is_empty() {
        Subst { subs: &subs }.visit_block_mut(&mut block);
    }
    let body: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block });
    let body = if usage == Use::Try { try_tail(body) } else { body };
    Some(if first.is_empty() {
        body
    } else {
        match body { Expr::Block(b) => { let s = &b.block.stmts; parse_quote!({ #(#first)* #(#second)* #(#s)* }) } e => parse_quote!({ #(#first)* #(#second)* #e }) }
    })
}
/// whether what is left of the caller keeps the `?`
pub fn keeps_try(h: &Helper, caller_ret: &ReturnType) -> bool {
    err_of(&h.sig.output) != err_of(caller_ret)
}
