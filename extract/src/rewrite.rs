use super::*;
use std::cell::RefCell;

thread_local! {
    pub static MODULES: RefCell<BTreeSet<String>> = RefCell::new(BTreeSet::new());
    pub static WORLD: RefCell<BTreeSet<String>> = RefCell::new(BTreeSet::new());
}

/// Method names whose effect is on the outside world (channels, sockets, timers).
const WORLD_METHODS: &[&str] = &["send", "write_all", "write", "recv", "try_recv", "reset", "try_send", "fill_buf"];
/// Macros that only log: dropped.
const LOG_MACROS: &[&str] = &["debug", "error", "info", "warn", "trace", "println", "eprintln"];
/// Counters that nothing reads: dropped when called as a statement.
const DROP_CALLS: &[&str] = &["broker_info"];

/// `I: Iterator<Item = &u8>` and the like: the concrete shim the parameter is replaced by.
pub fn mono(bounds: &str) -> Option<Type> {
    if bounds.contains("Iterator<Item=&'au8>") || bounds.contains("Iterator<Item=&u8>") {
        Some(parse_quote!(ByteIter<'_>))
    } else if bounds.contains("Iterator<Item=String>") {
        Some(parse_quote!(OwnedIter<String>))
    } else if bounds.contains("AsyncBufRead") || bounds.contains("AsyncRead") {
        Some(parse_quote!(NetReader))
    } else if bounds.contains("AsyncWrite") {
        Some(parse_quote!(NetWriter))
    } else {
        None
    }
}

#[derive(Default)]
pub struct Rewriter {
    pub mono: BTreeMap<String, Type>,
    pub in_fn: bool,
    pub self_ty: Option<String>,
    pub unsupported: Vec<String>,
    /// the futures of each `select!`, as they are written
    pub selects: Vec<Vec<String>>,
    /// helpers whose bodies were put in the place of their calls
    pub inlined: Vec<String>,
    pub ret: Option<ReturnType>,
    fresh: usize,
}

fn is_log(m: &Macro) -> bool {
    m.path.segments.last().is_some_and(|s| LOG_MACROS.contains(&s.ident.to_string().as_str()))
}

/// Methods whose value only matters to the text that is logged.
const LOG_PURE: &[&str] = &["len", "is_empty", "is_some", "is_none", "is_ok", "is_err", "to_string", "clone", "as_str", "as_ref", "as_bytes", "as_slice", "as_deref", "kind", "to_vec", "to_owned", "iter", "borrow", "as_secs", "as_millis", "addr", "peer_addr", "elapsed", "get_packet_type", "get_remaing_len", "get_rl_len", "get_qos", "get_dup", "get_retain"];

/// Evaluating it has no effect and cannot panic.
fn log_pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) | Expr::Macro(_) => true,
        Expr::Field(f) => log_pure(&f.base),
        Expr::Reference(r) => r.mutability.is_none() && log_pure(&r.expr),
        Expr::Paren(p) => log_pure(&p.expr),
        Expr::Unary(u) => !matches!(u.op, UnOp::Neg(_)) && log_pure(&u.expr),
        Expr::Cast(c) => log_pure(&c.expr),
        Expr::MethodCall(m) => LOG_PURE.contains(&m.method.to_string().as_str()) && log_pure(&m.receiver) && m.args.iter().all(log_pure),
        Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) && log_pure(&b.left) && log_pure(&b.right),
        Expr::If(i) => log_pure(&i.cond) && i.then_branch.stmts.iter().all(|s| matches!(s, Stmt::Expr(e, None) if log_pure(e))) && i.else_branch.as_ref().is_none_or(|(_, e)| log_pure(e)),
        Expr::Block(b) => b.block.stmts.iter().all(|s| matches!(s, Stmt::Expr(e, None) if log_pure(e))),
        Expr::Tuple(t) => t.elems.iter().all(log_pure),
        _ => false,
    }
}

/// The arguments of a logging macro whose evaluation may panic or have an effect.
fn log_args(m: &Macro) -> Vec<Stmt> {
    use syn::punctuated::Punctuated;
    // `target: ..` comes first and is a literal
    let args = match m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
        Ok(a) => a,
        Err(_) => return vec![],
    };
    args.into_iter()
        .map(|a| match a {
            Expr::Assign(a) => *a.right,
            a => a,
        })
        .filter(|a| !log_pure(a))
        .map(|a| {
            let e = match a {
                Expr::Reference(r) if r.mutability.is_none() && !matches!(&*r.expr, Expr::Index(_)) => *r.expr,
                a => a,
            };
            parse_quote!(let _ = #e;)
        })
        .collect()
}

fn flatten(p: &mut Path) {
    // tokio's and std's own types get the shim's names
    let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let s = full.join("::");
    let rename = |p: &mut Path, keep: usize, new: &str| {
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let mut out: Vec<PathSegment> = segs[segs.len() - keep..].to_vec();
        out[0].ident = Ident::new(new, out[0].ident.span());
        p.leading_colon = None;
        p.segments = out.into_iter().collect();
    };
    if s.ends_with("oneshot::Sender") {
        return rename(p, 1, "OneshotSender");
    }
    if s.ends_with("oneshot::channel") {
        return rename(p, 1, "oneshot_channel");
    }
    if s.ends_with("std::mem::transmute") || s == "mem::transmute" || s == "transmute" {
        return rename(p, 1, "transmute");
    }
    let n = full.len();
    if n >= 2 {
        // drop leading module segments: crate, self, super, the crate's modules, std/tokio/bytes/...
        let mut drop = 0;
        while drop + 1 < n {
            let x = full[drop].as_str();
            let known = MODULES.with(|m| m.borrow().contains(x))
                || ["crate", "self", "super", "std", "core", "alloc", "tokio", "bytes", "dashmap", "uuid", "string",
                    "io", "sync", "mpsc", "time", "task", "error", "collections", "mem", "iter", "tokio_util", "log", "oneshot"]
                    .contains(&x);
            if known {
                drop += 1;
            } else {
                break;
            }
        }
        if drop > 0 {
            let segs: Vec<PathSegment> = p.segments.iter().skip(drop).cloned().collect();
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        }
    }
    // std conversion traits -> the shim's, and method names on types
    for seg in p.segments.iter_mut() {
        let i = seg.ident.to_string();
        let r = match i.as_str() {
            "from" => Some("vfrom"),
            "try_from" => Some("vtry_from"),
            "from_iter" => Some("vfrom_iter"),
            _ => None,
        };
        if let Some(r) = r {
            seg.ident = Ident::new(r, seg.ident.span());
        }
    }
}

fn int_size(t: &str) -> Option<usize> {
    Some(match t {
        "u8" | "i8" | "bool" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" => 4,
        "u64" | "i64" | "usize" | "isize" => 8,
        "u128" | "i128" => 16,
        _ => return None,
    })
}

fn closure_of(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match e {
        Expr::Closure(c) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
        _ => None,
    }
}

/// A closure parameter as a pattern of a match arm (its type annotation, if any, goes).
fn untyped(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => untyped(&t.pat),
        p => p.clone(),
    }
}

/// Evaluating it twice, or not at all, makes no difference.
fn is_simple(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Field(f) => is_simple(&f.base),
        Expr::Paren(p) => is_simple(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && is_simple(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(is_simple),
        _ => false,
    }
}

/// A chain that certainly is an iterator (and not an `Option` or a `Result`).
fn iterish(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => iterish(&p.expr),
        Expr::Range(_) => true,
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "map" | "filter" | "filter_map" | "take" | "skip" | "rev" | "enumerate" | "zip" | "chain" | "copied" | "cloned" | "inspect" | "peekable" | "step_by"
            | "take_while" | "skip_while" | "flat_map" | "flatten" | "by_ref" => iterish(&m.receiver),
            "iter" | "v_iter" | "into_iter" | "v_into_iter" | "iter_mut" | "v_iter_mut" | "chars" | "bytes" | "split" | "v_split" | "values" | "values_mut" | "keys"
            | "into_values" | "into_keys" | "lines" | "drain" | "windows" | "chunks" | "char_indices" | "splitn" | "rsplit" => true,
            _ => false,
        },
        _ => false,
    }
}

fn mentions_world(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_ident(&mut self, i: &'a Ident) {
            self.0 |= i == "__w";
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn has_return_or_try(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

pub struct SelectArm {
    pub pat: Pat,
    pub fut: Expr,
    pub cond: Option<Expr>,
    pub body: Expr,
}
pub struct Select(pub Vec<SelectArm>);
impl Parse for Select {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !input.is_empty() {
            if input.peek(Ident) && input.peek2(Token![;]) {
                // `biased;`
                let _: Ident = input.parse()?;
                let _: Token![;] = input.parse()?;
                continue;
            }
            let pat = Pat::parse_single(input)?;
            let _: Token![=] = input.parse()?;
            let fut: Expr = input.parse()?;
            let mut cond = None;
            if input.peek(Token![,]) && input.peek2(Token![if]) {
                let _: Token![,] = input.parse()?;
                let _: Token![if] = input.parse()?;
                cond = Some(input.parse()?);
            }
            let _: Token![=>] = input.parse()?;
            let body: Expr = if input.peek(token::Brace) {
                let b: Block = input.parse()?;
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
            } else {
                input.parse()?
            };
            if input.peek(Token![,]) {
                let _: Token![,] = input.parse()?;
            }
            v.push(SelectArm { pat, fut, cond, body });
        }
        Ok(Select(v))
    }
}

fn str_lit(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        Expr::Reference(r) => str_lit(&r.expr),
        Expr::Paren(p) => str_lit(&p.expr),
        _ => None,
    }
}
fn byte_list(b: &[u8]) -> Vec<LitInt> {
    b.iter().map(|x| LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site())).collect()
}
fn and_all(v: Vec<Expr>) -> Option<Expr> {
    let mut it = v.into_iter();
    let first = it.next()?;
    Some(it.fold(first, |a, b| parse_quote!(#a && #b)))
}

impl Rewriter {
    /// a call of a function without a contract becomes its body
    fn inline(&mut self, e: &mut Expr) {
        if !self.in_fn {
            return;
        }
        for _ in 0..12 {
            let (usage, inner) = match &*e {
                Expr::Try(t) => (inline::Use::Try, &*t.expr),
                Expr::Return(r) if r.expr.is_some() && self.ret.is_some() => (inline::Use::Return, &**r.expr.as_ref().unwrap()),
                Expr::Call(_) | Expr::MethodCall(_) | Expr::Await(_) => (inline::Use::Value, &*e),
                _ => return,
            };
            let Some((h, recv, args)) = inline::called(inner, &self.self_ty) else { return };
            let ret = self.ret.clone().unwrap_or(ReturnType::Default);
            let (sty, mut n) = (self.self_ty.clone(), self.fresh);
            let mut fresh = |p: &str| {
                n += 1;
                Ident::new(&format!("{p}__{n}"), proc_macro2::Span::call_site())
            };
            let Some(x) = inline::inlined(&h, recv, args, usage, &ret, &sty, &mut fresh) else { return };
            self.fresh = n;
            self.inlined.push(h.key.clone());
            *e = match usage {
                inline::Use::Try if inline::keeps_try(&h, &ret) => parse_quote!((#x)?),
                inline::Use::Return => parse_quote!(return #x),
                _ => x,
            };
        }
    }

    /// replace the string literals of a pattern by fresh names, and say what the names must equal
    fn lit_guards(&mut self, p: &mut Pat) -> Vec<Expr> {
        struct V<'r>(&'r mut Rewriter, Vec<Expr>);
        impl VisitMut for V<'_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                let lit = |q: &Pat| match q {
                    Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
                    _ => None,
                };
                let found = match p {
                    Pat::Reference(r) => lit(&r.pat),
                    _ => lit(p),
                };
                if let Some(s) = found {
                    let n = self.0.name("s");
                    let bytes = byte_list(s.as_bytes());
                    self.1.push(parse_quote!(v_str_is(&#n, &[#(#bytes),*])));
                    *p = parse_quote!(#n);
                    return;
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut v = V(self, vec![]);
        v.visit_pat_mut(p);
        v.1
    }

    fn name(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        Ident::new(&format!("{p}__{}", self.fresh), proc_macro2::Span::call_site())
    }

    /// `vec![a, b]` and `vec![]`
    fn vec_macro(&mut self, m: &Macro) -> Option<Expr> {
        use syn::punctuated::Punctuated;
        let args = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let v = self.name("v");
        let pushes: Vec<Stmt> = args.iter().map(|a| parse_quote!(#v.push(#a);)).collect();
        Some(parse_quote!({ let mut #v = Vec::new(); #(#pushes)* #v }))
    }

    /// select! { p = f, if c => body, ... }: one arbitrary enabled branch runs to completion.
    fn select(&mut self, m: &Macro) -> Option<Expr> {
        let s: Select = m.parse_body().ok()?;
        let k = Ident::new("arms__", proc_macro2::Span::call_site());
        let n = s.0.len();
        let mut arms: Vec<Arm> = vec![];
        let conds: Vec<Expr> = s.0.iter().map(|a| a.cond.clone().unwrap_or(parse_quote!(true))).collect();
        self.selects.push(s.0.iter().map(|a| a.fut.to_token_stream().to_string()).collect());
        let sk = Index::from(self.selects.len() - 1);
        for (i, a) in s.0.into_iter().enumerate() {
            let SelectArm { pat, fut, body, .. } = a;
            let fut = Expr::Await(ExprAwait {
                attrs: vec![],
                base: Box::new(if matches!(fut, Expr::Reference(_)) { parse_quote!((#fut)) } else { fut }),
                dot_token: Default::default(),
                await_token: Default::default(),
            });
            let i = Index::from(i);
            let lit = syn::LitInt::new(&format!("{}usize", i.index), proc_macro2::Span::call_site());
            arms.push(parse_quote!(#lit => { let fut__ = #fut; __select_got!(#sk, #i); let #pat = fut__; #body }));
        }
        let nn = syn::LitInt::new(&format!("{n}usize"), proc_macro2::Span::call_site());
        let mut sel: Vec<Stmt> = vec![];
        for c in conds {
            sel.push(parse_quote!(#k.push(#c);));
        }
        Some(parse_quote!({
            let mut #k: Vec<bool> = Vec::new();
            #(#sel)*
            __select!(#sk);
            match __w.select(#k, #nn) { #(#arms,)* _ => { unreached_select() } }
        }))
    }
}

impl VisitMut for Rewriter {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t {
            let s = it.bounds.to_token_stream().to_string().replace(' ', "");
            if let Some(m) = mono(&s) {
                *t = m;
                return;
            }
        }
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(m) = self.mono.get(&p.path.segments[0].ident.to_string()) {
                    *t = m.clone();
                    return;
                }
            }
        }
        if let Type::Reference(r) = t {
            if !r.lifetime.as_ref().is_some_and(|l| l.ident == "static") {
                r.lifetime = None;
            }
        }
        // array lengths
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        flatten(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match &s {
                Stmt::Macro(m) if m.mac.path.segments.last().is_some_and(|s| s.ident == "pin") => {
                    // tokio::pin!(x): x stays what it is, behind a pinned reference
                    if let Ok(x) = m.mac.parse_body::<Ident>() {
                        out.push(parse_quote!(let mut #x = #x;));
                    }
                }
                Stmt::Macro(m) if is_log(&m.mac) => out.extend(log_args(&m.mac)),
                Stmt::Item(Item::Use(_)) => continue,
                // (collected with the constants of the module)
                Stmt::Item(Item::Const(_)) => continue,
                Stmt::Expr(Expr::Call(c), Some(_)) => {
                    if let Expr::Path(p) = &*c.func {
                        if p.path.segments.iter().any(|s| DROP_CALLS.contains(&s.ident.to_string().as_str())) {
                            continue;
                        }
                    }
                    out.push(s);
                }
                // a tail or statement macro that is an expression
                Stmt::Macro(m) if m.mac.path.segments.last().is_some_and(|s| s.ident == "select") => {
                    match self.select(&m.mac) {
                        Some(e) => out.push(Stmt::Expr(e, m.semi_token)),
                        None => {
                            self.unsupported.push("select!".into());
                            out.push(s);
                        }
                    }
                }
                // let pat = e else { .. };  ->  let pat = match e { pat => .., _ => .. }
                _ => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // `for` desugars to a block: no semicolon trouble
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.inline(e);
        // pre-order rewrites
        match e {
            Expr::Macro(m) if is_log(&m.mac) => {
                let kept = log_args(&m.mac);
                *e = if kept.is_empty() { parse_quote!(()) } else { parse_quote!({ #(#kept)* }) };
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                if let Some(n) = self.vec_macro(&m.mac.clone()) {
                    *e = n;
                }
            }
            Expr::Macro(m) if m.mac.path.segments.last().is_some_and(|s| s.ident == "select") => {
                match self.select(&m.mac.clone()) {
                    Some(n) => *e = n,
                    None => self.unsupported.push("select!".into()),
                }
            }
            Expr::Macro(m) if m.mac.path.segments.last().is_some_and(|s| s.ident == "matches") => {
                // matches!(e, p if g) -> match e { p if g => true, _ => false }
                struct M(Expr, Pat, Option<Expr>);
                impl Parse for M {
                    fn parse(i: ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        let _: Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            let _: Token![if] = i.parse()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok(M(e, p, g))
                    }
                }
                if let Ok(M(x, p, g)) = m.mac.parse_body::<M>() {
                    *e = match g {
                        Some(g) => parse_quote!((match #x { #p if #g => true, _ => false })),
                        None => parse_quote!((match #x { #p => true, _ => false })),
                    };
                }
            }
            _ => {}
        }
        // std iterator pipelines that are consumed in place -> loops
        if let Some(n) = self.pipeline(e) {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
        // post-order rewrites
        match e {
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            Expr::Await(a) => {
                let base = (*a.base).clone();
                let mut b = &base;
                while let Expr::Paren(p) = b {
                    b = &p.expr;
                }
                let keep = match b {
                    Expr::Call(_) => false,
                    Expr::MethodCall(m) => m.method == "as_mut",
                    _ => true,
                };
                *e = if keep { parse_quote!(#base.vawait(__w)) } else { base };
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if last == "size_of" && c.args.is_empty() {
                        if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                            let t = a.args.to_token_stream().to_string();
                            if let Some(n) = int_size(&t) {
                                let lit = LitInt::new(&format!("{n}usize"), proc_macro2::Span::call_site());
                                *e = parse_quote!(#lit);
                                return;
                            }
                        }
                    }
                    if last == "transmute" {
                        if let Some(t) = &self.self_ty {
                            let f = Ident::new(&format!("{t}_from_discriminant"), proc_macro2::Span::call_site());
                            let args = c.args.clone();
                            *e = parse_quote!(#f(#args));
                            return;
                        }
                    }
                    if segs.len() == 2 && int_size(&segs[0]).is_some() && last.ends_with("_bytes") {
                        // u16::from_be_bytes -> the shim's u16_from_be_bytes
                        let f = Ident::new(&format!("{}_{}", segs[0], last), proc_macro2::Span::call_site());
                        let args = c.args.clone();
                        *e = parse_quote!(#f(#args));
                        return;
                    }
                    if last == "drop" && c.args.len() == 1 {
                        let a = c.args[0].clone();
                        *e = parse_quote!(drop_guard(#a));
                        return;
                    }
                    if segs.len() <= 2 && WORLD.with(|w| w.borrow().contains(&last)) {
                        c.args.insert(0, parse_quote!(__w));
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // string literals as arguments: given by their bytes
                for a in m.args.iter_mut() {
                    if let Some(l) = str_lit(a) {
                        let bytes = byte_list(l.as_bytes());
                        *a = parse_quote!(v_lit(&[#(#bytes),*]));
                    }
                }
                let recv = (*m.receiver).clone();
                match name.as_str() {
                    "ok_or_else" if m.args.len() == 1 => {
                        if let Some((_, b)) = closure_of(&m.args[0]) {
                            if !has_return_or_try(&b) {
                                let v = self.name("v");
                                *e = parse_quote!((match #recv { Some(#v) => Ok(#v), None => Err(#b) }));
                                return;
                            }
                        }
                    }
                    "ok_or" if m.args.len() == 1 => {
                        let b = m.args[0].clone();
                        if !has_return_or_try(&b) {
                            let v = self.name("v");
                            *e = parse_quote!((match #recv { Some(#v) => Ok(#v), None => Err(#b) }));
                            return;
                        }
                    }
                    "map_err" if m.args.len() == 1 => {
                        let v = self.name("v");
                        if let Some((ps, b)) = closure_of(&m.args[0]) {
                            if ps.len() == 1 && !has_return_or_try(&b) {
                                let p = untyped(&ps[0]);
                                *e = parse_quote!((match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }));
                                return;
                            }
                        } else if let Expr::Path(f) = &m.args[0] {
                            let x = self.name("e");
                            *e = parse_quote!((match #recv { Ok(#v) => Ok(#v), Err(#x) => Err(#f(#x)) }));
                            return;
                        }
                    }
                    "then" if m.args.len() == 1 => {
                        // bool::then
                        if let Some((ps, b)) = closure_of(&m.args[0]) {
                            if ps.is_empty() && !has_return_or_try(&b) {
                                *e = parse_quote!((if #recv { Some(#b) } else { None }));
                                return;
                            }
                        }
                    }
                    "then_some" if m.args.len() == 1 => {
                        let (v, b) = (self.name("v"), m.args[0].clone());
                        *e = parse_quote!({ let #v = #b; if #recv { Some(#v) } else { None } });
                        return;
                    }
                    "is_some_and" | "is_ok_and" | "is_none_or" if m.args.len() == 1 => {
                        let c = if name == "is_ok_and" { quote!(Ok) } else { quote!(Some) };
                        let other = name == "is_none_or";
                        if let Some((ps, b)) = closure_of(&m.args[0]) {
                            if ps.len() == 1 && !has_return_or_try(&b) {
                                let p = untyped(&ps[0]);
                                *e = parse_quote!((match #recv { #c(#p) => #b, _ => #other }));
                                return;
                            }
                        }
                    }
                    _ if !iterish(&recv) => {
                        if let Some(n) = self.combinator(&name, &recv, &m.args.iter().cloned().collect::<Vec<_>>()) {
                            *e = n;
                            return;
                        }
                    }
                    _ => {}
                }
                let Expr::MethodCall(m) = e else { return };
                match name.as_str() {
                    "into" if m.args.is_empty() => m.method = Ident::new("vinto", m.method.span()),
                    "try_into" if m.args.is_empty() => m.method = Ident::new("vtry_into", m.method.span()),
                    "min" | "max" | "contains" | "starts_with" | "ends_with" | "split" | "split_first" | "split_last" | "to_owned" | "to_string" => {
                        m.method = Ident::new(&format!("v_{name}"), m.method.span())
                    }
                    "get" if m.args.len() == 1 && matches!(&m.args[0], Expr::Range(_)) => {
                        if let Expr::Range(r) = &m.args[0] {
                            let n: Ident = Ident::new("v_get_range", m.method.span());
                            let (x, z): (Expr, Expr) = (parse_quote!(0usize), parse_quote!(None));
                            let a = r.start.as_ref().map(|e| (**e).clone()).unwrap_or(x);
                            let closed = matches!(r.limits, RangeLimits::Closed(_));
                            let b = match &r.end { Some(e) if !closed => Some(parse_quote!(Some(#e))), None => Some(z), _ => None };
                            if let Some(b) = b {
                                let b: Expr = b;
                                *e = parse_quote!(#recv.#n(#a, #b));
                                return;
                            }
                        }
                    }
                    "iter" if m.args.is_empty() => m.method = Ident::new("v_iter", m.method.span()),
                    "into_iter" if m.args.is_empty() => m.method = Ident::new("v_into_iter", m.method.span()),
                    "position" | "any" | "all" | "find" if m.args.len() == 1 => {
                        // pure predicate closures get themselves as their own postcondition
                        m.method = Ident::new(&format!("v_{name}"), m.method.span());
                        if let Expr::Closure(c) = &m.args[0] {
                            if c.inputs.len() == 1 && !has_return_or_try(&c.body) {
                                let p = &c.inputs[0];
                                let b = &c.body;
                                m.args[0] = parse_quote!(__pred!(#p, #b));
                            }
                        }
                    }
                    _ => {
                        if WORLD_METHODS.contains(&name.as_str()) || WORLD.with(|w| w.borrow().contains(&name)) {
                            // an argument that itself uses the world is evaluated first
                            let mut lets: Vec<Stmt> = vec![];
                            if !mentions_world(&m.receiver) {
                                for a in m.args.iter_mut() {
                                    if mentions_world(a) && !has_return_or_try(a) {
                                        let v = self.name("a");
                                        let old = a.clone();
                                        lets.push(parse_quote!(let #v = #old;));
                                        *a = parse_quote!(#v);
                                    }
                                }
                            }
                            m.args.insert(0, parse_quote!(__w));
                            if !lets.is_empty() {
                                let call = m.clone();
                                *e = parse_quote!({ #(#lets)* #call });
                            }
                        }
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_)) => {
                // a byte behind a reference (`iter.next()?`): the verifier has bit operations on values only
                if let Expr::Path(p) = &*b.left {
                    if let Some(i) = p.path.get_ident() {
                        if i.to_string().chars().next().is_some_and(|c| c.is_lowercase()) {
                            b.left = parse_quote!(#i.vval());
                        }
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (str_lit(&b.left).is_some() || str_lit(&b.right).is_some()) => {
                // comparison with a string literal: with the literal's bytes
                let (x, lit) = match str_lit(&b.right) {
                    Some(l) => ((*b.left).clone(), l),
                    None => ((*b.right).clone(), str_lit(&b.left).unwrap()),
                };
                let bytes = byte_list(lit.as_bytes());
                let call: Expr = parse_quote!(v_str_is(&#x, &[#(#bytes),*]));
                *e = if matches!(b.op, BinOp::Eq(_)) { call } else { parse_quote!(!#call) };
            }
            Expr::Assign(a) => {
                if let Some(l) = str_lit(&a.right) {
                    let bytes = byte_list(l.as_bytes());
                    a.right = parse_quote!(v_lit(&[#(#bytes),*]));
                }
            }
            Expr::Lit(l) => {
                if let Lit::ByteStr(b) = &l.lit {
                    let bytes = byte_list(&b.value());
                    *e = parse_quote!(&[#(#bytes),*]);
                }
            }
            Expr::If(iff) => {
                // `if let` with a string literal inside its pattern -> match with a guard
                if let Expr::Let(l) = &*iff.cond {
                    let mut pat = (*l.pat).clone();
                    let guards = self.lit_guards(&mut pat);
                    if let Some(g) = and_all(guards) {
                        let (x, a) = (l.expr.clone(), iff.then_branch.clone());
                        let b: Expr = match &iff.else_branch {
                            Some((_, b)) => (**b).clone(),
                            None => parse_quote!({}),
                        };
                        *e = parse_quote!(match #x { #pat if #g => #a, _ => #b });
                    }
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    let guards = self.lit_guards(&mut a.pat);
                    if let Some(g) = and_all(guards) {
                        a.guard = Some(match a.guard.take() {
                            Some((t, old)) => (t, parse_quote!(#g && #old)),
                            None => (Default::default(), Box::new(g)),
                        });
                    }
                }
            }
            Expr::ForLoop(f) => {
                // for p in E { B }  ->  { let mut it = E.v_into_iter(); loop { match it.v_next() { Some(p) => B, None => break } } }
                self.adapters(f);
                let it = self.name("it");
                let (p, x, b, l) = (f.pat.clone(), (*f.expr).clone(), f.body.clone(), f.label.clone());
                *e = parse_quote!({
                    let mut #it = (#x).v_into_iter();
                    #l loop { __forloop!(#it); match #it.next() { Some(#p) => #b None => { break; } } }
                });
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b, lab) = (l.pat.clone(), l.expr.clone(), w.body.clone(), w.label.clone());
                    *e = parse_quote!(#lab loop { match #x { #p => #b _ => { break; } } });
                }
            }
            _ => {}
        }
    }
}

impl Rewriter {
    /// The methods of `Option` and `Result` that take a closure (or pick between two values): the `match` they are.
    fn combinator(&mut self, name: &str, recv: &Expr, args: &[Expr]) -> Option<Expr> {
        // the closure (or function) in the place of `x`
        let mut apply = |this: &mut Self, f: &Expr| -> Option<(Vec<Pat>, Expr)> {
            match f {
                Expr::Closure(_) => {
                    let (ps, b) = closure_of(f)?;
                    let b = value_of(b);
                    (!has_return_or_try(&b)).then(|| (ps.iter().map(untyped).collect(), b))
                }
                Expr::Path(p) => {
                    let x = this.name("x");
                    Some((vec![parse_quote!(#x)], parse_quote!(#p(#x))))
                }
                _ => None,
            }
        };
        // the entry of a map
        if let (Expr::MethodCall(en), "or_insert_with" | "or_insert" | "or_default") = (recv, name) {
            if en.method == "entry" && en.args.len() == 1 && is_simple(&en.receiver) {
                let v: Expr = match (name, args) {
                    ("or_insert", [v]) if is_simple(v) || matches!(v, Expr::Call(c) if c.args.is_empty()) => v.clone(),
                    ("or_insert_with", [Expr::Path(f)]) => parse_quote!(#f()),
                    ("or_insert_with", [f]) => apply(self, f)?.1,
                    ("or_default", []) => parse_quote!(Default::default()),
                    _ => return None,
                };
                let (m, k, n) = (&en.receiver, &en.args[0], self.name("k"));
                return Some(parse_quote!({ let #n = #k; if !#m.contains_key(&#n) { #m.insert(#n.clone(), #v); } #m.get_mut(&#n).unwrap() }));
            }
            return None;
        }
        Some(match (name, args) {
            ("map", [f]) => {
                let (ps, b) = apply(self, f)?;
                let [p] = &ps[..] else { return None };
                let (k, n) = (self.name("k"), self.name("n"));
                parse_quote!((match #recv.v_br() { VB::Yes(#p, #k) => #k.yes(#b), VB::No(#n, #k) => #k.no(#n) }))
            }
            ("map_or", [d, f]) => {
                let (ps, b) = apply(self, f)?;
                let [p] = &ps[..] else { return None };
                if !is_simple(d) || has_return_or_try(d) {
                    return None;
                }
                parse_quote!((match #recv.v_br() { VB::Yes(#p, _) => #b, VB::No(_, _) => #d }))
            }
            ("map_or_else", [d, f]) => {
                let (ds, db) = apply(self, d)?;
                let (ps, b) = apply(self, f)?;
                let [p] = &ps[..] else { return None };
                let q: Pat = match &ds[..] { [] => parse_quote!(_), [q] => q.clone(), _ => return None };
                parse_quote!((match #recv.v_br() { VB::Yes(#p, _) => #b, VB::No(#q, _) => #db }))
            }
            ("unwrap_or_else", [d]) => {
                let (ds, db) = apply(self, d)?;
                let v = self.name("v");
                let q: Pat = match &ds[..] { [] => parse_quote!(_), [q] => q.clone(), _ => return None };
                parse_quote!((match #recv.v_br() { VB::Yes(#v, _) => #v, VB::No(#q, _) => #db }))
            }
            ("unwrap_or", [d]) if is_simple(d) => {
                let v = self.name("v");
                parse_quote!((match #recv.v_br() { VB::Yes(#v, _) => #v, VB::No(_, _) => #d }))
            }
            ("and_then", [f]) => {
                let (ps, b) = apply(self, f)?;
                let [p] = &ps[..] else { return None };
                let n = self.name("n");
                parse_quote!((match #recv.v_br() { VB::Yes(#p, _) => #b, VB::No(#n, _) => VFail::v_fail(#n) }))
            }
            ("or_else", [f]) => {
                let (ps, b) = apply(self, f)?;
                let v = self.name("v");
                match &ps[..] {
                    [] => parse_quote!((match #recv { Some(#v) => Some(#v), None => #b })),
                    [p] => parse_quote!((match #recv { Ok(#v) => Ok(#v), Err(#p) => #b })),
                    _ => return None,
                }
            }
            ("filter", [f]) => {
                let (ps, b) = apply(self, f)?;
                let [p] = &ps[..] else { return None };
                let v = self.name("v");
                parse_quote!((match #recv { Some(#v) => { let v_keep = { let #p = &#v; #b }; if v_keep { Some(#v) } else { None } } None => None }))
            }
            ("inspect", [f]) | ("inspect_err", [f]) => {
                let (ps, b) = apply(self, f)?;
                let [p] = &ps[..] else { return None };
                let (v, k, n) = (self.name("v"), self.name("k"), self.name("n"));
                if name == "inspect" {
                    parse_quote!((match #recv.v_br() { VB::Yes(#v, #k) => { { let #p = &#v; #b; } #k.yes(#v) } VB::No(#n, #k) => #k.no(#n) }))
                } else {
                    parse_quote!((match #recv { Ok(#v) => Ok(#v), Err(#n) => { { let #p = &#n; #b; } Err(#n) } }))
                }
            }
            _ => return None,
        })
    }

    fn adapted(&self, e: &Expr) -> bool {
        let Expr::MethodCall(m) = e else { return false };
        matches!(m.method.to_string().as_str(), "filter" | "filter_map") && iterish(&m.receiver)
    }

    /// `for p in E.filter(|q| c) { B }` -> `for p in E { let q = &p; if c { B } }`, the same for map, filter_map, inspect.
    fn adapters(&mut self, f: &mut ExprForLoop) {
        loop {
            let Expr::MethodCall(m) = &*f.expr else { return };
            if m.args.len() != 1 {
                return;
            }
            let Some((ps, c)) = closure_of(&m.args[0]) else { return };
            let c = value_of(c);
            if ps.len() != 1 || has_return_or_try(&c) || !iterish(&m.receiver) {
                return;
            }
            let q = untyped(&ps[0]);
            let (p, b, v) = (f.pat.clone(), f.body.clone(), self.name("el"));
            let (np, nb): (Pat, Block) = match m.method.to_string().as_str() {
                "filter" => (parse_quote!(#v), parse_quote!({ let v_keep = { let #q = &#v; #c }; if v_keep { let #p = #v; #b } })),
                "map" => (q, parse_quote!({ let #p = #c; #b })),
                "filter_map" => (q, parse_quote!({ match #c { Some(#p) => #b None => {} } })),
                "inspect" => (parse_quote!(#v), parse_quote!({ { let #q = &#v; #c; } let #p = #v; #b })),
                _ => return,
            };
            let r = (*m.receiver).clone();
            *f.pat = np;
            *f.expr = r;
            f.body = nb;
        }
    }

    /// `E.into_iter().map(|p| body).collect()` and `E.into_iter().for_each(|p| body)`, `E.iter().map(..).collect()`:
    /// a loop that pushes / runs the body.  A `return x` of the closure becomes its value.
    fn pipeline(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        match m.method.to_string().as_str() {
            "for_each" => {
                let (ps, b) = closure_of(m.args.first()?)?;
                if ps.len() != 1 || has_return_or_try(&b) {
                    return None;
                }
                let (p, r) = (&ps[0], &m.receiver);
                Some(parse_quote!({ for #p in #r { #b; } }))
            }
            // a predicate that does something: which elements it sees matters
            "any" | "all" if m.args.len() == 1 => {
                let (ps, b) = closure_of(m.args.first()?)?;
                if ps.len() != 1 || has_return_or_try(&b) || !has_effect(&b) {
                    return None;
                }
                let (p, r) = (&ps[0], &m.receiver);
                let v = self.name("found");
                Some(if m.method == "any" {
                    parse_quote!({ let mut #v = false; for #p in #r { if #b { #v = true; break; } } #v })
                } else {
                    parse_quote!({ let mut #v = true; for #p in #r { if !#b { #v = false; break; } } #v })
                })
            }
            // elements that are picked, or folded into one value
            "collect" | "count" | "sum" | "last" if m.args.is_empty() && self.adapted(&m.receiver) => {
                let (r, v, x) = (&m.receiver, self.name("out"), self.name("el"));
                Some(match m.method.to_string().as_str() {
                    "collect" => parse_quote!({ let mut #v = Vec::new(); for #x in #r { #v.push(#x); } #v }),
                    "count" => parse_quote!({ let mut #v: usize = 0; for #x in #r { #v = #v + 1; } #v }),
                    "last" => parse_quote!({ let mut #v = None; for #x in #r { #v = Some(#x); } #v }),
                    _ => return None,
                })
            }
            "fold" if m.args.len() == 2 => {
                let (ps, b) = closure_of(&m.args[1])?;
                if ps.len() != 2 || has_return_or_try(&b) || !iterish(&m.receiver) {
                    return None;
                }
                let (i, acc, p, r, v) = (&m.args[0], untyped(&ps[0]), untyped(&ps[1]), &m.receiver, self.name("acc"));
                Some(parse_quote!({ let mut #v = #i; for #p in #r { let #acc = #v; #v = #b; } #v }))
            }
            "collect" => {
                let Expr::MethodCall(mm) = &*m.receiver else { return None };
                if mm.method != "map" {
                    return None;
                }
                // only over owned / borrowed vectors
                let (ps, b) = closure_of(mm.args.first()?)?;
                if ps.len() != 1 {
                    return None;
                }
                let (p, r) = (&ps[0], &mm.receiver);
                let v = self.name("out");
                let b = value_of(b);
                if has_return_or_try(&b) {
                    return None;
                }
                Some(parse_quote!({ let mut #v = Vec::new(); for #p in #r { let item__ = #b; #v.push(item__); } #v }))
            }
            _ => None,
        }
    }
}

fn has_effect(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            let n = m.method.to_string();
            if WORLD_METHODS.contains(&n.as_str()) || ["insert", "delete", "remove", "push", "pop", "retain", "clear", "try_send", "next", "take"].contains(&n.as_str()) {
                self.0 = true;
            }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_assign(&mut self, _: &'a ExprAssign) {
            self.0 = true;
        }
        fn visit_expr_reference(&mut self, r: &'a ExprReference) {
            self.0 |= r.mutability.is_some();
            syn::visit::visit_expr_reference(self, r);
        }
    }
    let mut f = F(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}

/// `{ s1; if c { return x; } tail }`  ->  `{ s1; if c { x } else { tail } }`
fn value_of(e: Expr) -> Expr {
    let Expr::Block(mut b) = e else { return e };
    for i in 0..b.block.stmts.len() {
        if let Stmt::Expr(Expr::If(iff), _) = &b.block.stmts[i] {
            if iff.else_branch.is_none() && i + 1 < b.block.stmts.len() {
                let last = iff.then_branch.stmts.last().cloned();
                if let Some(Stmt::Expr(Expr::Return(r), _)) = last {
                    let mut then = iff.then_branch.clone();
                    then.stmts.pop();
                    if let Some(v) = r.expr {
                        then.stmts.push(Stmt::Expr(*v, None));
                    }
                    let rest: Vec<Stmt> = b.block.stmts[i + 1..].to_vec();
                    let rest = value_of(parse_quote!({ #(#rest)* }));
                    let c = iff.cond.clone();
                    b.block.stmts.truncate(i);
                    let n: Expr = parse_quote!(if #c #then else { #rest });
                    b.block.stmts.push(Stmt::Expr(n, None));
                    return Expr::Block(b);
                }
            }
        }
    }
    Expr::Block(b)
}

/// In a match with guards the verifier loses that nothing touches the world after a `return`: mark the place.
#[derive(Default)]
pub struct Returns {
    guarded: bool,
}
impl VisitMut for Returns {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let before = self.guarded;
        self.guarded |= m.arms.iter().any(|a| a.guard.is_some());
        visit_mut::visit_expr_match_mut(self, m);
        self.guarded = before;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            if self.guarded {
                let v: Expr = match &r.expr { Some(v) => (**v).clone(), None => parse_quote!(()) };
                *e = parse_quote!({ let ret__ = #v; __returns!(); return ret__ });
            }
        }
    }
}

/// `return v` -> `return __fin!(v)`: the place where what holds at the end can be said.
pub struct Exits;
impl VisitMut for Exits {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let v: Expr = match &r.expr { Some(v) => (**v).clone(), None => parse_quote!(()) };
            *e = parse_quote!(return __fin!(#v));
        }
    }
}

/// Number the loops (source order) and put the placeholders in.
#[derive(Default)]
pub struct Loops {
    pub kinds: Vec<String>,
}
impl Loops {
    fn mark(&mut self, b: &mut Block, kind: &str) -> usize {
        let k = self.kinds.len();
        let mut kind = kind.to_string();
        if let Some(Stmt::Macro(m)) = b.stmts.first() {
            if m.mac.path.is_ident("__forloop") {
                kind = format!("for {}", m.mac.tokens);
                b.stmts.remove(0);
            }
        }
        self.kinds.push(kind);
        let i = Index::from(k);
        b.stmts.insert(0, parse_quote!(__loop!(#i);));
        k
    }
}
impl VisitMut for Loops {
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        self.mark(&mut l.body, "loop");
        visit_mut::visit_expr_loop_mut(self, l);
    }
    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
        self.mark(&mut l.body, "while");
        visit_mut::visit_expr_while_mut(self, l);
    }
}

#[derive(Default)]
pub struct Locals(pub Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_local(&mut self, l: &'a Local) {
        struct P<'b>(&'b mut Vec<String>);
        impl<'a> Visit<'a> for P<'_> {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                self.0.push(p.ident.to_string());
            }
        }
        P(&mut self.0).visit_pat(&l.pat);
        visit::visit_local(self, l);
    }
}

#[derive(Default)]
pub struct Calls(pub Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.to_token_stream().to_string().replace(' ', ""));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.0.push(format!(".{}", c.method));
        visit::visit_expr_method_call(self, c);
    }
}

pub struct Touches<'w> {
    pub world: &'w BTreeSet<String>,
    pub hit: bool,
}
impl<'a> Visit<'a> for Touches<'_> {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.len() <= 3 && self.world.contains(&p.path.segments.last().unwrap().ident.to_string()) {
                self.hit = true;
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        let n = c.method.to_string();
        if WORLD_METHODS.contains(&n.as_str()) || self.world.contains(&n) {
            self.hit = true;
        }
        visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_await(&mut self, a: &'a ExprAwait) {
        if !matches!(&*a.base, Expr::Call(_) | Expr::MethodCall(_)) {
            self.hit = true;
        }
        visit::visit_expr_await(self, a);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.path.segments.last().is_some_and(|s| s.ident == "select") {
            self.hit = true;
        }
    }
}
