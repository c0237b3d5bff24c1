//! vx: mechanical extraction of Rust functions into a Verus file.
//!
//! usage: vx TEMPLATE REPO OUT.rs MAP.json
//!
//! TEMPLATE is Verus text in which lines starting with `@` are directives (see DESIGN.md).
//! Every directive copies an item of REPO's current source; the statement text is the source's token
//! stream, changed only by the rewrites in `Rw` (each application is counted in MAP.json).
//! Exit status: 0 written, 3 a directive could not be honoured (lost anchor, unsupported construct).
use proc_macro2::{Delimiter, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
mod inline;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn die(msg: String) -> ! {
    eprintln!("vx: {}", msg);
    std::process::exit(3)
}

// ------------------------------------------------------------------ template
#[derive(Default, Clone, Debug)]
struct FnOpts {
    props: Vec<String>,
    ret: Option<String>,
    spec: String,
    loops: HashMap<usize, String>,
    loopstart: HashMap<usize, String>,
    loopend: HashMap<usize, String>,
    afterloop: HashMap<usize, String>,
    start: String,
    tail: String,
    after: Vec<(String, String)>,
    before: Vec<(String, String)>,
    closures: HashMap<usize, (String, String)>,
    params: Vec<String>,
    attr: String,
    external: bool,
    optional: bool,
    dynself: bool,
    rettype: Option<String>,
    generics: Vec<String>,
}
#[derive(Debug, Clone)]
enum Dir {
    Text(String),
    File(String),
    Mod(String),
    /// contracts only: the functions that follow are verified in another unit
    Trust(bool),
    PathMap(String, String),
    MethodMap(String, String),
    MacroMap(String, String),
    ExprMap(String, String),
    TypeMap(String, String),
    DynParam(String),
    Struct(String, String),
    Enum(String, String),
    Const(String, String),
    Bitflags(String),
    Fn(String, FnOpts),
    Impl(String, String, String, Vec<(String, FnOpts)>, String, HashSet<String>),
    Trait(String, String, Vec<(String, FnOpts)>, String),
}

struct Lines<'a> {
    l: Vec<&'a str>,
    i: usize,
}
impl<'a> Lines<'a> {
    fn block(&mut self, first: &str) -> String {
        // text after "<<<" up to a line whose trimmed form is ">>>"
        let mut s = String::new();
        if let Some(p) = first.find("<<<") {
            let rest = &first[p + 3..];
            if let Some(q) = rest.rfind(">>>") {
                return rest[..q].to_string() + "\n";
            }
            s.push_str(rest);
            s.push('\n');
        }
        loop {
            if self.i >= self.l.len() {
                die(format!("template: unterminated block starting {:?}", first));
            }
            let x = self.l[self.i];
            self.i += 1;
            if x.trim() == ">>>" {
                return s;
            }
            s.push_str(x);
            s.push('\n');
        }
    }
}
fn parse_fn_opts(ls: &mut Lines) -> FnOpts {
    let mut o = FnOpts::default();
    loop {
        if ls.i >= ls.l.len() {
            die("template: @fn without @end".into());
        }
        let line = ls.l[ls.i];
        ls.i += 1;
        let t = line.trim();
        if t.is_empty() || t.starts_with('#') {
            continue;
        }
        if t == "@end" || t == "end" {
            return o;
        }
        let mut w = t.split_whitespace();
        let k = w.next().unwrap();
        match k {
            "props" => o.props = w.map(|s| s.to_string()).collect(),
            "params" => o.params = w.map(|s| s.to_string()).collect(),
            "ret" => o.ret = w.next().map(|s| s.to_string()),
            "rettype" => o.rettype = Some(t["rettype".len()..].trim().to_string()),
            "generic" => o.generics.push(t["generic".len()..].trim().to_string()),
            "external" => o.external = true,
            "optional" => o.optional = true,
            "dynself" => o.dynself = true,
            "spec" => o.spec = ls.block(t),
            "start" => o.start = ls.block(t),
            "tail" => o.tail = ls.block(t),
            "attr" => o.attr = ls.block(t),
            "after" | "before" => {
                let p = t.find('`').unwrap();
                let q = t.rfind('`').unwrap();
                let pat = t[p + 1..q].to_string();
                let b = ls.block(&t[q + 1..]);
                if k == "after" { o.after.push((pat, b)) } else { o.before.push((pat, b)) }
            }
            "loop" | "loopstart" | "loopend" | "afterloop" => {
                let n: usize = w.next().unwrap().parse().unwrap();
                let b = ls.block(t);
                match k {
                    "loop" => o.loops.insert(n, b),
                    "loopstart" => o.loopstart.insert(n, b),
                    "loopend" => o.loopend.insert(n, b),
                    _ => o.afterloop.insert(n, b),
                };
            }
            "closure" => {
                let n: usize = w.next().unwrap().parse().unwrap();
                let p = t.find("<<<").unwrap_or(t.len());
                let head = t[..p].trim();
                let ty = head.splitn(3, char::is_whitespace).nth(2).unwrap_or("").trim().to_string();
                let b = if p < t.len() { ls.block(t) } else { String::new() };
                o.closures.insert(n, (ty, b));
            }
            _ => die(format!("template: unknown option {:?}", t)),
        }
    }
}
fn parse_template(s: &str) -> Vec<Dir> {
    let mut ls = Lines { l: s.lines().collect(), i: 0 };
    let mut out = vec![];
    let mut text = String::new();
    while ls.i < ls.l.len() {
        let line = ls.l[ls.i];
        ls.i += 1;
        let t = line.trim_start();
        if !t.starts_with('@') || t.starts_with("@@") {
            text.push_str(line);
            text.push('\n');
            continue;
        }
        if !text.is_empty() {
            out.push(Dir::Text(std::mem::take(&mut text)));
        }
        let (k, rest) = t[1..].split_once(char::is_whitespace).unwrap_or((&t[1..], ""));
        let rest = rest.trim();
        let two = |r: &str| -> (String, String) {
            let (a, b) = r.split_once("=>").unwrap_or_else(|| die(format!("template: expected => in {:?}", r)));
            (a.trim().replace(' ', ""), b.trim().to_string())
        };
        let nd = |r: &str| -> (String, String) {
            let (a, b) = r.split_once(char::is_whitespace).unwrap_or((r, ""));
            (a.to_string(), b.trim().to_string())
        };
        match k {
            "file" => out.push(Dir::File(rest.into())),
            "mod" => out.push(Dir::Mod(rest.into())),
            "trust" => out.push(Dir::Trust(rest == "on")),
            "path" => { let (a, b) = two(rest); out.push(Dir::PathMap(a, b)) }
            "method" => { let (a, b) = two(rest); out.push(Dir::MethodMap(a, b)) }
            "macro" => { let (a, b) = two(rest); out.push(Dir::MacroMap(a, b)) }
            "type" => { let (a, b) = two(rest); out.push(Dir::TypeMap(a, b)) }
            "expr" => { let (a, b) = two(rest); out.push(Dir::ExprMap(a, b)) }
            "dynparam" => out.push(Dir::DynParam(rest.into())),
            "struct" => { let (a, b) = nd(rest); out.push(Dir::Struct(a, b)) }
            "enum" => { let (a, b) = nd(rest); out.push(Dir::Enum(a, b)) }
            "const" => { let (a, b) = nd(rest); out.push(Dir::Const(a, b)) }
            "bitflags" => out.push(Dir::Bitflags(rest.into())),
            "fn" => { let o = parse_fn_opts(&mut ls); out.push(Dir::Fn(rest.into(), o)) }
            "impl" | "trait" => {
                let mut fns = vec![];
                let mut extra = String::new();
                let mut skip = HashSet::new();
                let mut hdr = String::new();
                loop {
                    if ls.i >= ls.l.len() { die("template: unterminated @impl".into()) }
                    let l2 = ls.l[ls.i].trim();
                    ls.i += 1;
                    if l2.is_empty() || l2.starts_with('#') { continue }
                    if l2 == "@endimpl" || l2 == "@endtrait" { break }
                    if let Some(n) = l2.strip_prefix("fn ") {
                        let o = parse_fn_opts(&mut ls);
                        fns.push((n.trim().to_string(), o));
                    } else if l2.starts_with("extra") {
                        extra.push_str(&ls.block(l2));
                    } else if l2.starts_with("header") {
                        hdr.push_str(&ls.block(l2));
                    } else if let Some(n) = l2.strip_prefix("skip ") {
                        for x in n.split_whitespace() { skip.insert(x.to_string()); }
                    } else { die(format!("template: {:?} in @impl", l2)) }
                }
                if k == "impl" {
                    let (a, b) = rest.split_once(" for ").unwrap_or_else(|| die("template: @impl needs `for`".into()));
                    out.push(Dir::Impl(a.trim().into(), b.trim().into(), hdr, fns, extra, skip));
                } else {
                    out.push(Dir::Trait(rest.into(), hdr, fns, extra));
                }
            }
            _ => die(format!("template: unknown directive @{}", k)),
        }
    }
    if !text.is_empty() { out.push(Dir::Text(text)) }
    out
}

// ------------------------------------------------------------------ pretty printer
struct Marks(BTreeMap<String, String>);
struct Pp<'a> {
    out: String,
    marks: &'a Marks,
    nl: bool,
    depth: usize,
}
impl<'a> Pp<'a> {
    fn newline(&mut self) {
        if !self.out.ends_with('\n') { self.out.push('\n') }
        self.nl = true;
    }
    fn word(&mut self, s: &str, line: usize) {
        if self.nl {
            for _ in 0..self.depth { self.out.push(' ') }
            if line > 1 { let _ = write!(self.out, "/*L{}*/ ", line); }
            self.nl = false;
        }
        self.out.push_str(s);
    }
    fn stream(&mut self, ts: TokenStream, brace: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) if id.to_string().starts_with("__vx_m_") => {
                    // marker macro: ident ! ( ) ;
                    let key = id.to_string();
                    let txt = self.marks.0.get(&key).cloned().unwrap_or_default();
                    if !txt.trim().is_empty() {
                        self.newline();
                        self.out.push_str(&txt);
                        self.newline();
                    }
                    i += 3;
                    if i < v.len() { if let TokenTree::Punct(p) = &v[i] { if p.as_char() == ';' { i += 1 } } }
                    continue;
                }
                TokenTree::Group(g) => {
                    let line = g.span_open().start().line;
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let mut rest = g.stream();
                            if let Some(TokenTree::Ident(id)) = inner.first() {
                                let k = id.to_string();
                                if k.starts_with("__vx_l_") {
                                    let txt = self.marks.0.get(&k).cloned().unwrap_or_default();
                                    self.newline();
                                    self.out.push_str(&txt);
                                    self.newline();
                                    rest = inner.into_iter().skip(4).collect();
                                }
                            }
                            self.word("{", line);
                            self.depth += 1;
                            self.newline();
                            self.stream(rest, true);
                            self.depth -= 1;
                            self.newline();
                            self.word("}", 0);
                            let cont = match v.get(i + 1) {
                                Some(TokenTree::Punct(p)) => ".,;?)=&|<>+-*/!".contains(p.as_char()),
                                Some(TokenTree::Ident(id)) => *id == "else" || *id == "as",
                                None => false,
                                _ => false,
                            };
                            if cont { self.out.push(' ') } else { self.newline() }
                        }
                        d => {
                            let (o, c) = match d { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                            self.word(o, line);
                            self.stream(g.stream(), false);
                            self.word(c, 0);
                            self.out.push(' ');
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.word(&c.to_string(), p.span().start().line);
                    if c == ';' && brace { self.newline() }
                    else if p.spacing() == proc_macro2::Spacing::Alone && c != '\'' { self.out.push(' ') }
                }
                TokenTree::Ident(id) => {
                    self.word(&id.to_string(), id.span().start().line);
                    self.out.push(' ');
                }
                TokenTree::Literal(l) => {
                    self.word(&l.to_string(), l.span().start().line);
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}
/// text that is not plain Rust (annotated closures), kept as a macro call so that the tree stays parseable; taken out of its wrapping when printed
fn raw(t: TokenStream) -> Expr { parse_quote!(vx_raw!(#t)) }
fn unraw(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "vx_raw" && i + 2 < v.len() => {
                if let TokenTree::Group(g) = &v[i + 2] { out.extend(unraw(g.stream())); i += 3; continue }
                out.push(v[i].clone());
            }
            TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), unraw(g.stream())); n.set_span(g.span()); out.push(n.into()) }
            x => out.push(x.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
fn pretty(ts: TokenStream, marks: &Marks, depth: usize) -> String {
    let ts = unraw(ts);
    let mut p = Pp { out: String::new(), marks, nl: true, depth };
    p.stream(ts, true);
    p.out
}

// ------------------------------------------------------------------ rewrites
#[derive(Default)]
struct Ctx {
    file: String,
    /// FILE|FUNCTION -> the closures its contract was written for, and those found now
    closures: HashMap<String, Vec<(String, String)>>,
    closures_now: BTreeMap<String, Vec<(String, String)>>,
    trust: bool,
    ntrust: usize,
    paths: Vec<(String, String)>,
    methods: HashMap<String, String>,
    macros: HashMap<String, String>,
    exprs: HashMap<String, String>,
    types: HashMap<String, String>,
    dynparams: HashSet<String>,
    counts: BTreeMap<String, usize>,
    errors: Vec<String>,
    degrade: HashSet<String>,
    helpers: inline::Helpers,
    mrules: HashMap<String, TokenStream>,
}
fn pstr<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
fn path_key(p: &Path) -> String {
    let mut s = String::new();
    if p.leading_colon.is_some() { s.push_str("::") }
    s.push_str(&p.segments.iter().map(|x| x.ident.to_string()).collect::<Vec<_>>().join("::"));
    s
}
struct Rw<'a> {
    cx: &'a mut Ctx,
    marks: Marks,
    opts: FnOpts,
    nloop: usize,
    nclos: usize,
    nfresh: usize,
    new_generics: Vec<GenericParam>,
}
impl<'a> Rw<'a> {
    fn count(&mut self, k: &str) { *self.cx.counts.entry(k.to_string()).or_insert(0) += 1 }
    fn marker(&mut self, name: String, txt: String) -> Stmt {
        let id = Ident::new(&name, Span::call_site());
        self.marks.0.insert(name, txt);
        syn::parse2(quote!(#id!();)).unwrap()
    }
    fn fresh(&mut self) -> Ident { self.nfresh += 1; format_ident!("vx_p{}", self.nfresh) }
    /// rewrite `&x` sub-patterns: returns let statements to put in front of the body
    fn fix_pat(&mut self, p: &mut Pat, under_ref: bool, lets: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                let mut inner = (*r.pat).clone();
                self.count("reference pattern `&p` replaced by default binding plus `let x = *p`");
                self.fix_pat(&mut inner, true, lets);
                *p = inner;
            }
            Pat::Ident(i) => {
                if let Some((_, _sub)) = &i.subpat { return }
                if under_ref {
                    let nm = i.ident.to_string();
                    if i.by_ref.is_some() { i.by_ref = None; return }
                    if nm.chars().next().map_or(false, |c| c.is_uppercase()) { return }
                    let f = self.fresh();
                    let id = i.ident.clone();
                    let m = i.mutability;
                    lets.push(syn::parse2(quote!(let #m #id = *#f;)).unwrap());
                    i.ident = f;
                    i.mutability = None;
                }
            }
            Pat::Tuple(t) => for q in t.elems.iter_mut() { self.fix_pat(q, under_ref, lets) },
            Pat::TupleStruct(t) => for q in t.elems.iter_mut() { self.fix_pat(q, under_ref, lets) },
            Pat::Struct(t) => for q in t.fields.iter_mut() { self.fix_pat(&mut q.pat, under_ref, lets) },
            Pat::Paren(t) => self.fix_pat(&mut t.pat, under_ref, lets),
            Pat::Or(t) => for q in t.cases.iter_mut() { self.fix_pat(q, under_ref, lets) },
            _ => {}
        }
    }
    fn fix_ty_dyn(&mut self, ty: &mut Type) {
        if let Type::Reference(r) = ty {
            if let Type::TraitObject(t) = &*r.elem {
                let b = t.bounds.clone();
                if pstr(&b) == "Write" || pstr(&b) == "Read" {
                    if self.opts.dynself {
                        r.elem = Box::new(syn::parse_str("VxW").unwrap());
                        self.count("`dyn Trait` argument monomorphised into a type parameter");
                        return;
                    }
                    let g = format_ident!("VxDyn{}", self.new_generics.len());
                    self.new_generics.push(syn::parse2(quote!(#g: #b)).unwrap());
                    r.elem = Box::new(syn::parse2(quote!(#g)).unwrap());
                    self.count("`dyn Trait` argument monomorphised into a type parameter");
                }
            }
        }
    }
    fn loop_marks(&mut self, n: usize, body: &mut Block) {
        let inv = self.opts.loops.remove(&n).unwrap_or_default();
        let s = self.opts.loopstart.remove(&n).unwrap_or_default();
        let e = self.opts.loopend.remove(&n).unwrap_or_default();
        let m0 = self.marker(format!("__vx_l_{}", n), inv);
        let mut v = vec![m0];
        if !s.is_empty() { v.push(self.marker(format!("__vx_m_ls{}", n), s)) }
        v.append(&mut body.stmts);
        if !e.is_empty() { v.push(self.marker(format!("__vx_m_le{}", n), e)) }
        body.stmts = v;
    }
}
struct PatIdentOnly(Pat);
impl syn::parse::Parse for PatIdentOnly {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { Ok(PatIdentOnly(Pat::parse_single(i)?)) }
}
/// functions defined inside function bodies become functions of the file (they capture nothing)
fn hoist_nested(items: &mut Vec<Item>, cx: &mut Ctx) {
    fn take(b: &mut Block, out: &mut Vec<Item>) {
        b.stmts.retain(|s| if let Stmt::Item(Item::Fn(f)) = s { out.push(Item::Fn(f.clone())); false } else { true });
    }
    let mut out = vec![];
    for it in items.iter_mut() {
        match it {
            Item::Fn(f) => take(&mut f.block, &mut out),
            Item::Impl(i) => for x in i.items.iter_mut() { if let ImplItem::Fn(f) = x { take(&mut f.block, &mut out) } },
            _ => {}
        }
    }
    for n in out {
        let Item::Fn(f) = &n else { continue };
        if !items.iter().any(|i| matches!(i, Item::Fn(g) if g.sig.ident == f.sig.ident)) {
            *cx.counts.entry("function nested in a function body moved beside it".into()).or_default() += 1;
            items.push(n);
        }
    }
}
fn map_path(cx: &mut Ctx, p: &mut Path) {
    // ::std::io::X and std::io::X are written io::X
    if p.segments.len() > 2 && (p.segments[0].ident == "std" || p.segments[0].ident == "core") && p.segments[1].ident == "io" {
        p.segments = p.segments.iter().skip(1).cloned().collect();
        p.leading_colon = None;
    }
    let key = path_key(p);
    let paths = cx.paths.clone();
    for (a, b) in &paths {
        let hit = if a.ends_with("::") { key.starts_with(a.as_str()) } else { key == *a || key.starts_with(&format!("{}::", a)) };
        if hit && b.is_empty() && key == *a { continue }
        if hit {
            let n = a.trim_end_matches("::").split("::").filter(|s| !s.is_empty()).count();
            let newp: Path = if b.is_empty() { Path { leading_colon: None, segments: Default::default() } } else { syn::parse_str(b).unwrap() };
            let mut segs: Vec<PathSegment> = newp.segments.iter().cloned().collect();
            let mut rest: Vec<PathSegment> = p.segments.iter().skip(n).cloned().collect();
            if rest.is_empty() {
                if let (Some(l), Some(o)) = (segs.last_mut(), p.segments.last()) {
                    if l.arguments.is_none() { l.arguments = o.arguments.clone() }
                }
            }
            segs.append(&mut rest);
            p.segments = segs.into_iter().collect();
            p.leading_colon = newp.leading_colon;
            *cx.counts.entry(format!("path `{}` resolved to `{}`", a, b)).or_insert(0) += 1;
            return;
        }
    }
    if key == "mem::take" || key == "mem::replace" || key == "mem::swap" { p.segments.insert(0, parse_quote!(core)); return }
    if p.segments.len() > 1 && p.leading_colon.is_none() && p.segments[0].ident == "io" {
        let n = match p.segments[1].ident.to_string().as_str() { "Error" => "IoError", "ErrorKind" => "ErrorKind", "Result" => "IoResult", "Read" => "Read", "Write" => "Write", _ => return };
        p.segments = p.segments.iter().skip(1).cloned().collect();
        p.segments[0].ident = Ident::new(n, p.segments[0].ident.span());
        *cx.counts.entry(format!("path `io::_` resolved to `{}`", n)).or_insert(0) += 1;
    }
}
impl<'a> VisitMut for Rw<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let last = p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if self.cx.dynparams.contains(&last) {
            if let Some(s) = p.segments.last_mut() {
                if let PathArguments::AngleBracketed(ab) = &mut s.arguments {
                    ab.args.push(syn::parse_str("VxW").unwrap());
                }
            }
        }
        map_path(self.cx, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let k = pstr(t);
        if let Some(n) = self.cx.types.get(&k).cloned() {
            *t = syn::parse_str(&n).unwrap();
            self.count(&format!("type `{}` mapped to `{}`", k, n));
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let mut lets = vec![];
        self.fix_pat(&mut a.pat, false, &mut lets);
        if !lets.is_empty() {
            let b = &a.body;
            a.body = syn::parse2(quote!({ #(#lets)* #b })).unwrap();
            if let Some((_, g)) = &mut a.guard { *g = syn::parse2(quote!({ #(#lets)* #g })).unwrap() }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut v = vec![];
        for s in std::mem::take(&mut b.stmts) {
            // drop attributes-only / item statements are kept
            let after: Option<usize> = match &s { Stmt::Expr(e, _) => loop_no(e), _ => None };
            let txt = match &s { Stmt::Item(_) => String::new(), _ => pstr(&s) };
            let mut post = vec![];
            for k in 0..self.opts.after.len() {
                if !txt.is_empty() && txt.starts_with(&self.opts.after[k].0.replace(' ', "")) && !self.opts.after[k].1.is_empty() {
                    let t = std::mem::take(&mut self.opts.after[k].1);
                    post.push(self.marker(format!("__vx_m_af{}", k), t));
                }
            }
            for k in 0..self.opts.before.len() {
                if !txt.is_empty() && txt.starts_with(&self.opts.before[k].0.replace(' ', "")) && !self.opts.before[k].1.is_empty() {
                    let t = std::mem::take(&mut self.opts.before[k].1);
                    let m = self.marker(format!("__vx_m_be{}", k), t);
                    v.push(m);
                }
            }
            v.push(s);
            v.append(&mut post);
            if let Some(n) = after {
                if let Some(t) = self.opts.afterloop.remove(&n) {
                    let m = self.marker(format!("__vx_m_al{}", n), t);
                    v.push(m);
                }
            }
        }
        b.stmts = v;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a bare path used as a value
        if let Expr::Path(p) = e {
            let k = path_key(&p.path);
            if let Some(n) = self.cx.exprs.get(&k).cloned() {
                *e = syn::parse_str(&n).unwrap_or_else(|_| raw(n.parse().unwrap()));
                self.count(&format!("value `{}` mapped to stub `{}`", k, n));
                return;
            }
        }
        // loops are numbered in source order, so number before descending
        match e {
            Expr::ForLoop(f) => {
                let n = self.nloop;
                self.nloop += 1;
                let mut lets = vec![];
                self.fix_pat(&mut f.pat, false, &mut lets);
                let mut body = f.body.clone();
                let mut st = lets;
                st.append(&mut body.stmts);
                body.stmts = st;
                self.visit_block_mut(&mut body);
                self.visit_expr_mut(&mut f.expr);
                let pat = &f.pat;
                let it = format_ident!("vx_it{}", n);
                let src = &f.expr;
                let ghost = self.marker(format!("__vx_m_gh{}", n), format!("let ghost vx_s{} = vx_it{}@;", n, n));
                let mut lb: Block = syn::parse2(quote!({ match #it.next() { None => { break; } Some(#pat) => #body } })).unwrap();
                self.loop_marks(n, &mut lb);
                let al = self.opts.afterloop.remove(&n).map(|t| self.marker(format!("__vx_m_al{}", n), t));
                self.count("`for` desugared to `loop { match it.next() ... }`");
                let al = al.into_iter();
                let lab = &f.label;
                *e = syn::parse2(quote!({ let mut #it = (#src).vx_into_iter(); #ghost #lab loop #lb #(#al)* })).unwrap();
                return;
            }
            Expr::While(w) => {
                let n = self.nloop;
                self.nloop += 1;
                if let Expr::Let(l) = &mut *w.cond {
                    let mut lets = vec![];
                    self.fix_pat(&mut l.pat, false, &mut lets);
                    let mut st = lets;
                    st.append(&mut w.body.stmts);
                    w.body.stmts = st;
                    // while let P = E { B }  ==>  loop { match E { P => B, _ => break } }
                    self.visit_expr_mut(&mut l.expr);
                    let mut pat = (*l.pat).clone();
                    self.visit_pat_mut(&mut pat);
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    // built from parts: the pieces may already hold text that is not plain Rust
                    let mut lb: Block = parse_quote!({ match vx_e { vx_p => {} _ => { break; } } });
                    if let Some(Stmt::Expr(Expr::Match(m), _)) = lb.stmts.get_mut(0) {
                        m.expr = l.expr.clone();
                        m.arms[0].pat = pat;
                        m.arms[0].body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: body }));
                    }
                    self.loop_marks(n, &mut lb);
                    self.count("`while let` desugared to `loop { match ... }`");
                    let lab = &w.label;
                    *e = Expr::Loop(ExprLoop { attrs: vec![], label: lab.clone(), loop_token: Default::default(), body: lb });
                    return;
                }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let mut b = w.body.clone();
                self.loop_marks(n, &mut b);
                w.body = b;
                w.attrs.clear();
                return;
            }
            Expr::Loop(w) => {
                let n = self.nloop;
                self.nloop += 1;
                self.visit_block_mut(&mut w.body);
                let mut b = w.body.clone();
                self.loop_marks(n, &mut b);
                w.body = b;
                w.attrs.clear();
                return;
            }
            Expr::Closure(c) => {
                let n = self.nclos;
                self.nclos += 1;
                self.visit_expr_mut(&mut c.body);
                let mut lets = vec![];
                for p in c.inputs.iter_mut() {
                    let mut q = p.clone();
                    self.fix_pat(&mut q, false, &mut lets);
                    if let Pat::Wild(_) = q { let f = self.fresh(); q = syn::parse2::<PatIdentOnly>(quote!(#f)).unwrap().0; }
                    if let Pat::Tuple(_) | Pat::Struct(_) | Pat::TupleStruct(_) = &q {
                        let f = self.fresh();
                        lets.insert(0, parse_quote!(let #q = #f;));
                        q = syn::parse2::<PatIdentOnly>(quote!(#f)).unwrap().0;
                        self.count("pattern of a closure parameter turned into a `let` at the start of the closure");
                    }
                    *p = q;
                }
                let body = &c.body;
                let ins = &c.inputs;
                let mv = &c.capture;
                let (ty, mut spec) = self.opts.closures.remove(&n).unwrap_or((String::new(), String::new()));
                for (i, p) in c.inputs.iter().enumerate() {
                    let q = match p { Pat::Type(t) => &*t.pat, p => p };
                    if let Pat::Ident(id) = q { spec = spec.replace(&format!("${}", i), &id.ident.to_string()); }
                }
                if spec.trim() == "none" {
                    *e = syn::parse2(quote!(#mv |#ins| { #(#lets)* #body })).unwrap();
                    return;
                }
                let shape = |b: &Expr| -> Option<&'static str> { match b {
                    Expr::Tuple(t) if t.elems.is_empty() => Some("()"),
                    Expr::Binary(x) if matches!(x.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) => Some("bool"),
                    Expr::Unary(x) if matches!(x.op, UnOp::Not(_)) && matches!(&*x.expr, Expr::Binary(_) | Expr::Paren(_)) => Some("bool"),
                    Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => Some("bool"),
                    Expr::Call(c) if pstr(&c.func).starts_with("vx_bytes_are") => Some("bool"),
                    _ => None,
                } };
                let ty = shape(&c.body).map(|s| s.to_string()).unwrap_or(ty);
                let ty = if ty.is_empty() { if let ReturnType::Type(_, t) = &c.output { pstr(t) } else if matches!(&*c.body, Expr::Binary(_) | Expr::Lit(_) | Expr::Paren(_)) || matches!(&*c.body, Expr::MethodCall(m) if m.method == "len" || m.method == "count") { "usize".into() } else { "_".into() } } else { ty };
                let open = ty == "_";
                let ty: TokenStream = ty.parse().unwrap();
                let sp: TokenStream = if spec.trim().is_empty() && open { quote!(ensures vx_same(vx_q, #body)) } else if spec.trim().is_empty() { quote!(ensures vx_q == (#body)) } else { spec.parse().unwrap() };
                self.count("closure annotated with `ensures result == body`");
                *e = raw(quote!(#mv |#ins| -> (vx_q: #ty) #sp { #(#lets)* #body }));
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Reference(r) = e {
            if let (None, Expr::Index(ix)) = (&r.mutability, &*r.expr) {
                if matches!(&*ix.index, Expr::Range(rg) if rg.start.is_none() && rg.end.is_none()) {
                    let b = &ix.expr;
                    *e = syn::parse2(quote!((#b).vx_all())).unwrap();
                    self.count("`&x[..]` read as a call of the stub `vx_all`");
                    return;
                }
            }
        }
        if let Expr::Cast(c) = e {
            if let Type::Reference(r) = &*c.ty {
                if matches!(&*r.elem, Type::Path(p) if p.path.is_ident("str")) {
                    let b = &c.expr;
                    *e = syn::parse2(quote!((#b).vx_as_str())).unwrap();
                    self.count("`x as &str` read as a call of the stub `vx_as_str`");
                    return;
                }
            }
        }
        if let Expr::Index(ix) = e {
            if let Expr::Range(rg) = &*ix.index {
                let pos = |x: &Option<Box<Expr>>| x.as_ref().map_or(false, |x| matches!(&**x, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Position"));
                if pos(&rg.start) && pos(&rg.end) && matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                    let (b, x, y) = (&ix.expr, &rg.start, &rg.end);
                    *e = syn::parse2(quote!((#b).vx_piece(#x, #y))).unwrap();
                    self.count("`url[a..b]` read as a call of the stub `vx_piece`");
                    return;
                }
            }
        }
        if let Expr::Cast(c) = e {
            if pstr(&c.ty) == "&[u8]" {
                let b = &c.expr;
                *e = syn::parse2(quote!((#b).vx_as_slice())).unwrap();
                self.count("`x as &[u8]` read as a call of the stub `vx_as_slice`");
                return;
            }
        }
        if let Expr::Binary(b) = e {
            let neg = matches!(b.op, BinOp::Ne(_));
            if neg || matches!(b.op, BinOp::Eq(_)) {
                let bl = |e: &Expr| -> Option<Vec<u8>> { if let Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) = e { Some(s.value()) } else { None } };
                let (l, o) = match (bl(&b.left), bl(&b.right)) { (Some(l), _) => (Some(l), b.right.clone()), (_, Some(l)) => (Some(l), b.left.clone()), _ => (None, b.left.clone()) };
                if let Some(l) = l {
                    if l.len() <= 4 && l.len() > 0 {
                        let f = format_ident!("vx_bytes_are{}", l.len());
                        *e = if neg { syn::parse2(quote!(!#f(#o, #(#l),*))).unwrap() } else { syn::parse2(quote!(#f(#o, #(#l),*))).unwrap() };
                        self.count("comparison with a byte string literal read as a call of the stub `vx_bytes_are`");
                        return;
                    }
                }
            }
        }
        if let Expr::Binary(b) = e {
            let neg = matches!(b.op, BinOp::Ne(_));
            if neg || matches!(b.op, BinOp::Eq(_)) {
                let sl = |e: &Expr| matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
                let (l, o) = if sl(&b.left) { (Some(&b.left), &b.right) } else if sl(&b.right) { (Some(&b.right), &b.left) } else { (None, &b.left) };
                if let Some(l) = l {
                    *e = if neg { syn::parse2(quote!(!vx_str_is(#o, #l))).unwrap() } else { syn::parse2(quote!(vx_str_is(#o, #l))).unwrap() };
                    self.count("comparison with a string literal read as a call of the stub `vx_str_is`");
                    return;
                }
            }
        }
        if let Expr::Match(m) = e {
            // which arms: string literals (joined by `|`, guarded or not), and at the end a catch-all
            fn cond(p: &Pat) -> Option<TokenStream> { match p {
                Pat::Lit(ExprLit { lit: Lit::Str(l), .. }) => Some(quote!(vx_str_is(vx_sc, #l))),
                Pat::Or(o) => { let c: Option<Vec<_>> = o.cases.iter().map(cond).collect(); let c = c?; Some(quote!((#(#c)||*))) }
                Pat::Paren(p) => cond(&p.pat),
                _ => None,
            } }
            let any = |p: &Pat| matches!(p, Pat::Wild(_)) || matches!(p, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none());
            let closed = m.arms.last().map_or(false, |a| a.guard.is_none() && any(&a.pat));
            if m.arms.len() > 1 && closed && m.arms.iter().any(|a| cond(&a.pat).is_some()) && m.arms.iter().all(|a| cond(&a.pat).is_some() || any(&a.pat)) {
                let sc = &m.expr;
                let mut ex: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    let c = cond(&a.pat);
                    let bind = if let Pat::Ident(i) = &a.pat { quote!(let #i = vx_sc;) } else { quote!() };
                    let g = a.guard.as_ref().map(|g| &g.1);
                    ex = Some(match (c, g, ex) {
                        (_, _, None) => parse_quote!({ #bind #b }),
                        (None, None, Some(_)) => parse_quote!({ #bind #b }),
                        (Some(c), None, Some(el)) => parse_quote!(if #c { #b } else { #el }),
                        (Some(c), Some(g), Some(el)) => parse_quote!(if #c && (#g) { #b } else { #el }),
                        (None, Some(g), Some(el)) => parse_quote!(if { #bind #g } { #bind #b } else { #el }),
                    });
                }
                let ex = ex.unwrap();
                *e = parse_quote!({ let vx_sc: &str = #sc; #ex });
                self.count("`match` on string literals desugared to `if`/`else`");
                return;
            }
        }
        match e {
            Expr::MethodCall(m) => {
                let k = m.method.to_string();
                if (k == "map" || k == "map_err") && m.args.len() == 1 {
                    if let Expr::Path(p) = &m.args[0] {
                        let up = |s: &PathSegment| s.ident.to_string().starts_with(char::is_uppercase);
                        let n = p.path.segments.len();
                        if up(p.path.segments.last().unwrap()) {
                            let mut ty = p.clone();
                            if n >= 2 && up(&p.path.segments[n - 2]) { ty.path.segments.pop(); ty.path.segments.pop_punct(); }
                            let ty: TokenStream = if p.path.is_ident("Some") { quote!(Option<_>) } else if p.path.is_ident("Ok") || p.path.is_ident("Err") { quote!(Result<_, _>) } else { quote!(#ty) };
                            let a = raw(quote!(|vx_x| -> (vx_q: #ty) ensures vx_q == #p(vx_x) { #p(vx_x) }));
                            m.args[0] = a;
                            self.count("constructor used as a function written as a closure");
                        }
                    }
                }
                if let Some(n) = self.cx.methods.get(&k).cloned() {
                    m.method = Ident::new(&n, m.method.span());
                    self.count(&format!("method `{}` mapped to stub `{}`", k, n));
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("vx_raw") => return,
            Expr::Macro(m) => {
                let k = path_key(&m.mac.path);
                if let Some(n) = self.cx.macros.get(&k).cloned().filter(|n| n.starts_with('@')) {
                    match builtin_macro(&n, m.mac.tokens.clone(), self.cx.mrules.get(&k)) {
                        Ok(mut x) => {
                            self.visit_expr_mut(&mut x);
                            *e = x;
                        }
                        Err(er) => self.cx.errors.push(format!("macro {}: {}", k, er)),
                    }
                    self.count(&match &n[..] { "@rules" => format!("macro `{}` expanded by its definition", k), _ => format!("macro `{}` desugared into one push per literal piece and argument", k) });
                } else if let Some(n) = self.cx.macros.get(&k).cloned() {
                    // macro call -> function call with the same arguments
                    let args = m.mac.tokens.clone();
                    let f: TokenStream = n.parse().unwrap();
                    let parsed: std::result::Result<Expr, _> = syn::parse2(quote!(#f(#args)));
                    match parsed {
                        Ok(mut x) => {
                            if let Expr::Call(c) = &mut x { for a in c.args.iter_mut() { self.visit_expr_mut(a) } }
                            *e = x
                        }
                        Err(er) => self.cx.errors.push(format!("macro {}: {}", k, er)),
                    }
                    self.count(&format!("macro `{}` mapped to stub `{}`", k, n));
                } else if k == "vec" || k == "matches" || k == "assert" || k == "panic" || k == "unreachable" {
                    if k == "vec" {
                        if let Ok(l) = syn::parse2::<VecArgs>(m.mac.tokens.clone()) {
                            let mut es = l.0;
                            for x in es.iter_mut() { self.visit_expr_mut(x) }
                            m.mac.tokens = quote!(#(#es),*);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let k = path_key(&m.mac.path);
            if self.cx.macros.contains_key(&k) {
                let mac = m.mac.clone();
                let semi = m.semi_token;
                let mut ex = Expr::Macro(ExprMacro { attrs: vec![], mac });
                self.visit_expr_mut(&mut ex);
                *s = Stmt::Expr(ex, semi);
                return;
            }
        }
        if let Stmt::Local(l) = s {
            let mut lets = vec![];
            if let Pat::Reference(_) = &l.pat { self.fix_pat(&mut l.pat, false, &mut lets); if !lets.is_empty() { self.cx.errors.push("reference pattern in let".into()) } }
        }
        visit_mut::visit_stmt_mut(self, s)
    }
}
/// `format!`/`write!` (only `{}` pieces) and macros defined with macro_rules in the repository
fn builtin_macro(kind: &str, ts: TokenStream, rules: Option<&TokenStream>) -> std::result::Result<Expr, String> {
    if kind == "@rules" {
        let d = rules.ok_or("definition not found")?.clone();
        return expand_rules(d, ts);
    }
    let VecArgs(mut args) = syn::parse2::<VecArgs>(ts).map_err(|e| e.to_string())?;
    let dst = if kind == "@write" { if args.is_empty() { return Err("no destination".into()) } Some(args.remove(0)) } else { None };
    if args.is_empty() { return Err("no format string".into()) }
    let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = args.remove(0) else { return Err("format string is not a literal".into()) };
    let f = f.value();
    let mut pieces: Vec<std::result::Result<String, Expr>> = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = f.chars().collect();
    let mut args = args.into_iter();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => { lit.push('{'); i += 2 }
            '}' if cs.get(i + 1) == Some(&'}') => { lit.push('}'); i += 2 }
            '{' => {
                let j = (i..cs.len()).find(|&j| cs[j] == '}').ok_or("unclosed {")?;
                let nm: String = cs[i + 1..j].iter().collect();
                if !lit.is_empty() { pieces.push(Ok(std::mem::take(&mut lit))) }
                if nm.is_empty() { pieces.push(Err(args.next().ok_or("too few arguments")?)) }
                else if syn::parse_str::<Ident>(&nm).is_ok() { pieces.push(Err(syn::parse_str(&nm).unwrap())) }
                else { return Err(format!("format specification {{{}}}", nm)) }
                i = j + 1
            }
            c => { lit.push(c); i += 1 }
        }
    }
    if !lit.is_empty() { pieces.push(Ok(lit)) }
    if args.next().is_some() { return Err("too many arguments".into()) }
    match dst {
        None => {
            let st: Vec<TokenStream> = pieces.iter().map(|p| match p { Ok(l) => quote!(vx_push_lit(&mut vx_f, #l);), Err(e) => quote!(vx_push_shown(&mut vx_f, &(#e));) }).collect();
            syn::parse2(quote!({ let mut vx_f = vx_empty_string(); #(#st)* vx_f })).map_err(|e| e.to_string())
        }
        Some(d) => {
            let mut ex: TokenStream = quote!(Ok(()));
            if pieces.is_empty() { pieces.push(Ok(String::new())) }
            let n = pieces.len();
            for (k, p) in pieces.iter().enumerate().rev() {
                let call = match p { Ok(l) => quote!(vx_write_lit(#d, #l)), Err(e) => quote!(vx_write_shown(#d, &(#e))) };
                ex = if k + 1 == n { call } else { quote!(match #call { Err(vx_e) => Err(vx_e), Ok(()) => #ex }) };
            }
            syn::parse2(ex).map_err(|e| e.to_string())
        }
    }
}
/// one-rule macro_rules without repetitions: match the call, substitute the fragments
fn expand_rules(def: TokenStream, call: TokenStream) -> std::result::Result<Expr, String> {
    let d: Vec<TokenTree> = def.into_iter().collect();
    let gs: Vec<TokenStream> = d.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g.stream()) } else { None }).collect();
    if gs.len() != 2 { return Err("definition does not have exactly one rule".into()) }
    let mut b: HashMap<String, TokenStream> = HashMap::new();
    fn m(pat: TokenStream, call: TokenStream, b: &mut HashMap<String, TokenStream>) -> std::result::Result<(), String> {
        let p: Vec<TokenTree> = pat.into_iter().collect();
        let mut c: Vec<TokenTree> = call.into_iter().collect();
        let mut i = 0;
        while i < p.len() {
            match &p[i] {
                TokenTree::Punct(x) if x.as_char() == '$' => {
                    let (Some(TokenTree::Ident(n)), Some(TokenTree::Ident(k))) = (p.get(i + 1), p.get(i + 3)) else { return Err("repetition in macro definition".into()) };
                    let ts: TokenStream = c.iter().cloned().collect();
                    let kind = k.to_string();
                    let parser = move |input: syn::parse::ParseStream| -> syn::Result<(TokenStream, TokenStream)> {
                        let t = match &kind[..] {
                            "expr" => input.parse::<Expr>()?.to_token_stream(),
                            "ty" => input.parse::<Type>()?.to_token_stream(),
                            "pat" => Pat::parse_single(input)?.to_token_stream(),
                            "ident" => input.parse::<Ident>()?.to_token_stream(),
                            _ => return Err(input.error("fragment kind")),
                        };
                        Ok((t, input.parse::<TokenStream>()?))
                    };
                    let (t, rest) = syn::parse::Parser::parse2(parser, ts).map_err(|e| e.to_string())?;
                    let t = if k == "expr" { TokenStream::from(TokenTree::Group(proc_macro2::Group::new(Delimiter::None, t))) } else { t };
                    b.insert(n.to_string(), t);
                    c = rest.into_iter().collect();
                    i += 4;
                }
                TokenTree::Group(g) => {
                    let Some(TokenTree::Group(h)) = c.first().cloned() else { return Err("call does not match".into()) };
                    if g.delimiter() != h.delimiter() { return Err("call does not match".into()) }
                    m(g.stream(), h.stream(), b)?;
                    c.remove(0);
                    i += 1;
                }
                t => {
                    if c.first().map(|x| x.to_string()) != Some(t.to_string()) { return Err("call does not match".into()) }
                    c.remove(0);
                    i += 1;
                }
            }
        }
        if !c.is_empty() { return Err("call does not match".into()) }
        Ok(())
    }
    m(gs[0].clone(), call, &mut b)?;
    fn sub(ts: TokenStream, b: &HashMap<String, TokenStream>) -> std::result::Result<TokenStream, String> {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut o = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(x) if x.as_char() == '$' => {
                    let Some(TokenTree::Ident(n)) = v.get(i + 1) else { return Err("repetition in macro definition".into()) };
                    o.extend(b.get(&n.to_string()).ok_or("unknown fragment")?.clone());
                    i += 2;
                }
                TokenTree::Group(g) => { o.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), b)?))]); i += 1 }
                t => { o.extend([t.clone()]); i += 1 }
            }
        }
        Ok(o)
    }
    let body = sub(gs[1].clone(), &b)?;
    // a braced transcriber is a block or an expression
    syn::parse2::<Expr>(body.clone()).or_else(|_| syn::parse2::<Expr>(quote!({ #body }))).map_err(|e| e.to_string())
}
struct VecArgs(Vec<Expr>);
impl syn::parse::Parse for VecArgs {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)?;
        Ok(VecArgs(p.into_iter().collect()))
    }
}
fn loop_no(e: &Expr) -> Option<usize> {
    let b = match e { Expr::While(w) => &w.body, Expr::Loop(l) => &l.body, _ => return None };
    if let Some(Stmt::Macro(m)) = b.stmts.first() {
        let k = path_key(&m.mac.path);
        if let Some(n) = k.strip_prefix("__vx_l_") { return n.parse().ok() }
    }
    None
}
fn word_replace(s: &str, a: &str, b: &str) -> String {
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let isw = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < cs.len() {
        if isw(cs[i]) {
            let st = i;
            while i < cs.len() && isw(cs[i]) { i += 1 }
            let w: String = cs[st..i].iter().collect();
            let dot = st > 0 && cs[st - 1] == '.' && !(st > 1 && cs[st - 2] == '.');
            if w == a && !dot { out.push_str(b) } else { out.push_str(&w) }
        } else { out.push(cs[i]); i += 1 }
    }
    out
}

// ------------------------------------------------------------------ output of one function
struct FnRec { name: String, file: String, line: usize, out_start: usize, out_end: usize, props: Vec<String>, external: bool, degraded: bool, inlined: Vec<String>, calls: Vec<String> }
struct Out { s: String, fns: Vec<FnRec>, impl_n: usize }

/// `const X: T = literal;` inside a function: the uses are replaced by the literal
struct LocalConsts(HashMap<String, Expr>, usize);
impl VisitMut for LocalConsts {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = self.0.clone();
        for s in &b.stmts {
            if let Stmt::Item(Item::Const(c)) = s { if let Expr::Lit(_) = &*c.expr { self.0.insert(c.ident.to_string(), (*c.expr).clone()); } }
        }
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Const(c)) if matches!(&*c.expr, Expr::Lit(_))));
        visit_mut::visit_block_mut(self, b);
        self.0 = saved;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() { if let Some(x) = self.0.get(&i.to_string()) { *e = x.clone(); self.1 += 1; return } }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = Ident::new("vx_self", i.span()) } }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Verbatim(t) = e { *t = rename_self(t.clone()); return }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = rename_self(m.tokens.clone()) }
}
fn rename_self(t: TokenStream) -> TokenStream {
    t.into_iter().map(|x| match x {
        proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new("vx_self", i.span())),
        proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), rename_self(g.stream())); n.set_span(g.span()); n.into() }
        x => x,
    }).collect()
}
struct Calls(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { self.0.push(path_key(&p.path)) }
        syn::visit::visit_expr_call(self, c)
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        self.0.push(format!(".{}", c.method));
        syn::visit::visit_expr_method_call(self, c)
    }
}

/// the closures of a body, in the order of `Rw`: parameters and body as token texts
struct Closures(Vec<(String, String)>);
impl<'a> syn::visit::Visit<'a> for Closures {
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        let one = |t: String| t.split_whitespace().collect::<Vec<_>>().join(" ");
        let ins = &c.inputs; let body = &c.body;
        self.0.push((one(quote!(#ins).to_string()), one(quote!(#body).to_string())));
        syn::visit::visit_expr_closure(self, c)
    }
}
fn alike(a: &(String, String), b: &(String, String)) -> i64 {
    let mut n = 0;
    let mut r: Vec<&str> = b.1.split(' ').collect();
    let l = a.1.split(' ').count().max(r.len()) as i64;
    for t in a.1.split(' ') { if let Some(i) = r.iter().position(|x| *x == t) { r.swap_remove(i); n += 1 } }
    n * 60 / l + if a.0 == b.0 { 40 } else { 0 }
}
/// pairs (then, now), in order, of the greatest likeness
fn align(a: &[(String, String)], b: &[(String, String)]) -> Vec<(usize, usize)> {
    let (n, m) = (a.len(), b.len());
    let sc = |i: usize, j: usize| { let x = alike(&a[i], &b[j]); if x >= 30 { x } else { -1 } };
    let mut d = vec![vec![0i64; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() { let x = sc(i, j); d[i][j] = d[i + 1][j].max(d[i][j + 1]).max(if x >= 0 { x + d[i + 1][j + 1] } else { 0 }); } }
    let (mut i, mut j, mut r) = (0, 0, vec![]);
    while i < n && j < m {
        let x = sc(i, j);
        if x >= 0 && d[i][j] == x + d[i + 1][j + 1] { r.push((i, j)); i += 1; j += 1 } else if d[i][j] == d[i + 1][j] { i += 1 } else { j += 1 }
    }
    r
}
fn emit_fn(cx: &mut Ctx, out: &mut Out, qual: &str, mut sig: Signature, block: Option<Block>, opts: &FnOpts, vis: bool, line: usize) {
    let mut o = opts.clone();
    let nerr = cx.errors.len();
    let degraded = cx.degrade.contains(qual);
    if degraded || (cx.trust && block.is_some()) { o.external = true }
    let mut block = block;
    let mut inlined = vec![];
    if let Some(b) = &mut block {
        let ty = match qual.strip_prefix('<') { Some(r) => r.split(" as ").next().unwrap_or("").to_string(), None => qual.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default() };
        let ty = ty.trim_start_matches('&').split('<').next().unwrap_or("").trim().to_string();
        if !o.external { cx.helpers.run(&ty, b, &mut inlined) }
        for h in &inlined { *cx.counts.entry(format!("call of the uncontracted helper `{}` replaced by its body", h)).or_default() += 1 }
    }
    if let Some(b) = &mut block {
        let mut lc = LocalConsts(HashMap::new(), 0);
        lc.visit_block_mut(b);
        if lc.1 > 0 { *cx.counts.entry("constant of a function body replaced by its literal".into()).or_default() += lc.1 }
    }
    // the contracts of closures are given by position; when their number has changed, by likeness to the closures of the tree they were written for
    if let (Some(b), false) = (&block, opts.closures.is_empty()) {
        let mut c = Closures(vec![]);
        syn::visit::Visit::visit_block(&mut c, b);
        let key = format!("{}|{}", cx.file, qual);
        if let Some(was) = cx.closures.get(&key) {
            if was.len() != c.0.len() {
                let mut m = HashMap::new();
                for (i, j) in align(was, &c.0) { if let Some(v) = opts.closures.get(&i) { m.insert(j, v.clone()); } }
                o.closures = m;
                *cx.counts.entry("closures of a function matched with their contracts by likeness".into()).or_default() += 1;
            }
        }
        cx.closures_now.insert(key, c.0);
    }
    // positional parameter renaming of the contract text
    if !o.params.is_empty() {
        let actual: Vec<String> = sig.inputs.iter().map(|a| match a {
            FnArg::Receiver(_) => "self".into(),
            FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() },
        }).collect();
        for (k, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a { if matches!(&*t.pat, Pat::Wild(_)) && k < o.params.len() { t.pat = Box::new(syn::parse::Parser::parse_str(Pat::parse_single, &o.params[k]).unwrap()) } }
        }
        if actual.len() != o.params.len() { die(format!("{}: {} parameters, contract written for {}", qual, actual.len(), o.params.len())) }
        let ren: Vec<(String, String)> = o.params.iter().cloned().zip(actual).filter(|(a, b)| a != b && b != "_").collect();
        for (k, (a, _)) in ren.iter().enumerate() {
            let tmp = format!("__vxren{}", k);
            let f = |s: &mut String| *s = word_replace(s, a, &tmp);
            f(&mut o.spec); f(&mut o.start); f(&mut o.tail);
            for m in [&mut o.loops, &mut o.loopstart, &mut o.loopend, &mut o.afterloop] { for v in m.values_mut() { f(v) } }
            for v in o.after.iter_mut().chain(o.before.iter_mut()) { f(&mut v.1) }
        }
        for (k, (_, b)) in ren.iter().enumerate() {
            let tmp = format!("__vxren{}", k);
            let f = |s: &mut String| *s = word_replace(s, &tmp, b);
            f(&mut o.spec); f(&mut o.start); f(&mut o.tail);
            for m in [&mut o.loops, &mut o.loopstart, &mut o.loopend, &mut o.afterloop] { for v in m.values_mut() { f(v) } }
            for v in o.after.iter_mut().chain(o.before.iter_mut()) { f(&mut v.1) }
        }
    }
    let mut calls = Calls(vec![]);
    if let Some(b) = &block { syn::visit::Visit::visit_block(&mut calls, b) }
    let mut rw = Rw { cx, marks: Marks(Default::default()), opts: o.clone(), nloop: 0, nclos: 0, nfresh: 0, new_generics: vec![] };
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a { rw.fix_ty_dyn(&mut t.ty) }
    }
    rw.visit_signature_mut(&mut sig);
    let block = block.map(|mut b| {
        rw.visit_block_mut(&mut b);
        if !o.tail.is_empty() {
            if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
                let m = rw.marker("__vx_m_tail".into(), o.tail.clone());
                let mut s: Stmt = syn::parse2(quote!(let vx_tail = 0;)).unwrap();
                if let Stmt::Local(l) = &mut s { if let Some(i) = &mut l.init { *i.expr = e } }
                b.stmts.push(s);
                b.stmts.push(m);
                b.stmts.push(Stmt::Expr(syn::parse_str("vx_tail").unwrap(), None));
            } else { rw.cx.errors.push(format!("{}: no tail expression", qual)) }
        }
        // `mut self`: a local that takes the place of self
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                RenameSelf.visit_block_mut(&mut b);
                b.stmts.insert(0, syn::parse2(quote!(let mut vx_self = self;)).unwrap());
            }
        }
        if !o.start.is_empty() {
            let m = rw.marker("__vx_m_start".into(), o.start.clone());
            b.stmts.insert(0, m);
        }
        b
    });
    for g in rw.new_generics.clone() { sig.generics.params.push(g) }
    for g in &o.generics { sig.generics.params.push(syn::parse_str(g).unwrap()) }
    // contract text that found no place in the code: the code changed shape
    let mut lost = vec![];
    if !rw.opts.loops.is_empty() { lost.push("loop invariant") }
    if !rw.opts.loopstart.is_empty() || !rw.opts.loopend.is_empty() { lost.push("loop proof") }
    if !rw.opts.afterloop.is_empty() { lost.push("after-loop proof") }
    if rw.opts.after.iter().chain(rw.opts.before.iter()).any(|x| !x.1.is_empty()) { lost.push("statement-anchored proof") }
    if !lost.is_empty() && !o.external { rw.cx.errors.push(format!("{}: lost anchor for {}", qual, lost.join(", "))) }
    let marks = std::mem::replace(&mut rw.marks, Marks(Default::default()));
    let nloops = rw.nloop;
    if nloops > o.loops.len() && !o.external { rw.cx.errors.push(format!("{}: {} loops in the code, invariants for {}", qual, nloops, o.loops.len())) }
    drop(rw);
    if degraded || cx.trust { cx.errors.truncate(nerr) }
    for e in cx.errors[nerr..].iter_mut() { *e = format!("{}|{}", qual, e) }
    let start = out.s.matches('\n').count() + 1;
    out.s.push_str(&format!("// ---- extracted: {} line {}: {}\n", cx.file, line, qual));
    if o.external { out.s.push_str("#[verifier::external_body]\n") }
    out.s.push_str(&o.attr);
    let name = &sig.ident;
    let (ig, wh) = (&sig.generics.params, &sig.generics.where_clause);
    let ins = &sig.inputs;
    let igt = if ig.is_empty() { quote!() } else { quote!(<#ig>) };
    let v = if vis { quote!(pub) } else { quote!() };
    let c = &sig.constness;
    let _ = c;
    let mut head = pretty(quote!(#v fn #name #igt (#ins)), &marks, 0);
    while head.ends_with('\n') || head.ends_with(' ') { head.pop(); }
    out.s.push_str(&head);
    let rn = o.ret.clone().unwrap_or("r".into());
    if let Some(rt) = &o.rettype { out.s.push_str(&format!(" -> ({}: {})", rn, rt)); }
    else if let ReturnType::Type(_, t) = &sig.output { out.s.push_str(&format!(" -> ({}: {})", rn, pretty(t.to_token_stream(), &marks, 0).trim())); }
    out.s.push('\n');
    if let Some(w) = wh { out.s.push_str(&pretty(w.to_token_stream(), &marks, 0)); out.s.push('\n') }
    out.s.push_str(&o.spec);
    match block {
        Some(b) => {
            if o.external { out.s.push_str("{ unimplemented!() }\n") }
            else { out.s.push_str(&pretty(b.to_token_stream(), &marks, 0)) }
        }
        None => out.s.push_str(";\n"),
    }
    if !out.s.ends_with('\n') { out.s.push('\n') }
    let end = out.s.matches('\n').count();
    out.fns.push(FnRec { name: qual.into(), file: cx.file.clone(), line, out_start: start, out_end: end, props: o.props.clone(), external: o.external, degraded, inlined, calls: calls.0 });
}
fn ty_last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}", ty_last(&r.elem)),
        _ => pstr(t),
    }
}
fn impl_matches(i: &ItemImpl, tr: &str, ty: &str) -> bool {
    let Some((_, p, _)) = &i.trait_ else { return false };
    let trs = p.segments.last().unwrap();
    let trl = match tr.find('<') { Some(k) => { let h = &tr[..k]; format!("{}{}", h.rsplit("::").next().unwrap(), &tr[k..]) } None => tr.rsplit("::").next().unwrap().to_string() };
    let a = if trl.contains('<') { pstr(trs).replace(' ', "") == trl.replace(' ', "") } else { trs.ident == trl };
    let b = if ty.contains('<') || ty.contains('&') { pstr(&i.self_ty).replace(' ', "") == ty.replace(' ', "") } else { ty_last(&i.self_ty) == ty };
    a && b
}
fn cfg_test(a: &[Attribute]) -> bool {
    a.iter().any(|x| x.path().is_ident("cfg") && pstr(&x.meta).contains("test"))
}

fn include(tpl: &str, base: &std::path::Path, seen: &mut HashSet<String>) -> String {
    let mut full = String::new();
    for l in tpl.lines() {
        if let Some(f) = l.trim().strip_prefix("@@include ") {
            if !seen.insert(f.trim().to_string()) { continue } // each file once
            let t = std::fs::read_to_string(base.join(f.trim())).unwrap_or_else(|e| die(format!("include {}: {}", f, e)));
            full.push_str(&include(&t, base, seen));
        } else { full.push_str(l); full.push('\n') }
    }
    full
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 { die("usage: vx TEMPLATE REPO OUT MAP".into()) }
    let tpl = std::fs::read_to_string(&args[1]).unwrap_or_else(|e| die(format!("{}: {}", args[1], e)));
    // include directive: lines "@@include FILE"
    let base = std::path::Path::new(&args[1]).parent().unwrap();
    let full = include(&tpl, base, &mut HashSet::new());
    let dirs = parse_template(&full);
    let repo = &args[2];
    let mut cx = Ctx::default();
    if let Some(d) = args.get(5) { cx.degrade = std::fs::read_to_string(d).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect() }
    for l in std::fs::read_to_string(base.join("closures.txt")).unwrap_or_default().lines() {
        let mut f = l.split('\t');
        let Some(k) = f.next() else { continue };
        let v: Vec<(String, String)> = f.map(|x| x.split_once(" => ").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or_default()).collect();
        cx.closures.insert(k.to_string(), v);
    }
    // names the template knows: functions under contract, stubs, mapped paths
    let mut known: HashSet<String> = HashSet::new();
    for d in &dirs {
        match d {
            Dir::Fn(q, _) => { known.insert(q.replace(' ', "")); known.insert(match q.split_once('<') { Some((a, r)) => format!("{}{}", a, r.split_once('>').map(|x| x.1).unwrap_or("")), None => q.clone() }); }
            Dir::PathMap(a, _) => { known.insert(a.clone()); known.insert(a.rsplit("::").next().unwrap().to_string()); }
            Dir::Text(t) => { let mut w = t.split(|c: char| !c.is_alphanumeric() && c != '_'); while let Some(x) = w.next() { if x == "fn" { if let Some(n) = w.next() { known.insert(n.to_string()); } } } }
            _ => {}
        }
    }
    let mut out = Out { s: String::new(), fns: vec![], impl_n: 0 };
    let mut items: Vec<Item> = vec![];
    let mut all_files: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let marks = Marks(Default::default());
    for d in dirs {
        match d {
            Dir::Text(t) => out.s.push_str(&t),
            Dir::File(f) => {
                let src = std::fs::read_to_string(format!("{}/{}", repo, f)).unwrap_or_else(|e| die(format!("{}: {}", f, e)));
                let ast = syn::parse_file(&src).unwrap_or_else(|e| die(format!("{}: {}", f, e)));
                items = ast.items.into_iter().filter(|i| !matches!(i, Item::Mod(m) if cfg_test(&m.attrs))).collect();
                hoist_nested(&mut items, &mut cx);
                // record every function defined in the file (new helpers are reported)
                let mut names = vec![];
                for it in &items {
                    match it {
                        Item::Fn(f) => names.push(f.sig.ident.to_string()),
                        Item::Impl(i) => for x in &i.items { if let ImplItem::Fn(f) = x { names.push(format!("{}::{}", ty_last(&i.self_ty), f.sig.ident)) } },
                        Item::Trait(t) => for x in &t.items { if let TraitItem::Fn(f) = x { names.push(format!("{}::{}", t.ident, f.sig.ident)) } },
                        _ => {}
                    }
                }
                cx.helpers = inline::Helpers::collect(&items, &known);
                all_files.insert(f.clone(), names);
                cx.file = f;
                cx.paths.clear();
                cx.methods.clear();
                cx.macros.clear();
                cx.exprs.clear();
                cx.types.clear();
                for (a, b) in [("iter", "vx_iter"), ("into_iter", "vx_into_iter")] { cx.methods.insert(a.into(), b.into()); }
            }
            Dir::PathMap(a, b) => cx.paths.push((a, b)),
            Dir::MethodMap(a, b) => { cx.methods.insert(a, b); }
            Dir::MacroMap(a, b) => {
                if let Some(f) = b.strip_prefix("@rules ") {
                    let f = f.trim();
                    let src = std::fs::read_to_string(format!("{}/{}", repo, f)).unwrap_or_else(|e| die(format!("{}: {}", f, e)));
                    let ast = syn::parse_file(&src).unwrap_or_else(|e| die(format!("{}: {}", f, e)));
                    for i in ast.items { if let Item::Macro(m) = i { if m.ident.as_ref().map_or(false, |x| *x == a) { cx.mrules.insert(a.clone(), m.mac.tokens); } } }
                    cx.macros.insert(a, "@rules".into());
                } else { cx.macros.insert(a, b); }
            }
            Dir::Trust(b) => { if b { cx.ntrust += 1 } else { cx.ntrust = cx.ntrust.saturating_sub(1) } cx.trust = cx.ntrust > 0 }
            Dir::Mod(n) => {
                let inner = items.iter().find_map(|i| if let Item::Mod(m) = i { let id = m.ident.to_string(); if id.trim_start_matches("r#") == n { m.content.clone() } else { None } } else { None });
                items = inner.unwrap_or_else(|| die(format!("{}: no module {}", cx.file, n))).1.into_iter().filter(|i| !matches!(i, Item::Mod(m) if cfg_test(&m.attrs))).collect();
                cx.helpers = inline::Helpers::collect(&items, &known);
            }
            Dir::TypeMap(a, b) => { cx.types.insert(a, b); }
            Dir::ExprMap(a, b) => { cx.exprs.insert(a, b); }
            Dir::DynParam(a) => { cx.dynparams.insert(a); }
            Dir::Struct(n, derive) => {
                let Some(Item::Struct(s)) = items.iter().find(|i| matches!(i, Item::Struct(s) if s.ident == n)) else { die(format!("{}: struct {} not found", cx.file, n)) };
                let mut s = s.clone();
                let dynp = cx.dynparams.contains(&n);
                let mut rw = Rw { cx: &mut cx, marks: Marks(Default::default()), opts: FnOpts::default(), nloop: 0, nclos: 0, nfresh: 0, new_generics: vec![] };
                for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); rw.fix_ty_dyn(&mut f.ty); }
                rw.visit_item_struct_mut(&mut s);
                if dynp {
                    for f in s.fields.iter_mut() {
                        if let Type::Reference(r) = &mut f.ty { if pstr(&r.elem).starts_with("VxDyn") { r.elem = parse_quote!(VxW) } }
                    }
                    s.generics.params.push(syn::parse_str("VxW: Write").unwrap());
                }
                s.vis = parse_quote!(pub);
                if !derive.is_empty() { out.s.push_str(&format!("{}\n", derive)) }
                out.s.push_str(&pretty(s.to_token_stream(), &marks, 0));
            }
            Dir::Enum(n, derive) => {
                let Some(Item::Enum(s)) = items.iter().find(|i| matches!(i, Item::Enum(s) if s.ident == n)) else { die(format!("{}: enum {} not found", cx.file, n)) };
                let mut s = s.clone();
                let mut rw = Rw { cx: &mut cx, marks: Marks(Default::default()), opts: FnOpts::default(), nloop: 0, nclos: 0, nfresh: 0, new_generics: vec![] };
                rw.visit_item_enum_mut(&mut s);
                for v in s.variants.iter_mut() { v.attrs.clear() }
                s.vis = parse_quote!(pub);
                if !derive.is_empty() { out.s.push_str(&format!("{}\n", derive)) }
                out.s.push_str(&pretty(s.to_token_stream(), &marks, 0));
            }
            Dir::Const(n, spec) => {
                let mut c: ItemConst = match items.iter().find(|i| matches!(i, Item::Const(s) if s.ident == n) || matches!(i, Item::Static(s) if s.ident == n)) {
                    Some(Item::Const(c)) => c.clone(),
                    Some(Item::Static(s)) => {
                        *cx.counts.entry("immutable `static` read as a `const`".into()).or_default() += 1;
                        let (i, t, e) = (&s.ident, &s.ty, &s.expr);
                        parse_quote!(const #i: #t = #e;)
                    }
                    _ => die(format!("{}: const {} not found", cx.file, n)),
                };
                let mut rw = Rw { cx: &mut cx, marks: Marks(Default::default()), opts: FnOpts::default(), nloop: 0, nclos: 0, nfresh: 0, new_generics: vec![] };
                rw.visit_item_const_mut(&mut c);
                if let Type::Reference(r) = &mut *c.ty { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)) } }
                let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
                if spec.is_empty() { out.s.push_str(&pretty(quote!(pub const #id: #ty = #ex;), &marks, 0)) }
                else {
                    let t = pretty(quote!(pub exec const #id: #ty), &marks, 0);
                    out.s.push_str(&format!("{} {} {{ {} }}\n", t.trim(), spec, pretty(quote!(#ex), &marks, 0).trim()));
                }
            }
            Dir::Bitflags(n) => {
                // bitflags! { pub struct N: u8 { const A = ..; } }
                let m = items.iter().find_map(|i| match i { Item::Macro(m) if m.mac.path.is_ident("bitflags") && m.mac.tokens.to_string().contains(&format!("struct {}", n)) => Some(m.mac.tokens.clone()), _ => None })
                    .unwrap_or_else(|| die(format!("{}: bitflags {} not found", cx.file, n)));
                let toks: Vec<TokenTree> = m.into_iter().collect();
                let body = toks.iter().rev().find_map(|t| if let TokenTree::Group(g) = t { if g.delimiter() == Delimiter::Brace { return Some(g.stream()) } None } else { None }).unwrap();
                let mut consts: Vec<(String, String)> = vec![];
                let b: Vec<TokenTree> = body.into_iter().collect();
                let mut i = 0;
                while i < b.len() {
                    if let TokenTree::Ident(id) = &b[i] {
                        if *id == "const" {
                            let name = b[i + 1].to_string();
                            let mut j = i + 3;
                            let mut val = String::new();
                            while j < b.len() && b[j].to_string() != ";" { val.push_str(&b[j].to_string()); j += 1 }
                            consts.push((name, val));
                            i = j;
                        }
                    }
                    i += 1;
                }
                let all = consts.iter().map(|c| c.1.clone()).collect::<Vec<_>>().join("u8 | ") + "u8";
                let _ = writeln!(out.s, "// ---- expanded: bitflags! {} ({})", n, cx.file);
                let _ = writeln!(out.s, "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct {} {{ pub bits: u8 }}\nimpl {} {{", n, n);
                for (c, v) in &consts { let _ = writeln!(out.s, "  pub const {}: {} = {} {{ bits: {} }};", c, n, n, v); }
                let _ = writeln!(out.s, "  pub open spec fn vx_all() -> u8 {{ ({}) as u8 }}\n}}", all);
            }
            Dir::Fn(q, o) => {
                let (ty, name) = match q.rsplit_once("::") { Some((a, b)) => (Some(a.to_string()), b.to_string()), None => (None, q.clone()) };
                match ty {
                    None => {
                        let Some(Item::Fn(f)) = items.iter().find(|i| matches!(i, Item::Fn(f) if f.sig.ident == name)) else {
                            if !o.optional && !cx.degrade.contains(&q) { cx.errors.push(format!("{}|no such function in {}", q, cx.file)) }
                            continue };
                        let f = f.clone();
                        let line = f.sig.ident.span().start().line;
                        emit_fn(&mut cx, &mut out, &q, f.sig, Some(*f.block), &o, true, line);
                    }
                    Some(t) => {
                        let mut hit = None;
                        // `Type as Trait::name`: the method of a trait impl, emitted as an inherent one
                        let (t, tr) = match t.split_once(" as ") { Some((a, b)) => (a.to_string(), Some(b.to_string())), None => (t, None) };
                        for it in &items {
                            if let Item::Impl(i) = it {
                                if i.trait_.as_ref().map(|x| x.1.segments.last().unwrap().ident.to_string()) == tr && (if t.contains('<') { pstr(&i.self_ty) == t.replace(' ', "") } else { ty_last(&i.self_ty) == t }) {
                                    for x in &i.items { if let ImplItem::Fn(f) = x { if f.sig.ident == name { hit = Some((i.clone(), f.clone())) } } }
                                }
                            }
                        }
                        let Some((mut i, f)) = hit else {
                            if !o.optional && !cx.degrade.contains(&q) { cx.errors.push(format!("{}|no such function in {}", q, cx.file)) }
                            continue };
                        i.items.clear();
                        i.trait_ = None;
                        emit_impl_head(&mut cx, &mut out, &mut i, "");
                        let line = f.sig.ident.span().start().line;
                        emit_fn(&mut cx, &mut out, &q, f.sig, Some(f.block), &o, true, line);
                        out.s.push_str("}\n");
                    }
                }
            }
            Dir::Impl(tr, ty, hdr, fns, extra, skip) => {
                let Some(Item::Impl(i)) = items.iter().find(|i| matches!(i, Item::Impl(x) if impl_matches(x, &tr, &ty))) else { die(format!("{}: impl {} for {} not found", cx.file, tr, ty)) };
                let mut i = i.clone();
                let its = std::mem::take(&mut i.items);
                emit_impl_head(&mut cx, &mut out, &mut i, &hdr);
                out.s.push_str(&extra);
                for it in &its {
                    if let ImplItem::Type(t) = it {
                        let mut t = t.clone();
                        let mut rw = Rw { cx: &mut cx, marks: Marks(Default::default()), opts: FnOpts::default(), nloop: 0, nclos: 0, nfresh: 0, new_generics: vec![] };
                        rw.visit_impl_item_type_mut(&mut t);
                        out.s.push_str(&pretty(t.to_token_stream(), &marks, 0));
                    }
                }
                for (n, _) in &fns { if !its.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == n)) { die(format!("{}: impl {} for {}: no fn {}", cx.file, tr, ty, n)) } }
                for it in its {
                    if let ImplItem::Fn(f) = it {
                        let n = f.sig.ident.to_string();
                        if skip.contains(&n) { continue }
                        let o = fns.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or_default();
                        let line = f.sig.ident.span().start().line;
                        emit_fn(&mut cx, &mut out, &format!("<{} as {}>::{}", ty, tr, n), f.sig, Some(f.block), &o, false, line);
                    }
                }
                out.s.push_str("}\n");
            }
            Dir::Trait(n, hdr, fns, extra) => {
                let Some(Item::Trait(t)) = items.iter().find(|i| matches!(i, Item::Trait(x) if x.ident == n)) else { die(format!("{}: trait {} not found", cx.file, n)) };
                let t = t.clone();
                let sup = &t.supertraits;
                let c = if sup.is_empty() { quote!() } else { quote!(: #sup) };
                let id = &t.ident;
                let ids = id.to_string();
                let nm = cx.paths.iter().find(|p| p.0 == ids).map(|p| p.1.clone()).unwrap_or(ids);
                let g = &t.generics.params;
                let gt = if g.is_empty() { quote!() } else { quote!(<#g>) };
                if hdr.is_empty() { let _ = writeln!(out.s, "pub trait {} {} {} {{", nm, gt, c); } else { out.s.push_str(&hdr) }
                out.s.push_str(&extra);
                for it in &t.items {
                    if let TraitItem::Type(x) = it {
                        let mut x = x.clone();
                        x.attrs.clear();
                        let mut rw = Rw { cx: &mut cx, marks: Marks(Default::default()), opts: FnOpts::default(), nloop: 0, nclos: 0, nfresh: 0, new_generics: vec![] };
                        rw.visit_trait_item_type_mut(&mut x);
                        out.s.push_str(&pretty(x.to_token_stream(), &marks, 0));
                    }
                }
                for (n2, _) in &fns { if !t.items.iter().any(|x| matches!(x, TraitItem::Fn(f) if f.sig.ident == n2)) { die(format!("{}: trait {}: no fn {}", cx.file, n, n2)) } }
                for it in t.items {
                    if let TraitItem::Fn(f) = it {
                        let n2 = f.sig.ident.to_string();
                        let Some((_, o)) = fns.iter().find(|x| x.0 == n2) else { continue };
                        let line = f.sig.ident.span().start().line;
                        emit_fn(&mut cx, &mut out, &format!("{}::{}", nm, n2), f.sig, f.default, o, false, line);
                    }
                }
                out.s.push_str("}\n");
            }
        }
    }
    std::fs::write(&args[3], &out.s).unwrap();
    if let Ok(f) = std::env::var("VX_CLOSURES") {
        let t: String = cx.closures_now.iter().map(|(k, v)| format!("{}\t{}\n", k, v.iter().map(|(a, b)| format!("{} => {}", a, b)).collect::<Vec<_>>().join("\t"))).collect();
        std::fs::write(f, t).unwrap();
    }
    // map
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n");
    let mut j = String::from("{\n \"functions\": [\n");
    for (k, f) in out.fns.iter().enumerate() {
        let _ = writeln!(j, "  {{\"name\":\"{}\",\"file\":\"{}\",\"line\":{},\"out\":[{},{}],\"external\":{},\"degraded\":{},\"inlined\":[{}],\"props\":[{}],\"calls\":[{}]}}{}", esc(&f.name), f.file, f.line, f.out_start, f.out_end, f.external, f.degraded, f.inlined.iter().map(|p| format!("\"{}\"", p)).collect::<Vec<_>>().join(","),
            f.props.iter().map(|p| format!("\"{}\"", p)).collect::<Vec<_>>().join(","), f.calls.iter().map(|p| format!("\"{}\"", esc(p))).collect::<Vec<_>>().join(","), if k + 1 < out.fns.len() { "," } else { "" });
    }
    j.push_str(" ],\n \"rewrites\": {\n");
    let n = cx.counts.len();
    for (k, (a, b)) in cx.counts.iter().enumerate() { let _ = writeln!(j, "  \"{}\": {}{}", esc(a), b, if k + 1 < n { "," } else { "" }); }
    j.push_str(" },\n \"defined\": {\n");
    let n = all_files.len();
    for (k, (a, b)) in all_files.iter().enumerate() { let _ = writeln!(j, "  \"{}\": [{}]{}", a, b.iter().map(|p| format!("\"{}\"", esc(p))).collect::<Vec<_>>().join(","), if k + 1 < n { "," } else { "" }); }
    let _ = write!(j, " }},\n \"errors\": [{}]\n}}\n", cx.errors.iter().map(|p| format!("\"{}\"", esc(p))).collect::<Vec<_>>().join(","));
    std::fs::write(&args[4], j).unwrap();
    if !cx.errors.is_empty() { for e in &cx.errors { eprintln!("vx: {}", e) } std::process::exit(3) }
}
fn emit_impl_head(cx: &mut Ctx, out: &mut Out, i: &mut ItemImpl, hdr: &str) {
    out.impl_n += 1;
    if !hdr.is_empty() { out.s.push_str(hdr); return }
    let last = ty_last(&i.self_ty);
    let dynp = cx.dynparams.contains(&last);
    let marks = Marks(Default::default());
    let mut rw = Rw { cx, marks: Marks(Default::default()), opts: FnOpts::default(), nloop: 0, nclos: 0, nfresh: 0, new_generics: vec![] };
    rw.visit_generics_mut(&mut i.generics);
    rw.visit_type_mut(&mut i.self_ty);
    if let Some((_, p, _)) = &mut i.trait_ { rw.visit_path_mut(p) }
    if dynp { i.generics.params.push(syn::parse_str("VxW: Write").unwrap()) }
    let g = &i.generics.params;
    let gt = if g.is_empty() { quote!() } else { quote!(<#g>) };
    let ty = &i.self_ty;
    let wh = &i.generics.where_clause;
    let t = match &i.trait_ { Some((_, p, _)) => quote!(#p for), None => quote!() };
    let s = pretty(quote!(impl #gt #t #ty #wh), &marks, 0);
    out.s.push_str(s.trim_end());
    out.s.push_str(" {\n");
}
