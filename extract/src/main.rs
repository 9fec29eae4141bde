//! Mechanical extraction of /repo/src into one Verus crate, with contracts from /verif/contracts inserted.
//! The text of the functions is copied; every change to it is one of the edits made here.
use proc_macro2::Span;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

// ---------------------------------------------------------------- contracts

#[derive(Default, Clone)]
struct FnSpec {
    ret: Option<String>,
    attrs: String,
    contract: String,
    loops: BTreeMap<usize, String>,
    ats: Vec<(String, String, usize)>, // anchor, text, line
    file: String,
    standin: bool,
}

#[derive(Default)]
struct Specs {
    fns: BTreeMap<String, FnSpec>,
    modules: BTreeMap<String, String>,
    top: String,
}

fn load_specs(dir: &Path) -> Specs {
    let mut s = Specs::default();
    let mut files: Vec<PathBuf> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "vspec").unwrap_or(false)).collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut cur: Option<String> = None;
        let mut sect: (String, String) = (String::new(), String::new());
        let mut buf = String::new();
        let mut start = 0;
        let fname = f.file_name().unwrap().to_string_lossy().to_string();
        let flush = |s: &mut Specs, cur: &Option<String>, sect: &(String, String), buf: &mut String, start: usize| {
            let t = std::mem::take(buf);
            match sect.0.as_str() {
                "" => {
                    if !t.trim().is_empty() {
                        panic!("{}: text outside a section near line {}", fname, start)
                    }
                }
                "module" => s.modules.entry(sect.1.clone()).or_default().push_str(&t),
                "top" => s.top.push_str(&t),
                k => {
                    let fs = s.fns.entry(cur.clone().expect("no @fn")).or_default();
                    fs.file = fname.clone();
                    match k {
                        "fn" => {
                            if !t.trim().is_empty() {
                                panic!("{}: text after @fn near line {}", fname, start)
                            }
                        }
                        "standin" => fs.standin = true,
                        "ret" => fs.ret = Some(sect.1.clone()),
                        "attr" => {
                            fs.attrs.push_str(&sect.1);
                            fs.attrs.push('\n');
                        }
                        "contract" => fs.contract.push_str(&t),
                        "loop" => {
                            fs.loops.entry(sect.1.parse().unwrap()).or_default().push_str(&t);
                        }
                        "at" => fs.ats.push((sect.1.clone(), t, start)),
                        _ => panic!("{}: unknown section @{}", fname, k),
                    }
                }
            }
        };
        for (ln, line) in text.lines().enumerate() {
            if let Some(rest) = line.strip_prefix('@') {
                flush(&mut s, &cur, &sect, &mut buf, start);
                start = ln + 1;
                let (k, a) = match rest.split_once(' ') {
                    Some((k, a)) => (k.trim().to_string(), a.trim().to_string()),
                    None => (rest.trim().to_string(), String::new()),
                };
                if k == "fn" {
                    cur = Some(a.clone());
                }
                if k == "end" {
                    sect = (String::new(), String::new());
                } else {
                    sect = (k, a);
                }
            } else if line.starts_with("##") {
                continue;
            } else {
                buf.push_str(line);
                buf.push('\n');
            }
        }
        flush(&mut s, &cur, &sect, &mut buf, start);
    }
    s
}

// ---------------------------------------------------------------- source text and edits

struct Src {
    text: String,
    line_off: Vec<usize>,
}

impl Src {
    fn new(text: String) -> Self {
        let mut line_off = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                line_off.push(i + 1);
            }
        }
        Self { text, line_off }
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        // columns count characters
        let ls = self.line_off[lc.line - 1];
        let rest = &self.text[ls..];
        ls + rest.char_indices().nth(lc.column).map(|x| x.0).unwrap_or(rest.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
}

#[derive(Clone)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    /// order among edits at the same place: statements of a contract come before what rewriting puts there
    prio: i32,
    seq: usize,
}

#[derive(Default)]
struct Edits {
    v: Vec<Edit>,
}

impl Edits {
    fn rep(&mut self, r: (usize, usize), t: impl Into<String>) {
        let seq = self.v.len();
        self.v.push(Edit { start: r.0, end: r.1, text: t.into(), prio: 0, seq });
    }
    fn ins(&mut self, at: usize, t: impl Into<String>) {
        self.rep((at, at), t)
    }
    fn ins_first(&mut self, at: usize, t: impl Into<String>) {
        self.rep((at, at), t);
        self.v.last_mut().unwrap().prio = -1;
    }
    /// apply all edits inside [lo,hi)
    fn apply(&self, src: &str, lo: usize, hi: usize) -> String {
        let mut v: Vec<&Edit> = self.v.iter().filter(|e| e.start >= lo && e.end <= hi).collect();
        // deletions win over edits nested in them
        let dels: Vec<(usize, usize)> = v.iter().filter(|e| e.end > e.start).map(|e| (e.start, e.end)).collect();
        v.retain(|e| !dels.iter().any(|d| (d.0 <= e.start && e.end < d.1 && (d.0, d.1) != (e.start, e.end) && !(e.start == e.end && e.start == d.0)) || (d.0 < e.start && e.end <= d.1 && (e.end > e.start || e.start < d.1))));
        v.sort_by_key(|e| (e.start, e.end, e.prio, e.seq));
        let mut out = String::new();
        let mut p = lo;
        for e in v {
            if e.start < p {
                continue;
            }
            out.push_str(&src[p..e.start]);
            out.push_str(&e.text);
            p = e.end;
        }
        out.push_str(&src[p..hi]);
        out
    }
}

/// `for x in (lo..hi).rev()`
fn rev_range(f: &syn::ExprForLoop) -> Option<(String, &syn::ExprRange)> {
    let syn::Pat::Ident(x) = &*f.pat else { return None };
    let syn::Expr::MethodCall(m) = &*f.expr else { return None };
    if m.method != "rev" {
        return None;
    }
    let syn::Expr::Paren(p) = &*m.receiver else { return None };
    let syn::Expr::Range(r) = &*p.expr else { return None };
    if r.start.is_none() || r.end.is_none() || !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
        return None;
    }
    Some((x.ident.to_string(), r))
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn is_log_macro(m: &syn::Macro) -> bool {
    let p = &m.path;
    let n = p.segments.len();
    let last = p.segments.last().unwrap().ident.to_string();
    (n == 2 && p.segments[0].ident == "log") || (n == 1 && matches!(last.as_str(), "println" | "eprintln" | "print" | "eprint"))
}

fn range_index(e: &syn::Expr) -> Option<(&syn::ExprIndex, &syn::ExprRange)> {
    let e = match e {
        syn::Expr::Paren(p) => &*p.expr,
        e => e,
    };
    if let syn::Expr::Index(ix) = e {
        if let syn::Expr::Range(r) = &*ix.index {
            return Some((ix, r));
        }
    }
    None
}

fn lit_as_bytes(e: &syn::Expr) -> Option<Vec<u8>> {
    match e {
        syn::Expr::MethodCall(m) if m.method == "as_bytes" => {
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &*m.receiver {
                return Some(s.value().into_bytes());
            }
            None
        }
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(s), .. }) => Some(s.value()),
        _ => None,
    }
}

fn ref_range(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Reference(r) if range_index(&r.expr).is_some())
}

struct Rw<'a> {
    src: &'a Src,
    ed: Edits,
    notes: &'a mut BTreeSet<String>,
    skip_derive: bool,
    /// what `?` returns: 0 leave alone, 1 Box<dyn Error>, 2 the error itself
    try_kind: u8,
    /// functions of the command line tool; None outside of it
    cli: Option<BTreeSet<String>>,
}

impl<'a> Rw<'a> {
    fn bytes_lit(b: &[u8]) -> String {
        format!("&[{}]", b.iter().map(|x| format!("{}u8", x)).collect::<Vec<_>>().join(","))
    }
    /// rewrite `base[lo..hi]` into `FN(&base, lo, hi)`, `pre` replaces what comes before base
    fn sub_edit(&mut self, whole: (usize, usize), ix: &syn::ExprIndex, r: &syn::ExprRange) {
        let base = self.src.range(ix.expr.span());
        let br = self.src.range(ix.bracket_token.span.open());
        let bc = self.src.range(ix.bracket_token.span.close());
        let lim = self.src.range(r.limits.span());
        let f = if r.end.is_none() { "sub_from" } else { "sub" };
        self.ed.rep((whole.0, base.0), format!("crate::shim::io::{}(&", f));
        self.ed.rep(br, if r.start.is_none() { ", 0" } else { ", " });
        let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
        self.ed.rep(lim, if r.end.is_some() { ", " } else { "" });
        self.ed.rep(bc, if incl { " + 1)" } else { ")" });
        self.notes.insert("range index -> shim::io::sub".into());
        self.visit_expr(&ix.expr);
        if let Some(e) = &r.start {
            self.visit_expr(e)
        }
        if let Some(e) = &r.end {
            self.visit_expr(e)
        }
    }
    fn slice_operand(&mut self, e: &syn::Expr) {
        let r = self.src.range(e.span());
        if let Some(b) = lit_as_bytes(e) {
            self.ed.rep(r, Self::bytes_lit(&b));
        } else if let Some((ix, rg)) = range_index(e) {
            self.sub_edit(r, ix, rg);
        } else if ref_range(e) {
            self.visit_expr(e);
        } else if let syn::Expr::Reference(_) = e {
            self.visit_expr(e);
        } else {
            self.ed.ins(r.0, "&");
            self.visit_expr(e);
        }
    }
    fn fix_slice_pat(&mut self, p: &syn::Pat) -> bool {
        match p {
            syn::Pat::Slice(s) => {
                if s.elems.len() != 2 || s.elems.iter().any(|e| matches!(e, syn::Pat::Rest(_))) {
                    return false;
                }
                self.ed.rep(self.src.range(s.bracket_token.span.open()), "(");
                self.ed.rep(self.src.range(s.bracket_token.span.close()), ")");
                true
            }
            syn::Pat::Wild(_) => false,
            syn::Pat::Or(o) => {
                let mut any = false;
                for c in &o.cases {
                    any |= self.fix_slice_pat(c);
                }
                any
            }
            _ => false,
        }
    }
    fn path_edit(&mut self, p: &syn::Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let full = self.src.range(p.span());
        let seg_range = |a: usize, b: usize, me: &Self| (me.src.range(p.segments[a].ident.span()).0, me.src.range(p.segments[b].ident.span()).1);
        if segs.len() >= 2 {
            let j = segs.join("::");
            let direct = match j.as_str() {
                "u32::to_le_bytes" => Some("crate::shim::u32_to_le_bytes"),
                "u16::to_le_bytes" => Some("crate::shim::u16_to_le_bytes"),
                "u32::from_le_bytes" => Some("crate::shim::u32_from_le_bytes"),
                "u16::from_le_bytes" => Some("crate::shim::u16_from_le_bytes"),
                "usize::BITS" => Some("crate::shim::USIZE_BITS"),
                "std::fs::read" if self.cli.is_some() => Some("crate::shim::cli::fs_read"),
                "std::fs::File" if self.cli.is_some() => Some("crate::shim::cli::File"),
                "std::fs::File::create" if self.cli.is_some() => Some("crate::shim::cli::file_create"),
                "std::fs::OpenOptions::new" if self.cli.is_some() => Some("crate::shim::cli::OpenOptions::new"),
                "std::path::Path::new" | "Path::new" if self.cli.is_some() => Some("crate::shim::cli::Path::new"),
                "std::io::stdin" if self.cli.is_some() => Some("crate::shim::cli::stdin"),
                "String::new" if self.cli.is_some() => Some("crate::shim::cli::string_new"),
                "std::fmt::Error" if self.cli.is_some() => Some("crate::shim::cli::FmtError"),
                _ => None,
            };
            if let Some(d) = direct {
                self.ed.rep(full, d);
                self.notes.insert(format!("{} -> {}", j, d));
                return;
            }
            if segs[0] == "std" && (segs[1] == "io" || segs[1] == "collections") {
                self.ed.rep(seg_range(0, 1, self), format!("crate::shim::{}", segs[1]));
            } else if segs[0] == "bit_vec" {
                self.ed.rep(seg_range(0, 0, self), "crate::shim::bit_vec");
            } else if segs[0] == "num_traits" {
                self.ed.rep(seg_range(0, 0, self), "crate::shim");
            }
        }
    }
    /// the command line tool: state of the world as a parameter, strings through the shim
    fn cli_expr(&mut self, e: &syn::Expr, r: (usize, usize)) -> bool {
        let is_str = |x: &syn::Expr| matches!(x, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. }));
        match e {
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let open = self.src.range(m.paren_token.span.open());
                let mr = self.src.range(m.receiver.span());
                if matches!(name.as_str(), "exists" | "read_line" | "open") {
                    self.ed.ins_first(open.1, if m.args.is_empty() { "w" } else { "w, " });
                    self.notes.insert("the command line tool: file system and standard input as a parameter w".into());
                }
                if matches!(name.as_str(), "trim_end" | "trim" | "as_str") && m.args.is_empty() {
                    self.ed.ins(r.0, format!("crate::shim::cli::{}(&", name));
                    self.ed.rep((mr.1, open.1), "");
                    self.visit_expr(&m.receiver);
                    return true;
                }
                if name == "expect" && m.args.len() == 1 {
                    // the message does not matter
                    self.ed.ins(r.0, "crate::shim::cli::VxExpect::vx_expect(");
                    self.ed.rep((mr.1, r.1), ")");
                    self.visit_expr(&m.receiver);
                    return true;
                }
                false
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && (is_str(&b.left) || is_str(&b.right)) => {
                let ne = matches!(b.op, syn::BinOp::Ne(_));
                self.ed.ins(r.0, if ne { "!crate::shim::cli::str_eq(" } else { "crate::shim::cli::str_eq(" });
                self.visit_expr(&b.left);
                self.ed.rep(self.src.range(b.op.span()), ", ");
                self.visit_expr(&b.right);
                self.ed.ins(r.1, ")");
                self.notes.insert("string comparison -> shim::cli::str_eq".into());
                true
            }
            syn::Expr::Match(m) if m.arms.iter().any(|a| { let one = |p: &syn::Pat| matches!(p, syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_))); match &a.pat { syn::Pat::Or(o) => o.cases.iter().any(one), p => one(p) } }) => {
                // a match on string literals becomes a chain of comparisons
                let lits = |p: &syn::Pat| -> Option<Vec<String>> {
                    let one = |p: &syn::Pat| match p {
                        syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(self.src.text[self.src.range(l.span()).0..self.src.range(l.span()).1].to_string()),
                        _ => None,
                    };
                    match p {
                        syn::Pat::Or(o) => o.cases.iter().map(one).collect(),
                        p => one(p).map(|x| vec![x]),
                    }
                };
                let n = m.arms.len();
                let mut heads = vec![];
                for (k, a) in m.arms.iter().enumerate() {
                    if a.guard.is_some() {
                        return false;
                    }
                    if k + 1 == n {
                        if !matches!(a.pat, syn::Pat::Wild(_)) {
                            return false;
                        }
                        heads.push("{ ".to_string());
                    } else {
                        match lits(&a.pat) {
                            None => return false,
                            Some(v) => heads.push(format!("if {} {{ ", v.iter().map(|x| format!("crate::shim::cli::str_eq(vx_key, {})", x)).collect::<Vec<_>>().join(" || "))),
                        }
                    }
                }
                let sc = self.src.range(m.expr.span());
                let ob = self.src.range(m.brace_token.span.open());
                self.ed.rep((r.0, sc.0), "({ let vx_key = ");
                self.ed.rep((sc.1, ob.1), "; ");
                self.visit_expr(&m.expr);
                let mut from = ob.1;
                for (k, a) in m.arms.iter().enumerate() {
                    let b = self.src.range(a.body.span());
                    self.ed.rep((from, b.0), format!("{}{}", if k > 0 { " } else " } else { "" }, heads[k]));
                    self.visit_expr(&a.body);
                    from = b.1;
                }
                self.ed.rep((from, r.1), " } })");
                self.notes.insert("match on string literals -> chain of comparisons".into());
                true
            }
            _ => false,
        }
    }
    fn mac(&mut self, m: &syn::Macro, span: (usize, usize), stmt: bool) {
        if is_log_macro(m) {
            self.ed.rep(span, if stmt { "" } else { "()" });
            self.notes.insert("log/print macros dropped".into());
            return;
        }
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "vec" => {
                // vec![x;n]
                let parsed: syn::Result<VecRep> = m.parse_body();
                if let Ok(vr) = parsed {
                    let a = self.src.range(vr.elem.span());
                    let b = self.src.range(vr.len.span());
                    self.ed.rep((span.0, a.0), "crate::shim::vec_fill(");
                    self.ed.rep((a.1, b.0), ", ");
                    self.ed.rep((b.1, span.1), ")");
                    self.notes.insert("vec![x;n] -> shim::vec_fill".into());
                    self.visit_expr(&vr.elem);
                    self.visit_expr(&vr.len);
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.ed.rep(span, if stmt { "crate::shim::vx_panic::<()>();" } else { "crate::shim::vx_panic()" });
                self.notes.insert("panic! -> shim::vx_panic (requires false)".into());
            }
            "debug_assert" | "assert" => {
                if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    if let Some(c) = a.first() {
                        let r = self.src.range(c.span());
                        self.ed.rep((span.0, r.0), "crate::shim::vx_assert(");
                        self.ed.rep((r.1, span.1), if stmt { ");" } else { ")" });
                        self.visit_expr(c);
                    }
                }
            }
            "arg" if self.cli.is_some() => {
                self.ed.rep(span, "crate::shim::cli::Arg::new()");
                self.notes.insert("clap's arg!(..) -> shim::cli::Arg::new(): what the macro says about names and flags is dropped".into());
            }
            "matches" if self.cli.is_some() => {
                // matches!(e, "a" | "b")
                let parsed = m.parse_body_with(|input: syn::parse::ParseStream| {
                    let e: syn::Expr = input.parse()?;
                    let _: syn::Token![,] = input.parse()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(input)?;
                    Ok((e, p))
                });
                let lit = |p: &syn::Pat| match p {
                    syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(self.src.text[self.src.range(l.span()).0..self.src.range(l.span()).1].to_string()),
                    _ => None,
                };
                if let Ok((e, p)) = parsed {
                    let lits: Option<Vec<String>> = match &p {
                        syn::Pat::Or(o) => o.cases.iter().map(lit).collect(),
                        p => lit(p).map(|x| vec![x]),
                    };
                    if let Some(v) = lits {
                        let er = self.src.range(e.span());
                        let tail = v.iter().map(|x| format!("crate::shim::cli::str_eq(vx_key, {})", x)).collect::<Vec<_>>().join(" || ");
                        self.ed.rep((span.0, er.0), "({ let vx_key = ");
                        self.ed.rep((er.1, span.1), format!("; {} }}){}", tail, if stmt { ";" } else { "" }));
                        self.visit_expr(&e);
                    }
                }
            }
            "crate_version" if self.cli.is_some() => self.ed.rep(span, "\"\""),
            _ => {}
        }
    }
}

struct VecRep {
    elem: syn::Expr,
    len: syn::Expr,
}
impl syn::parse::Parse for VecRep {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let elem = input.parse()?;
        let _: syn::Token![;] = input.parse()?;
        let len = input.parse()?;
        Ok(VecRep { elem, len })
    }
}

impl<'a, 'ast> Visit<'ast> for Rw<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let r = self.src.range(a.span());
        if a.path().is_ident("derive") {
            if self.skip_derive {
                return;
            }
            let t = norm(&self.src.text[r.0..r.1]);
            let names: Vec<&str> = t.trim_start_matches("#[derive(").trim_end_matches(")]").split(',').collect();
            let mut keep = vec![];
            if names.contains(&"Copy") {
                keep.push("Clone");
                keep.push("Copy");
            }
            if names.contains(&"PartialEq") {
                keep.extend(["PartialEq", "Eq", "Structural"]);
            }
            self.ed.rep(r, if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) });
        } else if a.path().is_ident("error") || a.path().is_ident("inline") || a.path().is_ident("allow") {
            self.ed.rep(r, "");
        } else if a.path().is_ident("doc") {
            self.ed.rep(r, "");
        }
    }
    fn visit_visibility(&mut self, v: &'ast syn::Visibility) {
        if let syn::Visibility::Restricted(_) = v {
            self.ed.rep(self.src.range(v.span()), "pub");
        }
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        self.path_edit(p);
        visit::visit_path(self, p);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        match s {
            syn::Stmt::Macro(m) => {
                let r = self.src.range(m.span());
                let tail = m.semi_token.is_none();
                self.mac(&m.mac, r, !tail);
                return;
            }
            syn::Stmt::Expr(syn::Expr::Macro(m), semi) => {
                let r = self.src.range(s.span());
                self.mac(&m.mac, r, semi.is_some());
                return;
            }
            syn::Stmt::Expr(_, Some(_)) if self.cli.is_some() && { let r = self.src.range(s.span()); self.src.text[r.0..r.1].starts_with("env_logger::") } => {
                self.ed.rep(self.src.range(s.span()), "");
                self.notes.insert("env_logger dropped".into());
                return;
            }
            // statements that do nothing
            syn::Stmt::Local(l) if matches!(l.pat, syn::Pat::Wild(_)) => {
                if let Some(i) = &l.init {
                    if matches!(&*i.expr, syn::Expr::Tuple(t) if t.elems.is_empty()) || matches!(&*i.expr, syn::Expr::Lit(_)) {
                        self.ed.rep(self.src.range(s.span()), "");
                        return;
                    }
                }
            }
            syn::Stmt::Expr(syn::Expr::Tuple(t), Some(_)) if t.elems.is_empty() => {
                self.ed.rep(self.src.range(s.span()), "");
                return;
            }
            _ => {}
        }
        visit::visit_stmt(self, s);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        if self.cli.is_some() {
            // the end of the scope of an open file, written out
            for s in &b.stmts {
                if let syn::Stmt::Local(l) = s {
                    if let (syn::Pat::Ident(x), Some(i)) = (&l.pat, &l.init) {
                        let q = self.src.range(i.expr.span());
                        let t = norm(&self.src.text[q.0..q.1]);
                        if t.starts_with("std::fs::OpenOptions::new()") || t.starts_with("std::fs::File::create(") {
                            let text = format!("crate::shim::cli::close(w, {});\n", x.ident);
                            match b.stmts.last() {
                                Some(last @ syn::Stmt::Expr(_, None)) => self.ed.ins_first(self.src.range(last.span()).0, text),
                                _ => self.ed.ins(self.src.range(b.brace_token.span.close()).0, text),
                            }
                            self.notes.insert("an output file is closed at the end of its scope: written out as shim::cli::close".into());
                        }
                    }
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        if let (true, syn::Pat::Lit(l)) = (self.cli.is_some(), p) {
            if matches!(l.lit, syn::Lit::Str(_)) {
                // the verifier takes string patterns without knowing what they mean: let it refuse them
                self.ed.rep(self.src.range(l.span()), "crate::shim::cli::STRING_PATTERN_OUT_OF_REACH");
                return;
            }
        }
        visit::visit_pat(self, p);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let Some(fns) = &self.cli {
            if let syn::Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let t = norm(&p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
                if (p.path.segments.len() == 1 && fns.contains(&n)) || matches!(t.as_str(), "std::fs::read" | "std::fs::File::create") {
                    self.ed.ins_first(self.src.range(c.paren_token.span.open()).1, if c.args.is_empty() { "w" } else { "w, " });
                }
            }
        }
        if let syn::Expr::Path(p) = &*c.func {
            let t = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if c.args.len() == 2 && p.qself.is_none() && matches!(t.as_str(), "std::cmp::min" | "std::cmp::max" | "core::cmp::min" | "core::cmp::max") {
                // the definition of std::cmp::min and max
                let q = self.src.range(p.span());
                self.ed.rep(q, if t.ends_with("min") { "core::cmp::Ord::min" } else { "core::cmp::Ord::max" });
                self.notes.insert("std::cmp::min/max -> Ord::min/max".into());
                for a in &c.args {
                    self.visit_expr(a);
                }
                return;
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let r = self.src.range(e.span());
        if self.cli.is_some() && self.cli_expr(e, r) {
            return;
        }
        match e {
            syn::Expr::Macro(m) => {
                self.mac(&m.mac, r, false);
                return;
            }
            syn::Expr::ForLoop(f) if rev_range(f).is_some() => {
                // `for x in (lo..hi).rev()` written out as a while loop
                let (x, rg) = rev_range(f).unwrap();
                let txt = |e: &syn::Expr| { let q = self.src.range(e.span()); self.src.text[q.0..q.1].to_string() };
                let lo = txt(rg.start.as_ref().unwrap());
                let hi = txt(rg.end.as_ref().unwrap());
                let head = format!("{{ let vx_lo_{x} = {lo}; let mut vx_at_{x} = {hi}; while vx_at_{x} > vx_lo_{x} ");
                self.ed.rep((r.0, self.src.range(f.expr.span()).1), head);
                let b = self.src.range(f.body.brace_token.span.open());
                self.ed.ins(b.1, format!(" vx_at_{x} -= 1; let {x} = vx_at_{x};"));
                self.ed.ins(r.1, " }");
                self.notes.insert("for over a reversed range -> while loop".into());
                self.visit_block(&f.body);
                return;
            }
            syn::Expr::Try(t) if self.try_kind > 0 => {
                self.ed.ins(r.0, "(match ");
                let q = self.src.range(t.question_token.span());
                self.ed.rep(q, if self.try_kind == 1 { " { Ok(vxv) => vxv, Err(vxe) => return Err(crate::shim::IntoDyn::into_dyn(vxe)) })" } else { " { Ok(vxv) => vxv, Err(vxe) => return Err(vxe) })" });
                self.notes.insert("`?` written out as a match".into());
                self.visit_expr(&t.expr);
                return;
            }
            syn::Expr::Reference(rf) if rf.mutability.is_none() => {
                if let Some((ix, rg)) = range_index(&rf.expr) {
                    self.sub_edit(r, ix, rg);
                    return;
                }
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) => {
                let slicey = |x: &syn::Expr| range_index(x).is_some() || ref_range(x) || lit_as_bytes(x).is_some();
                if slicey(&b.left) || slicey(&b.right) {
                    let ne = matches!(b.op, syn::BinOp::Ne(_));
                    self.ed.ins(r.0, if ne { "!crate::shim::io::bytes_eq(" } else { "crate::shim::io::bytes_eq(" });
                    self.slice_operand(&b.left);
                    self.ed.rep(self.src.range(b.op.span()), ", ");
                    self.slice_operand(&b.right);
                    self.ed.ins(r.1, ")");
                    self.notes.insert("slice comparison -> shim::io::bytes_eq".into());
                    return;
                }
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let mr = self.src.range(m.receiver.span());
                let open = self.src.range(m.paren_token.span.open());
                if name == "copy_from_slice" {
                    if let Some((ix, rg)) = range_index(&m.receiver) {
                        if let (Some(lo), Some(hi)) = (&rg.start, &rg.end) {
                            let base = self.src.range(ix.expr.span());
                            let br = self.src.range(ix.bracket_token.span.open());
                            let bc = self.src.range(ix.bracket_token.span.close());
                            self.ed.rep((r.0, base.0), "crate::shim::io::copy_into(&mut ");
                            self.ed.rep(br, ", ");
                            self.ed.rep(self.src.range(rg.limits.span()), ", ");
                            self.ed.rep((bc.0, open.1), ", ");
                            self.visit_expr(&ix.expr);
                            self.visit_expr(lo);
                            self.visit_expr(hi);
                            for a in &m.args {
                                if let Some(b) = lit_as_bytes(a) {
                                    self.ed.rep(self.src.range(a.span()), Self::bytes_lit(&b));
                                } else {
                                    self.visit_expr(a);
                                }
                            }
                            self.notes.insert("copy_from_slice -> shim::io::copy_into".into());
                            return;
                        }
                    }
                }
                if (name == "is_some_and" || name == "is_none_or") && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &m.args[0] {
                        // the definition of Option::is_some_and and is_none_or
                        if c.inputs.len() == 1 {
                            let p = self.src.range(c.inputs[0].span());
                            let (some, rest) = if name == "is_some_and" { ("Some", " None => false })") } else { ("Some", " None => true })") };
                            self.ed.ins(r.0, "(match ");
                            self.ed.rep((mr.1, p.0), format!(" {{ {some}("));
                            let b = self.src.range(c.body.span());
                            self.ed.rep((p.1, b.0), ") => ");
                            self.ed.rep((b.1, r.1), format!(",{rest}"));
                            self.notes.insert("Option::is_some_and, is_none_or -> match".into());
                            self.visit_expr(&m.receiver);
                            self.visit_pat(&c.inputs[0]);
                            self.visit_expr(&c.body);
                            return;
                        }
                    }
                }
                if name == "rem_euclid" && m.args.len() == 1 {
                    self.ed.ins(r.0, "crate::shim::rem_euclid_i64(");
                    self.ed.rep((mr.1, open.1), ", ");
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&m.args[0]);
                    self.notes.insert("rem_euclid -> shim::rem_euclid_i64".into());
                    return;
                }
                if name == "collect" {
                    let t = norm(&self.src.text[r.0..r.1]);
                    for suf in [".iter().rev().map(|x|*x).collect()", ".iter().rev().copied().collect()", ".iter().rev().cloned().collect()", ".into_iter().rev().collect()"] {
                        if let Some(base) = t.strip_suffix(suf) {
                            self.ed.rep(r, format!("crate::shim::rev_collect(&{})", base));
                            self.notes.insert("iter().rev()..collect() -> shim::rev_collect".into());
                            return;
                        }
                    }
                }
                if let Some(b) = lit_as_bytes(e) {
                    self.ed.rep(r, Self::bytes_lit(&b));
                    return;
                }
            }
            syn::Expr::Match(m) => {
                let mut any = false;
                for arm in &m.arms {
                    any |= self.fix_slice_pat(&arm.pat);
                }
                if any {
                    let s = self.src.range(m.expr.span());
                    self.ed.ins(s.0, "crate::shim::arr2(");
                    self.ed.ins(s.1, ")");
                    self.notes.insert("array patterns -> tuple patterns (shim::arr2)".into());
                }
            }
            syn::Expr::Let(l) => {
                if self.fix_slice_pat(&l.pat) {
                    let s = self.src.range(l.expr.span());
                    self.ed.ins(s.0, "crate::shim::arr2(");
                    self.ed.ins(s.1, ")");
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

// ---------------------------------------------------------------- per function structure

#[derive(Default)]
struct Shape<'ast> {
    loops: Vec<&'ast syn::Expr>,
    stmts: Vec<&'ast syn::Stmt>,
    locals: Vec<String>,
    calls: BTreeSet<String>,
    /// how often each bit operation, multiplication, division and index expression occurs: the solver does not see that two
    /// ways of computing a number are equal when these differ
    ops: BTreeMap<String, u64>,
}

impl<'ast> Visit<'ast> for Shape<'ast> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_) => self.loops.push(e),
            syn::Expr::MethodCall(m) => {
                self.calls.insert(m.method.to_string());
            }
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            syn::Expr::Binary(b) => {
                use syn::BinOp::*;
                let k = match b.op {
                    Shl(_) | ShlAssign(_) => "<<",
                    Shr(_) | ShrAssign(_) => ">>",
                    BitAnd(_) | BitAndAssign(_) => "&",
                    BitOr(_) | BitOrAssign(_) => "|",
                    BitXor(_) | BitXorAssign(_) => "^",
                    Mul(_) | MulAssign(_) => "*",
                    Div(_) | DivAssign(_) => "/",
                    Rem(_) | RemAssign(_) => "%",
                    _ => "",
                };
                if !k.is_empty() {
                    *self.ops.entry(k.into()).or_default() += 1;
                }
            }
            syn::Expr::Index(_) => *self.ops.entry("[]".into()).or_default() += 1,
            _ => {}
        }
        visit::visit_expr(self, e)
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmts.push(s);
        visit::visit_stmt(self, s)
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().unwrap().is_lowercase() || n.starts_with('_') {
            self.locals.push(n);
        }
        visit::visit_pat_ident(self, p)
    }
}

fn loop_body(e: &syn::Expr) -> &syn::Block {
    match e {
        syn::Expr::While(w) => &w.body,
        syn::Expr::ForLoop(f) => &f.body,
        syn::Expr::Loop(l) => &l.body,
        _ => unreachable!(),
    }
}
fn loop_kind(e: &syn::Expr) -> &'static str {
    match e {
        syn::Expr::While(w) => {
            if matches!(&*w.cond, syn::Expr::Let(_)) {
                "whilelet"
            } else {
                "while"
            }
        }
        syn::Expr::ForLoop(_) => "for",
        syn::Expr::Loop(_) => "loop",
        _ => unreachable!(),
    }
}

fn replace_words(text: &str, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            let after_dot = st > 0 && b[st - 1] == '.' && !(st > 1 && b[st - 2] == '.');
            match map.get(&w) {
                Some(n) if !after_dot => out.push_str(n),
                _ => out.push_str(&w),
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// the beginning of a statement, as it is recorded to find the same place again in changed source
fn head(src: &Src, s: &syn::Stmt) -> String {
    let r = src.range(s.span());
    let code: String = src.text[r.0..r.1].lines().map(|l| format!("{}\n", l.split("//").next().unwrap())).collect();
    norm(&code).chars().take(60).collect()
}

/// statements of the recorded function that are now in another place
fn moved(old: &[String], new: &[String]) -> Vec<String> {
    let (n, m) = (old.len(), new.len());
    let mut t = vec![vec![0u32; m + 1]; n + 1];
    for a in (0..n).rev() {
        for b in (0..m).rev() {
            t[a][b] = if old[a] == new[b] { t[a + 1][b + 1] + 1 } else { t[a + 1][b].max(t[a][b + 1]) };
        }
    }
    let (mut a, mut b) = (0, 0);
    let (mut gone, mut come) = (vec![], vec![]);
    while a < n || b < m {
        if a < n && b < m && old[a] == new[b] {
            a += 1;
            b += 1;
        } else if b >= m || (a < n && t[a + 1][b] >= t[a][b + 1]) {
            gone.push(old[a].clone());
            a += 1;
        } else {
            come.push(new[b].clone());
            b += 1;
        }
    }
    gone.retain(|g| come.contains(g));
    gone
}

/// where statement `i` of the recorded function is now: the statements around it are found again (longest common
/// subsequence) and as many statements lie between them as before
fn realign(old: &[String], new: &[String], i: usize) -> Option<usize> {
    let (n, m) = (old.len(), new.len());
    let mut t = vec![vec![0u32; m + 1]; n + 1];
    for a in (0..n).rev() {
        for b in (0..m).rev() {
            t[a][b] = if old[a] == new[b] { t[a + 1][b + 1] + 1 } else { t[a + 1][b].max(t[a][b + 1]) };
        }
    }
    // pairs, with a pair before the first and behind the last statement
    let mut before: (isize, isize) = (-1, -1);
    let (mut a, mut b) = (0, 0);
    while a < n && b < m {
        if old[a] == new[b] && t[a][b] == t[a + 1][b + 1] + 1 {
            if a == i {
                return Some(b);
            }
            if a > i {
                break;
            }
            before = (a as isize, b as isize);
            a += 1;
            b += 1;
        } else if t[a + 1][b] >= t[a][b + 1] {
            a += 1;
        } else {
            b += 1;
        }
    }
    let after = if a < n && b < m && a > i { (a as isize, b as isize) } else { (n as isize, m as isize) };
    if after.0 - before.0 == after.1 - before.1 {
        Some((before.1 + (i as isize - before.0)) as usize)
    } else {
        None
    }
}

struct Ctx<'a> {
    specs: &'a Specs,
    baseline: &'a Map<String, Value>,
    new_baseline: Map<String, Value>,
    report: Map<String, Value>,
    notes: BTreeSet<String>,
    drop: BTreeSet<String>,
    dropped: Vec<String>,
    standin: BTreeSet<String>,
    cli: Option<BTreeSet<String>>,
}

fn leading_attr_end(src: &Src, attrs: &[syn::Attribute], item: (usize, usize)) -> usize {
    let mut p = item.0;
    for a in attrs {
        p = p.max(src.range(a.span()).1);
    }
    p
}

/// text of a function with the contract inserted
fn do_fn(cx: &mut Ctx, src: &Src, path: &str, attrs: &[syn::Attribute], vis: &syn::Visibility, sig: &syn::Signature, block: &syn::Block, whole: (usize, usize)) -> Option<String> {
    if attrs.iter().any(|a| a.path().is_ident("test") || norm(&src.text[src.range(a.span()).0..src.range(a.span()).1]) == "#[cfg(test)]") {
        return None;
    }
    if cx.drop.contains(path) {
        cx.dropped.push(path.to_string());
        return None;
    }
    let mut shape = Shape::default();
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            shape.visit_pat(&t.pat)
        }
    }
    shape.visit_block(block);
    let kinds: Vec<&str> = shape.loops.iter().map(|l| loop_kind(l)).collect();
    let heads: Vec<String> = shape.stmts.iter().map(|s| head(src, s)).collect();
    let mut places: Map<String, Value> = Map::new();
    let mut rename: BTreeMap<String, String> = BTreeMap::new();
    let mut changed: Vec<String> = vec![];
    match cx.baseline.get(path) {
        Some(b) => {
            let bl: Vec<String> = b["locals"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            let bk: Vec<String> = b["loops"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            if bl.len() == shape.locals.len() {
                for (o, n) in bl.iter().zip(shape.locals.iter()) {
                    if o != n && !shape.locals.contains(o) && !bl.contains(n) {
                        if let Some(p) = rename.get(o) {
                            if p != n {
                                changed.push(format!("local {} has two new names", o));
                            }
                        }
                        rename.insert(o.clone(), n.clone());
                    }
                }
                if !rename.is_empty() {
                    changed.push("locals renamed".into());
                }
            } else {
                changed.push("set of local variables changed".into());
            }
            if bk.len() != kinds.len() {
                changed.push(format!("loops: {:?} -> {:?}", bk, kinds));
            } else if bk != kinds {
                changed.push(format!("loop forms: {:?} -> {:?}", bk, kinds));
            }
            if let (Some(bc), Some(bo)) = (b["calls"].as_array(), b["ops"].as_object()) {
                let new: Vec<&String> = shape.calls.iter().filter(|c| !bc.iter().any(|x| x.as_str() == Some(c))).collect();
                if !new.is_empty() {
                    changed.push(format!("calls that were not there: {:?}", new));
                }
                let keys: BTreeSet<&String> = bo.keys().chain(shape.ops.keys()).collect();
                let diff: Vec<&String> = keys.into_iter().filter(|k| bo.get(*k).and_then(|x| x.as_u64()).unwrap_or(0) != shape.ops.get(*k).copied().unwrap_or(0)).collect();
                if !diff.is_empty() {
                    changed.push(format!("computed another way: {:?}", diff));
                }
            }
        }
        None => changed.push("new function".into()),
    }
    if let Some(b) = cx.baseline.get(path).and_then(|b| b["heads"].as_array()) {
        let old: Vec<String> = b.iter().map(|x| norm(&replace_words(x.as_str().unwrap(), &rename))).collect();
        let mv = moved(&old, &heads);
        if !mv.is_empty() {
            changed.push(format!("statements in another place: {:?}", mv));
        }
    }
    let spec = cx.specs.fns.get(path).cloned();
    let mut rw = Rw { src, ed: Edits::default(), notes: &mut cx.notes, skip_derive: false, try_kind: 0, cli: cx.cli.clone() };
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let t = norm(&src.text[src.range(t.span()).0..src.range(t.span()).1]);
        rw.try_kind = if t.contains("DYNERR") || t.contains("STDRESULT") || t.contains("Box<dyn") { 1 } else if t.starts_with("Result<") { 2 } else { 0 };
    }
    for a in attrs {
        rw.visit_attribute(a);
    }
    rw.visit_signature(sig);
    if rw.cli.is_some() {
        rw.ed.ins_first(src.range(sig.paren_token.span.open()).1, if sig.inputs.is_empty() { "w: &mut crate::shim::cli::World" } else { "w: &mut crate::shim::cli::World, " });
    }
    rw.visit_block(block);
    if matches!(vis, syn::Visibility::Inherited) {
        let at = src.range(sig.span()).0;
        rw.ed.ins(at, "pub ");
    }
    let has_contract = spec.is_some();
    let standin = cx.standin.contains(path) || spec.as_ref().map(|s| s.standin).unwrap_or(false);
    if standin || !has_contract {
        // the body is not looked at; without a contract nothing is assumed about it either
        let at = match vis {
            syn::Visibility::Inherited => src.range(sig.span()).0,
            v => src.range(v.span()).0,
        };
        rw.ed.ins_first(at, "#[verifier::external_body] ");
    }
    let mut lost: Vec<String> = vec![];
    let body_open = src.range(block.brace_token.span.open());
    let body_close = src.range(block.brace_token.span.close());
    if let Some(sp) = &spec {
        let tr = |t: &str| -> String {
            if rename.is_empty() {
                t.to_string()
            } else {
                replace_words(t, &rename)
            }
        };
        if let Some(rn) = &sp.ret {
            if let syn::ReturnType::Type(_, t) = &sig.output {
                let r = src.range(t.span());
                rw.ed.ins(r.0, format!("({}: ", rn));
                rw.ed.ins(r.1, ")");
            } else {
                lost.push("return type".into());
            }
        }
        if !standin {
            // a solver of its own for every function: no effect of one on another
            let at = leading_attr_end(src, attrs, whole);
            rw.ed.ins_first(at, format!("\n#[verifier::spinoff_prover]\n{}", sp.attrs));
        }
        rw.ed.ins(body_open.0, format!("\n{}", tr(&sp.contract)));
        for (k, t) in sp.loops.iter().filter(|_| !standin) {
            match shape.loops.get(*k) {
                Some(l) => {
                    let b = loop_body(l);
                    let at = src.range(b.brace_token.span.open()).0;
                    let mut t = tr(t);
                    if loop_kind(l) == "for" && !matches!(l, syn::Expr::ForLoop(f) if rev_range(f).is_some()) {
                        // a `for` loop over a range terminates by itself
                        if let Some(i) = t.find("decreases") {
                            t.truncate(i);
                        }
                    }
                    rw.ed.ins(at, format!("\n{}", t));
                }
                None => lost.push(format!("loop {}", k)),
            }
        }
        for (anchor, text, line) in sp.ats.iter().filter(|_| !standin) {
            let text = format!("\n{}", tr(text));
            let a = anchor.trim();
            let where_lost = format!("{}:{} @at {}", sp.file, line, a);
            if a == "start" {
                rw.ed.ins(body_open.1, text);
            } else if a == "end" {
                // before the tail expression (or last statement if that is not `()`), or at the closing brace
                match block.stmts.last() {
                    Some(s @ syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_) | syn::Expr::If(_)) || !matches!(sig.output, syn::ReturnType::Default) => {
                        rw.ed.ins_first(src.range(s.span()).0, text)
                    }
                    _ => rw.ed.ins(body_close.0, text),
                }
            } else if let Some(rest) = a.strip_prefix("loop") {
                let (k, pos) = rest.trim().split_once('.').expect("loopK.pos");
                let k: usize = k.trim().parse().unwrap();
                match shape.loops.get(k) {
                    None => lost.push(where_lost),
                    Some(l) => {
                        let b = loop_body(l);
                        let lr = src.range(l.span());
                        match pos.trim() {
                            "begin" => rw.ed.ins(src.range(b.brace_token.span.open()).1, text),
                            "end" => {
                                let at = src.range(b.brace_token.span.close()).0;
                                let pre = match b.stmts.last() {
                                    Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_) | syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_)) => ";",
                                    _ => "",
                                };
                                rw.ed.ins(at, format!("{}{}", pre, text))
                            }
                            "before" => rw.ed.ins_first(lr.0, format!("{}\n", text)),
                            "after" => rw.ed.ins(lr.1, text),
                            p => panic!("bad loop position {}", p),
                        }
                    }
                }
            } else if a.starts_with("before") || a.starts_with("after") {
                // before "prefix" [#n]
                let q1 = a.find('"').unwrap();
                let q2 = a.rfind('"').unwrap();
                let pre = norm(&tr(&a[q1 + 1..q2]));
                let n: usize = a[q2 + 1..].trim().trim_start_matches('#').parse().unwrap_or(0);
                let hits: Vec<usize> = (0..shape.stmts.len()).filter(|k| {
                    let r = src.range(shape.stmts[*k].span());
                    norm(&src.text[r.0..r.1]).starts_with(&pre)
                }).collect();
                if let Some(k) = hits.get(n) {
                    places.insert(a.to_string(), json!([k, hits.len()]));
                }
                let mut found = hits.get(n).copied();
                let b = cx.baseline.get(path);
                if let Some(p) = b.and_then(|b| b["places"][a].as_array()) {
                    if found.is_none() || p[1].as_u64() != Some(hits.len() as u64) {
                        let old: Vec<String> = b.unwrap()["heads"].as_array().map(|v| v.iter().map(|x| norm(&tr(x.as_str().unwrap()))).collect()).unwrap_or_default();
                        found = realign(&old, &heads, p[0].as_u64().unwrap() as usize);
                        found = found.or(hits.get(n).copied());
                        if found.is_some() && old.len() != heads.len() {
                            changed.push(format!("{} is gone, place found by its neighbours", a));
                        }
                    }
                }
                match found.map(|k| shape.stmts[k]) {
                    None => lost.push(where_lost),
                    Some(s) => {
                        let r = src.range(s.span());
                        if a.starts_with("before") {
                            rw.ed.ins_first(r.0, format!("{}\n", text))
                        } else {
                            rw.ed.ins(r.1, text)
                        }
                    }
                }
            } else {
                panic!("{}: bad anchor {}", where_lost, a)
            }
        }
    }
    let txt = rw.ed.apply(&src.text, whole.0, whole.1);
    let calls: Vec<String> = shape.calls.iter().cloned().collect();
    cx.new_baseline.insert(path.to_string(), json!({"loops": kinds, "locals": shape.locals, "stmts": shape.stmts.len(), "calls": shape.calls, "ops": shape.ops, "heads": heads, "places": places}));
    cx.report.insert(path.to_string(), json!({
        "contract": has_contract, "standin": standin, "new": !cx.baseline.contains_key(path),
        "lost": lost, "changed": changed, "loops": kinds, "calls": calls}));
    Some(format!("/*VXFN {}*/ {} /*VXEND*/\n", path, txt))
}

fn flatten_use(t: &syn::UseTree, pre: &str, out: &mut Vec<String>) {
    let j = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{}::{}", a, b) };
    match t {
        syn::UseTree::Path(p) => flatten_use(&p.tree, &j(pre, &p.ident.to_string()), out),
        syn::UseTree::Name(n) => out.push(j(pre, &n.ident.to_string())),
        syn::UseTree::Rename(n) => out.push(format!("{} as {}", j(pre, &n.ident.to_string()), n.rename)),
        syn::UseTree::Glob(_) => out.push(j(pre, "*")),
        syn::UseTree::Group(g) => {
            for i in &g.items {
                flatten_use(i, pre, out)
            }
        }
    }
}

fn map_use(u: &str) -> Option<String> {
    for (a, b) in [("std::io::", "crate::shim::io::"), ("bit_vec::", "crate::shim::bit_vec::"), ("std::collections::", "crate::shim::collections::"), ("num_traits::", "crate::shim::")] {
        if let Some(r) = u.strip_prefix(a) {
            return Some(format!("{}{}", b, r));
        }
    }
    if let Some(r) = u.strip_prefix("retrocompressor::") {
        return Some(format!("crate::{}", r));
    }
    if u.starts_with("clap::") {
        return if u == "clap::Command" { Some("crate::shim::cli::Command".into()) } else { None };
    }
    if u == "std::io" {
        return Some("crate::shim::io".into());
    }
    if u.starts_with("num_derive") || u.starts_with("std::") || u.starts_with("log") || u.starts_with("clap") {
        return None;
    }
    Some(u.to_string())
}

fn do_items(cx: &mut Ctx, dir: &Path, src: &Src, items: &[syn::Item], modpath: &str) -> String {
    let mut out = String::new();
    let j = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{}::{}", a, b) };
    for it in items {
        let r = src.range(it.span());
        match it {
            syn::Item::Use(u) => {
                let mut v = vec![];
                flatten_use(&u.tree, "", &mut v);
                for x in v {
                    if let Some(m) = map_use(&x) {
                        out.push_str(&format!("pub use {};\n", m));
                    }
                }
            }
            syn::Item::Mod(m) => {
                if m.attrs.iter().any(|a| norm(&src.text[src.range(a.span()).0..src.range(a.span()).1]) == "#[cfg(test)]") {
                    continue;
                }
                let name = m.ident.to_string();
                let mp = j(modpath, &name);
                let inner = match &m.content {
                    Some((_, its)) => do_items(cx, dir, src, its, &mp),
                    None => {
                        let f1 = dir.join(format!("{}.rs", name));
                        let f2 = dir.join(&name).join("mod.rs");
                        let f = if f1.exists() { f1 } else { f2 };
                        do_file(cx, &f, &dir.join(&name), &mp)
                    }
                };
                out.push_str(&wrap_mod(cx, &name, &mp, &inner));
            }
            syn::Item::Fn(f) => {
                if let Some(t) = do_fn(cx, src, &j(modpath, &f.sig.ident.to_string()), &f.attrs, &f.vis, &f.sig, &f.block, r) {
                    out.push_str(&t);
                }
            }
            syn::Item::Impl(im) => {
                if im.attrs.iter().any(|a| a.path().is_ident("cfg")) {
                    continue;
                }
                let tyname = match &*im.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => "?".into(),
                };
                let open = src.range(im.brace_token.span.open());
                let mut rw = Rw { src, ed: Edits::default(), notes: &mut cx.notes, skip_derive: false, try_kind: 0, cli: cx.cli.clone() };
                for a in &im.attrs {
                    rw.visit_attribute(a);
                }
                rw.visit_generics(&im.generics);
                rw.visit_type(&im.self_ty);
                let head = rw.ed.apply(&src.text, r.0, open.1);
                out.push_str(&head);
                out.push('\n');
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(f) => {
                            let p = j(modpath, &format!("{}::{}", tyname, f.sig.ident));
                            let vis = if im.trait_.is_some() { syn::Visibility::Public(Default::default()) } else { f.vis.clone() };
                            if let Some(t) = do_fn(cx, src, &p, &f.attrs, &vis, &f.sig, &f.block, src.range(f.span())) {
                                out.push_str(&t);
                            }
                        }
                        o => {
                            let rr = src.range(o.span());
                            out.push_str(&src.text[rr.0..rr.1]);
                            out.push('\n');
                        }
                    }
                }
                out.push_str("}\n");
            }
            syn::Item::Struct(s) => {
                let mut rw = Rw { src, ed: Edits::default(), notes: &mut cx.notes, skip_derive: false, try_kind: 0, cli: cx.cli.clone() };
                rw.visit_item_struct(s);
                if matches!(s.vis, syn::Visibility::Inherited) {
                    rw.ed.ins(src.range(s.struct_token.span()).0, "pub ");
                }
                for f in &s.fields {
                    if matches!(f.vis, syn::Visibility::Inherited) {
                        if let Some(id) = &f.ident {
                            rw.ed.ins(src.range(id.span()).0, "pub ");
                        } else {
                            rw.ed.ins(src.range(f.ty.span()).0, "pub ");
                        }
                    }
                }
                out.push_str(&rw.ed.apply(&src.text, r.0, r.1));
                out.push('\n');
                clone_impl(&s.attrs, src, &s.ident.to_string(), &s.generics, &mut out);
            }
            syn::Item::Enum(s) => {
                let mut rw = Rw { src, ed: Edits::default(), notes: &mut cx.notes, skip_derive: false, try_kind: 0, cli: cx.cli.clone() };
                rw.visit_item_enum(s);
                if matches!(s.vis, syn::Visibility::Inherited) {
                    rw.ed.ins(src.range(s.enum_token.span()).0, "pub ");
                }
                // explicit discriminants 0, 1, ... are the ones the variants have anyway
                for (k, v) in s.variants.iter().enumerate() {
                    match &v.discriminant {
                        Some((eq, e)) if norm(&src.text[src.range(e.span()).0..src.range(e.span()).1]) == k.to_string() => {
                            rw.ed.rep((src.range(eq.span()).0, src.range(e.span()).1), "");
                        }
                        _ => {}
                    }
                }
                out.push_str(&rw.ed.apply(&src.text, r.0, r.1));
                out.push('\n');
                clone_impl(&s.attrs, src, &s.ident.to_string(), &s.generics, &mut out);
            }
            syn::Item::Const(_) if cx.cli.is_some() => {}
            syn::Item::Const(c) => {
                let mut rw = Rw { src, ed: Edits::default(), notes: &mut cx.notes, skip_derive: false, try_kind: 0, cli: cx.cli.clone() };
                rw.visit_item_const(c);
                if matches!(c.vis, syn::Visibility::Inherited) {
                    rw.ed.ins(src.range(c.const_token.span()).0, "pub ");
                }
                out.push_str(&rw.ed.apply(&src.text, r.0, r.1));
                out.push('\n');
            }
            syn::Item::Static(c) => {
                let mut rw = Rw { src, ed: Edits::default(), notes: &mut cx.notes, skip_derive: false, try_kind: 0, cli: cx.cli.clone() };
                rw.visit_item_static(c);
                out.push_str(&rw.ed.apply(&src.text, r.0, r.1));
                out.push('\n');
            }
            syn::Item::Type(t) => {
                if t.ident == "STDRESULT" {
                    out.push_str("pub type STDRESULT = Result<(), crate::shim::DynErr>;\n");
                } else if t.ident == "DYNERR" {
                    out.push_str("pub type DYNERR = crate::shim::DynErr;\n");
                    cx.notes.insert("type DYNERR = Box<dyn Error> -> shim::DynErr".into());
                } else {
                    out.push_str(&format!("{}\n", &src.text[r.0..r.1]));
                }
            }
            _ => {
                cx.notes.insert(format!("item copied unchanged in {}", modpath));
                out.push_str(&src.text[r.0..r.1]);
                out.push('\n');
            }
        }
    }
    out
}

fn clone_impl(attrs: &[syn::Attribute], src: &Src, name: &str, g: &syn::Generics, out: &mut String) {
    for a in attrs {
        if a.path().is_ident("derive") {
            let r = src.range(a.span());
            let t = norm(&src.text[r.0..r.1]);
            let names: Vec<&str> = t.trim_start_matches("#[derive(").trim_end_matches(")]").split(',').collect();
            if names.contains(&"Clone") && !names.contains(&"Copy") && g.params.is_empty() {
                out.push_str(&format!("impl Clone for {} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n", name));
            }
        }
    }
}

fn wrap_mod(cx: &Ctx, name: &str, mp: &str, inner: &str) -> String {
    let extra = cx.specs.modules.get(mp).cloned().unwrap_or_default();
    format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::theory::*;\n#[allow(unused_imports)] use crate::shim::Box;\n{}\n{}\n}} // mod {}\n", name, inner, extra, mp)
}

fn do_file(cx: &mut Ctx, f: &Path, dir: &Path, modpath: &str) -> String {
    let text = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f.display(), e));
    let file = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", f.display(), e));
    let src = Src::new(text);
    do_items(cx, dir, &src, &file.items, modpath)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // vx-extract SRC_DIR CONTRACT_DIR OUT_RS REPORT_JSON [NEW_BASELINE]
    let srcdir = PathBuf::from(&a[1]);
    let cdir = PathBuf::from(&a[2]);
    let specs = load_specs(&cdir);
    let baseline: Map<String, Value> = std::fs::read_to_string(cdir.join("baseline.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
    let drop: BTreeSet<String> = std::fs::read_to_string(cdir.join("dropped.txt")).unwrap_or_default().lines().filter(|l| !l.starts_with('#')).map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
    let standin: BTreeSet<String> = std::env::var("VX_STANDIN").unwrap_or_default().split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
    let mut cx = Ctx { specs: &specs, baseline: &baseline, new_baseline: Map::new(), report: Map::new(), notes: BTreeSet::new(), drop, dropped: vec![], standin, cli: None };
    let mut body = do_file(&mut cx, &srcdir.join("lib.rs"), &srcdir, "");
    // the command line tool, as a module
    let mf = srcdir.join("main.rs");
    if let Ok(f) = syn::parse_file(&std::fs::read_to_string(&mf).unwrap_or_default()) {
        cx.cli = Some(f.items.iter().filter_map(|i| if let syn::Item::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None }).collect());
        let inner = do_file(&mut cx, &mf, &srcdir, "cli");
        body.push_str(&wrap_mod(&cx, "cli", "cli", &inner));
        cx.cli = None;
    }
    let mut out = String::from("#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_mut, unused_assignments, unused_parens, unused_must_use)]\nuse vstd::prelude::*;\nfn main() {}\n");
    out.push_str(&std::fs::read_to_string(cdir.join("shim.rs")).unwrap());
    let mut th: Vec<PathBuf> = std::fs::read_dir(cdir.join("theory")).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "rs").unwrap_or(false)).collect();
    th.sort();
    out.push_str("\npub mod theory {\n");
    for t in &th {
        let n = t.file_stem().unwrap().to_string_lossy().to_string();
        out.push_str(&format!("pub use self::{}::*;\n", n));
    }
    for t in &th {
        let n = t.file_stem().unwrap().to_string_lossy().to_string();
        out.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::theory::*;\nverus! {{\n{}\n}} // verus!\n}}\n", n, std::fs::read_to_string(t).unwrap()));
    }
    out.push_str("} // mod theory\n");
    out.push_str("verus! {\nglobal size_of usize == 8;\n");
    out.push_str(&body);
    out.push_str(&specs.top);
    out.push_str("\n} // verus!\n");
    std::fs::write(&a[3], &out).unwrap();
    for p in specs.fns.keys() {
        if !cx.report.contains_key(p) {
            cx.report.insert(p.clone(), json!({"missing": true, "contract": true, "lost": ["function"], "changed": ["function missing"], "loops": [], "calls": []}));
        }
    }
    let rep = json!({"functions": cx.report, "edits": cx.notes.iter().collect::<Vec<_>>(), "dropped": cx.dropped});
    std::fs::write(&a[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    if a.len() > 5 {
        std::fs::write(&a[5], serde_json::to_string_pretty(&Value::Object(cx.new_baseline)).unwrap()).unwrap();
    }
}
