//! Emission of the Verus crate.
use crate::contract::{FileContract, FnContract};
use crate::edits::Edits;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

const DROPPED_TRAITS: &[&str] = &["Debug", "FusedIterator"];
/// Formatting traits: extracted as inherent methods `vx_<trait>_fmt`.
const FMT_TRAITS: &[&str] = &["Display", "Binary", "LowerHex", "Octal", "UpperHex", "LowerExp", "UpperExp"];
const MACRO_CRATES: &[&str] = &["memoffset", "bitflags", "enumn", "derive_more", "displaydoc", "strum_macros"];
const STUB_CRATES: &[&str] = &["binrw", "byteorder", "nt_string", "arrayvec", "time"];

pub struct FnInfo {
    pub key: String,
    pub module: String,
    pub file: String,
    pub line: usize,
    pub contracted: bool,
    pub mode: String, // verified / trusted / undecided
    pub reason: String,
    pub props: Vec<String>,
    pub problems: Vec<String>,
    pub calls: Vec<String>,
    pub loops: String,
    pub hash: String,
    pub is_priv: bool,
}

pub struct Cx {
    repo: PathBuf,
    external: BTreeSet<String>,
    /// functions whose contract doesn't fit them any more
    pub bare: BTreeSet<String>,
    /// insert `assert(false)` at the start / the end of every verified function
    pub smoke: String,
    pub std: String,
    pub fns: Vec<FnInfo>,
    pub problems: Vec<String>,
    pub skipped: Vec<(String, String)>,
    sizes: BTreeMap<String, Layout>,
    used_contracts: BTreeSet<String>,
    /// spec-only trait implementations, emitted at the top of the crate
    pub first: String,
}

#[derive(Clone, Debug)]
struct Layout {
    packed: bool,
    fields: Vec<(String, usize)>,
}

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream()
        .to_string()
        .chars()
        .filter(|c| !c.is_whitespace())
        .collect()
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn cfg_on(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let s = norm(&a.meta.to_token_stream().to_string());
            if s.contains("test") && !s.contains("not(test)") {
                return false;
            }
            if s.contains("not(feature") {
                return false;
            }
        }
    }
    true
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn repr_packed(attrs: &[Attribute]) -> bool {
    attrs
        .iter()
        .any(|a| a.path().is_ident("repr") && norm(&a.to_token_stream().to_string()).contains("packed"))
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

/// Byte range of an item without its attributes and visibility.
fn strip_start(attrs: &[Attribute], vis: &Visibility, start: usize) -> usize {
    let mut s = start;
    for a in attrs {
        if matches!(a.style, AttrStyle::Outer) {
            s = s.max(br(a.span()).1);
        }
    }
    if !matches!(vis, Visibility::Inherited) {
        s = s.max(br(vis.span()).1);
    }
    s
}

impl Cx {
    pub fn new(repo: PathBuf, external: BTreeSet<String>) -> Self {
        Cx {
            repo,
            external,
            bare: BTreeSet::new(),
            smoke: String::new(),
            fns: vec![],
            problems: vec![],
            skipped: vec![],
            sizes: BTreeMap::new(),
            used_contracts: BTreeSet::new(),
            first: String::new(),
            std: String::new(),
        }
    }

    pub fn run(&mut self, files: &[FileContract], prelude: &str) -> String {
        let mut parsed = vec![];
        for f in files {
            let path = self.repo.join(&f.path);
            let src = match std::fs::read_to_string(&path) {
                Ok(s) => s,
                Err(e) => {
                    self.problems.push(format!("{}: cannot read: {e}", f.path));
                    continue;
                }
            };
            match syn::parse_file(&src) {
                Ok(ast) => parsed.push((f, src, ast)),
                Err(e) => self.problems.push(format!("{}: cannot parse: {e}", f.path)),
            }
        }
        for _ in 0..3 {
            for (_, _, ast) in &parsed {
                for it in &ast.items {
                    if let Item::Struct(s) = it {
                        self.layout(s);
                    }
                }
            }
        }
        // module tree
        let mut out = String::new();
        let mut bodies: BTreeMap<String, String> = BTreeMap::new();
        for (f, src, ast) in &parsed {
            let b = self.file(f, src, ast);
            bodies.insert(f.module.clone(), b);
            for k in f.fns.keys() {
                let id = format!("{}|{}", f.module, k);
                if !self.used_contracts.contains(&id) {
                    self.problems
                        .push(format!("lost anchor: {} has no function `{}`", f.path, k));
                }
            }
        }
        // contracts of std functions which the crate doesn't use at present
        let mut std = String::new();
        for para in self.std.split("\n\n") {
            let mut lines = para.trim_start().lines();
            if let Some(names) = lines.next().and_then(|l| l.strip_prefix("//@for ")) {
                if names.split(' ').any(|n| parsed.iter().any(|(_, src, _)| mentions(src, n))) {
                    for l in lines {
                        std.push_str(l);
                        std.push('\n');
                    }
                }
            }
        }
        out.push_str(&prelude.replace("//@FIRST\n", &self.first).replace("//@STD\n", &std));
        out.push('\n');
        let mut roots = String::new();
        for (f, _, _) in &parsed {
            if f.module.contains("::") {
                continue;
            }
            let mut inner = String::new();
            for (g, _, _) in &parsed {
                if let Some(rest) = g.module.strip_prefix(&format!("{}::", f.module)) {
                    inner.push_str(&format!(
                        "pub mod {rest} {{\n{}\n}}\npub use {rest}::*;\n",
                        bodies[&g.module]
                    ));
                }
            }
            roots.push_str(&format!(
                "pub mod {} {{\n{}\n{}\n}}\n",
                f.module, inner, bodies[&f.module]
            ));
        }
        out.push_str(&roots);
        for (f, _, _) in &parsed {
            if !f.module.contains("::")
                && !["types", "attribute_value", "indexes", "structured_values"].contains(&f.module.as_str())
            {
                out.push_str(&format!("pub use crate::{}::*;\n", f.module));
            }
        }
        out
    }

    fn layout(&mut self, s: &ItemStruct) {
        let packed = repr_packed(&s.attrs);
        let mut fields = vec![];
        for (i, f) in s.fields.iter().enumerate() {
            let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
            match self.size_of(&f.ty) {
                Some(z) => fields.push((n, z)),
                None => return,
            }
        }
        let single = fields.len() == 1;
        self.sizes.insert(
            s.ident.to_string(),
            Layout {
                packed: packed || single,
                fields,
            },
        );
    }

    fn size_of(&self, ty: &Type) -> Option<usize> {
        match ty {
            Type::Path(p) => {
                let id = p.path.segments.last()?.ident.to_string();
                Some(match id.as_str() {
                    "u8" | "i8" => 1,
                    "u16" | "i16" => 2,
                    "u32" | "i32" => 4,
                    "u64" | "i64" | "usize" | "isize" => 8,
                    "u128" | "i128" => 16,
                    _ => {
                        let l = self.sizes.get(&id)?;
                        l.fields.iter().map(|f| f.1).sum()
                    }
                })
            }
            Type::Array(a) => {
                let n = usize::try_from(const_int(&a.len)?).ok()?;
                Some(n * self.size_of(&a.elem)?)
            }
            _ => None,
        }
    }

    /// `mem::size_of::<T>()`: known only for primitives, packed structs and single-field structs.
    fn exact_size(&self, ty: &Type) -> Option<usize> {
        if let Type::Path(p) = ty {
            let id = p.path.segments.last()?.ident.to_string();
            if let Some(l) = self.sizes.get(&id) {
                if !l.packed {
                    return None;
                }
            }
        }
        self.size_of(ty)
    }

    fn offset_of(&self, ty: &str, field: &str) -> Option<(usize, usize)> {
        let l = self.sizes.get(ty)?;
        if !l.packed {
            return None;
        }
        let mut o = 0;
        for (n, z) in &l.fields {
            if n == field {
                return Some((o, o + z));
            }
            o += z;
        }
        None
    }

    fn file(&mut self, f: &FileContract, src: &str, ast: &File) -> String {
        let mut uses = String::from(
            "#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::*;\n",
        );
        let mut body = String::new();
        for it in &ast.items {
            self.item(f, src, it, &mut uses, &mut body);
        }
        // spec-only implementations come first (see `order` in the prelude)
        let (text, mut first) = hoist(&f.text);
        let (body, first2) = hoist(&body);
        first.push_str(&first2);
        if !first.is_empty() {
            self.first.push_str(&format!(
                "pub mod first_{} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::*;\n#[allow(unused_imports)] use crate::{}::*;\nverus! {{\n{first}\n}}\n}}\n",
                f.module.replace("::", "__"), f.module
            ));
        }
        format!(
            "{}{}\nverus! {{\nbroadcast use crate::vx::group_vx;\n{}\n{}\n}}\n",
            uses, f.head, text, body
        )
    }

    fn skip_reason<'a>(&self, f: &'a FileContract, key: &str) -> Option<&'a str> {
        f.skips.iter().find(|(k, _)| k == key).map(|(_, r)| r.as_str())
    }

    fn item(&mut self, f: &FileContract, src: &str, it: &Item, uses: &mut String, out: &mut String) {
        match it {
            Item::Use(u) => {
                if !cfg_on(&u.attrs) {
                    return;
                }
                let mut e = Edits::default();
                let (lo, hi) = br(u.span());
                let lo = strip_start(&u.attrs, &u.vis, lo);
                if !use_tree(&u.tree, &mut e) {
                    return;
                }
                if let Ok(s) = e.apply(src, lo, hi) {
                    let s = s.replace("core::num::NonZeroU64", "crate::vx::NonZeroU64").replace("std::time::", "crate::vx::time::");
                    uses.push_str(&format!("#[allow(unused_imports)] pub {}\n", s.trim()));
                }
            }
            Item::Const(c) => {
                if !cfg_on(&c.attrs) {
                    return;
                }
                let key = c.ident.to_string();
                if let Some(r) = self.skip_reason(f, &key) {
                    self.skipped.push((format!("{}::{}", f.module, key), r.into()));
                    return;
                }
                let s = self.const_text(src, &c.attrs, &c.vis, c.span(), &c.expr);
                out.push_str(&s);
            }
            Item::Struct(s) => {
                if !cfg_on(&s.attrs) {
                    return;
                }
                let key = s.ident.to_string();
                if let Some(r) = self.skip_reason(f, &key) {
                    self.skipped.push((format!("{}::{}", f.module, key), r.into()));
                    return;
                }
                self.strukt(f, src, s, out);
            }
            Item::Enum(s) => {
                if !cfg_on(&s.attrs) {
                    return;
                }
                let key = s.ident.to_string();
                if let Some(r) = self.skip_reason(f, &key) {
                    self.skipped.push((format!("{}::{}", f.module, key), r.into()));
                    return;
                }
                self.enumm(f, src, s, out);
            }
            Item::Type(t) => {
                let (lo, hi) = br(t.span());
                let lo = strip_start(&t.attrs, &t.vis, lo);
                out.push_str(&format!("pub {}\n", src[lo..hi].trim()));
            }
            Item::Fn(func) => {
                if !cfg_on(&func.attrs) {
                    return;
                }
                let key = func.sig.ident.to_string();
                let (lo, hi) = br(func.span());
                let lo = strip_start(&func.attrs, &func.vis, lo);
                let s = self.func(
                    f,
                    src,
                    &key,
                    &func.sig,
                    Some(&func.block),
                    lo,
                    hi,
                    "pub ",
                    None,
                    matches!(func.vis, Visibility::Inherited),
                    None,
                );
                out.push_str(&s);
            }
            Item::Trait(t) => {
                if !cfg_on(&t.attrs) {
                    return;
                }
                self.traitt(f, src, t, out);
            }
            Item::Impl(i) => {
                if !cfg_on(&i.attrs) {
                    return;
                }
                self.implt(f, src, i, out);
            }
            Item::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "bitflags" {
                    self.bitflags(f, &m.mac.tokens, out);
                } else if name == "macro_rules" {
                    let id = m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                    if id == "iter_try" {
                        let want = "($e:expr)=>{match$e{Ok(x)=>x,Err(e)=>returnSome(Err(e.into())),}};";
                        if norm(&m.mac.tokens.to_string()) != want {
                            self.problems.push("macro iter_try! changed".into());
                        }
                    }
                } else {
                    self.problems
                        .push(format!("{}: item macro {name}! not extracted", f.path));
                }
            }
            Item::Mod(_) | Item::ExternCrate(_) => {}
            other => {
                self.problems.push(format!(
                    "{}: item kind not extracted: {}",
                    f.path,
                    toks(other).chars().take(60).collect::<String>()
                ));
            }
        }
    }

    fn const_text(&mut self, src: &str, attrs: &[Attribute], vis: &Visibility, span: Span, expr: &Expr) -> String {
        let (lo, hi) = br(span);
        let lo = strip_start(attrs, vis, lo);
        let mut w = BodyVisitor::new(self, src);
        w.visit_expr(expr);
        let (e, p) = (w.e, w.problems);
        self.problems.extend(p);
        match e.apply(src, lo, hi) {
            Ok(s) => format!("pub {}\n", s.trim()),
            Err(x) => {
                self.problems.push(x);
                String::new()
            }
        }
    }

    fn attr_edits(&self, e: &mut Edits, attrs: &[Attribute]) {
        for a in attrs {
            let (lo, hi) = br(a.span());
            e.rep(lo, hi, "");
        }
    }

    fn generics_text(&self, src: &str, g: &Generics) -> (String, String, String) {
        // (<...> as declared, <...> as arguments, where clause)
        let decl = match (&g.lt_token, &g.gt_token) {
            (Some(l), Some(r)) => src[br(l.span()).0..br(r.span()).1].to_string(),
            _ => String::new(),
        };
        let mut args = vec![];
        for p in &g.params {
            args.push(match p {
                GenericParam::Lifetime(l) => l.lifetime.to_string(),
                GenericParam::Type(t) => t.ident.to_string(),
                GenericParam::Const(c) => c.ident.to_string(),
            });
        }
        let args = if args.is_empty() {
            String::new()
        } else {
            format!("<{}>", args.join(", "))
        };
        let wh = match &g.where_clause {
            Some(w) => {
                let (a, b) = br(w.span());
                src[a..b].to_string()
            }
            None => String::new(),
        };
        (decl, args, wh)
    }

    fn strukt(&mut self, f: &FileContract, src: &str, s: &ItemStruct, out: &mut String) {
        let mut e = Edits::default();
        let (lo, hi) = br(s.span());
        let lo = strip_start(&s.attrs, &s.vis, lo);
        for fd in s.fields.iter() {
            self.attr_edits(&mut e, &fd.attrs);
            match &fd.vis {
                Visibility::Inherited => {
                    let at = fd
                        .ident
                        .as_ref()
                        .map(|i| br(i.span()).0)
                        .unwrap_or(br(fd.ty.span()).0);
                    e.ins(at, "pub ");
                }
                v => {
                    let (a, b) = br(v.span());
                    e.rep(a, b, "pub");
                }
            }
            TypeVisitor { e: &mut e }.visit_type(&fd.ty);
            if let Type::Array(x) = &fd.ty {
                if let Some(n) = const_int(&x.len) {
                    let (a, b) = br(x.len.span());
                    e.rep(a, b, n.to_string());
                }
            }
        }
        let d = derives(&s.attrs);
        let name = s.ident.to_string();
        let has = |x: &str| d.iter().any(|y| y == x);
        let noeq = f.noeq.contains(&name);
        let mut attr: Vec<&str> = vec![];
        if has("Clone") && has("Copy") {
            attr.push("Clone");
            attr.push("Copy");
        }
        if has("PartialEq") && !noeq && !has("BinRead_") {
            attr.push("PartialEq");
            attr.push("Eq");
            let prim = |t: &Type| {
                let t = toks(t);
                ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool"].contains(&t.trim())
            };
            if s.fields.iter().all(|x| prim(&x.ty)) {
                attr.push("Structural");
            }
        }
        let text = match e.apply(src, lo, hi) {
            Ok(t) => t,
            Err(x) => {
                self.problems.push(x);
                return;
            }
        };
        if !attr.is_empty() {
            out.push_str(&format!("#[derive({})]\n", attr.join(", ")));
        }
        for (k, t) in &f.injects {
            if k == &format!("attr {name}") {
                out.push_str(t);
            }
        }
        out.push_str(&format!("pub {}\n", text.trim()));
        self.derive_impls(src, &name, &s.generics, &d, out);
        let (decl, args, wh) = self.generics_text(src, &s.generics);
        if has("From") {
            if let Fields::Unnamed(u) = &s.fields {
                if u.unnamed.len() == 1 {
                    let ty = &u.unnamed[0].ty;
                    let (a, b) = br(ty.span());
                    let ty = &src[a..b];
                    out.push_str(&format!(
                        "impl{decl} From<{ty}> for {name}{args} {wh} {{\n    #[verifier::external_body]\n    fn from(value: {ty}) -> Self {{ {name}(value) }}\n}}\nimpl{decl} vstd::std_specs::convert::FromSpecImpl<{ty}> for {name}{args} {wh} {{\n    open spec fn obeys_from_spec() -> bool {{ true }}\n    open spec fn from_spec(v: {ty}) -> Self {{ {name}(v) }}\n}}\n"
                    ));
                }
            }
        }
        if let Fields::Unnamed(u) = &s.fields {
            let int = |t: &Type| ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].contains(&toks(t).trim());
            if has("PartialOrd") && u.unnamed.len() == 1 && int(&u.unnamed[0].ty) && s.generics.params.is_empty() {
                let o = "core::cmp::Ordering";
                out.push_str(&format!(
                    "impl PartialOrd for {name} {{\n    fn partial_cmp(&self, o: &{name}) -> (r: Option<{o}>) {{ self.0.partial_cmp(&o.0) }}\n}}\nimpl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{\n    open spec fn obeys_partial_cmp_spec() -> bool {{ true }}\n    open spec fn partial_cmp_spec(&self, o: &{name}) -> Option<{o}> {{ if self.0 < o.0 {{ Some({o}::Less) }} else if self.0 == o.0 {{ Some({o}::Equal) }} else {{ Some({o}::Greater) }} }}\n}}\n"
                ));
                if has("Ord") {
                    out.push_str(&format!(
                        "impl Ord for {name} {{\n    fn cmp(&self, o: &{name}) -> (r: {o}) {{ self.0.cmp(&o.0) }}\n}}\nimpl vstd::std_specs::cmp::OrdSpecImpl for {name} {{\n    open spec fn obeys_cmp_spec() -> bool {{ true }}\n    open spec fn cmp_spec(&self, o: &{name}) -> {o} {{ if self.0 < o.0 {{ {o}::Less }} else if self.0 == o.0 {{ {o}::Equal }} else {{ {o}::Greater }} }}\n}}\n"
                    ));
                }
            }
        }
        if has("BinRead") {
            self.binread(src, &name, s, out);
        }
    }

    fn derive_impls(&mut self, src: &str, name: &str, g: &Generics, d: &[String], out: &mut String) {
        let has = |x: &str| d.iter().any(|y| y == x);
        let (decl, args, wh) = self.generics_text(src, g);
        if has("Clone") && !has("Copy") {
            out.push_str(&format!(
                "impl{decl} Clone for {name}{args} {wh} {{\n    #[verifier::external_body]\n    fn clone(&self) -> (r: Self)\n        ensures r == *self,\n    {{ unimplemented!() }}\n}}\n"
            ));
        }
    }

    /// `#[derive(BinRead)]`: the fields are read one after the other, in declaration order, little-endian.
    fn binread(&mut self, src: &str, name: &str, s: &ItemStruct, out: &mut String) {
        let mut size = String::new();
        let mut fixed = 0usize;
        let mut cons = String::new();
        let named = matches!(s.fields, Fields::Named(_));
        for fd in s.fields.iter() {
            for a in &fd.attrs {
                if a.path().is_ident("br") || a.path().is_ident("brw") {
                    self.problems
                        .push(format!("binread attribute on {name} not supported"));
                }
            }
            let (a, b) = br(fd.ty.span());
            let ty = match &fd.ty {
                Type::Array(x) if const_int(&x.len).is_some() => {
                    let (a, b) = br(x.elem.span());
                    format!("[{}; {}]", &src[a..b], const_int(&x.len).unwrap())
                }
                _ => src[a..b].to_string(),
            };
            if let Some(i) = &fd.ident {
                cons.push_str(&format!("{i}: "));
            }
            cons.push_str(&format!(
                "<{ty} as crate::vx::binrw::BinRead>::br_val(s, o + {fixed}int{size}), "
            ));
            match self.size_of(&fd.ty) {
                Some(n) if size.is_empty() => fixed += n,
                _ => size.push_str(&format!(" + <{ty} as crate::vx::binrw::BinRead>::br_size()")),
            }
        }
        let cons = if named {
            format!("{name} {{ {cons} }}")
        } else {
            format!("{name}({cons})")
        };
        out.push_str(&format!(
            "impl crate::vx::binrw::BinRead for {name} {{\n    open spec fn br_size() -> int {{ {fixed}int{size} }}\n    open spec fn br_val(s: Seq<u8>, o: int) -> Self {{ {cons} }}\n    #[verifier::external_body]\n    fn read<R: crate::vx::binrw::io::Read + crate::vx::binrw::io::Seek>(r: &mut R) -> (res: core::result::Result<Self, crate::vx::binrw::error::Error>) {{ unimplemented!() }}\n}}\n"
        ));
    }

    fn enumm(&mut self, f: &FileContract, src: &str, s: &ItemEnum, out: &mut String) {
        let mut e = Edits::default();
        let (lo, hi) = br(s.span());
        let lo = strip_start(&s.attrs, &s.vis, lo);
        for v in &s.variants {
            self.attr_edits(&mut e, &v.attrs);
            for fd in v.fields.iter() {
                self.attr_edits(&mut e, &fd.attrs);
                TypeVisitor { e: &mut e }.visit_type(&fd.ty);
            }
        }
        let d = derives(&s.attrs);
        let name = s.ident.to_string();
        let has = |x: &str| d.iter().any(|y| y == x);
        let mut attr: Vec<&str> = vec![];
        if has("Clone") && has("Copy") {
            attr.extend(["Clone", "Copy"]);
        }
        if has("PartialEq") && !f.noeq.contains(&name) {
            attr.extend(["PartialEq", "Eq"]);
            if s.variants.iter().all(|v| matches!(v.fields, Fields::Unit)) {
                attr.push("Structural");
            }
        }
        for a in &s.attrs {
            if a.path().is_ident("repr") {
                out.push_str(&toks(a));
                out.push('\n');
            }
        }
        if !attr.is_empty() {
            out.push_str(&format!("#[derive({})]\n", attr.join(", ")));
        }
        match e.apply(src, lo, hi) {
            Ok(t) => out.push_str(&format!("pub {}\n", t.trim())),
            Err(x) => self.problems.push(x),
        }
        self.derive_impls(src, &name, &s.generics, &d, out);
        if has("N") {
            // enumn: `n(v)` returns the variant with discriminant `v`.
            let mut arms = String::new();
            let mut next: i128 = 0;
            let repr = s
                .attrs
                .iter()
                .find(|a| a.path().is_ident("repr"))
                .and_then(|a| a.parse_args::<Ident>().ok())
                .map(|i| i.to_string())
                .unwrap_or("i64".into());
            for v in &s.variants {
                if let Some((_, x)) = &v.discriminant {
                    match const_int(x) {
                        Some(n) => next = n,
                        None => self.problems.push(format!("discriminant of {name}::{}", v.ident)),
                    }
                }
                arms.push_str(&format!(
                    "        if v == {next} {{ return Some({name}::{}); }}\n",
                    v.ident
                ));
                next += 1;
            }
            let sarms = arms.replace("return ", "").replace("; }", " } else");
            out.push_str(&format!(
                "impl {name} {{\n    pub open spec fn n_spec(v: {repr}) -> Option<Self> {{\n{sarms}        {{ None }}\n    }}\n    pub fn n(v: {repr}) -> (r: Option<Self>)\n        ensures r == {name}::n_spec(v),\n    {{\n{arms}        None\n    }}\n}}\n"
            ));
        }
    }

    fn bitflags(&mut self, f: &FileContract, ts: &TokenStream, out: &mut String) {
        // attrs pub struct NAME: TY { attrs const A = lit; ... }
        let v: Vec<TokenTree> = ts.clone().into_iter().collect();
        let mut name = String::new();
        let mut ty = String::new();
        let mut consts = vec![];
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) if id == "struct" => {
                    name = v[i + 1].to_string();
                    ty = v[i + 3].to_string();
                }
                TokenTree::Group(g) if !ty.is_empty() => {
                    let w: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut j = 0;
                    while j < w.len() {
                        if let TokenTree::Ident(id) = &w[j] {
                            if id == "const" {
                                let n = w[j + 1].to_string();
                                let mut val = String::new();
                                let mut k = j + 3;
                                while k < w.len() && w[k].to_string() != ";" {
                                    val.push_str(&w[k].to_string());
                                    k += 1;
                                }
                                consts.push((n, val));
                            }
                        }
                        j += 1;
                    }
                }
                _ => {}
            }
            i += 1;
        }
        if name.is_empty() {
            self.problems.push(format!("{}: bitflags! not understood", f.path));
            return;
        }
        if self.skip_reason(f, &name).is_some() {
            return;
        }
        let mut all: i128 = 0;
        for (n, val) in &consts {
            match parse_str::<Expr>(val).ok().and_then(|x| const_int(&x)) {
                Some(x) => all |= x,
                None => self.problems.push(format!("{}: bitflags constant {n} not understood", f.path)),
            }
        }
        out.push_str(&format!(
            "#[derive(Clone, Copy)]\npub struct {name}(pub {ty});\nimpl {name} {{\n"
        ));
        for (n, val) in &consts {
            let val = match parse_str::<Expr>(val).ok().and_then(|x| const_int(&x)) {
                Some(x) => x.to_string(),
                None => val.clone(),
            };
            out.push_str(&format!("    pub const {n}: {name} = {name}({val});\n"));
        }
        out.push_str(&format!(
            "    pub open spec fn all_bits() -> {ty} {{ {all}{ty} }}\n    #[verifier::external_body]\n    pub fn from_bits_truncate(bits: {ty}) -> (r: {name})\n        ensures r.0 == bits & {name}::all_bits(),\n    {{ unimplemented!() }}\n    #[verifier::external_body]\n    pub fn bits(&self) -> (r: {ty})\n        ensures r == self.0,\n    {{ unimplemented!() }}\n    #[verifier::external_body]\n    pub fn contains(&self, other: {name}) -> (r: bool)\n        ensures r == (self.0 & other.0 == other.0),\n    {{ unimplemented!() }}\n    #[verifier::external_body]\n    pub fn intersects(&self, other: {name}) -> (r: bool)\n        ensures r == (self.0 & other.0 != 0),\n    {{ unimplemented!() }}\n    #[verifier::external_body]\n    pub fn is_empty(&self) -> (r: bool)\n        ensures r == (self.0 == 0),\n    {{ unimplemented!() }}\n}}\n"
        ));
    }

    fn traitt(&mut self, f: &FileContract, src: &str, t: &ItemTrait, out: &mut String) {
        let name = t.ident.to_string();
        if let Some(r) = self.skip_reason(f, &format!("trait {name}")) {
            self.skipped.push((format!("{}::{}", f.module, name), r.into()));
            return;
        }
        let (lo, hi) = br(t.span());
        let lo = strip_start(&t.attrs, &t.vis, lo);
        let mut e = Edits::default();
        debug_bounds(&t.supertraits, &mut e, t.colon_token.map(|c| br(c.span())));
        let brace = br(t.brace_token.span.open()).1;
        for (k, text) in &f.injects {
            if k == &format!("trait {name}") {
                e.ins(brace, format!("\n{text}"));
            }
        }
        for it in &t.items {
            match it {
                TraitItem::Fn(m) => {
                    let (a, b) = br(m.span());
                    let a2 = strip_start(&m.attrs, &Visibility::Inherited, a);
                    let key = format!("trait {name}::{}", m.sig.ident);
                    let s = self.func(f, src, &key, &m.sig, m.default.as_ref(), a2, b, "", None, false, None);
                    e.rep(a, b, s);
                }
                TraitItem::Type(ty) => {
                    for a in &ty.attrs {
                        let (x, y) = br(a.span());
                        e.rep(x, y, "");
                    }
                    let (_, hi) = br(ty.span());
                    let _ = hi;
                }
                TraitItem::Const(c) => self.attr_edits(&mut e, &c.attrs),
                _ => {}
            }
        }
        match e.apply(src, lo, hi) {
            Ok(s) => out.push_str(&format!("pub {}\n", s.trim())),
            Err(x) => self.problems.push(format!("{}: trait {name}: {x}", f.path)),
        }
    }

    fn implt(&mut self, f: &FileContract, src: &str, i: &ItemImpl, out: &mut String) {
        let tyname = match &*i.self_ty {
            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            Type::Reference(r) => format!("&{}", toks(&r.elem)),
            o => toks(o),
        };
        let (decl, _, wh) = self.generics_text(src, &i.generics);
        let self_src = {
            let (a, b) = br(i.self_ty.span());
            src[a..b].to_string()
        };
        let mut prefix = tyname.clone();
        let mut header = format!("impl{decl} {self_src} {wh} {{\n");
        let mut inherent = true;
        let mut iter_item: Option<String> = None;
        let mut fmt_name: Option<String> = None;
        if let Some((_, tr, _)) = &i.trait_ {
            let tn = tr.segments.last().unwrap().ident.to_string();
            if DROPPED_TRAITS.contains(&tn.as_str()) {
                return;
            }
            if tn == "Error" {
                return;
            }
            let args = match &tr.segments.last().unwrap().arguments {
                PathArguments::None => String::new(),
                PathArguments::AngleBracketed(a) => toks(a),
                _ => String::new(),
            };
            prefix = format!("{tyname}:{tn}");
            // disambiguate generic traits
            if matches!(tn.as_str(), "Add" | "AddAssign" | "From" | "TryFrom" | "UpcaseOrd") {
                prefix.push_str(&args);
            }
            if let Some(r) = self.skip_reason(f, &format!("impl {prefix}")) {
                self.skipped.push((format!("{}::{}", f.module, prefix), r.into()));
                return;
            }
            if FMT_TRAITS.contains(&tn.as_str()) {
                fmt_name = Some(format!("vx_{}_fmt", tn.to_lowercase()));
            } else if tn == "Iterator" {
                for it in &i.items {
                    if let ImplItem::Type(t) = it {
                        if t.ident == "Item" {
                            let (a, b) = br(t.ty.span());
                            iter_item = Some(src[a..b].to_string());
                        }
                    }
                }
            } else {
                inherent = false;
                let (a, b) = br(tr.span());
                let mut e = Edits::default();
                path_root(tr, &mut e);
                let trs = e.apply(src, a, b).unwrap_or_default();
                header = format!("impl{decl} {trs} for {self_src} {wh} {{\n");
            }
        } else if let Some(r) = self.skip_reason(f, &format!("impl {prefix}")) {
            self.skipped.push((format!("{}::{}", f.module, prefix), r.into()));
            return;
        }
        let mut body = String::new();
        let mut split_body = String::new();
        for (k, text) in &f.injects {
            if k == &format!("impl {prefix}") {
                body.push_str(text);
                body.push('\n');
            }
        }
        for it in &i.items {
            match it {
                ImplItem::Fn(m) => {
                    if !cfg_on(&m.attrs) {
                        continue;
                    }
                    let key = format!("{prefix}::{}", m.sig.ident);
                    if let Some(r) = self.skip_reason(f, &key) {
                        self.skipped.push((format!("{}::{}", f.module, key), r.into()));
                        continue;
                    }
                    let (a, b) = br(m.span());
                    let a = strip_start(&m.attrs, &m.vis, a);
                    let split = !inherent && f.fns.get(&key).is_some_and(|c| c.split);
                    let new_name = split.then(|| {
                        let mut n: String = prefix.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
                        n.insert_str(0, "vx_");
                        format!("{n}_{}", m.sig.ident)
                    });
                    let new_name = new_name.or_else(|| fmt_name.clone());
                    let s = self.func(
                        f,
                        src,
                        &key,
                        &m.sig,
                        Some(&m.block),
                        a,
                        b,
                        if inherent || split { "pub " } else { "" },
                        iter_item.as_deref(),
                        inherent && matches!(m.vis, Visibility::Inherited) && iter_item.is_none() && fmt_name.is_none(),
                        new_name.as_deref(),
                    );
                    if split {
                        // the trait method itself: signature only
                        split_body.push_str(&s);
                        let mut e = Edits::default();
                        let (blo, bhi) = br(m.block.span());
                        e.rep(blo, bhi, "{ unimplemented!() }");
                        let t = e.apply(src, a, b).unwrap_or_default();
                        body.push_str(&format!("#[verifier::external_body]\n{}\n", t.trim()));
                    } else {
                        body.push_str(&s);
                    }
                }
                ImplItem::Const(c) => {
                    let key = format!("{prefix}::{}", c.ident);
                    if self.skip_reason(f, &key).is_some() {
                        continue;
                    }
                    let s = self.const_text(src, &c.attrs, &c.vis, c.span(), &c.expr);
                    if inherent {
                        body.push_str(&s);
                    } else {
                        body.push_str(s.strip_prefix("pub ").unwrap_or(&s));
                    }
                }
                ImplItem::Type(t) => {
                    if iter_item.is_none() {
                        let (a, b) = br(t.span());
                        let a = strip_start(&t.attrs, &t.vis, a);
                        body.push_str(src[a..b].trim());
                        body.push('\n');
                    }
                }
                _ => self.problems.push(format!("{}: impl item not extracted", f.path)),
            }
        }
        out.push_str(&header);
        out.push_str(&body);
        out.push_str("}\n");
        if !split_body.is_empty() {
            out.push_str(&format!("impl{decl} {self_src} {wh} {{\n{split_body}}}\n"));
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn func(
        &mut self,
        f: &FileContract,
        src: &str,
        key: &str,
        sig: &Signature,
        block: Option<&Block>,
        lo: usize,
        hi: usize,
        vis: &str,
        iter_item: Option<&str>,
        is_priv: bool,
        rename: Option<&str>,
    ) -> String {
        let id = format!("{}|{}", f.module, key);
        let fid = format!("{}::{}", f.module, key);
        let c = if self.bare.contains(&fid) { None } else { f.fns.get(key) };
        self.used_contracts.insert(id);
        let empty = FnContract::default();
        let contracted = c.is_some();
        let c = c.unwrap_or(&empty);
        let mut problems = vec![];
        let mut mode = "verified";
        let mut reason = String::new();
        if block.is_none() {
            mode = "declared";
        }
        if let Some(t) = &c.trust {
            mode = "trusted";
            reason = t.clone();
        }
        if !contracted && block.is_some() {
            mode = "uncontracted";
            reason = "no contract".into();
            if self.bare.contains(&fid) {
                mode = "undecided";
                reason = "the contract doesn't fit the function in its current form".into();
            }
        }
        if self.external.contains(&fid) {
            mode = "undecided";
            reason = "outside the verifier's reach in its current form".into();
        }
        let mut e = Edits::default();
        // signature
        let mut sig_e = Edits::default();
        struct SigV<'a>(&'a mut Edits);
        impl<'a, 'ast> Visit<'ast> for SigV<'a> {
            fn visit_path(&mut self, p: &'ast Path) {
                path_root(p, self.0);
                visit::visit_path(self, p);
            }
        }
        {
            let mut v = SigV(&mut sig_e);
            for i in &sig.inputs {
                v.visit_fn_arg(i);
            }
            v.visit_generics(&sig.generics);
            v.visit_return_type(&sig.output);
        }
        // `mut` parameters: Verus wants them declared in the body
        let mut mut_params = String::new();
        for i in &sig.inputs {
            match i {
                FnArg::Typed(t) => {
                    if let Pat::Ident(p) = &*t.pat {
                        if let Some(m) = &p.mutability {
                            let (a, b) = br(m.span());
                            let _ = (a, b, &mut mut_params);
                        }
                    }
                }
                FnArg::Receiver(_) => {}
            }
        }
        e.0.extend(sig_e.0);
        if let Some(n) = rename {
            let (a, b) = br(sig.ident.span());
            e.rep(a, b, n.to_string());
        }
        let has_spec = !c.requires.trim().is_empty() || !c.ensures.is_empty() || !c.decreases.trim().is_empty();
        let mut spec = String::new();
        if !c.requires.trim().is_empty() {
            spec.push_str(&format!("\n//@req {fid}\n    requires\n{}", c.requires));
        }
        if !c.ensures.is_empty() {
            spec.push_str("\n    ensures\n");
            for (tags, t) in &c.ensures {
                spec.push_str(&format!("//@ens {}\n{}", tags.join(","), t));
            }
            spec.push_str("//@endens\n");
        }
        if !c.decreases.trim().is_empty() {
            spec.push_str(&format!("    decreases {}\n", c.decreases.trim()));
        }
        if let ReturnType::Type(arrow, ty) = &sig.output {
            let name = c.ret.clone().unwrap_or("r".into());
            if has_spec || contracted {
                let (a, b) = br(ty.span());
                if let Some(it) = iter_item {
                    // Self::Item
                    let t = src[a..b].replace("Self::Item", it);
                    e.0.retain(|x| !(x.start >= a && x.end <= b));
                    e.rep(a, b, format!("({name}: {t})"));
                } else {
                    e.ins(a, format!("({name}: "));
                    e.ins(b, ")");
                }
            } else if let Some(it) = iter_item {
                let (a, b) = br(ty.span());
                let t = src[a..b].replace("Self::Item", it);
                e.rep(a, b, t);
            }
            let _ = arrow;
        }
        let mut calls = vec![];
        let mut nloops = String::new();
        let mut hash = String::new();
        let mut brk_proofs: Vec<(String, String)> = vec![];
        let text = if let Some(b) = block {
            hash = fnv(&toks(b));
            let (blo, bhi) = br(b.span());
            e.ins(blo, spec.clone());
            if mode == "verified" {
                let mut w = BodyVisitor::new(self, src);
                w.collect_loops = true;
                w.closures = c.closures.clone();
                w.visit_block(b);
                for k in c.closures.keys() {
                    if *k >= w.nclosure {
                        problems.push(format!("lost anchor: closure {k} of {fid}"));
                    }
                }
                calls = w.calls.iter().cloned().collect();
                problems.extend(w.problems.iter().cloned());
                nloops = w.kinds.join(" ");
                e.0.extend(w.e.0.clone());
                let loops = w.loops.clone();
                for (k, t) in &c.loops {
                    match loops.get(*k) {
                        Some((lblo, _)) => e.ins(*lblo, format!("\n//@loop {k}\n{t}//@endloop\n")),
                        None => problems.push(format!("lost anchor: loop {k} of {fid}")),
                    }
                }
                let mut front = vec![];
                for (anchor, t) in &c.proofs {
                    if anchor.starts_with("loop") && anchor.ends_with(".break") {
                        brk_proofs.push((anchor[4..anchor.len() - 6].to_string(), t.clone()));
                        continue;
                    }
                    match find_anchor(anchor, b, src, &loops) {
                        Some((at, wrap)) => {
                            let x = crate::edits::Edit { start: at, end: at, text: format!("\n{}{t}{}\n", wrap.0, wrap.1) };
                            if anchor.starts_with("before") {
                                front.push(x);
                            } else {
                                e.0.push(x);
                            }
                        }
                        None => problems.push(format!("lost anchor: `{anchor}` in {fid}")),
                    }
                }
                if !self.smoke.is_empty() {
                    let anchor = if self.smoke == "start" { "start" } else { "before-tail" };
                    if let Some((at, wrap)) = find_anchor(anchor, b, src, &loops) {
                        front.insert(0, crate::edits::Edit { start: at, end: at, text: format!("\n{} assert(false); {}\n", wrap.0, wrap.1) });
                    }
                }
                if !key.starts_with("trait ") && !key.contains(":Add") && !key.contains(":From<") && !key.contains(":TryFrom<") {
                    let at = blo + 1;
                    front.insert(0, crate::edits::Edit { start: at, end: at, text: "\nproof { crate::order::mark(); }\n".into() });
                }
                if !c.hide.is_empty() {
                    let t: String = c.hide.iter().map(|x| format!("hide({x});\n")).collect();
                    front.insert(0, crate::edits::Edit { start: blo + 1, end: blo + 1, text: format!("\n{t}") });
                }
                e.0.splice(0..0, front);
                match e.apply(src, lo, hi) {
                    Ok(s) => s,
                    Err(x) => {
                        problems.push(x);
                        mode = "undecided";
                        reason = "extraction failed".into();
                        let mut e2 = e.clone();
                        e2.0.retain(|x| x.end <= blo);
                        e2.rep(blo, bhi, "{ unimplemented!() }");
                        e2.apply(src, lo, hi).unwrap_or_default()
                    }
                }
            } else {
                e.rep(blo, bhi, "{ unimplemented!() }");
                e.apply(src, lo, hi).unwrap_or_default()
            }
        } else {
            e.ins(hi - 1, spec.clone());
            e.apply(src, lo, hi).unwrap_or_default()
        };
        let mut text = text;
        for (k, t) in &brk_proofs {
            text = text.replace(&format!("/*@brk {k}*/"), &format!("\n{t}\n"));
        }
        for (from, to) in &c.replaces {
            let (from, to) = (from.trim(), to.trim_end());
            if mode == "verified" {
                if text.matches(from).count() == 1 {
                    text = text.replacen(from, to, 1);
                } else {
                    problems.push(format!("lost anchor: replacement in {fid}"));
                }
            }
        }
        let line = sig.ident.span().start().line;
        self.fns.push(FnInfo {
            key: fid.clone(),
            module: f.module.clone(),
            file: f.path.clone(),
            line,
            contracted,
            mode: mode.into(),
            reason,
            props: c.props.clone(),
            problems,
            calls,
            loops: nloops,
            hash,
            is_priv,
        });
        let ext = if mode == "trusted" || mode == "undecided" || mode == "uncontracted" {
            "#[verifier::external_body]\n"
        } else {
            ""
        };
        format!(
            "\n//@fn {fid}\n{}{ext}{vis}{}\n//@endfn\n",
            c.attrs,
            text.trim()
        )
    }

    pub fn report(&self, text: &str) -> serde_json::Value {
        let mut fns: Vec<serde_json::Value> = vec![];
        let mut cur: Option<(String, usize)> = None;
        let mut ranges: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        let mut clauses: Vec<serde_json::Value> = vec![];
        let mut ens: Option<(usize, Vec<String>)> = None;
        for (n, l) in text.lines().enumerate() {
            let n = n + 1;
            if let Some(k) = l.strip_prefix("//@fn ") {
                cur = Some((k.to_string(), n));
            } else if l.starts_with("//@endfn") {
                if let Some((k, s)) = cur.take() {
                    ranges.insert(k, (s, n));
                }
            } else if let Some(t) = l.strip_prefix("//@ens ") {
                if let (Some((k, _)), Some((s, tags))) = (&cur, ens.take()) {
                    clauses.push(serde_json::json!({"fn": k, "lines": [s, n - 1], "tags": tags}));
                }
                ens = Some((n, t.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()));
            } else if l.starts_with("//@ens") && !l.starts_with("//@endens") {
                if let (Some((k, _)), Some((s, tags))) = (&cur, ens.take()) {
                    clauses.push(serde_json::json!({"fn": k, "lines": [s, n - 1], "tags": tags}));
                }
                ens = Some((n, vec![]));
            } else if l.starts_with("//@endens") {
                if let (Some((k, _)), Some((s, tags))) = (&cur, ens.take()) {
                    clauses.push(serde_json::json!({"fn": k, "lines": [s, n - 1], "tags": tags}));
                }
            }
        }
        for i in &self.fns {
            let r = ranges.get(&i.key).cloned().unwrap_or((0, 0));
            fns.push(serde_json::json!({
                "key": i.key, "module": i.module, "file": i.file, "line": i.line,
                "contracted": i.contracted, "mode": i.mode, "reason": i.reason, "props": i.props,
                "problems": i.problems, "calls": i.calls, "loops": i.loops, "hash": i.hash, "lines": [r.0, r.1],
                "private": i.is_priv,
            }));
        }
        serde_json::json!({
            "functions": fns,
            "clauses": clauses,
            "problems": self.problems,
            "skipped": self.skipped.iter().map(|(a, b)| serde_json::json!({"item": a, "reason": b})).collect::<Vec<_>>(),
        })
    }
}

fn const_int(x: &Expr) -> Option<i128> {
    match x {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => Some(-const_int(expr)?),
        Expr::Paren(p) => const_int(&p.expr),
        Expr::Group(p) => const_int(&p.expr),
        Expr::Cast(c) => const_int(&c.expr),
        Expr::Binary(b) => {
            let (l, r) = (const_int(&b.left)?, const_int(&b.right)?);
            match b.op {
                BinOp::Add(_) => l.checked_add(r),
                BinOp::Sub(_) => l.checked_sub(r),
                BinOp::Mul(_) => l.checked_mul(r),
                BinOp::BitOr(_) => Some(l | r),
                BinOp::BitAnd(_) => Some(l & r),
                BinOp::Shl(_) if (0..64).contains(&r) => Some(l << r),
                BinOp::Shr(_) if (0..64).contains(&r) => Some(l >> r),
                _ => None,
            }
        }
        _ => None,
    }
}

fn debug_bounds(
    b: &Punctuated<TypeParamBound, Token![+]>,
    e: &mut Edits,
    colon: Option<(usize, usize)>,
) {
    let keep: Vec<&TypeParamBound> = b
        .iter()
        .filter(|x| match x {
            TypeParamBound::Trait(t) => {
                !DROPPED_TRAITS.iter().chain(FMT_TRAITS).any(|x| t.path.segments.last().unwrap().ident == x)
            }
            _ => true,
        })
        .collect();
    if keep.len() == b.len() || b.is_empty() {
        return;
    }
    let (a, z) = br(b.span());
    let txt = keep
        .iter()
        .map(|k| k.to_token_stream().to_string())
        .collect::<Vec<_>>()
        .join(" + ");
    if keep.is_empty() {
        if let Some((c0, _)) = colon {
            e.rep(c0, z, "");
            return;
        }
    }
    e.rep(a, z, txt);
}

fn use_tree(t: &UseTree, e: &mut Edits) -> bool {
    match t {
        UseTree::Path(p) => {
            let id = p.ident.to_string();
            if MACRO_CRATES.contains(&id.as_str()) {
                return false;
            }
            if STUB_CRATES.contains(&id.as_str()) {
                let (a, _) = br(p.ident.span());
                e.ins(a, "crate::vx::");
            }
            true
        }
        UseTree::Group(g) => {
            let mut any = true;
            for i in &g.items {
                any &= use_tree(i, e);
            }
            any
        }
        _ => true,
    }
}

/// A format string as literal pieces and `{:0<width>X}` / `{:0<width>x}` pieces.
fn format_pieces(s: &str) -> Option<Vec<(String, Option<(usize, bool)>)>> {
    let mut out = vec![];
    let mut lit = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                lit.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                lit.push('}');
            }
            '{' => {
                let mut spec = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => spec.push(c),
                    }
                }
                let x = spec.strip_prefix(":0")?;
                let upper = x.ends_with('X');
                let w = x.strip_suffix(['X', 'x'])?.parse().ok()?;
                if !lit.is_empty() {
                    out.push((std::mem::take(&mut lit), None));
                }
                out.push((String::new(), Some((w, upper))));
            }
            '}' => return None,
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        out.push((lit, None));
    }
    Some(out)
}

fn path_root(p: &Path, e: &mut Edits) {
    // `Iterator<Item = T>` as a bound
    if let Some(l) = p.segments.last() {
        if l.ident == "Iterator" {
            if let PathArguments::AngleBracketed(a) = &l.arguments {
                if let (1, Some(GenericArgument::AssocType(t))) = (a.args.len(), a.args.first()) {
                    let (lo, hi) = br(p.span());
                    e.rep(lo, hi, format!("crate::vx::VxIter<{}>", toks(&t.ty)));
                    return;
                }
            }
        }
    }
    if p.segments.len() > 1 {
        let id = p.segments[0].ident.to_string();
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let s: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
        if let ["fmt", "Formatter" | "Result" | "Error"] | ["core" | "std", "fmt", "Formatter" | "Result" | "Error"] = s.as_slice() {
            e.rep(br(p.segments[0].ident.span()).0, br(p.segments[s.len() - 2].ident.span()).1, "crate::vx::fmt");
            return;
        }
        if STUB_CRATES.contains(&id.as_str()) {
            e.ins(br(p.segments[0].ident.span()).0, "crate::vx::");
        }
    }
}

struct TypeVisitor<'a> {
    e: &'a mut Edits,
}
impl<'a, 'ast> Visit<'ast> for TypeVisitor<'a> {
    fn visit_path(&mut self, p: &'ast Path) {
        path_root(p, self.e);
        visit::visit_path(self, p);
    }
}

/// Splits off top-level `impl vstd::std_specs::...` blocks.
fn hoist(s: &str) -> (String, String) {
    let (mut rest, mut first) = (String::new(), String::new());
    let mut inside = false;
    for l in s.lines() {
        if l.starts_with("impl") && l.contains("vstd::std_specs::") {
            inside = true;
        }
        let o = if inside { &mut first } else { &mut rest };
        o.push_str(l);
        o.push('\n');
        if inside && l == "}" {
            inside = false;
        }
    }
    (rest, first)
}

type Anchor = (usize, (String, String));

fn find_anchor(anchor: &str, b: &Block, src: &str, loops: &[(usize, usize)]) -> Option<Anchor> {
    let w = || ("".to_string(), "".to_string());
    if anchor == "start" {
        return Some((br(b.span()).0 + 1, w()));
    }
    if anchor == "before-tail" {
        let s = b.stmts.last()?;
        return match s {
            Stmt::Expr(x, None) => Some((br(x.span()).0, w())),
            _ => Some((br(b.span()).1 - 1, w())),
        };
    }
    if let Some(r) = anchor.strip_prefix("loop") {
        if let Some((k, which)) = r.split_once('.') {
            let k: usize = k.parse().ok()?;
            let (lo, hi) = *loops.get(k)?;
            return match which {
                "start" => Some((lo + 1, w())),
                "end" => Some((hi - 1, w())),
                _ => None,
            };
        }
    }
    if let Some(r) = anchor.strip_prefix("before-loop") {
        // the innermost statement that contains the loop
        let k: usize = r.parse().ok()?;
        let (lo, _) = *loops.get(k)?;
        struct L {
            lo: usize,
            best: Option<(usize, usize)>,
        }
        impl<'ast> Visit<'ast> for L {
            fn visit_stmt(&mut self, s: &'ast Stmt) {
                let (a, b) = br(s.span());
                if a <= self.lo && self.lo < b {
                    self.best = Some((a, b));
                    visit::visit_stmt(self, s);
                }
            }
        }
        let mut v = L { lo, best: None };
        v.visit_block(b);
        return Some((v.best?.0, w()));
    }
    if let Some(r) = anchor.strip_prefix("after-loop") {
        let k: usize = r.parse().ok()?;
        let (_, hi) = *loops.get(k)?;
        return Some((hi, w()));
    }
    let (kind, snip) = if let Some(r) = anchor.strip_prefix("before ") {
        (0, norm(r))
    } else if let Some(r) = anchor.strip_prefix("after ") {
        (1, norm(r))
    } else {
        return None;
    };
    // statement whose tokens start with the snippet; nth occurrence with `#n `
    let (nth, snip) = match snip.strip_prefix('#') {
        Some(r) => {
            let n: usize = r[..1].parse().ok()?;
            (n, r[1..].to_string())
        }
        None => (0, snip),
    };
    struct F<'a> {
        snip: &'a str,
        src: &'a str,
        found: Vec<(usize, usize)>,
        /// innermost statements that contain the snippet
        inside: Vec<(usize, usize)>,
    }
    impl<'a, 'ast> Visit<'ast> for F<'a> {
        fn visit_stmt(&mut self, s: &'ast Stmt) {
            let (a, b) = br(s.span());
            let t = norm(&strip_comments(&self.src[a..b]));
            if t.starts_with(self.snip) {
                self.found.push((a, b));
            }
            let n = self.inside.len();
            visit::visit_stmt(self, s);
            if n == self.inside.len() && t.contains(self.snip) {
                self.inside.push((a, b));
            }
        }
    }
    let mut v = F {
        snip: &snip,
        src,
        found: vec![],
        inside: vec![],
    };
    v.visit_block(b);
    let (a, z) = match v.found.get(nth) {
        Some(x) => *x,
        None if v.found.is_empty() && nth == 0 && v.inside.len() == 1 => v.inside[0],
        None => return None,
    };
    Some((if kind == 0 { a } else { z }, w()))
}

fn strip_comments(s: &str) -> String {
    s.lines()
        .map(|l| match l.find("//") {
            Some(i) => &l[..i],
            None => l,
        })
        .collect::<Vec<_>>()
        .join("\n")
}

struct BodyVisitor<'a> {
    cx: &'a Cx,
    src: &'a str,
    e: Edits,
    problems: Vec<String>,
    calls: BTreeSet<String>,
    loops: Vec<(usize, usize)>, // body brace ranges
    kinds: Vec<&'static str>,   // and the kinds of these loops
    collect_loops: bool,
    range_consts: BTreeMap<String, (String, String)>,
    /// variable assigned by `break value` of the innermost value loop
    break_var: Vec<Option<(String, usize)>>,
    nbrk: usize,
    fresh: usize,
    closures: BTreeMap<usize, String>,
    nclosure: usize,
    /// variables that hold one of two closures without captures: condition, and the two closures
    either: BTreeMap<String, (String, ExprClosure, ExprClosure)>,
}

impl<'a> BodyVisitor<'a> {
    fn new(cx: &'a Cx, src: &'a str) -> Self {
        BodyVisitor {
            cx,
            src,
            e: Edits::default(),
            problems: vec![],
            calls: BTreeSet::new(),
            loops: vec![],
            kinds: vec![],
            collect_loops: false,
            range_consts: BTreeMap::new(),
            break_var: vec![],
            nbrk: 0,
            fresh: 0,
            closures: BTreeMap::new(),
            nclosure: 0,
            either: BTreeMap::new(),
        }
    }

    fn mac(&mut self, m: &Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (lo, hi) = br(m.span());
        let (olo, ohi) = {
            let d = m.delimiter.span();
            (br(d.open()), br(d.close()))
        };
        let args = || Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone());
        match name.as_str() {
            "iter_try" => {
                self.e.rep(lo, olo.1, "(match ");
                match parse2::<Expr>(m.tokens.clone()) {
                    Ok(x) => self.visit_expr(&x),
                    Err(e) => self.problems.push(format!("iter_try!: {e}")),
                }
                self.e.rep(
                    ohi.0,
                    hi,
                    " { Ok(x__) => x__, Err(e__) => return Some(Err(e__.into())) })",
                );
            }
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => match args() {
                Ok(a) if !a.is_empty() => {
                    self.e.rep(lo, olo.1, "crate::vx::rt_assert(");
                    if name.ends_with("assert") {
                        self.visit_expr(&a[0]);
                        self.e.rep(br(a[0].span()).1, hi, ")");
                    } else {
                        let op = if name.ends_with("eq") { " == " } else { " != " };
                        self.visit_expr(&a[0]);
                        self.e.rep(br(a[0].span()).1, br(a[1].span()).0, op);
                        self.visit_expr(&a[1]);
                        self.e.rep(br(a[1].span()).1, hi, ")");
                    }
                }
                _ => self.problems.push(format!("{name}!: not understood")),
            },
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                self.e.rep(lo, hi, "crate::vx::rt_unreachable()");
            }
            "matches" => {
                let p = |input: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = input.parse()?;
                    input.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(Token![if]) {
                        input.parse::<Token![if]>()?;
                        Some(input.parse()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = input.parse()?;
                    Ok((e, p, g))
                };
                match p.parse2(m.tokens.clone()) {
                    Ok((x, p, g)) => {
                        self.e.rep(lo, olo.1, "(match ");
                        self.visit_expr(&x);
                        self.e.rep(br(x.span()).1, br(p.span()).0, " { ");
                        let mut end = br(p.span()).1;
                        if let Some(g) = &g {
                            self.visit_expr(g);
                            end = br(g.span()).1;
                        }
                        self.e.rep(end, hi, " => true, _ => false })");
                    }
                    Err(e) => self.problems.push(format!("matches!: {e}")),
                }
            }
            "vec" => {
                // vec![x; n] / vec![a, b]: kept
                if let Ok(a) = args() {
                    for x in &a {
                        self.visit_expr(x);
                    }
                } else {
                    let p = |input: parse::ParseStream| -> Result<(Expr, Expr)> {
                        let a: Expr = input.parse()?;
                        input.parse::<Token![;]>()?;
                        let b: Expr = input.parse()?;
                        Ok((a, b))
                    };
                    if let Ok((a, b)) = p.parse2(m.tokens.clone()) {
                        self.e.rep(lo, olo.1, "crate::vx::vec_from_elem(");
                        self.visit_expr(&a);
                        self.e.rep(br(a.span()).1, br(b.span()).0, ", ");
                        self.visit_expr(&b);
                        self.e.rep(ohi.0, hi, ")");
                    }
                }
            }
            "offset_of" | "span_of" => {
                let s = norm(&m.tokens.to_string());
                let (t, fld) = s.split_once(',').unwrap_or((&s, ""));
                match self.cx.offset_of(t, fld) {
                    Some((a, b)) => {
                        if name == "offset_of" {
                            self.e.rep(lo, hi, format!("{a}usize"));
                        } else {
                            self.e.rep(lo, hi, format!("{a}usize..{b}usize"));
                        }
                    }
                    None if name == "offset_of" => {
                        self.e.rep(lo, hi, "crate::vx::unspecified_usize()");
                    }
                    None => self.problems.push(format!("{name}!({s}) not understood")),
                }
            }
            "write" => match args() {
                Ok(a) if a.len() >= 2 => {
                    let dst = match &a[0] {
                        Expr::Path(p) => toks(p),
                        _ => {
                            self.problems.push("write!: destination not understood".into());
                            return;
                        }
                    };
                    let lit = match &a[1] {
                        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                        _ => {
                            self.problems.push("write!: format not understood".into());
                            return;
                        }
                    };
                    let pieces = match format_pieces(&lit) {
                        Some(p) => p,
                        None => {
                            self.problems.push(format!("write!: format {lit:?} not understood"));
                            return;
                        }
                    };
                    let mut pos = lo;
                    let mut pre = String::from("(");
                    let mut n = 2;
                    let mut close = 0;
                    for (text, spec) in &pieces {
                        if close > 0 {
                            pre.push_str(" { Err(e__) => Err(e__), Ok(()) => ");
                        }
                        close += 1;
                        match spec {
                            None => pre.push_str(&format!("match {dst}.vx_lit({text:?})")),
                            Some((width, upper)) => {
                                if n >= a.len() {
                                    self.problems.push("write!: too few arguments".into());
                                    return;
                                }
                                let (xlo, xhi) = br(a[n].span());
                                pre.push_str(&format!("match {dst}.vx_hex({width}, {upper}, crate::vx::fmt::VxHex::vx_u64("));
                                self.e.rep(pos, xlo, std::mem::take(&mut pre));
                                self.visit_expr(&a[n]);
                                pos = xhi;
                                pre.push_str("))");
                                n += 1;
                            }
                        }
                    }
                    if n != a.len() || close == 0 {
                        self.problems.push("write!: arguments not understood".into());
                        return;
                    }
                    pre.push_str(" { Err(e__) => Err(e__), Ok(()) => Ok(()) }");
                    pre.push_str(&" }".repeat(close - 1));
                    pre.push(')');
                    self.e.rep(pos, hi, pre);
                }
                _ => self.problems.push("write!: not understood".into()),
            },
            _ => self.problems.push(format!("macro {name}! not supported")),
        }
    }

    fn index_range(&mut self, x: &ExprIndex, mutable: bool) -> bool {
        // X[a..b] -> X.vx_range(a, b) etc.  Returns whether it was rewritten.
        let m = if mutable { "_mut" } else { "" };
        let (_, rhi) = br(x.expr.span());
        let hi = br(x.span()).1;
        match &*x.index {
            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                self.visit_expr(&x.expr);
                match (&r.start, &r.end) {
                    (Some(a), Some(b)) => {
                        self.e.rep(rhi, br(a.span()).0, format!(".vx_range{m}("));
                        self.visit_expr(a);
                        self.e.rep(br(a.span()).1, br(b.span()).0, ", ");
                        self.visit_expr(b);
                        self.e.rep(br(b.span()).1, hi, ")");
                    }
                    (Some(a), None) => {
                        self.e.rep(rhi, br(a.span()).0, format!(".vx_from{m}("));
                        self.visit_expr(a);
                        self.e.rep(br(a.span()).1, hi, ")");
                    }
                    (None, Some(b)) => {
                        self.e.rep(rhi, br(b.span()).0, format!(".vx_to{m}("));
                        self.visit_expr(b);
                        self.e.rep(br(b.span()).1, hi, ")");
                    }
                    (None, None) => {
                        self.e.rep(rhi, hi, format!(".vx_from{m}(0)"));
                    }
                }
                true
            }
            Expr::Macro(mm) if mm.mac.path.is_ident("span_of") => {
                self.visit_expr(&x.expr);
                let (ilo, _) = br(mm.span());
                self.e.rep(rhi, ilo, format!(".vx_rng{m}("));
                self.mac(&mm.mac);
                self.e.rep(br(mm.span()).1, hi, ")");
                true
            }
            Expr::MethodCall(mc) if mc.method == "clone" => {
                self.visit_expr(&x.expr);
                let (ilo, ihi) = br(mc.span());
                self.e.rep(rhi, ilo, format!(".vx_rng{m}("));
                self.visit_expr(&x.index);
                self.e.rep(ihi, hi, ")");
                true
            }
            _ => false,
        }
    }
}

fn closure1(x: &Expr) -> Option<&ExprClosure> {
    match x {
        Expr::Closure(c) if c.inputs.len() == 1 => Some(c),
        _ => None,
    }
}

impl<'a, 'ast> Visit<'ast> for BodyVisitor<'a> {
    fn visit_item_const(&mut self, c: &'ast ItemConst) {
        if let Type::Path(p) = &*c.ty {
            let l = p.path.segments.last().unwrap();
            if l.ident == "RangeInclusive" {
                if let Expr::Range(r) = &*c.expr {
                    if let (Some(a), Some(b)) = (&r.start, &r.end) {
                        let (a0, a1) = br(a.span());
                        let (b0, b1) = br(b.span());
                        self.range_consts.insert(
                            c.ident.to_string(),
                            (self.src[a0..a1].to_string(), self.src[b0..b1].to_string()),
                        );
                        let (lo, hi) = br(c.span());
                        self.e.rep(lo, hi, "");
                        return;
                    }
                }
            }
        }
        for a in &c.attrs {
            let (lo, hi) = br(a.span());
            self.e.rep(lo, hi, "");
        }
        visit::visit_item_const(self, c);
    }

    fn visit_attribute(&mut self, _: &'ast Attribute) {}

    fn visit_path(&mut self, p: &'ast Path) {
        path_root(p, &mut self.e);
        visit::visit_path(self, p);
    }

    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let k = self.nclosure;
        self.nclosure += 1;
        if let Some(h) = self.closures.get(&k).cloned() {
            let mut h = h.trim().to_string();
            for (i, p) in c.inputs.iter().enumerate() {
                match pat_idents(p).as_slice() {
                    [x] => h = h.replace(&format!("${i}"), x),
                    _ => self.problems.push("closure parameter that is not a plain variable".into()),
                }
            }
            let (lo, hi) = br(c.span());
            let (blo, _) = br(c.body.span());
            self.e.rep(lo, blo, format!("{h} {{ "));
            self.visit_expr(&c.body);
            self.e.ins(hi, " }");
            return;
        }
        visit::visit_expr_closure(self, c);
    }

    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) {
        self.mac(&m.mac);
    }
    fn visit_stmt_macro(&mut self, m: &'ast StmtMacro) {
        self.mac(&m.mac);
    }

    fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
        if let Expr::Index(x) = &*r.expr {
            let (lo, _) = br(r.span());
            let (xlo, _) = br(x.span());
            let n = self.e.0.len();
            if self.index_range(x, r.mutability.is_some()) {
                self.e.rep(lo, xlo, "");
                return;
            }
            self.e.0.truncate(n);
        }
        visit::visit_expr_reference(self, r);
    }

    fn visit_expr_lit(&mut self, l: &'ast ExprLit) {
        if let Lit::ByteStr(b) = &l.lit {
            let (lo, hi) = br(l.span());
            let t = b.value().iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ");
            self.e.rep(lo, hi, format!("&[{t}]"));
        }
    }
    fn visit_expr_index(&mut self, x: &'ast ExprIndex) {
        let n = self.e.0.len();
        if self.index_range(x, false) {
            return;
        }
        self.e.0.truncate(n);
        visit::visit_expr_index(self, x);
    }

    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if let Some((cond, a, b)) = p.path.get_ident().and_then(|i| self.either.get(&i.to_string()).cloned()) {
                // a call of one of two closures: evaluate the arguments, then the body of the chosen one
                let (lo, hi) = br(c.span());
                self.fresh += 1;
                let k = self.fresh;
                let names: Vec<String> = (0..c.args.len()).map(|i| format!("arg{i}__{k}")).collect();
                let mut pos = lo;
                for (n, x) in names.iter().zip(c.args.iter()) {
                    let (xlo, xhi) = br(x.span());
                    self.e.rep(pos, xlo, format!("{}let {n} = ", if pos == lo { "({ " } else { "; " }));
                    self.visit_expr(x);
                    pos = xhi;
                }
                let mut t = format!("{}if {cond} {{ ", if pos == lo { "({ " } else { "; " });
                for (n, cl) in [&a, &b].iter().enumerate() {
                    if cl.inputs.len() != names.len() {
                        self.problems.push("call of a closure with other arguments".into());
                    }
                    if n == 1 {
                        t.push_str(" } else { ");
                    }
                    for (p, x) in cl.inputs.iter().zip(&names) {
                        let (plo, phi) = br(p.span());
                        t.push_str(&format!("let {} = {x}; ", &self.src[plo..phi]));
                    }
                    let mut w = BodyVisitor::new(self.cx, self.src);
                    w.visit_expr(&cl.body);
                    self.problems.extend(w.problems.clone());
                    self.calls.extend(w.calls.clone());
                    let (blo, bhi) = br(cl.body.span());
                    match w.e.apply(self.src, blo, bhi) {
                        Ok(s) => t.push_str(&s),
                        Err(x) => self.problems.push(x),
                    }
                }
                t.push_str(" } })");
                self.e.rep(pos, hi, t);
                return;
            }
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let (lo, hi) = br(c.span());
            let (flo, fhi) = br(c.func.span());
            if let Some(l) = segs.last() {
                self.calls.insert(l.clone());
            }
            let s: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
            match s.as_slice() {
                ["fmt", t, "fmt"] | ["core" | "std", "fmt", t, "fmt"] if FMT_TRAITS.contains(t) => {
                    self.e.rep(flo, fhi, "crate::vx::fmt::delegate");
                    for x in &c.args {
                        self.visit_expr(x);
                    }
                    return;
                }
                ["mem", "size_of"] | ["core", "mem", "size_of"] | ["size_of"] => {
                    if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() {
                            match self.cx.exact_size(t) {
                                Some(n) => {
                                    self.e.rep(lo, hi, format!("{n}usize"));
                                }
                                None => {
                                    self.e.rep(lo, hi, "crate::vx::unspecified_usize()");
                                }
                            }
                            return;
                        }
                    }
                }
                [t @ ("u16" | "u32" | "u64" | "i64" | "i32" | "i16"), m @ ("from_le_bytes" | "from_be_bytes")] => {
                    self.e.rep(flo, fhi, format!("crate::vx::{t}_{m}"));
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    return;
                }
                [t @ ("u8" | "u16" | "u32" | "u64" | "usize" | "i64"), "try_from"] => {
                    self.e.rep(flo, fhi, format!("<{t} as crate::vx::VxTryFrom<_>>::vx_try_from"));
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    return;
                }
                ["U16StrLe"] if c.args.len() == 1 && matches!(&c.args[0], Expr::Reference(_)) => {
                    self.e.rep(flo, fhi, "crate::vx::nt_string::u16strle::vx_u16strle");
                    self.visit_expr(&c.args[0]);
                    return;
                }
                ["usize" | "u64" | "u32" | "u16" | "cmp", m @ ("min" | "max")]
                | ["core" | "std", "cmp", m @ ("min" | "max")] => {
                    self.e.rep(flo, fhi, format!("crate::vx::vx_{m}"));
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    return;
                }
                _ => {}
            }
        }
        visit::visit_expr_call(self, c);
    }

    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        self.calls.insert(c.method.to_string());
        let (lo, hi) = br(c.span());
        let (_, rhi) = br(c.receiver.span());
        let m = c.method.to_string();
        match m.as_str() {
            "ok_or_else" | "unwrap_or_else" if c.args.len() == 1 => {
                if let Expr::Closure(cl) = &c.args[0] {
                    if cl.inputs.is_empty() {
                        self.visit_expr(&c.receiver);
                        let (mlo, mhi) = br(c.method.span());
                        self.e.rep(mlo, mhi, m.trim_end_matches("_else"));
                        let (a, _) = br(cl.span());
                        let (b, _) = br(cl.body.span());
                        self.e.rep(a, b, "");
                        self.visit_expr(&cl.body);
                        return;
                    }
                }
            }
            "and_then" | "map" | "is_some_and" if c.args.len() == 1 => {
                if let Some(cl) = closure1(&c.args[0]) {
                    self.e.ins(lo, "(match ");
                    self.visit_expr(&c.receiver);
                    let pat = {
                        let (a, b) = br(cl.inputs[0].span());
                        self.src[a..b].to_string()
                    };
                    let (blo, bhi) = br(cl.body.span());
                    let (w, z, n) = match m.as_str() {
                        "map" => ("Some(", ")", "None"),
                        "and_then" => ("", "", "None"),
                        _ => ("", "", "false"),
                    };
                    self.e
                        .rep(rhi, blo, format!(" {{ Some({pat}) => {w}"));
                    self.visit_expr(&cl.body);
                    self.e.rep(bhi, hi, format!("{z}, None => {n} }})"));
                    return;
                }
            }
            "map_err" if c.args.len() == 1 => {
                let a = &c.args[0];
                self.e.ins(lo, "(match ");
                self.visit_expr(&c.receiver);
                if let Some(cl) = closure1(a) {
                    let (plo, phi) = br(cl.inputs[0].span());
                    let pat = self.src[plo..phi].to_string();
                    let (blo, bhi) = br(cl.body.span());
                    self.e
                        .rep(rhi, blo, format!(" {{ Ok(x__) => Ok(x__), Err({pat}) => Err("));
                    self.visit_expr(&cl.body);
                    self.e.rep(bhi, hi, ") })");
                } else {
                    let (alo, ahi) = br(a.span());
                    self.e.rep(rhi, alo, " { Ok(x__) => Ok(x__), Err(e__) => Err(");
                    self.visit_expr(a);
                    self.e.rep(ahi, hi, "(e__)) })");
                }
                return;
            }
            "contains" if c.args.len() == 1 => {
                if let Expr::Path(p) = &*c.receiver {
                    if let Some(id) = p.path.get_ident() {
                        if let Some((a, b)) = self.range_consts.get(&id.to_string()).cloned() {
                            let arg = match &c.args[0] {
                                Expr::Reference(r) => &*r.expr,
                                x => x,
                            };
                            let (x, y) = br(arg.span());
                            let t = self.src[x..y].to_string();
                            self.e.rep(lo, hi, format!("({a} <= {t} && {t} <= {b})"));
                            return;
                        }
                    }
                }
            }
            "collect" if c.args.is_empty() => {
                // `X.chunks_exact(N).map(F).collect()`
                if let Expr::MethodCall(mp) = &*c.receiver {
                    if let (true, 1, Expr::MethodCall(ch)) = (mp.method == "map", mp.args.len(), &*mp.receiver) {
                        if ch.method == "chunks_exact" && ch.args.len() == 1 {
                            self.e.ins(lo, "crate::vx::vx_chunks_map(");
                            self.visit_expr(&ch.receiver);
                            let (_, xhi) = br(ch.receiver.span());
                            let (nlo, nhi) = br(ch.args[0].span());
                            self.e.rep(xhi, nlo, ".vx_all(), ");
                            self.visit_expr(&ch.args[0]);
                            let (flo, fhi) = br(mp.args[0].span());
                            self.e.rep(nhi, flo, ", ");
                            self.visit_expr(&mp.args[0]);
                            self.e.rep(fhi, hi, ")");
                            return;
                        }
                    }
                }
            }
            "encode_utf16" if c.args.is_empty() => {
                self.visit_expr(&c.receiver);
                let (mlo, mhi) = br(c.method.span());
                self.e.rep(mlo, mhi, "vx_encode_utf16");
                return;
            }
            "read" | "read_exact" if !c.args.is_empty() => {
                // `&mut X` of a byte container: the deref/unsize coercion is made explicit
                self.visit_expr(&c.receiver);
                for (i, a) in c.args.iter().enumerate() {
                    match a {
                        Expr::Reference(r) if i + 1 == c.args.len() && r.mutability.is_some() && matches!(&*r.expr, Expr::Path(_)) => {
                            let (alo, ahi) = br(a.span());
                            let (xlo, xhi) = br(r.expr.span());
                            let t = self.src[xlo..xhi].to_string();
                            self.e.rep(alo, ahi, format!("{t}.vx_all_mut()"));
                        }
                        _ => self.visit_expr(a),
                    }
                }
                return;
            }
            "try_into" if c.args.is_empty() => {
                self.e.ins(lo, "crate::vx::vx_try_into(");
                self.visit_expr(&c.receiver);
                self.e.rep(rhi, hi, ")");
                return;
            }
            _ => {}
        }
        visit::visit_expr_method_call(self, c);
    }

    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        // `C(P) if G => A, C(v) => B` with a refutable `P`, as the last two arms and with no binding of `P` used
        // in `A`, becomes `C(m) => { let g = match &m { P => G, _ => false }; if g { A } else { let v = m; B } }`:
        // the verifier does not resolve mutable borrows after a guard on a refutable nested pattern.
        let n = m.arms.len();
        if n >= 2 {
            let (a, b) = (&m.arms[n - 2], &m.arms[n - 1]);
            if let (Some((_, g)), None, Pat::TupleStruct(pa), Pat::TupleStruct(pb)) = (&a.guard, &b.guard, &a.pat, &b.pat) {
                if toks(&pa.path) == toks(&pb.path) && pa.elems.len() == 1 && pb.elems.len() == 1 {
                    if let (Pat::TupleStruct(inner), Pat::Ident(v)) = (&pa.elems[0], &pb.elems[0]) {
                        let binds = pat_idents(&pa.elems[0]);
                        let body = format!(" {} ", toks(&a.body));
                        if v.subpat.is_none() && !binds.iter().any(|x| body.contains(&format!(" {x} "))) {
                            visit::visit_expr(self, &m.expr);
                            for arm in &m.arms[..n - 2] {
                                visit::visit_arm(self, arm);
                            }
                            self.fresh += 1;
                            let mv = format!("m__{}", self.fresh);
                            let (ilo, ihi) = br(inner.span());
                            let inner_t = {
                                let mut e = Edits::default();
                                TypeVisitor { e: &mut e }.visit_pat(&pa.elems[0]);
                                e.apply(self.src, ilo, ihi).unwrap_or_default()
                            };
                            let (glo, ghi) = br(g.span());
                            self.e.rep(ilo, ihi, mv.clone());
                            // between `)` of the pattern and the guard
                            let (_, plo) = br(pa.span());
                            self.e.rep(plo, glo, format!(" => {{ let g__ = match &{mv} {{ {inner_t} => "));
                            self.visit_expr(g);
                            let (blo, bhi) = br(a.body.span());
                            self.e.rep(ghi, blo, ", _ => false }; if g__ { ");
                            self.visit_expr(&a.body);
                            let (clo, chi) = br(b.body.span());
                            let (vlo, vhi) = br(v.span());
                            let vt = self.src[vlo..vhi].to_string();
                            self.e.rep(bhi, clo, format!(" }} else {{ let {vt} = {mv}; "));
                            self.visit_expr(&b.body);
                            self.e.ins(chi, " } }");
                            return;
                        }
                    }
                }
            }
        }
        visit::visit_expr_match(self, m);
    }

    fn visit_local(&mut self, l: &'ast Local) {
        // `let f = if C { |..| A } else { |..| B };`: the closures have one type, so they capture nothing
        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
            if let Expr::If(i) = &*init.expr {
                let single = |b: &Block| match b.stmts.as_slice() {
                    [Stmt::Expr(Expr::Closure(c), None)] => Some(c.clone()),
                    _ => None,
                };
                let other = match &i.else_branch {
                    Some((_, x)) => match &**x {
                        Expr::Block(b) => single(&b.block),
                        _ => None,
                    },
                    None => None,
                };
                if let (Some(a), Some(b)) = (single(&i.then_branch), other) {
                    if !has_return(&a.body) && !has_return(&b.body) {
                        let name = p.ident.to_string();
                        let cond = format!("{name}__c");
                        let (lo, hi) = br(l.span());
                        let (clo, chi) = br(i.cond.span());
                        self.e.rep(lo, clo, format!("let {cond} = "));
                        self.visit_expr(&i.cond);
                        self.e.rep(chi, hi, ";");
                        self.either.insert(name, (cond, a, b));
                        return;
                    }
                }
            }
        }
        // `let x = loop { ... break v; ... };`
        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
            if let Expr::Loop(lp) = &*init.expr {
                if has_break_value(&lp.body) {
                    let name = format!("brk__{}", self.nbrk);
                    self.nbrk += 1;
                    let (lo, _) = br(l.span());
                    let (llo, _) = br(lp.span());
                    self.e.rep(lo, llo, format!("let {name};\n"));
                    if self.collect_loops {
                        self.loops.push(br(lp.body.span()));
                        self.kinds.push("loop");
                    }
                    self.break_var.push(Some((name.clone(), self.loops.len().wrapping_sub(1))));
                    self.visit_block(&lp.body);
                    self.break_var.pop();
                    let (_, lhi) = br(lp.span());
                    let (_, shi) = br(l.span());
                    let m = if p.mutability.is_some() { "mut " } else { "" };
                    self.e.rep(lhi, shi, format!("\nlet {m}{} = {name};", p.ident));
                    return;
                }
            }
        }
        visit::visit_local(self, l);
    }

    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
        if let Some(x) = &b.expr {
            if let Some(Some((v, k))) = self.break_var.last().cloned() {
                let (lo, hi) = br(b.span());
                let (xlo, xhi) = br(x.span());
                self.e.rep(lo, xlo, format!("{{ {v} = "));
                self.visit_expr(x);
                self.e.rep(xhi, hi, format!(";/*@brk {k}*/ break; }}"));
                return;
            }
        }
        visit::visit_expr_break(self, b);
    }

    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
        self.kinds.push("loop");
        self.loops.push(br(l.body.span()));
        self.break_var.push(None);
        visit::visit_expr_loop(self, l);
        self.break_var.pop();
    }
    fn visit_expr_while(&mut self, l: &'ast ExprWhile) {
        self.kinds.push(if matches!(&*l.cond, Expr::Let(_)) { "while-let" } else { "while" });
        self.loops.push(br(l.body.span()));
        self.break_var.push(None);
        visit::visit_expr_while(self, l);
        self.break_var.pop();
    }
    fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
        self.kinds.push("for");
        self.loops.push(br(l.body.span()));
        self.break_var.push(None);
        if matches!(&*l.expr, Expr::Range(_)) {
            visit::visit_expr_for_loop(self, l);
        } else {
            let n = self.fresh;
            self.fresh += 1;
            let (lo, _) = br(l.span());
            let (elo, ehi) = br(l.expr.span());
            let (plo, phi) = br(l.pat.span());
            let pat = self.src[plo..phi].to_string();
            self.e.rep(lo, elo, format!("{{ let mut it__{n} = "));
            self.visit_expr(&l.expr);
            self.e
                .ins(ehi, format!("; while let Some({pat}) = it__{n}.next() "));
            self.visit_block(&l.body);
            self.e.ins(br(l.span()).1, " }");
        }
        self.break_var.pop();
    }
}

fn pat_idents(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

fn has_return(x: &Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
        fn visit_expr_macro(&mut self, m: &'ast ExprMacro) {
            self.0 |= m.mac.path.is_ident("iter_try");
        }
    }
    let mut v = V(false);
    v.visit_expr(x);
    v.0
}

fn has_break_value(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
            if b.expr.is_some() {
                self.0 = true;
            }
        }
        fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

/// Does the source mention a function or method of this name?
fn mentions(src: &str, name: &str) -> bool {
    src.match_indices(name).any(|(i, _)| {
        let before = src[..i].trim_end();
        let after = src[i + name.len()..].chars().next().unwrap_or(' ');
        (before.ends_with('.') || before.ends_with("::")) && !after.is_alphanumeric() && after != '_'
    })
}
