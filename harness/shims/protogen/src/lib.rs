//! Generates Rust structs (prost naming conventions) and their wire codecs from proto3 files.
use std::collections::HashSet;
use std::fmt::Write;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(i64),
    Str(String),
    Sym(char),
}

fn lex(s: &str) -> Vec<Tok> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if ch == '"' || ch == '\'' {
            let mut s = String::new();
            i += 1;
            while c[i] != ch {
                s.push(c[i]);
                i += 1;
            }
            i += 1;
            out.push(Tok::Str(s));
        } else if ch.is_ascii_digit() || (ch == '-' && c[i + 1].is_ascii_digit()) {
            let mut s = String::new();
            s.push(ch);
            i += 1;
            while i < c.len() && c[i].is_ascii_alphanumeric() {
                s.push(c[i]);
                i += 1;
            }
            out.push(Tok::Num(if let Some(h) = s.strip_prefix("0x") { i64::from_str_radix(h, 16).unwrap() } else { s.parse().unwrap() }));
        } else if ch.is_ascii_alphabetic() || ch == '_' {
            let mut s = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] == '.') {
                s.push(c[i]);
                i += 1;
            }
            out.push(Tok::Id(s));
        } else {
            out.push(Tok::Sym(ch));
            i += 1;
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
enum Card {
    Single,
    Optional,
    Repeated,
}
#[derive(Clone, Debug)]
struct FieldD {
    card: Card,
    ty: String,
    name: String,
    tag: u32,
}
#[derive(Clone, Debug)]
enum Member {
    Field(FieldD),
    Oneof(String, Vec<FieldD>),
}
#[derive(Clone, Debug)]
struct Msg {
    name: String,
    members: Vec<Member>,
}
#[derive(Clone, Debug)]
struct En {
    name: String,
    vars: Vec<(String, i64)>,
}

struct P {
    t: Vec<Tok>,
    i: usize,
}
impl P {
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn id(&mut self) -> String {
        match self.next() {
            Tok::Id(s) => s,
            t => panic!("expected identifier, got {t:?}"),
        }
    }
    fn num(&mut self) -> i64 {
        match self.next() {
            Tok::Num(s) => s,
            t => panic!("expected number, got {t:?}"),
        }
    }
    fn sym(&mut self, c: char) {
        let t = self.next();
        assert_eq!(t, Tok::Sym(c));
    }
    fn peek_sym(&self, c: char) -> bool {
        self.t.get(self.i) == Some(&Tok::Sym(c))
    }
    fn skip_stmt(&mut self) {
        while self.next() != Tok::Sym(';') {}
    }
    fn opts(&mut self) {
        if self.peek_sym('[') {
            while self.next() != Tok::Sym(']') {}
        }
    }
}

fn field(p: &mut P, first: String) -> FieldD {
    let (card, ty) = match first.as_str() {
        "optional" => (Card::Optional, p.id()),
        "repeated" => (Card::Repeated, p.id()),
        _ => (Card::Single, first),
    };
    let name = p.id();
    p.sym('=');
    let tag = p.num() as u32;
    p.opts();
    p.sym(';');
    FieldD { card, ty, name, tag }
}

fn parse_enum(p: &mut P) -> En {
    let name = p.id();
    p.sym('{');
    let mut vars = vec![];
    while !p.peek_sym('}') {
        let v = p.id();
        if v == "option" || v == "reserved" {
            p.skip_stmt();
            continue;
        }
        p.sym('=');
        let n = p.num();
        p.opts();
        p.sym(';');
        vars.push((v, n));
    }
    p.sym('}');
    En { name, vars }
}

fn camel(s: &str) -> String {
    // heck::ToUpperCamelCase for the identifiers in use
    let mut out = String::new();
    for w in s.split('_').filter(|w| !w.is_empty()) {
        // split words at lower->upper boundaries
        let cs: Vec<char> = w.chars().collect();
        let mut words: Vec<String> = vec![];
        let mut cur = String::new();
        for (i, c) in cs.iter().enumerate() {
            if i > 0 {
                let prev = cs[i - 1];
                let nextlow = cs.get(i + 1).map(|c| c.is_lowercase()).unwrap_or(false);
                if (prev.is_lowercase() && c.is_uppercase()) || (prev.is_uppercase() && c.is_uppercase() && nextlow) {
                    words.push(std::mem::take(&mut cur));
                }
            }
            cur.push(*c);
        }
        words.push(cur);
        for w in words {
            let mut it = w.chars();
            if let Some(f) = it.next() {
                out.push(f.to_ascii_uppercase());
                out.extend(it.map(|c| c.to_ascii_lowercase()));
            }
        }
    }
    out
}
fn snake(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 && !out.ends_with('_') {
                out.push('_');
            }
            out.push(c.to_ascii_lowercase());
        } else {
            out.push(c);
        }
    }
    out
}
fn ident(s: &str) -> String {
    match s {
        "type" | "match" | "ref" | "mod" | "use" | "fn" | "struct" | "enum" | "in" | "loop" | "move" | "where" | "as"
        | "async" | "await" | "box" | "const" | "dyn" | "else" | "if" | "impl" | "let" | "pub" | "static" | "trait" => format!("r#{s}"),
        _ => s.to_string(),
    }
}
fn strip(en: &str, var: &str) -> String {
    match var.strip_prefix(en) {
        Some(r) if r.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) => r.to_string(),
        _ => var.to_string(),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Scalar,
    Fixed,
    Str,
    Bytes,
    Enum,
    Msg,
}
struct Gen<'a> {
    enums: &'a HashSet<String>,
}
impl<'a> Gen<'a> {
    fn kind(&self, t: &str) -> Kind {
        match t {
            "uint64" | "int64" | "uint32" | "int32" | "bool" | "sint32" | "sint64" => Kind::Scalar,
            "double" | "float" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64" => Kind::Fixed,
            "string" => Kind::Str,
            "bytes" => Kind::Bytes,
            t if self.enums.contains(t) => Kind::Enum,
            _ => Kind::Msg,
        }
    }
    fn rty(&self, t: &str) -> String {
        match t {
            "uint64" | "fixed64" => "u64".into(),
            "int64" | "sint64" | "sfixed64" => "i64".into(),
            "uint32" | "fixed32" => "u32".into(),
            "int32" | "sint32" | "sfixed32" => "i32".into(),
            "bool" => "bool".into(),
            "double" => "f64".into(),
            "float" => "f32".into(),
            "string" => "::std::string::String".into(),
            "bytes" => "::std::vec::Vec<u8>".into(),
            t if self.enums.contains(t) => "i32".into(),
            t => camel(t),
        }
    }
    fn to_u64(&self, t: &str, e: &str) -> String {
        match t {
            "uint64" => format!("{e}"),
            "int64" => format!("({e}) as u64"),
            "uint32" => format!("({e}) as u64"),
            "sint32" | "sint64" => format!("::prost::rt::zz_enc(({e}) as i64)"),
            "bool" => format!("({e}) as u64"),
            _ => format!("({e}) as i64 as u64"), // int32, enums
        }
    }
    fn from_u64(&self, t: &str, e: &str) -> String {
        match t {
            "uint64" => format!("{e}"),
            "int64" => format!("({e}) as i64"),
            "uint32" => format!("({e}) as u32"),
            "sint32" => format!("::prost::rt::zz_dec({e}) as i32"),
            "sint64" => format!("::prost::rt::zz_dec({e})"),
            "bool" => format!("({e}) != 0"),
            _ => format!("({e}) as i32"),
        }
    }
    fn put(&self, t: &str, tag: u32, r: &str) -> String {
        // r: expression of reference type
        match self.kind(t) {
            Kind::Scalar | Kind::Enum => format!("::prost::rt::put_scalar({tag}, {}, out);", self.to_u64(t, &format!("*{r}"))),
            Kind::Fixed => match t {
                "double" => format!("::prost::rt::put_fixed64({tag}, (*{r}).to_bits(), out);"),
                "float" => format!("::prost::rt::put_fixed32({tag}, (*{r}).to_bits(), out);"),
                "fixed64" | "sfixed64" => format!("::prost::rt::put_fixed64({tag}, *{r} as u64, out);"),
                _ => format!("::prost::rt::put_fixed32({tag}, *{r} as u32, out);"),
            },
            Kind::Str => format!("::prost::rt::put_bytes({tag}, ({r}).as_bytes(), out);"),
            Kind::Bytes => format!("::prost::rt::put_bytes({tag}, &({r})[..], out);"),
            Kind::Msg => format!("::prost::rt::put_bytes({tag}, &::prost::Message::encode_to_vec({r}), out);"),
        }
    }
    fn get(&self, t: &str) -> String {
        match self.kind(t) {
            Kind::Scalar | Kind::Enum => self.from_u64(t, "r.scalar(wire)?"),
            Kind::Fixed => match t {
                "double" => "f64::from_bits(r.fixed64(wire)?)".into(),
                "float" => "f32::from_bits(r.fixed32(wire)?)".into(),
                "fixed64" => "r.fixed64(wire)?".into(),
                "sfixed64" => "r.fixed64(wire)? as i64".into(),
                "fixed32" => "r.fixed32(wire)?".into(),
                _ => "r.fixed32(wire)? as i32".into(),
            },
            Kind::Str => "r.string(wire)?".into(),
            Kind::Bytes => "r.bytes(wire)?.to_vec()".into(),
            Kind::Msg => format!("<{} as ::prost::Message>::decode(r.bytes(wire)?)?", self.rty(t)),
        }
    }
    fn nondefault(&self, t: &str, r: &str) -> String {
        match self.kind(t) {
            Kind::Str | Kind::Bytes => format!("!({r}).is_empty()"),
            Kind::Scalar if t == "bool" => format!("*{r}"),
            Kind::Fixed if t == "double" || t == "float" => format!("*{r} != 0.0"),
            _ => format!("*{r} != 0"),
        }
    }
}

/// Generates `<package>.rs` in `out_dir` for one proto file.
pub fn generate(proto: &Path, out_dir: &Path) {
    let src = std::fs::read_to_string(proto).unwrap();
    println!("cargo:rerun-if-changed={}", proto.display());
    let mut p = P { t: lex(&src), i: 0 };
    let mut package = String::new();
    let mut msgs = vec![];
    let mut ens = vec![];
    while p.i < p.t.len() {
        if p.peek_sym(';') {
            p.i += 1;
            continue;
        }
        match p.id().as_str() {
            "syntax" | "import" | "option" => p.skip_stmt(),
            "package" => {
                package = p.id();
                p.sym(';');
            }
            "enum" => ens.push(parse_enum(&mut p)),
            "message" => {
                let name = p.id();
                p.sym('{');
                let mut members = vec![];
                while !p.peek_sym('}') {
                    let w = p.id();
                    match w.as_str() {
                        "oneof" => {
                            let on = p.id();
                            p.sym('{');
                            let mut fs = vec![];
                            while !p.peek_sym('}') {
                                let t = p.id();
                                fs.push(field(&mut p, t));
                            }
                            p.sym('}');
                            members.push(Member::Oneof(on, fs));
                        }
                        "reserved" | "option" => p.skip_stmt(),
                        "enum" => ens.push(parse_enum(&mut p)),
                        _ => members.push(Member::Field(field(&mut p, w))),
                    }
                }
                p.sym('}');
                msgs.push(Msg { name, members });
            }
            x => panic!("unsupported proto item {x}"),
        }
    }
    let enums: HashSet<String> = ens.iter().map(|e| e.name.clone()).collect();
    let g = Gen { enums: &enums };
    let mut o = String::new();
    for m in &msgs {
        let copy = m.members.iter().all(|x| match x {
            Member::Field(f) => f.card != Card::Repeated && matches!(g.kind(&f.ty), Kind::Scalar | Kind::Fixed | Kind::Enum),
            _ => false,
        });
        let n = camel(&m.name);
        writeln!(o, "#[derive(Clone, {} PartialEq, Debug, Default)]\npub struct {n} {{", if copy { "Copy," } else { "" }).unwrap();
        for x in &m.members {
            match x {
                Member::Field(f) => {
                    let t = g.rty(&f.ty);
                    let t = match f.card {
                        Card::Repeated => format!("::std::vec::Vec<{t}>"),
                        Card::Optional => format!("::std::option::Option<{t}>"),
                        Card::Single if g.kind(&f.ty) == Kind::Msg => format!("::std::option::Option<{t}>"),
                        Card::Single => t,
                    };
                    writeln!(o, "    pub {}: {t},", ident(&f.name)).unwrap();
                }
                Member::Oneof(on, _) => {
                    writeln!(o, "    pub {}: ::std::option::Option<{}::{}>,", ident(on), snake(&n), camel(on)).unwrap();
                }
            }
        }
        writeln!(o, "}}").unwrap();
        // accessors
        writeln!(o, "impl {n} {{").unwrap();
        for x in &m.members {
            if let Member::Field(f) = x {
                let id = ident(&f.name);
                if g.kind(&f.ty) == Kind::Enum {
                    let en = camel(&f.ty);
                    match f.card {
                        Card::Single => {
                            writeln!(o, "    pub fn {id}(&self) -> {en} {{ {en}::try_from(self.{id}).unwrap_or_default() }}").unwrap();
                            writeln!(o, "    pub fn set_{}(&mut self, v: {en}) {{ self.{id} = v as i32; }}", f.name).unwrap();
                        }
                        Card::Optional => {
                            writeln!(o, "    pub fn {id}(&self) -> {en} {{ self.{id}.and_then(|x| {en}::try_from(x).ok()).unwrap_or_default() }}").unwrap();
                            writeln!(o, "    pub fn set_{}(&mut self, v: {en}) {{ self.{id} = Some(v as i32); }}", f.name).unwrap();
                        }
                        _ => {}
                    }
                } else if f.card == Card::Optional && matches!(g.kind(&f.ty), Kind::Scalar | Kind::Fixed) {
                    writeln!(o, "    pub fn {id}(&self) -> {} {{ self.{id}.unwrap_or_default() }}", g.rty(&f.ty)).unwrap();
                } else if f.card == Card::Optional && g.kind(&f.ty) == Kind::Str {
                    writeln!(o, "    pub fn {id}(&self) -> &str {{ self.{id}.as_deref().unwrap_or_default() }}").unwrap();
                } else if f.card == Card::Optional && g.kind(&f.ty) == Kind::Bytes {
                    writeln!(o, "    pub fn {id}(&self) -> &[u8] {{ self.{id}.as_deref().unwrap_or_default() }}").unwrap();
                }
            }
        }
        writeln!(o, "}}").unwrap();
        writeln!(o, "impl ::prost::Message for {n} {{\n    #[allow(unused_variables)]\n    fn __enc(&self, out: &mut ::std::vec::Vec<u8>) {{").unwrap();
        let mut order: Vec<(u32, String)> = vec![];
        for x in &m.members {
            match x {
                Member::Field(f) => {
                    let id = ident(&f.name);
                    let code = match f.card {
                        Card::Repeated => {
                            if matches!(g.kind(&f.ty), Kind::Scalar | Kind::Enum) {
                                format!("if !self.{id}.is_empty() {{ let mut b = ::std::vec::Vec::new(); for x in &self.{id} {{ ::prost::rt::put_varint({}, &mut b); }} ::prost::rt::put_bytes({}, &b, out); }}", g.to_u64(&f.ty, "*x"), f.tag)
                            } else {
                                format!("for x in &self.{id} {{ {} }}", g.put(&f.ty, f.tag, "x"))
                            }
                        }
                        Card::Single if g.kind(&f.ty) != Kind::Msg => {
                            format!("{{ let x = &self.{id}; if {} {{ {} }} }}", g.nondefault(&f.ty, "x"), g.put(&f.ty, f.tag, "x"))
                        }
                        _ => format!("if let Some(x) = &self.{id} {{ {} }}", g.put(&f.ty, f.tag, "x")),
                    };
                    order.push((f.tag, code));
                }
                Member::Oneof(on, fs) => {
                    let mut c = format!("match &self.{} {{ None => {{}}", ident(on));
                    for f in fs {
                        write!(c, " Some({}::{}::{}(x)) => {{ {} }}", snake(&n), camel(on), camel(&f.name), g.put(&f.ty, f.tag, "x")).unwrap();
                    }
                    c.push('}');
                    order.push((fs.iter().map(|f| f.tag).min().unwrap(), c));
                }
            }
        }
        order.sort();
        for (_, c) in order {
            writeln!(o, "        {c}").unwrap();
        }
        writeln!(o, "    }}\n    fn __merge_field(&mut self, tag: u32, wire: u8, r: &mut ::prost::rt::Reader<'_>) -> ::std::result::Result<(), ::prost::DecodeError> {{\n        match tag {{").unwrap();
        for x in &m.members {
            match x {
                Member::Field(f) => {
                    let id = ident(&f.name);
                    let code = match f.card {
                        Card::Repeated => {
                            if matches!(g.kind(&f.ty), Kind::Scalar | Kind::Enum) {
                                format!("r.repeated(wire, |v| self.{id}.push({}))?", g.from_u64(&f.ty, "v"))
                            } else {
                                format!("self.{id}.push({})", g.get(&f.ty))
                            }
                        }
                        Card::Single if g.kind(&f.ty) != Kind::Msg => format!("self.{id} = {}", g.get(&f.ty)),
                        _ => format!("self.{id} = Some({})", g.get(&f.ty)),
                    };
                    writeln!(o, "            {} => {{ {code}; }}", f.tag).unwrap();
                }
                Member::Oneof(on, fs) => {
                    for f in fs {
                        writeln!(o, "            {} => {{ self.{} = Some({}::{}::{}({})); }}", f.tag, ident(on), snake(&n), camel(on), camel(&f.name), g.get(&f.ty)).unwrap();
                    }
                }
            }
        }
        writeln!(o, "            _ => r.skip(wire)?,\n        }}\n        Ok(())\n    }}\n}}").unwrap();
        for x in &m.members {
            if let Member::Oneof(on, fs) = x {
                writeln!(o, "pub mod {} {{\n    #[allow(unused_imports)] use super::*;\n    #[derive(Clone, PartialEq, Debug)]\n    pub enum {} {{", snake(&n), camel(on)).unwrap();
                for f in fs {
                    writeln!(o, "        {}({}),", camel(&f.name), g.rty(&f.ty)).unwrap();
                }
                writeln!(o, "    }}\n}}").unwrap();
            }
        }
    }
    for e in &ens {
        let n = camel(&e.name);
        let vars: Vec<(String, String, i64)> = e.vars.iter().map(|(v, i)| (strip(&n, &camel(v)), v.clone(), *i)).collect();
        writeln!(o, "#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]\n#[repr(i32)]\npub enum {n} {{").unwrap();
        for (v, _, i) in &vars {
            writeln!(o, "    {v} = {i},").unwrap();
        }
        writeln!(o, "}}\nimpl Default for {n} {{ fn default() -> Self {{ {n}::{} }} }}", vars[0].0).unwrap();
        writeln!(o, "impl From<{n}> for i32 {{ fn from(v: {n}) -> i32 {{ v as i32 }} }}").unwrap();
        writeln!(o, "impl TryFrom<i32> for {n} {{ type Error = ::prost::UnknownEnumValue; fn try_from(v: i32) -> ::std::result::Result<Self, ::prost::UnknownEnumValue> {{ match v {{").unwrap();
        for (v, _, i) in &vars {
            writeln!(o, "    {i} => Ok({n}::{v}),").unwrap();
        }
        writeln!(o, "    x => Err(::prost::UnknownEnumValue(x)) }} }} }}").unwrap();
        writeln!(o, "impl {n} {{ pub fn is_valid(v: i32) -> bool {{ {n}::try_from(v).is_ok() }}\n pub fn as_str_name(&self) -> &'static str {{ match self {{").unwrap();
        for (v, raw, _) in &vars {
            writeln!(o, "    {n}::{v} => \"{raw}\",").unwrap();
        }
        writeln!(o, "}} }} }}").unwrap();
    }
    std::fs::write(out_dir.join(format!("{package}.rs")), o).unwrap();
}

/// Build-script entry: every *.proto below `dir`.
pub fn generate_dir(dir: &Path) {
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    println!("cargo:rerun-if-changed={}", dir.display());
    let mut fs: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "proto").unwrap_or(false)).collect();
    fs.sort();
    for f in fs {
        generate(&f, &out);
    }
}
