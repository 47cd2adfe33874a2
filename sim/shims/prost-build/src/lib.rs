//! A proto3 compiler for the subset of the language this repository uses.
use std::collections::HashMap;
use std::fmt::Write;
use std::io;
use std::path::Path;
use std::path::PathBuf;

#[derive(Debug, Clone)]
struct Field {
    label: Option<String>,
    ty: String,
    name: String,
    tag: u32,
    map: Option<(String, String)>,
    oneof: Option<usize>,
}
#[derive(Debug, Clone, Default)]
struct Msg {
    name: String,
    fields: Vec<Field>,
    msgs: Vec<Msg>,
    enums: Vec<En>,
    oneofs: Vec<String>,
}
#[derive(Debug, Clone, Default)]
struct En {
    name: String,
    vals: Vec<(String, i32)>,
}

fn tokens(s: &str) -> Vec<String> {
    let mut out = vec![];
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '*' {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i] == '"' || c[i] == '\'' {
            let q = c[i];
            let st = i;
            i += 1;
            while i < c.len() && c[i] != q {
                i += 1;
            }
            i += 1;
            out.push(c[st..i].iter().collect());
        } else if c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.' || c[i] == '-' {
            let st = i;
            while i < c.len()
                && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.' || c[i] == '-')
            {
                i += 1;
            }
            out.push(c[st..i].iter().collect());
        } else {
            out.push(c[i].to_string());
            i += 1;
        }
    }
    out
}

struct P {
    t: Vec<String>,
    i: usize,
}
impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> String {
        let s = self.peek().to_string();
        self.i += 1;
        s
    }
    fn eat(&mut self, s: &str) {
        let n = self.next();
        assert_eq!(n, s, "proto parse error near token {}", self.i);
    }
    fn skip_stmt(&mut self) {
        while self.peek() != ";" && self.i < self.t.len() {
            self.i += 1;
        }
        self.i += 1;
    }
    fn opts(&mut self) {
        if self.peek() == "[" {
            while self.next() != "]" {}
        }
    }
    fn en(&mut self) -> En {
        let mut e = En {
            name: self.next(),
            ..Default::default()
        };
        self.eat("{");
        while self.peek() != "}" {
            if self.peek() == "option" || self.peek() == "reserved" {
                self.skip_stmt();
                continue;
            }
            if self.peek() == ";" {
                self.next();
                continue;
            }
            let n = self.next();
            self.eat("=");
            let v: i32 = self.next().parse().unwrap();
            self.opts();
            self.eat(";");
            e.vals.push((n, v));
        }
        self.eat("}");
        e
    }
    fn msg(&mut self) -> Msg {
        let mut m = Msg {
            name: self.next(),
            ..Default::default()
        };
        self.eat("{");
        self.body(&mut m, None);
        m
    }
    fn body(&mut self, m: &mut Msg, oneof: Option<usize>) {
        loop {
            match self.peek() {
                "}" => {
                    self.next();
                    return;
                }
                ";" => {
                    self.next();
                }
                "message" => {
                    self.next();
                    let x = self.msg();
                    m.msgs.push(x);
                }
                "enum" => {
                    self.next();
                    let x = self.en();
                    m.enums.push(x);
                }
                "option" | "reserved" | "extensions" => self.skip_stmt(),
                "oneof" => {
                    self.next();
                    let n = self.next();
                    self.eat("{");
                    m.oneofs.push(n);
                    let id = m.oneofs.len() - 1;
                    self.body(m, Some(id));
                }
                "map" => {
                    self.next();
                    self.eat("<");
                    let k = self.next();
                    self.eat(",");
                    let v = self.next();
                    self.eat(">");
                    let name = self.next();
                    self.eat("=");
                    let tag = self.next().parse().unwrap();
                    self.opts();
                    self.eat(";");
                    m.fields.push(Field {
                        label: None,
                        ty: String::new(),
                        name,
                        tag,
                        map: Some((k, v)),
                        oneof: None,
                    });
                }
                _ => {
                    let mut label = None;
                    if self.peek() == "optional" || self.peek() == "repeated" {
                        label = Some(self.next());
                    }
                    let ty = self.next();
                    let name = self.next();
                    self.eat("=");
                    let tag = self.next().parse().unwrap();
                    self.opts();
                    self.eat(";");
                    m.fields.push(Field {
                        label,
                        ty,
                        name,
                        tag,
                        map: None,
                        oneof,
                    });
                }
            }
        }
    }
}

fn snake(s: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = s.chars().collect();
    for i in 0..c.len() {
        if c[i].is_uppercase() {
            if i > 0 && (c[i - 1].is_lowercase() || (i + 1 < c.len() && c[i + 1].is_lowercase() && c[i - 1] != '_')) {
                o.push('_');
            }
            o.extend(c[i].to_lowercase());
        } else {
            o.push(c[i]);
        }
    }
    o
}
fn camel(s: &str) -> String {
    s.split('_')
        .filter(|p| !p.is_empty())
        .map(|p| {
            // ABC -> Abc, s3 -> S3, already-camel stays
            let upper = p.chars().all(|c| !c.is_lowercase());
            let mut ch = p.chars();
            let f = ch.next().unwrap().to_uppercase().collect::<String>();
            let r: String = ch.collect();
            f + &if upper { r.to_lowercase() } else { r }
        })
        .collect()
}
fn ident(s: &str) -> String {
    const KW: &[&str] = &[
        "type", "match", "ref", "move", "mod", "fn", "use", "loop", "in", "as", "box", "enum",
        "struct", "impl", "for", "where", "while", "if", "else", "const", "static", "pub", "async",
        "await", "dyn", "trait", "return", "true", "false", "let", "mut", "break", "continue",
        "abstract", "final", "override", "priv", "virtual", "yield", "try", "macro", "typeof",
        "unsized", "do", "become",
    ];
    if KW.contains(&s) {
        format!("r#{s}")
    } else {
        s.to_string()
    }
}

#[derive(Clone)]
enum Kind {
    Msg(String),
    Enum(String),
}

fn scalar(ty: &str) -> Option<(&'static str, &'static str)> {
    Some(match ty {
        "uint64" => ("Uint64", "u64"),
        "uint32" => ("Uint32", "u32"),
        "int64" => ("Int64", "i64"),
        "int32" => ("Int32", "i32"),
        "sint64" => ("Sint64", "i64"),
        "sint32" => ("Sint32", "i32"),
        "fixed64" => ("Fixed64", "u64"),
        "fixed32" => ("Fixed32", "u32"),
        "sfixed64" => ("Sfixed64", "i64"),
        "sfixed32" => ("Sfixed32", "i32"),
        "bool" => ("Bool", "bool"),
        "double" => ("Double", "f64"),
        "float" => ("Float", "f32"),
        "string" => ("Str", "::std::string::String"),
        "bytes" => ("Bytes", "::std::vec::Vec<u8>"),
        _ => return None,
    })
}

fn collect(m: &Msg, path: &[String], out: &mut HashMap<String, Kind>) {
    let full: Vec<String> = path.iter().cloned().chain([m.name.clone()]).collect();
    let rust = |p: &[String], n: &str| -> String {
        let mut s = String::new();
        for x in p {
            s += &snake(x);
            s += "::";
        }
        s + &camel(n)
    };
    out.insert(full.join("."), Kind::Msg(rust(path, &m.name)));
    for e in &m.enums {
        let k: Vec<String> = full.iter().cloned().chain([e.name.clone()]).collect();
        out.insert(k.join("."), Kind::Enum(rust(&full, &e.name)));
    }
    for x in &m.msgs {
        collect(x, &full, out);
    }
}

struct Gen {
    kinds: HashMap<String, Kind>,
    msgs: HashMap<String, Msg>,
}

impl Gen {
    fn resolve(&self, scope: &[String], ty: &str) -> (String, Kind) {
        let ty = ty.trim_start_matches('.');
        let mut s = scope.to_vec();
        loop {
            let k = s.iter().cloned().chain([ty.to_string()]).collect::<Vec<_>>().join(".");
            if let Some(v) = self.kinds.get(&k) {
                return (k, v.clone());
            }
            if s.pop().is_none() {
                // package-qualified name
                let mut parts: Vec<&str> = ty.split('.').collect();
                while parts.len() > 1 {
                    parts.remove(0);
                    if let Some(v) = self.kinds.get(&parts.join(".")) {
                        return (parts.join("."), v.clone());
                    }
                }
                panic!("unknown proto type {ty}");
            }
        }
    }
    /// (wire type expression, rust type) with `sup` levels of super:: in front of user types
    fn ty(&self, scope: &[String], sup: usize, ty: &str) -> (String, String, Option<Kind>) {
        if let Some((w, r)) = scalar(ty) {
            return (format!("::prost::wire::{w}"), r.to_string(), None);
        }
        let (_, k) = self.resolve(scope, ty);
        let pre = "super::".repeat(sup);
        match &k {
            Kind::Msg(p) => (
                format!("::prost::wire::Msg<{pre}{p}>"),
                format!("{pre}{p}"),
                Some(k.clone()),
            ),
            Kind::Enum(_) => ("::prost::wire::Int32".into(), "i32".into(), Some(k.clone())),
        }
    }
    fn copyable(&self, scope: &[String], m: &Msg, depth: usize) -> bool {
        if depth > 10 || !m.oneofs.is_empty() {
            return false;
        }
        m.fields.iter().all(|f| {
            if f.map.is_some() || f.label.as_deref() == Some("repeated") {
                return false;
            }
            match scalar(&f.ty) {
                Some((_, r)) => !r.contains("::"),
                None => {
                    let sc: Vec<String> = scope.iter().cloned().chain([m.name.clone()]).collect();
                    let (k, kind) = self.resolve(&sc, &f.ty);
                    match kind {
                        Kind::Enum(_) => true,
                        Kind::Msg(_) => {
                            let mut p: Vec<String> = k.split('.').map(|s| s.to_string()).collect();
                            p.pop();
                            let x = self.msgs[&k].clone();
                            self.copyable(&p, &x, depth + 1)
                        }
                    }
                }
            }
        })
    }
    fn en(&self, e: &En, o: &mut String) {
        let n = camel(&e.name);
        let pre = {
            let mut s = snake(&e.name).to_uppercase();
            s.push('_');
            s
        };
        // prost strips the enum name from its variants
        let strip = e.vals.iter().all(|(v, _)| {
            v.to_uppercase().starts_with(&pre)
                && v[pre.len()..].chars().next().is_some_and(|c| c.is_alphabetic())
        });
        let var = |v: &str| -> String {
            let v = if strip { &v[pre.len()..] } else { v };
            let c = camel(v);
            // prost also strips the CamelCase enum name
            if c.len() > n.len() && c.starts_with(&n) && c[n.len()..].chars().next().unwrap().is_uppercase() {
                c[n.len()..].to_string()
            } else {
                c
            }
        };
        writeln!(o, "#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]\n#[repr(i32)]\npub enum {n} {{").unwrap();
        for (v, i) in &e.vals {
            writeln!(o, "    {} = {i},", var(v)).unwrap();
        }
        writeln!(o, "}}\nimpl {n} {{\n    pub fn as_str_name(&self) -> &'static str {{\n        match self {{").unwrap();
        for (v, _) in &e.vals {
            writeln!(o, "            Self::{} => \"{v}\",", var(v)).unwrap();
        }
        writeln!(o, "        }}\n    }}\n    pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {{\n        match value {{").unwrap();
        for (v, _) in &e.vals {
            writeln!(o, "            \"{v}\" => Some(Self::{}),", var(v)).unwrap();
        }
        writeln!(o, "            _ => None,\n        }}\n    }}\n    pub fn is_valid(value: i32) -> bool {{ Self::try_from(value).is_ok() }}\n}}").unwrap();
        writeln!(o, "impl ::core::default::Default for {n} {{ fn default() -> Self {{ Self::{} }} }}", var(&e.vals[0].0)).unwrap();
        writeln!(o, "impl ::core::convert::From<{n}> for i32 {{ fn from(v: {n}) -> i32 {{ v as i32 }} }}").unwrap();
        writeln!(o, "impl ::core::convert::TryFrom<i32> for {n} {{\n    type Error = ::prost::UnknownEnumValue;\n    fn try_from(v: i32) -> ::core::result::Result<Self, Self::Error> {{\n        match v {{").unwrap();
        let mut seen = vec![];
        for (v, i) in &e.vals {
            if !seen.contains(i) {
                seen.push(*i);
                writeln!(o, "            {i} => Ok(Self::{}),", var(v)).unwrap();
            }
        }
        writeln!(o, "            x => Err(::prost::UnknownEnumValue(x)),\n        }}\n    }}\n}}").unwrap();
    }
    fn msg(&self, m: &Msg, scope: &[String], o: &mut String) {
        let sc: Vec<String> = scope.iter().cloned().chain([m.name.clone()]).collect();
        let depth = scope.len();
        let n = camel(&m.name);
        let copy = if self.copyable(scope, m, 0) { "Copy, " } else { "" };
        writeln!(o, "#[derive(Clone, {copy}PartialEq, Debug, Default)]\npub struct {n} {{").unwrap();
        let mut done_oneof = vec![];
        for f in &m.fields {
            let fname = ident(&snake(&f.name));
            if let Some(id) = f.oneof {
                if !done_oneof.contains(&id) {
                    done_oneof.push(id);
                    writeln!(o, "    pub {}: ::core::option::Option<{}::{}>,", ident(&snake(&m.oneofs[id])), snake(&m.name), camel(&m.oneofs[id])).unwrap();
                }
                continue;
            }
            if let Some((k, v)) = &f.map {
                let (_, kr, _) = self.ty(&sc, depth, k);
                let (_, vr, _) = self.ty(&sc, depth, v);
                writeln!(o, "    pub {fname}: ::std::collections::HashMap<{kr}, {vr}>,").unwrap();
                continue;
            }
            let (_, r, kind) = self.ty(&sc, depth, &f.ty);
            let t = match f.label.as_deref() {
                Some("repeated") => format!("::std::vec::Vec<{r}>"),
                Some("optional") => format!("::core::option::Option<{r}>"),
                _ if matches!(kind, Some(Kind::Msg(_))) => format!("::core::option::Option<{r}>"),
                _ => r,
            };
            writeln!(o, "    pub {fname}: {t},").unwrap();
        }
        writeln!(o, "}}").unwrap();
        // accessors for enum fields
        let mut acc = String::new();
        for f in &m.fields {
            if f.oneof.is_some() || f.map.is_some() {
                continue;
            }
            if let (_, _, Some(Kind::Enum(p))) = self.ty(&sc, depth, &f.ty) {
                let e = format!("{}{p}", "super::".repeat(depth));
                let fname = ident(&snake(&f.name));
                let sn = snake(&f.name);
                match f.label.as_deref() {
                    Some("repeated") => {
                        writeln!(acc, "    pub fn {fname}(&self) -> impl Iterator<Item = {e}> + '_ {{ self.{fname}.iter().filter_map(|v| {e}::try_from(*v).ok()) }}").unwrap();
                    }
                    Some("optional") => {
                        writeln!(acc, "    pub fn {fname}(&self) -> {e} {{ self.{fname}.and_then(|v| {e}::try_from(v).ok()).unwrap_or_default() }}").unwrap();
                        writeln!(acc, "    pub fn set_{sn}(&mut self, v: {e}) {{ self.{fname} = Some(v as i32); }}").unwrap();
                    }
                    _ => {
                        writeln!(acc, "    pub fn {fname}(&self) -> {e} {{ {e}::try_from(self.{fname}).unwrap_or_default() }}").unwrap();
                        writeln!(acc, "    pub fn set_{sn}(&mut self, v: {e}) {{ self.{fname} = v as i32; }}").unwrap();
                    }
                }
            }
        }
        if !acc.is_empty() {
            writeln!(o, "#[allow(dead_code)]\nimpl {n} {{\n{acc}}}").unwrap();
        }
        writeln!(o, "impl ::prost::Message for {n} {{\n    #[allow(unused_variables)]\n    fn put_fields(&self, out: &mut ::std::vec::Vec<u8>) {{").unwrap();
        let mut sorted = m.fields.clone();
        sorted.sort_by_key(|f| f.tag);
        for f in &sorted {
            let fname = ident(&snake(&f.name));
            let tag = f.tag;
            if let Some((k, v)) = &f.map {
                let (kw, ..) = self.ty(&sc, depth, k);
                let (vw, ..) = self.ty(&sc, depth, v);
                writeln!(o, "        for (k, v) in &self.{fname} {{ let mut b = vec![]; ::prost::wire::put_one::<{kw}>(1, k, &mut b); ::prost::wire::put_one::<{vw}>(2, v, &mut b); ::prost::wire::key(out, {tag}, 2); ::prost::wire::put_varint(out, b.len() as u64); out.extend_from_slice(&b); }}").unwrap();
                continue;
            }
            let (w, _, kind) = self.ty(&sc, depth, &f.ty);
            if let Some(id) = f.oneof {
                let on = ident(&snake(&m.oneofs[id]));
                writeln!(o, "        if let Some({}::{}::{}(v)) = &self.{on} {{ ::prost::wire::key(out, {tag}, <{w} as ::prost::wire::Scalar>::WT); <{w} as ::prost::wire::Scalar>::put(v, out); }}", snake(&m.name), camel(&m.oneofs[id]), camel(&f.name)).unwrap();
                continue;
            }
            let func = match f.label.as_deref() {
                Some("repeated") => "put_rep",
                Some("optional") => "put_opt",
                _ if matches!(kind, Some(Kind::Msg(_))) => "put_opt",
                _ => "put_one",
            };
            writeln!(o, "        ::prost::wire::{func}::<{w}>({tag}, &self.{fname}, out);").unwrap();
        }
        writeln!(o, "    }}\n    #[allow(unused_variables)]\n    fn merge_field(&mut self, tag: u32, wt: u8, r: &mut ::prost::wire::Rd<'_>) -> ::core::result::Result<(), ::prost::DecodeError> {{\n        match tag {{").unwrap();
        for f in &m.fields {
            let fname = ident(&snake(&f.name));
            let tag = f.tag;
            if let Some((k, v)) = &f.map {
                let (kw, ..) = self.ty(&sc, depth, k);
                let (vw, ..) = self.ty(&sc, depth, v);
                writeln!(o, "            {tag} => {{ ::prost::wire::want(wt, 2)?; let mut s = ::prost::wire::Rd {{ b: r.bytes()? }}; let mut k = Default::default(); let mut v = Default::default(); while !s.b.is_empty() {{ let q = s.varint()?; match q >> 3 {{ 1 => k = ::prost::wire::get_one::<{kw}>((q & 7) as u8, &mut s)?, 2 => v = ::prost::wire::get_one::<{vw}>((q & 7) as u8, &mut s)?, _ => s.skip((q & 7) as u8)? }} }} self.{fname}.insert(k, v); }}").unwrap();
                continue;
            }
            let (w, _, kind) = self.ty(&sc, depth, &f.ty);
            if let Some(id) = f.oneof {
                let on = ident(&snake(&m.oneofs[id]));
                writeln!(o, "            {tag} => self.{on} = Some({}::{}::{}(::prost::wire::get_one::<{w}>(wt, r)?)),", snake(&m.name), camel(&m.oneofs[id]), camel(&f.name)).unwrap();
                continue;
            }
            match f.label.as_deref() {
                Some("repeated") => writeln!(o, "            {tag} => ::prost::wire::get_rep::<{w}>(wt, r, &mut self.{fname})?,").unwrap(),
                Some("optional") => writeln!(o, "            {tag} => self.{fname} = Some(::prost::wire::get_one::<{w}>(wt, r)?),").unwrap(),
                _ if matches!(kind, Some(Kind::Msg(_))) => writeln!(o, "            {tag} => self.{fname} = Some(::prost::wire::get_one::<{w}>(wt, r)?),").unwrap(),
                _ => writeln!(o, "            {tag} => self.{fname} = ::prost::wire::get_one::<{w}>(wt, r)?,").unwrap(),
            }
        }
        writeln!(o, "            _ => r.skip(wt)?,\n        }}\n        Ok(())\n    }}\n}}").unwrap();
        if !m.msgs.is_empty() || !m.enums.is_empty() || !m.oneofs.is_empty() {
            writeln!(o, "pub mod {} {{", snake(&m.name)).unwrap();
            for e in &m.enums {
                self.en(e, o);
            }
            for x in &m.msgs {
                self.msg(x, &sc, o);
            }
            for (id, on) in m.oneofs.iter().enumerate() {
                writeln!(o, "#[derive(Clone, PartialEq, Debug)]\npub enum {} {{", camel(on)).unwrap();
                for f in m.fields.iter().filter(|f| f.oneof == Some(id)) {
                    let (_, r, _) = self.ty(&sc, depth + 1, &f.ty);
                    writeln!(o, "    {}({r}),", camel(&f.name)).unwrap();
                }
                writeln!(o, "}}").unwrap();
            }
            writeln!(o, "}}").unwrap();
        }
    }
}

fn index(m: &Msg, path: &[String], out: &mut HashMap<String, Msg>) {
    let full: Vec<String> = path.iter().cloned().chain([m.name.clone()]).collect();
    out.insert(full.join("."), m.clone());
    for x in &m.msgs {
        index(x, &full, out);
    }
}

pub fn compile_protos(protos: &[impl AsRef<Path>], _includes: &[impl AsRef<Path>]) -> io::Result<()> {
    let out = PathBuf::from(std::env::var_os("OUT_DIR").expect("OUT_DIR"));
    let mut files: HashMap<String, (Vec<Msg>, Vec<En>)> = HashMap::new();
    for p in protos {
        println!("cargo:rerun-if-changed={}", p.as_ref().display());
        let s = std::fs::read_to_string(p)?;
        let mut ps = P {
            t: tokens(&s),
            i: 0,
        };
        let mut pkg = String::from("_");
        let mut msgs = vec![];
        let mut enums = vec![];
        while ps.i < ps.t.len() {
            match ps.next().as_str() {
                "package" => {
                    pkg = ps.next();
                    ps.eat(";");
                }
                "syntax" | "import" | "option" => ps.skip_stmt(),
                "message" => msgs.push(ps.msg()),
                "enum" => enums.push(ps.en()),
                ";" => {}
                t => panic!("unsupported proto statement {t}"),
            }
        }
        let e = files.entry(pkg).or_default();
        e.0.extend(msgs);
        e.1.extend(enums);
    }
    for (pkg, (msgs, enums)) in files {
        let mut g = Gen {
            kinds: HashMap::new(),
            msgs: HashMap::new(),
        };
        for m in &msgs {
            collect(m, &[], &mut g.kinds);
            index(m, &[], &mut g.msgs);
        }
        for e in &enums {
            g.kinds.insert(e.name.clone(), Kind::Enum(camel(&e.name)));
        }
        let mut o = String::new();
        for m in &msgs {
            g.msg(m, &[], &mut o);
        }
        for e in &enums {
            g.en(e, &mut o);
        }
        std::fs::write(out.join(format!("{pkg}.rs")), o)?;
    }
    Ok(())
}

#[derive(Debug, Default)]
pub struct Config;
impl Config {
    pub fn new() -> Self {
        Config
    }
    pub fn compile_protos(&mut self, p: &[impl AsRef<Path>], i: &[impl AsRef<Path>]) -> io::Result<()> {
        compile_protos(p, i)
    }
}
