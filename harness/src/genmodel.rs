//! Writes the source of generated models (a crate of its own, because derive macros run at
//! compile time). Small and hostile graphs come first.
use crate::engine::Src;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq)]
pub struct Sty {
    /// index into TYPES
    t: usize,
    opt: bool,
    /// how the path is written
    form: usize,
}
/// name for the harness, ways to write the type
const TYPES: &[(&str, &[&str])] = &[
    ("U32", &["u32"]),
    ("I32", &["i32"]),
    ("Str", &["String", "std::string::String", "::std::string::String", "string::String"]),
    ("I64", &["i64"]),
    ("U64", &["u64"]),
    ("I8", &["i8"]),
    ("U8", &["u8"]),
    ("I16", &["i16"]),
    ("U16", &["u16"]),
    ("F32", &["f32"]),
    ("F64", &["f64"]),
    ("Bool", &["bool"]),
    ("Date", &["NaiveDate", "chrono::NaiveDate"]),
    ("Datetime", &["NaiveDateTime", "chrono::NaiveDateTime", "::chrono::NaiveDateTime"]),
    ("Dur", &["Duration", "chrono::Duration"]),
    ("Hex", &["Hex", "types::Hex", "mysql_connector::types::Hex"]),
    ("Vec", &["Vec<u8>", "std::vec::Vec<u8>", "vec::Vec<u8>"]),
];
/// types a primary key may have: copied by the generated code and always convertible
const KEYS: &[usize] = &[0, 1, 3, 4, 5, 6, 7, 8, 11, 14];

fn gen_ty(s: &mut Src) -> Sty {
    let t = s.usize(TYPES.len());
    Sty { t, opt: s.chance(1, 3), form: s.usize(6) }
}
impl Sty {
    fn rust(&self) -> String {
        let f = TYPES[self.t].1;
        let base = f[self.form % f.len()];
        if self.opt {
            let o = ["Option", "std::option::Option", "option::Option"][(self.form / f.len()) % 3];
            format!("{o}<{base}>")
        } else {
            base.to_string()
        }
    }
    fn desc(&self) -> String {
        format!("Sty {{ t: T::{}, opt: {} }}", TYPES[self.t].0, self.opt)
    }
}

struct Struct {
    ident: String,
    /// in a module of its own
    path: String,
    /// field of the struct, name in the column
    fields: Vec<(String, String, Sty)>,
}
#[derive(Clone)]
enum Kind {
    Simple(Sty),
    Struct(usize),
    Ref(usize),
}
struct Model {
    ident: String,
    table: String,
    primary: usize,
    auto: bool,
    fields: Vec<(String, Kind)>,
    attr: usize,
}

const FIELDS: &[&str] = &[
    "id", "a", "b", "ab", "a_b", "name", "map", "x", "x_y", "y", "value", "values", "key", "table", "row", "mapping", "column", "conn", "index", "model", "größe", "primary", "order", "select", "ID2", "a_", "b_a", "entity", "_0", "desc", "type", "match", "ref",
];
const TABLES: &[&str] = &["a", "b", "map", "entity", "ab", "id", "a.b", "order", "my table", "x", "größe", "tab-le", "a.", ".b", "?", "a'b", "value", "entity.map", "type"];

/// the identifier of a field; column names that are keywords need a raw one
fn rid(f: &str) -> String {
    if ["type", "match", "ref", "fn", "use"].contains(&f) {
        format!("r#{f}")
    } else {
        f.to_string()
    }
}

/// `used`: lower-case column names of the model
fn fresh(s: &mut Src, pool: &[&str], used: &mut Vec<String>) -> String {
    let i = s.usize(pool.len());
    let n = (0..pool.len()).map(|k| pool[(i + k) % pool.len()]).find(|n| !used.contains(&n.to_lowercase()));
    let n = n.map_or_else(|| format!("f{}", used.len()), String::from);
    used.push(n.to_lowercase());
    n
}

fn graph(s: &mut Src, no: usize) -> (Vec<Struct>, Vec<Model>) {
    let nm = match no {
        0..=2 => 1,
        3..=9 => 2,
        10..=19 => 3,
        _ => 1 + s.usize(5),
    };
    // few names: the same ones at several levels
    let narrow = s.bool();
    let pool: &[&str] = if narrow { &FIELDS[..9] } else { FIELDS };
    let tables: &[&str] = if narrow { &TABLES[..6] } else { TABLES };
    let mut structs = vec![];
    for i in 0..s.usize(3) {
        // sometimes two types which differ in their path only
        let ident = if i == 1 && s.bool() { "Geo" } else { ["Geo", "Part"][i] }.to_string();
        let mut path = match s.usize(6) {
            0 | 1 => format!("sub::{ident}"),
            2 | 3 => format!("par::{ident}"),
            _ => ident.clone(),
        };
        if let Some(x) = structs.iter().find(|x: &&Struct| x.ident == ident) {
            path = if x.path.starts_with("sub") { format!("par::{ident}") } else { format!("sub::{ident}") };
        }
        let mut used = vec![];
        let mut cols = vec![];
        let n = 1 + s.usize(3);
        let fields = (0..n)
            .map(|_| {
                let f = fresh(s, &["x", "y", "a", "b", "x_y", "id", "_x", "type"], &mut used);
                let c = if s.chance(1, 3) {
                    fresh(s, &["x", "y", "z", "b", "id", "y_x", "größe", "use"], &mut cols)
                } else if cols.contains(&f.to_lowercase()) {
                    fresh(s, &["u", "v", "w", "t"], &mut cols)
                } else {
                    cols.push(f.to_lowercase());
                    f.clone()
                };
                (f, c, gen_ty(s))
            })
            .collect();
        structs.push(Struct { ident, path, fields });
    }
    let mut used_tables = vec![];
    let mut models: Vec<Model> = vec![];
    for i in 0..nm {
        let mut used = vec![];
        let mut fields: Vec<(String, Kind)> = vec![];
        let table = fresh(s, tables, &mut used_tables);
        let key = Sty { t: if s.chance(2, 3) { 0 } else { *s.pick(KEYS) }, opt: false, form: s.usize(6) };
        let usual = s.chance(2, 3);
        let pk = fresh(s, if usual { &["id", "key", "a"] } else { pool }, &mut used);
        fields.push((pk, Kind::Simple(key)));
        for _ in 0..s.usize(if i == 0 { 4 } else { 5 }) {
            fields.push((fresh(s, pool, &mut used), Kind::Simple(gen_ty(s))));
        }
        if !structs.is_empty() {
            'next: for _ in 0..s.usize(3) {
                let k = s.usize(structs.len());
                let mut u2 = used.clone();
                // the field itself is no column
                let f = fresh(s, pool, &mut u2);
                if fields.iter().any(|x| x.0.to_lowercase() == f.to_lowercase()) {
                    continue;
                }
                let mut u3 = used.clone();
                for (_, c, _) in &structs[k].fields {
                    let c = format!("{f}_{c}").to_lowercase();
                    if u3.contains(&c) {
                        continue 'next;
                    }
                    u3.push(c);
                }
                used = u3;
                fields.push((f, Kind::Struct(k)));
            }
        }
        if i > 0 {
            for j in 0..1 + s.usize(3) {
                // a chain, sometimes several references to the same model
                let to = if j == 0 && s.chance(2, 3) { i - 1 } else { s.usize(i) };
                let f = if s.chance(1, 3) {
                    // like one of the tables
                    let t = [&table, &models[to].table][s.usize(2)].clone();
                    let ok = t.chars().all(|c| c.is_alphanumeric()) && !fields.iter().any(|f| f.0.to_lowercase() == t.to_lowercase()) && !used.contains(&t.to_lowercase());
                    if ok {
                        used.push(t.to_lowercase());
                        t
                    } else {
                        fresh(s, pool, &mut used)
                    }
                } else {
                    fresh(s, pool, &mut used)
                };
                if fields.iter().any(|x| x.0 == f) {
                    continue;
                }
                fields.push((f, Kind::Ref(to)));
            }
        }
        // any order of fields
        for k in (1..fields.len()).rev() {
            let j = s.usize(k + 1);
            fields.swap(k, j);
        }
        // keep the primary key's field known
        let primary = fields.iter().position(|f| matches!(f.1, Kind::Simple(t) if t.t == key.t && !t.opt) && used[0] == f.0.to_lowercase()).unwrap();
        let auto = !matches!(TYPES[key.t].0, "Bool" | "Dur") && s.chance(2, 3);
        models.push(Model { ident: format!("M{i}"), table, primary, auto, fields, attr: s.usize(24) });
    }
    (structs, models)
}

fn source(structs: &[Struct], models: &[Model], out: &mut String) {
    let w = out;
    let (mut sub, mut par) = (String::new(), String::new());
    for st in structs {
        let mut d = String::new();
        let _ = writeln!(d, "#[derive(Debug)]\npub struct {} {{", st.ident);
        for (f, _, t) in &st.fields {
            let _ = writeln!(d, "    pub {}: {},", rid(f), t.rust());
        }
        d += "}\n";
        if st.path.starts_with("sub") {
            sub += &d;
        } else if st.path.starts_with("par") {
            par += &d;
        } else {
            *w += &d;
        }
    }
    for (name, body) in [("sub", sub), ("par", par)] {
        if !body.is_empty() {
            let _ = writeln!(w, "pub mod {name} {{\nuse super::*;\n{body}}}");
        }
    }
    for m in models {
        let mut attrs = vec![format!("table = {:?}", m.table), format!("primary = {:?}", m.fields[m.primary].0), format!("auto_increment = \"{}\"", m.auto)];
        let alike = structs.len() == 2 && structs[0].ident == structs[1].ident;
        for (i, st) in structs.iter().enumerate() {
            if m.fields.iter().any(|f| matches!(f.1, Kind::Struct(k) if k == i)) || m.attr % 2 == 0 || alike {
                let f: Vec<String> = st.fields.iter().map(|(f, c, _)| if f == c { rid(f) } else { format!("{}: {}", rid(f), rid(c)) }).collect();
                attrs.push(format!("ty = {}{{{}}}", st.path, f.join(", ")));
            }
        }
        for k in (1..attrs.len()).rev() {
            attrs.swap(k, m.attr % (k + 1));
        }
        let mut derives = ["ModelData", "FromQueryResult", "ActiveModel", "IntoQuery", "Model"];
        derives.rotate_left(m.attr % 5);
        // other attributes around, a comma at the end
        let (before, after) = [("", ""), ("/// a model\n", ""), ("", "#[allow(dead_code)]\n"), ("#[doc = \"x\"]\n", "/// a model\n")][m.attr / 2 % 4];
        let comma = ["", ","][m.attr / 3 % 2];
        let vis = ["pub ", "pub ", "pub(super) ", "pub(crate) "][m.attr / 5 % 4];
        let vis = if m.attr < 12 { "pub " } else { vis };
        let _ = writeln!(w, "#[derive(Debug, {})]\n{before}#[mysql_connector({}{comma})]\n{after}{vis}struct {} {{", derives.join(", "), attrs.join(", "), m.ident);
        for (f, k) in &m.fields {
            let t = match k {
                Kind::Simple(t) => t.rust(),
                Kind::Struct(i) => structs[*i].path.clone(),
                Kind::Ref(i) => models[*i].ident.clone(),
            };
            let _ = writeln!(w, "    pub {}: {t},", rid(f));
        }
        *w += "}\n";
    }
}

/// a model of some of the fields, without a primary key
fn view_source(v: usize, keep: &[usize], structs: &[Struct], models: &[Model], m: &Model, attr: usize, w: &mut String) {
    let mut attrs = vec![format!("table = {:?}", m.table)];
    for (i, st) in structs.iter().enumerate() {
        if keep.iter().any(|f| matches!(m.fields[*f].1, Kind::Struct(k) if k == i)) {
            let f: Vec<String> = st.fields.iter().map(|(f, c, _)| if f == c { rid(f) } else { format!("{}: {}", rid(f), rid(c)) }).collect();
            attrs.push(format!("ty = {}{{{}}}", st.path, f.join(", ")));
        }
    }
    if attr % 2 == 1 {
        attrs.reverse();
    }
    let mut derives = ["ModelData", "FromQueryResult", "IntoQuery"];
    derives.rotate_left(attr % 3);
    let _ = writeln!(w, "#[derive(Debug, {})]\n#[mysql_connector({})]\npub struct V{v} {{", derives.join(", "), attrs.join(", "));
    for f in keep {
        let (f, k) = &m.fields[*f];
        let t = match k {
            Kind::Simple(t) => t.rust(),
            Kind::Struct(i) => structs[*i].path.clone(),
            Kind::Ref(i) => models[*i].ident.clone(),
        };
        let _ = writeln!(w, "    pub {}: {t},", rid(f));
    }
    *w += "}\n";
}
fn view_glue(v: usize, keep: &[usize], structs: &[Struct], m: &Model, w: &mut String) {
    let _ = writeln!(w, "impl rt::ViewRt for V{v} {{\n    fn tree(&self) -> Vec<Tree> {{ vec![");
    for f in keep {
        let (f, k) = &m.fields[*f];
        let f = rid(f);
        let _ = match k {
            Kind::Simple(_) => writeln!(w, "        Tree::Simple(self.{f}.sv()),"),
            Kind::Struct(i) => {
                let c: Vec<String> = structs[*i].fields.iter().map(|(g, ..)| format!("self.{f}.{}.sv()", rid(g))).collect();
                writeln!(w, "        Tree::Struct(vec![{}]),", c.join(", "))
            }
            Kind::Ref(_) => writeln!(w, "        Tree::Ref(self.{f}.tree()),"),
        };
    }
    *w += "    ] }\n}\n";
}

fn glue(structs: &[Struct], m: &Model, models: &[Model], w: &mut String) {
    let id = &m.ident;
    let _ = writeln!(w, "impl rt::Rt for {id} {{\n    fn desc() -> Desc {{ Desc {{ name: {id:?}, table: {:?}, primary: {}, auto: {}, fields: vec![", m.table, m.primary, m.auto);
    for (f, k) in &m.fields {
        let _ = match k {
            Kind::Simple(t) => writeln!(w, "        ({f:?}, F::Simple({})),", t.desc()),
            Kind::Struct(i) => {
                let c: Vec<String> = structs[*i].fields.iter().map(|(_, c, t)| format!("(\"{f}_{c}\", {})", t.desc())).collect();
                writeln!(w, "        ({f:?}, F::Struct(vec![{}])),", c.join(", "))
            }
            Kind::Ref(i) => writeln!(w, "        ({f:?}, F::Ref({})),", i),
        };
    }
    *w += "    ] } }\n    fn make(t: &[Tree]) -> Self { Self {\n";
    for (n, (f, k)) in m.fields.iter().enumerate() {
        let _ = match k {
            Kind::Simple(_) => writeln!(w, "        {}: t[{n}].get(),", rid(f)),
            Kind::Struct(i) => {
                let c: Vec<String> = structs[*i].fields.iter().enumerate().map(|(j, (f, ..))| format!("{}: t[{n}].part({j})", rid(f))).collect();
                writeln!(w, "        {}: {} {{ {} }},", rid(f), structs[*i].path, c.join(", "))
            }
            Kind::Ref(i) => writeln!(w, "        {}: {}::make(t[{n}].sub()),", rid(f), models[*i].ident),
        };
    }
    *w += "    } }\n    fn tree(&self) -> Vec<Tree> { vec![\n";
    for (f, k) in &m.fields {
        let f = rid(f);
        let _ = match k {
            Kind::Simple(_) => writeln!(w, "        Tree::Simple(self.{f}.sv()),"),
            Kind::Struct(i) => {
                let c: Vec<String> = structs[*i].fields.iter().map(|(g, ..)| format!("self.{f}.{}.sv()", rid(g))).collect();
                writeln!(w, "        Tree::Struct(vec![{}]),", c.join(", "))
            }
            Kind::Ref(_) => writeln!(w, "        Tree::Ref(self.{f}.tree()),"),
        };
    }
    *w += "    ] }\n    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, p: &[Plan]) {\n";
    for (n, (f, k)) in m.fields.iter().enumerate() {
        let f = rid(f);
        let _ = match k {
            Kind::Simple(_) => writeln!(w, "        rt::set(&mut a.{f}, &p[{n}]);"),
            Kind::Struct(i) => {
                let c: Vec<String> = structs[*i].fields.iter().enumerate().map(|(j, (f, ..))| format!("{}: p[{n}].part({j})", rid(f))).collect();
                writeln!(w, "        if p[{n}].is_set() {{ a.{f} = ActiveValue::Set({} {{ {} }}); }}", structs[*i].path, c.join(", "))
            }
            Kind::Ref(_) => writeln!(w, "        rt::set_ref(&mut a.{f}, &p[{n}]);"),
        };
    }
    *w += "    }\n}\n";
}

pub fn write(seed: u64, n: usize) -> String {
    let mut out = String::from("// generated\n#![allow(dead_code, unused_imports, non_snake_case, mixed_script_confusables, uncommon_codepoints)]\nuse mcheck::props::models::{self as rt, Desc, Graph, Ops, Plan, Rt, Sty, Tree, F, T, Simple};\n\n");
    for i in 0..n {
        let mut s = Src::random(crate::engine::mix(seed, i as u64));
        let (structs, models) = graph(&mut s, i);
        let mut src = String::new();
        source(&structs, &models, &mut src);
        let mut views: Vec<(usize, Vec<usize>)> = vec![];
        for (m, model) in models.iter().enumerate() {
            if s.chance(1, 3) {
                let drop = s.below(4);
                let mut keep: Vec<usize> = (0..model.fields.len()).filter(|_| s.below(4) >= drop).collect();
                if keep.is_empty() {
                    keep.push(s.usize(model.fields.len()));
                }
                if s.bool() {
                    keep.reverse();
                }
                view_source(views.len(), &keep, &structs, &models, model, s.usize(6), &mut src);
                views.push((m, keep));
            }
        }
        let _ = writeln!(out, "pub mod g{i} {{\nuse mysql_connector::{{macros::*, model::*, types::{{self, Hex}}}};\nuse chrono::{{Duration, NaiveDate, NaiveDateTime}};\nuse std::{{option, string, vec}};\n// --- models");
        out += &src;
        out += "// --- end\nuse super::*;\n";
        for m in &models {
            glue(&structs, m, &models, &mut out);
        }
        for (v, (m, keep)) in views.iter().enumerate() {
            view_glue(v, keep, &structs, &models[*m], &mut out);
        }
        let views: Vec<String> = views.iter().enumerate().map(|(v, (m, keep))| format!("({m}, vec!{keep:?}, rt::view::<V{v}>())")).collect();
        let list: Vec<String> = models.iter().map(|m| format!("rt::ops::<{}>()", m.ident)).collect();
        let _ = writeln!(out, "pub fn graph() -> Graph {{ Graph {{ name: \"g{i}\", source: r##\"{src}\"##, models: vec![{}], views: vec![{}] }} }}\n}}\n", list.join(", "), views.join(", "));
    }
    out += "fn main() {\n    std::process::exit(mcheck::engine::main(rt::props(vec![\n";
    for i in 0..n {
        let _ = writeln!(out, "        g{i}::graph(),");
    }
    out += "    ])));\n}\n";
    out
}
