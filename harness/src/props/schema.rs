//! C18: model files survive reading and writing, and what does not belong in them is refused.
//! C19: visitors reach every metric, path and reference to a node.
//!
//! The files are generated from a copy of the JSON schema of model files (`data/model-schema.json`), which lists every type
//! of component with all its fields. While a file is generated, the places of metrics, paths, references to nodes, and of
//! objects that accept no other fields are noted; these are what the reading, writing and visiting code is compared with.
use super::{composite, domain};
use crate::fw::{Case, Prop, Res, Rng, guard, viol};
use crate::netgen::{self, GenOpts};
use crate::run::{self, RunErr, SolverSel, Trace};
use crate::{ensure, netgen::Net};
use pywr_schema::{VisitMetrics, VisitNodeReferences, VisitPaths};
use pywr_schema::{ModelSchema, MultiNetworkModelSchema};
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::OnceLock;

type Path = Vec<String>;

fn schema() -> &'static Value {
    static S: OnceLock<Value> = OnceLock::new();
    S.get_or_init(|| {
        let mut s: Value = serde_json::from_str(include_str!("../../data/model-schema.json")).unwrap();
        // files of several networks
        let mut p = s["properties"].clone();
        let net = p.as_object_mut().unwrap().remove("network").unwrap();
        p["networks"] = json!({"type":"array","items":{"$ref":"#/$defs/MultiNetworkEntry"}});
        s["$defs"]["MultiModel"] = json!({"type":"object","properties":p,"required":["metadata","time","networks"]});
        s["$defs"]["MultiNetworkEntry"] = json!({"type":"object","required":["name","network","transfers"],"properties":{
            "name":{"type":"string"},"network":net,"transfers":{"type":"array","items":{"$ref":"#/$defs/MultiNetworkTransfer"}}}});
        s["$defs"]["MultiNetworkTransfer"] = json!({"type":"object","required":["from_network","metric","name"],"properties":{
            "from_network":{"type":"string"},"metric":{"$ref":"#/$defs/Metric"},"name":{"type":"string"},"initial_value":{"type":["number","null"],"format":"double"}}});
        s
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Kind {
    Metric,
    Index,
    PathName,
    NodeRef,
    /// An object which has only the given fields
    Closed,
    /// A field that must be there
    Required,
    Number,
    Whole,
    Text,
    Bool,
    Choice,
}

struct Gen<'r> {
    r: &'r mut Rng,
    /// Places in the file: what is there, and the name of the definition that it belongs to
    sites: Vec<(Path, Kind, String)>,
    /// Alternatives that were used, by definition and number
    used: Vec<(String, usize)>,
    /// An alternative to be used wherever its definition is needed
    force: Option<(String, usize)>,
    /// The definition of each object
    budget: i64,
    depth: usize,
}

const TEXTS: [&str; 14] = [
    "a", "node", "supply1", "River Thames", "quote\"d", "back\\slash", "tab\tand\nline", "ünï€", "", " ", "0", "null", "a[b].c", "\u{1F30A}",
];

impl Gen<'_> {
    fn number(&mut self) -> Value {
        let v = match self.r.us(0, 7) {
            0 => 0.0,
            1 => self.r.int(-100, 100) as f64,
            2 => self.r.q(-10.0, 10.0),
            3 => self.r.f(-1.0, 1.0),
            4 => self.r.f(-1.0, 1.0) * 10f64.powi(self.r.int(-300, 300) as i32),
            5 => *self.r.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e308, -1e-308, 0.1, 1.0 / 3.0, 1e22, 1e23, 9007199254740993.0, 123456789.123456789]),
            6 => f64::from_bits(self.r.next()),
            _ => self.r.f(0.0, 1000.0),
        };
        json!(if v.is_finite() { v } else { 1.5 })
    }

    fn any(&mut self, depth: usize) -> Value {
        match self.r.us(0, if depth > 0 { 6 } else { 4 }) {
            0 => json!(self.r.chance(0.5)),
            1 => json!(self.r.int(-50, 50)),
            2 => self.number(),
            3 => json!(*self.r.pick(&TEXTS)),
            4 => Value::Null,
            5 => Value::Array((0..self.r.us(0, 3)).map(|_| self.any(depth - 1)).collect()),
            _ => Value::Object((0..self.r.us(0, 3)).map(|i| (format!("k{i}"), self.any(depth - 1))).collect()),
        }
    }

    fn site(&mut self, p: &Path, k: Kind, name: &str) {
        self.sites.push((p.clone(), k, name.to_string()));
    }

    fn value(&mut self, s: &Value, name: &str, path: &Path) -> Value {
        self.budget -= 1;
        if let Some(r) = s["$ref"].as_str()
            && s.get("properties").is_none()
        {
            let n = r.rsplit('/').next().unwrap();
            match n {
                "Metric" => self.site(path, Kind::Metric, name),
                "IndexMetric" => self.site(path, Kind::Index, name),
                _ => {}
            }
            return self.value(&schema()["$defs"][n], n, path);
        }
        if let Some(a) = s["anyOf"].as_array().or(s["oneOf"].as_array()) {
            let nullable = a.iter().any(|x| x["type"] == "null");
            let c: Vec<usize> = (0..a.len()).filter(|i| a[*i]["type"] != "null").collect();
            if nullable && self.r.chance(0.08) {
                return Value::Null;
            }
            let mut i = if self.budget < 0 && c.len() > 1 && !nullable { c[self.r.us(0, 1)] } else { *self.r.pick(&c) };
            if let Some((n, k)) = &self.force
                && n == name
                && self.r.chance(0.7)
            {
                i = *k;
            }
            if !nullable {
                self.used.push((name.to_string(), i));
                if a.len() > 1 && a.iter().all(|x| x["properties"]["type"].get("const").is_some()) {
                    let mut p = path.clone();
                    p.push("type".into());
                    self.site(&p, Kind::Choice, name);
                }
            }
            return self.value(&a[i], &format!("{name}/{i}"), path);
        }
        if let Some(c) = s.get("const") {
            return c.clone();
        }
        if let Some(e) = s["enum"].as_array() {
            let i = self.r.us(0, e.len() - 1);
            self.used.push((name.to_string(), i));
            self.site(path, Kind::Choice, name);
            return e[i].clone();
        }
        let ty = match &s["type"] {
            Value::String(t) => t.clone(),
            Value::Array(a) => {
                if self.r.chance(0.08) {
                    return Value::Null;
                }
                a.iter().map(|x| x.as_str().unwrap()).find(|x| *x != "null").unwrap().to_string()
            }
            Value::Null => return self.any(2),
            x => panic!("type {x} in {name}"),
        };
        match ty.as_str() {
            "object" => self.object(s, name, path),
            "array" => {
                let mut out = vec![];
                if let Some(items) = s["prefixItems"].as_array() {
                    for (i, it) in items.iter().enumerate() {
                        let mut p = path.clone();
                        p.push(i.to_string());
                        out.push(self.value(it, &format!("{name}#{i}"), &p));
                    }
                } else {
                    let lo = s["minItems"].as_u64().unwrap_or(0) as usize;
                    let hi = s["maxItems"].as_u64().unwrap_or(if self.budget < 0 { 1 } else { 3 }) as usize;
                    let n = self.r.us(lo, hi.max(lo));
                    for i in 0..n {
                        let mut p = path.clone();
                        p.push(i.to_string());
                        out.push(self.value(&s["items"], &format!("{name}#"), &p));
                    }
                }
                Value::Array(out)
            }
            "number" => {
                self.site(path, Kind::Number, name);
                if s["format"] == "float" { json!(self.r.q(-90.0, 90.0)) } else { self.number() }
            }
            "integer" => {
                self.site(path, Kind::Whole, name);
                let (lo, hi): (i128, i128) = match s["format"].as_str().unwrap() {
                    "int8" => (i8::MIN as i128, i8::MAX as i128),
                    "int16" => (i16::MIN as i128, i16::MAX as i128),
                    "int32" => (i32::MIN as i128, i32::MAX as i128),
                    "int64" => (i64::MIN as i128, i64::MAX as i128),
                    "uint8" => (0, 255),
                    "uint32" => (0, u32::MAX as i128),
                    "uint" | "uint64" => (0, u64::MAX as i128),
                    x => panic!("format {x}"),
                };
                let lo = s["minimum"].as_i64().map_or(lo, |m| m as i128);
                let hi = s["maximum"].as_i64().map_or(hi, |m| m as i128);
                let mut v = if self.r.chance(0.15) { *self.r.pick(&[lo, hi]) } else { lo.max(0) + self.r.int(0, 30) as i128 }.min(hi);
                if s.get("not").is_some() && v == 0 {
                    v = 1;
                }
                if v > i64::MAX as i128 { json!(v as u64) } else { json!(v as i64) }
            }
            "string" => {
                if s["format"] == "partial-date-time" {
                    return json!(format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", self.r.int(1900, 2100), self.r.int(1, 12), self.r.int(1, 28), self.r.int(0, 23), self.r.int(0, 59), self.r.int(0, 59)));
                }
                self.site(path, Kind::Text, name);
                match name {
                    "CsvDataTable.url" | "CsvOutput.filename" | "Hdf5Output.filename" | "Parameter/23.url" | "PythonSource/1.path" | "Timeseries/0.url" | "Timeseries/1.url" => self.site(path, Kind::PathName, name),
                    "Edge.from_node" | "Edge.to_node" | "Metric/2.name" | "Metric/3.name" | "IndexMetric/2.name" | "NodeComponentReference.name" => self.site(path, Kind::NodeRef, name),
                    _ => {}
                }
                json!(*self.r.pick(&TEXTS))
            }
            "boolean" => {
                self.site(path, Kind::Bool, name);
                json!(self.r.chance(0.5))
            }
            x => panic!("type {x}"),
        }
    }

    fn object(&mut self, s: &Value, name: &str, path: &Path) -> Value {
        let mut out = Map::new();
        let mut parts = vec![(s, name.to_string())];
        if let Some(r) = s["$ref"].as_str() {
            let n = r.rsplit('/').next().unwrap();
            parts.push((&schema()["$defs"][n], n.to_string()));
        }
        for (s, name) in parts {
            let plain = s["properties"].as_object().is_none_or(|o| o.keys().all(|k| k == "type"));
            if s["additionalProperties"] == json!(false) && !plain {
                self.site(path, Kind::Closed, &name);
            }
            let req: Vec<&str> = s["required"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap()).collect()).unwrap_or_default();
            for (k, v) in s["properties"].as_object().into_iter().flatten() {
                let mut p = path.clone();
                p.push(k.clone());
                let needed = req.contains(&k.as_str());
                let local = k == "parameters" && name != "NetworkSchema" && self.r.chance(0.7);
                if needed && v.get("const").is_none() {
                    self.site(&p, Kind::Required, &format!("{name}.{k}"));
                }
                let wanted = self.force.as_ref().is_some_and(|(n, _)| v.to_string().contains(&format!("#/$defs/{n}\"")));
                if !needed && !wanted && (local || self.r.chance(if self.budget < 0 { 0.9 } else { 0.35 })) {
                    continue;
                }
                self.depth += 1;
                let w = self.value(v, &format!("{name}.{k}"), &p);
                self.depth -= 1;
                out.insert(k.clone(), w);
            }
            match &s["additionalProperties"] {
                Value::Bool(true) => {
                    for i in 0..self.r.us(0, 3) {
                        let v = self.any(2);
                        out.insert(format!("any {i}"), v);
                    }
                }
                Value::Object(o) => {
                    for i in 0..self.r.us(0, 3) {
                        let mut p = path.clone();
                        p.push(format!("key {i}"));
                        let v = self.value(&Value::Object(o.clone()), &format!("{name}{{}}"), &p);
                        out.insert(format!("key {i}"), v);
                    }
                }
                _ => {}
            }
        }
        Value::Object(out)
    }
}

fn get<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get(k)?,
            _ => return None,
        };
    }
    Some(v)
}

fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

/// The place of a value by names of fields and types of components.
fn place(j: &Value, p: &[String]) -> String {
    let mut out = vec![];
    for i in 0..p.len() {
        if p[i].parse::<usize>().is_err() {
            out.push(p[i].clone());
        }
        if let Some(t) = get(j, &p[..=i]).and_then(|x| x["type"].as_str()) {
            out.push(format!("({t})"));
        }
    }
    out.join(".")
}

/// All alternatives of the definitions in the schema of the files.
fn alternatives() -> &'static [(String, usize)] {
    static A: OnceLock<Vec<(String, usize)>> = OnceLock::new();
    A.get_or_init(|| {
        let mut out = vec![];
        for (n, d) in schema()["$defs"].as_object().unwrap() {
            if let Some(a) = d["anyOf"].as_array().or(d["oneOf"].as_array()) {
                out.extend((0..a.len()).map(|i| (n.clone(), i)));
            }
        }
        out
    })
}

/// A model file with all kinds of components, and what is where in it.
fn file(r: &mut Rng, multi: bool, force: Option<(String, usize)>) -> (Value, Vec<(Path, Kind, String)>, Vec<(String, usize)>) {
    let budget = r.int(20, 160);
    let mut g = Gen { r, sites: vec![], used: vec![], force, budget, depth: 0 };
    let root = if multi { &schema()["$defs"]["MultiModel"] } else { schema() };
    let v = g.object(root, "Model", &vec![]);
    let (sites, used) = (g.sites, g.used);
    // what is within an absent or null value does not exist
    let sites = sites.into_iter().filter(|(p, _, _)| get(&v, p).is_some_and(|x| !x.is_null())).collect();
    (v, sites, used)
}

/// The text of a JSON value in one of the many possible forms.
fn text(r: &mut Rng, v: &Value, style: usize, out: &mut String) {
    let pad = |r: &mut Rng, out: &mut String| {
        if style > 0 && r.chance(0.3) {
            out.push_str(*r.pick(&[" ", "\n", "\t", "\r\n  "]));
        }
    };
    pad(r, out);
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                text(r, x, style, out);
            }
            pad(r, out);
            out.push(']');
        }
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            if style > 1 {
                r.shuffle(&mut keys);
            }
            out.push('{');
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                pad(r, out);
                out.push_str(&serde_json::to_string(k).unwrap());
                pad(r, out);
                out.push(':');
                text(r, &o[*k], style, out);
            }
            out.push('}');
        }
        Value::String(s) if style > 1 && r.chance(0.3) => {
            // escapes
            out.push('"');
            for u in s.encode_utf16() {
                out.push_str(&format!("\\u{u:04x}"));
            }
            out.push('"');
        }
        Value::Number(n) if n.is_f64() && style > 0 => {
            let f = n.as_f64().unwrap();
            match r.us(0, 3) {
                0 => out.push_str(&format!("{f:e}")),
                1 if f == f.trunc() && f.abs() < 1e15 && !(f == 0.0 && f.is_sign_negative()) => out.push_str(&format!("{f:.0}")),
                2 if f.abs() < 1e15 && f.abs() > 1e-5 => out.push_str(&format!("{f}")),
                _ => out.push_str(&n.to_string()),
            }
        }
        x => out.push_str(&x.to_string()),
    }
    pad(r, out);
}

/// Whether everything in `a` is in `b`: the first difference.
fn lost(a: &Value, b: &Value, path: &mut Path) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                path.push(k.clone());
                match y.get(k) {
                    // kept in maps of arbitrary values, left out if an optional field
                    None if v.is_null() || v == &json!({}) => {}
                    None => return Some(format!("{} = {v} is missing", path.join("/"))),
                    Some(w) => {
                        if let Some(e) = lost(v, w, path) {
                            return Some(e);
                        }
                    }
                }
                path.pop();
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{}: {} instead of {} items", path.join("/"), y.len(), x.len()));
            }
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                path.push(i.to_string());
                if let Some(e) = lost(v, w, path) {
                    return Some(e);
                }
                path.pop();
            }
            None
        }
        (Value::Number(x), Value::Number(y)) if x.is_f64() || y.is_f64() => {
            let (f, g) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            // numbers are read to within a rounding error
            (f != g && (f - g).abs() > 4e-16 * f.abs().max(g.abs()) + 1e-323).then(|| format!("{}: {g:e} instead of {f:e}", path.join("/")))
        }
        _ => (a != b).then(|| format!("{}: {b} instead of {a}", path.join("/"))),
    }
}

/// Fields that were not in the file: nothing but a default.
fn added(a: &Value, b: &Value, path: &mut Path) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, w) in y {
                path.push(k.clone());
                match x.get(k) {
                    None | Some(Value::Null) => {
                        let plain = match w {
                            Value::Null | Value::Bool(false) => true,
                            Value::String(s) => matches!(s.as_str(), "Float" | "Long"),
                            Value::Array(a) => a.is_empty(),
                            Value::Object(o) => o.values().all(|v| v == &json!(false)),
                            _ => false,
                        };
                        if !plain {
                            return Some(format!("{} = {w} was not in the file", path.join("/")));
                        }
                    }
                    Some(v) => {
                        if let Some(e) = added(v, w, path) {
                            return Some(e);
                        }
                    }
                }
                path.pop();
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                path.push(i.to_string());
                if let Some(e) = added(v, w, path) {
                    return Some(e);
                }
                path.pop();
            }
            None
        }
        _ => None,
    }
}

fn read(t: &str) -> Result<Result<ModelSchema, String>, String> {
    guard(|| ModelSchema::from_str(t).map_err(|e| e.to_string()))
}

/// What is written after reading a text: as a value, and in two forms of text.
type Written = (Value, [String; 2]);

fn rewrite(t: &str, multi: bool) -> Result<Result<Written, String>, String> {
    fn w<T: serde::Serialize>(m: &T) -> Written {
        (serde_json::to_value(m).unwrap(), [serde_json::to_string(m).unwrap(), serde_json::to_string_pretty(m).unwrap()])
    }
    guard(|| if multi { MultiNetworkModelSchema::from_str(t).map(|m| w(&m)).map_err(|e| e.to_string()) } else { ModelSchema::from_str(t).map(|m| w(&m)).map_err(|e| e.to_string()) })
}

fn write(m: &ModelSchema) -> Value {
    serde_json::to_value(m).unwrap()
}

fn c18(c: &mut Case) -> Res {
    if c.rng.chance(0.2) {
        return runs(c);
    }
    let multi = c.rng.chance(0.15);
    // every alternative of the format in turn
    let force = alternatives()[c.idx as usize % alternatives().len()].clone();
    let target = format!("{}/{}", force.0, force.1);
    let (j, sites, used) = file(&mut c.rng, multi, Some(force));
    c.desc = json!({"model": j});
    let style = c.rng.us(0, 2);
    let mut t = String::new();
    text(&mut c.rng, &j, style, &mut t);
    let (w, texts) = match rewrite(&t, multi) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return Err(viol("file-rejected", format!("{e} in {t}"))),
        Err(p) => return Err(viol("panic", p)),
    };
    if let Some(e) = lost(&j, &w, &mut vec![]) {
        return Err(viol("lost", e));
    }
    if let Some(e) = added(&j, &w, &mut vec![]) {
        return Err(viol("added", e));
    }
    for t2 in texts {
        match rewrite(&t2, multi) {
            Ok(Ok((w2, _))) => {
                if let Some(e) = lost(&w, &w2, &mut vec![]).or(lost(&w2, &w, &mut vec![])) {
                    return Err(viol("not-the-same-again", format!("read, written and read again: {e}")));
                }
            }
            Ok(Err(e)) => return Err(viol("written-file-rejected", format!("{e}: {t2}"))),
            Err(p) => return Err(viol("panic", p)),
        }
    }
    c.count(if multi { "files of several networks" } else { "files" }, 1);
    c.count("places", sites.len() as u64);
    for u in used {
        c.seen(u);
    }
    // what must be refused
    let by: std::collections::BTreeSet<(Kind, &String)> = sites.iter().map(|s| (s.1, &s.2)).collect();
    let by: Vec<(Kind, &String)> = by.into_iter().collect();
    for _ in 0..10 {
        // places of the same kind in definitions of the same name count once, and half of the places are in the alternative in turn
        let names: Vec<(Kind, &String)> = by.iter().filter(|x| (*x.1 == target || x.1.starts_with(&format!("{target}.")))).cloned().collect();
        let (kind, name) = if !names.is_empty() && c.rng.chance(0.5) { *c.rng.pick(&names) } else { *c.rng.pick(&by) };
        let here: Vec<&Path> = sites.iter().filter(|s| s.1 == kind && s.2 == *name).map(|s| &s.0).collect();
        let p = (*c.rng.pick(&here)).clone();
        let mut k = j.clone();
        let what = match kind {
            Kind::Closed => {
                let o = at(&mut k, &p).unwrap().as_object_mut().unwrap();
                let names: Vec<String> = o.keys().filter(|x| *x != "type" && *x != "meta").cloned().collect();
                let n = if !names.is_empty() && c.rng.chance(0.5) { format!("{}_", c.rng.pick(&names)) } else { "unknown".to_string() };
                let v = if c.rng.chance(0.5) { json!(1.0) } else { Value::Null };
                o.insert(n, v);
                "unknown field"
            }
            Kind::Required => {
                let (last, parent) = p.split_last().unwrap();
                at(&mut k, parent).unwrap().as_object_mut().unwrap().remove(last);
                "missing field"
            }
            Kind::Number => {
                *at(&mut k, &p).unwrap() = c.rng.pick(&[json!("1.0"), json!(true), json!([1.0]), json!({"value": 1.0})]).clone();
                "no number"
            }
            Kind::Whole => {
                *at(&mut k, &p).unwrap() = c.rng.pick(&[json!("1"), json!(1.5), json!(true), json!(1e30), json!([1])]).clone();
                "no whole number"
            }
            Kind::Text => {
                *at(&mut k, &p).unwrap() = c.rng.pick(&[json!(1), json!(true), json!(["a"]), json!({})]).clone();
                "no text"
            }
            Kind::Bool => {
                *at(&mut k, &p).unwrap() = c.rng.pick(&[json!(1), json!("true"), json!([])]).clone();
                "neither true nor false"
            }
            Kind::Choice => {
                *at(&mut k, &p).unwrap() = c.rng.pick(&[json!("Unknown"), json!(""), json!("constant"), json!(true)]).clone();
                "unknown choice"
            }
            Kind::Metric | Kind::Index => {
                *at(&mut k, &p).unwrap() = c.rng.pick(&[json!(3.0), json!("name"), json!({}), json!({"type":"Constant"}), json!({"name":"a"})]).clone();
                "no metric"
            }
            Kind::PathName | Kind::NodeRef => continue,
        };
        // texts or whole numbers stand in an alternative, and nearly anything may be in a map of arbitrary values
        let pl = place(&j, &p);
        if pl.contains("kwargs") || pl.contains("args") || pl.contains("combinations") || pl.ends_with("subset.(Indices).labels") {
            continue;
        }
        if what == "no text" || what == "no whole number" {
            let (last, _) = p.split_last().unwrap();
            if ["row", "column", "metric_set", "labels", "start", "end"].contains(&last.as_str()) || p.iter().any(|x| ["row", "column", "metric_set", "subset"].contains(&x.as_str())) {
                continue;
            }
        }
        c.desc = json!({"model": k, "what": what, "where": pl});
        let mut t = String::new();
        text(&mut c.rng, &k, style, &mut t);
        match rewrite(&t, multi) {
            Ok(Err(_)) => {
                c.count(what, 1);
                c.seen((what, pl));
            }
            Ok(Ok(_)) => return Err(viol(format!("accepted:{what}:{pl}"), format!("{what} at {pl}: the file is accepted"))),
            Err(e) => return Err(viol("panic", format!("{what} at {pl}: {e}"))),
        }
    }
    // cut off or damaged text
    if t.len() > 2 {
        let mut b: Vec<u8> = t.clone().into_bytes();
        if c.rng.chance(0.5) {
            let n = c.rng.us(0, b.trim_ascii_end().len() - 1);
            b.truncate(n);
        } else {
            let n = c.rng.us(0, b.len());
            b.insert(n, *c.rng.pick(b"\x01\x02"));
        }
        let t = String::from_utf8_lossy(&b).into_owned();
        c.desc = json!({"text": t});
        match rewrite(&t, multi) {
            Ok(Err(_)) => c.count("damaged text", 1),
            Ok(Ok(_)) => return Err(viol("accepted:damaged", t)),
            Err(e) => return Err(viol("panic", e)),
        }
    }
    Ok(())
}

fn c19(c: &mut Case) -> Res {
    if c.rng.chance(0.25) {
        return moved(c);
    }
    let force = alternatives()[c.idx as usize % alternatives().len()].clone();
    let (j, sites, used) = file(&mut c.rng, false, Some(force));
    c.desc = json!({"model": j});
    let Ok(Ok(m)) = read(&j.to_string()) else {
        return Err(viol("file-rejected", j.to_string()));
    };
    let j = write(&m);
    let of = |k: Kind| sites.iter().filter(|s| s.1 == k).map(|s| s.0.clone()).collect::<Vec<_>>();
    let compare = |what: &str, exp: Vec<(String, String)>, got: Vec<String>| -> Res {
        let mut n: BTreeMap<&str, i64> = BTreeMap::new();
        for (_, e) in &exp {
            *n.entry(e).or_default() += 1;
        }
        for g in &got {
            *n.entry(g).or_default() -= 1;
        }
        for (v, k) in n {
            if k > 0 {
                let wh: Vec<&String> = exp.iter().filter(|e| e.1 == v).map(|e| &e.0).collect();
                return Err(viol(format!("{what}-not-visited"), format!("{what} {v}: {k} of {} not visited, at {wh:?}", wh.len())));
            }
            ensure!(k == 0, "visited-too-often", "{what} {v} visited {} times too often", -k);
        }
        Ok(())
    };
    // metrics
    let places = of(Kind::Metric);
    let exp = places.iter().map(|p| (place(&j, p), get(&j, p).unwrap().to_string())).collect::<Vec<_>>();
    let mut got = vec![];
    m.visit_metrics(&mut |x| got.push(serde_json::to_value(x).unwrap().to_string()));
    compare("metric", exp, got)?;
    let mut k = m.clone();
    let mark = json!({"type":"Literal","value":4242.5});
    k.visit_metrics_mut(&mut |x| *x = serde_json::from_value(mark.clone()).unwrap());
    let mut e = j.clone();
    for p in &places {
        *at(&mut e, p).unwrap() = mark.clone();
    }
    let w = write(&k);
    ensure!(w == e, "metrics-not-replaced", "replacing all metrics: {}", lost(&e, &w, &mut vec![]).unwrap_or_default());
    c.count("metrics", places.len() as u64);
    for p in &places {
        c.seen(("metric", place(&j, p)));
    }
    // paths and references to nodes
    for kind in [Kind::PathName, Kind::NodeRef] {
        let places = of(kind);
        let exp = places.iter().map(|p| (place(&j, p), get(&j, p).unwrap().as_str().unwrap().to_string())).collect::<Vec<_>>();
        let mut got = vec![];
        let mut k = m.clone();
        let mark = "marked/here";
        let what = if kind == Kind::PathName {
            m.visit_paths(&mut |x| got.push(x.to_str().unwrap().to_string()));
            k.visit_paths_mut(&mut |x| *x = PathBuf::from(mark));
            "path"
        } else {
            m.visit_node_references(&mut |x| got.push(x.to_string()));
            k.visit_node_references_mut(&mut |x| *x = mark.to_string());
            "node-reference"
        };
        compare(what, exp, got)?;
        let mut e = j.clone();
        for p in &places {
            *at(&mut e, p).unwrap() = json!(mark);
        }
        let w = write(&k);
        ensure!(w == e, format!("{what}-not-replaced"), "replacing every {what}: {}", lost(&e, &w, &mut vec![]).unwrap_or_default());
        c.count(what, places.len() as u64);
        for p in &places {
            c.seen((what, place(&j, p)));
        }
    }
    for u in used {
        c.seen(u);
    }
    c.count("files", 1);
    Ok(())
}

enum Any {
    Net(Box<Net>),
    Comp(Box<composite::M>),
}

impl Any {
    fn json(&self) -> Value {
        match self {
            Any::Net(n) => n.json(),
            Any::Comp(m) => m.json(),
        }
    }
}

fn model(c: &mut Case) -> Any {
    if c.rng.chance(0.5) {
        let t = c.thorough;
        Any::Comp(Box::new(composite::generate(&mut c.rng, t)))
    } else {
        let o = GenOpts { vs: 2, aggs: 2, steps: if c.thorough { (3, 20) } else { (3, 8) }, ..Default::default() };
        let mut n = netgen::generate(&mut c.rng, &o);
        // these are set through names that are not in the file
        for n in &mut n.nodes {
            n.cost_agg = 0;
        }
        Any::Net(Box::new(n))
    }
}

fn start(any: &Any, m: &ModelSchema, dir: &std::path::Path) -> Result<Trace, RunErr> {
    let mut mb = m.create_model_builder(Some(dir), Some(dir)).map_err(|e| RunErr::Build(format!("{e:?}")))?;
    match any {
        Any::Net(n) => n.inject(&mut mb),
        Any::Comp(m) => m.inject(&mut mb),
    }
    let out = run::run(mb, vec![], SolverSel::Highs)?;
    Ok(out.trace)
}

/// The same model from different texts, and from what was written after reading it.
fn runs(c: &mut Case) -> Res {
    let any = model(c);
    let j = any.json();
    c.desc = json!({"model": j});
    let dir = c.scratch.join("d");
    std::fs::create_dir_all(&dir).unwrap();
    let mut first: Option<Result<Trace, String>> = None;
    for i in 0..3 {
        let mut t = String::new();
        match i {
            0 => t = j.to_string(),
            1 => text(&mut c.rng, &j, 2, &mut t),
            _ => t = serde_json::to_string_pretty(&read(&j.to_string()).unwrap().map_err(|e| viol("file-rejected", e))?).unwrap(),
        }
        let p = dir.join("model.json");
        std::fs::write(&p, &t).unwrap();
        let m = guard(|| ModelSchema::from_path(&p).map_err(|e| e.to_string())).map_err(|p| viol("panic", p))?.map_err(|e| viol("file-rejected", e))?;
        let r = start(&any, &m, &dir).map_err(|e| e.text());
        match &first {
            None => first = Some(r),
            Some(f) => same_run(c, f, &r)?,
        }
    }
    c.count("models run", 1);
    Ok(())
}

fn same_run(c: &mut Case, a: &Result<Trace, String>, b: &Result<Trace, String>) -> Res {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            ensure!(a.steps.len() == b.steps.len(), "other-run", "{} and {} time-steps", a.steps.len(), b.steps.len());
            for (x, y) in a.steps.iter().zip(&b.steps) {
                for (s, t) in x.scen.iter().zip(&y.scen) {
                    if let Some(d) = domain::diff(s, t) {
                        return Err(viol("other-run", format!("{}: {d}", x.date)));
                    }
                    c.count("states compared", 1);
                }
            }
            Ok(())
        }
        (Err(_), Err(_)) => {
            c.count("both stopped", 1);
            Ok(())
        }
        (Err(e), _) | (_, Err(e)) => Err(viol("other-outcome", e.clone())),
    }
}

/// All nodes renamed and their references with them, or all files moved and their paths with them: the same run.
fn moved(c: &mut Case) -> Res {
    if c.rng.chance(0.3) {
        return files(c);
    }
    let any = model(c);
    let j = any.json();
    c.desc = json!({"model": j});
    let dir = c.scratch.join("d");
    std::fs::create_dir_all(&dir).unwrap();
    let m = read(&j.to_string()).map_err(|p| viol("panic", p))?.map_err(|e| viol("file-rejected", e))?;
    let a = start(&any, &m, &dir).map_err(|e| e.text());
    let mut names: Vec<String> = vec![];
    for k in ["nodes", "virtual_nodes"] {
        for n in j["network"][k].as_array().into_iter().flatten() {
            names.push(n["meta"]["name"].as_str().unwrap().to_string());
        }
    }
    let style = c.rng.us(0, 2);
    let mut other = names.clone();
    if style == 0 {
        c.rng.shuffle(&mut other);
    } else {
        for (i, n) in other.iter_mut().enumerate() {
            *n = if style == 1 { format!("{n} \u{e9}x") } else { format!("{}", 977 - i) };
        }
    }
    let map: BTreeMap<&String, &String> = names.iter().zip(&other).collect();
    let mut k = m.clone();
    let mut unknown = vec![];
    let mut n = 0;
    k.visit_node_references_mut(&mut |x| match map.get(x) {
        Some(y) => {
            *x = y.to_string();
            n += 1;
        }
        None => unknown.push(x.clone()),
    });
    ensure!(unknown.is_empty(), "unknown-reference", "references to {unknown:?}");
    let mut w = write(&k);
    for k in ["nodes", "virtual_nodes"] {
        for n in w["network"][k].as_array_mut().into_iter().flatten() {
            let x = &mut n["meta"]["name"];
            *x = json!(map[&x.as_str().unwrap().to_string()]);
        }
    }
    c.desc = json!({"model": j, "renamed": w});
    let k = read(&w.to_string()).map_err(|p| viol("panic", p))?.map_err(|e| viol("file-rejected", e))?;
    let b = start(&any, &k, &dir).map_err(|e| e.text());
    same_run(c, &a, &b)?;
    c.count("references renamed", n);
    c.count("models renamed", 1);
    Ok(())
}

/// A model that reads several files, which are moved to other places.
fn files(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (d1, d2) = (c.scratch.join("first"), c.scratch.join("second"));
    std::fs::create_dir_all(d1.join("sub")).unwrap();
    std::fs::create_dir_all(&d2).unwrap();
    let n = r.us(2, 6);
    let mut csv = "time,a,b\n".to_string();
    for i in 0..n {
        csv.push_str(&format!("2021-01-{:02},{},{}\n", i + 1, r.q(0.0, 9.0), r.q(0.0, 9.0)));
    }
    let ts = *r.pick(&["ts.csv", "sub/ts.csv", "./ts.csv"]);
    let table = *r.pick(&["table.csv", "sub/table 1.csv"]);
    std::fs::write(d1.join(ts), csv).unwrap();
    std::fs::write(d1.join(table), format!("key,v\nx,{}\ny,{}\n", r.q(0.0, 9.0), r.q(0.0, 9.0))).unwrap();
    let tab = |k: &str| json!({"type":"Table","table":"t","row":k});
    let tse = |k: &str| json!({"type":"Timeseries","name":"ts","columns":{"type":"Column","name":k}});
    let srcs = [tab("x"), tab("y"), tse("a"), tse("b"), json!({"type":"Literal","value":3.5})];
    let (v1, v2, v3) = (r.pick(&srcs).clone(), r.pick(&srcs).clone(), r.pick(&srcs).clone());
    let out = *r.pick(&["out.csv", "sub/out.csv"]);
    let j = json!({"metadata":{"title":"t"},
        "time":{"start":"2021-01-01","end":format!("2021-01-{n:02}"),"timestep":{"type":"Days","days":1}},
        "network":{"nodes":[
            {"meta":{"name":"i"},"type":"Input","max_flow":v1},
            {"meta":{"name":"l"},"type":"Link","max_flow":v3},
            {"meta":{"name":"o"},"type":"Output","max_flow":v2,"cost":{"type":"Literal","value":-1.0}}],
        "edges":[{"from_node":"i","to_node":"l"},{"from_node":"l","to_node":"o"}],
        "tables":[{"meta":{"name":"t"},"format":"CSV","type":"Scalar","lookup":{"type":"Row","cols":1},"url":table}],
        "timeseries":[{"type":"Polars","meta":{"name":"ts"},"time_col":"time","url":ts}],
        "metric_sets":[{"name":"m","filters":{"all_nodes":true}}],
        "outputs":[{"name":"out","type":"CSV","filename":out,"format":"Long","metric_set":"m"}]}});
    c.desc = json!({"model": j, "directory": d1});
    let m = read(&j.to_string()).map_err(|p| viol("panic", p))?.map_err(|e| viol("file-rejected", e))?;
    let go = |m: &ModelSchema, base: &std::path::Path| -> Result<Trace, String> {
        let mb = m.create_model_builder(Some(base), Some(base)).map_err(|e| format!("{e:?}"))?;
        run::run(mb, vec![], SolverSel::Highs).map(|r| r.trace).map_err(|e| e.text())
    };
    let a = go(&m, &d1);
    let Ok(a) = a else {
        return Err(viol("no-run", a.unwrap_err()));
    };
    let written = std::fs::read_to_string(d1.join(out)).unwrap();
    std::fs::remove_file(d1.join(out)).unwrap();
    let mut k = m.clone();
    let mut moves: Vec<(PathBuf, PathBuf)> = vec![];
    let absolute = c.rng.chance(0.5);
    k.visit_paths_mut(&mut |p| {
        let name = PathBuf::from(format!("f{}.csv", moves.len()));
        let new = if absolute { d2.join(&name) } else { name.clone() };
        moves.push((p.clone(), d2.join(&name)));
        *p = new;
    });
    for (from, to) in &moves {
        let f = d1.join(from);
        if f.exists() {
            std::fs::rename(f, to).unwrap();
        } else {
            ensure!(from.as_path() == std::path::Path::new(out), "unknown-path", "{from:?}");
        }
    }
    // nothing of the first place is left but what was not visited
    let base = if absolute { c.scratch.clone() } else { d2.clone() };
    match go(&k, &base) {
        Ok(b) => same_run(c, &Ok(a), &Ok(b))?,
        Err(e) => return Err(viol("files-not-moved", format!("after moving {moves:?}: {e}"))),
    }
    let Some((_, to)) = moves.iter().find(|m| m.0.as_path() == std::path::Path::new(out)) else {
        return Err(viol("output-not-moved", format!("{moves:?}")));
    };
    let again = std::fs::read_to_string(to).map_err(|e| viol("output-not-moved", e.to_string()))?;
    ensure!(again == written, "other-output", "{written} and {again}");
    c.count("files moved", moves.len() as u64);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C18", rule: "distinct (alternative of the file format used) and (kind of defect, place in the file) refused", assumptions: &[], quick: 15000, thorough: 200000, random: c18, directed: &[], threads: 8 },
        Prop { id: "C19", rule: "distinct (metric, path or reference to a node; place in the file) visited", assumptions: &[], quick: 15000, thorough: 200000, random: c19, directed: &[], threads: 8 },
    ]
}
