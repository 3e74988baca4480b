//! Stand-in for `tera` in the symbolic build: `{{ name }}` substitution over the repository's
//! real templates, with tera's auto-escaping rule (on for .html/.htm/.xml unless configured).
use std::fmt;
include!(concat!(env!("OUT_DIR"), "/files.rs"));

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Default, Clone)]
pub struct Context { v: Vec<(String, serde_json::Value)> }
impl Context {
    pub fn new() -> Self { Context { v: vec![] } }
    pub fn insert<T: serde::Serialize + ?Sized, S: Into<String>>(&mut self, k: S, val: &T) {
        let k = k.into();
        let val = serde_json::to_value(val).unwrap();
        for e in self.v.iter_mut() { if e.0 == k { e.1 = val; return; } }
        self.v.push((k, val));
    }
    fn get(&self, k: &str) -> Option<&serde_json::Value> { self.v.iter().find(|e| e.0 == k).map(|e| &e.1) }
}

#[derive(Clone)]
pub struct Tera { prefix: String, esc: Vec<&'static str>, extra: Vec<(String, String)> }
fn escape_html(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), '"' => o.push_str("&quot;"), '\'' => o.push_str("&#x27;"), '/' => o.push_str("&#x2F;"), c => o.push(c) } }
    o
}
impl Default for Tera { fn default() -> Self { Tera { prefix: String::new(), esc: vec![".html", ".htm", ".xml"], extra: vec![] } } }
impl Tera {
    /// template names are relative to the part of the glob before its first `*`
    pub fn new(glob: &str) -> Result<Tera> {
        let i = match glob.find('*') { Some(i) => i, None => return Err(Error("no * in the glob".into())) };
        Ok(Tera { prefix: glob[..i].to_string(), ..Default::default() })
    }
    pub fn autoescape_on(&mut self, s: Vec<&'static str>) { self.esc = s; }
    pub fn add_raw_template(&mut self, n: &str, c: &str) -> Result<()> { self.extra.push((n.to_string(), c.to_string())); Ok(()) }
    fn text(&self, name: &str) -> Option<&str> {
        for e in &self.extra { if e.0 == name { return Some(&e.1); } }
        for (p, t) in FILES { if p.len() == self.prefix.len() + name.len() && p.starts_with(self.prefix.as_str()) && p.ends_with(name) { return Some(t); } }
        None
    }
    pub fn render(&self, name: &str, c: &Context) -> Result<String> {
        let t = match self.text(name) { Some(t) => t, None => return Err(Error(format!("Template '{}' not found", name))) };
        let esc = self.esc.iter().any(|s| name.ends_with(s));
        let mut o = String::with_capacity(t.len() + 256);
        let mut rest = t;
        loop {
            let i = match rest.find('{') { Some(i) => i, None => { o.push_str(rest); return Ok(o); } };
            let after = &rest[i + 1..];
            if after.starts_with('{') {
                o.push_str(&rest[..i]);
                let j = match after.find("}}") { Some(j) => j, None => return Err(Error("unclosed {{".into())) };
                let mut key = after[1..j].trim();
                let (mut safe, mut force) = (false, false);
                if let Some(p) = key.find('|') { match key[p + 1..].trim() { "safe" => safe = true, "escape" => force = true, _ => panic!("vtera: unsupported filter") } key = key[..p].trim(); }
                let v = match c.get(key) { Some(v) => v, None => return Err(Error(format!("Variable `{}` not found in context", key))) };
                let s = match v { serde_json::Value::String(s) => s.clone(), serde_json::Value::Number(_) | serde_json::Value::Bool(_) => v.to_string(), _ => panic!("vtera: unsupported value") };
                if force || esc && !safe { o.push_str(&escape_html(&s)); } else { o.push_str(&s); }
                rest = &after[j + 2..];
            } else if after.starts_with('%') || after.starts_with('#') { panic!("vtera: unsupported tag") }
            else { o.push_str(&rest[..i + 1]); rest = after; }
        }
    }
}
