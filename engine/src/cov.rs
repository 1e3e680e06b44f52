//! Names and source locations, from symbol names and debug metadata.
use crate::ir::Module;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let n: usize = s[i..j].parse().unwrap_or(0);
            let mut k = j;
            if k < b.len() && b[k] == b'_' { k += 1; }
            if n > 0 && k + n <= b.len() { out.push(s[k..k + n].to_string()); i = k + n; continue; }
            i = j;
        } else if b[i] == b's' {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - i < 14 { i = j + 1; } else { i += 1; }
        } else { i += 1; }
    }
    let k = out.len().saturating_sub(5);
    out[k..].join("::")
}

/// Numbered metadata nodes: text ranges.
pub struct Meta { pos: HashMap<u32, (usize, usize)> }
impl Meta {
    pub fn new(m: &Module) -> Meta {
        let t = m.text;
        let mut pos = HashMap::new();
        let mut i = 0;
        while i < t.len() {
            let e = t[i..].iter().position(|c| *c == b'\n').map(|k| i + k).unwrap_or(t.len());
            let l = &t[i..e];
            if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                let mut k = 1;
                while k < l.len() && l[k].is_ascii_digit() { k += 1; }
                let n: u32 = std::str::from_utf8(&l[1..k]).unwrap().parse().unwrap();
                pos.insert(n, (i + k, e));
            }
            i = e + 1;
        }
        Meta { pos }
    }
    fn text(&self, m: &Module, n: u32) -> &'static str {
        match self.pos.get(&n) { Some((a, b)) => std::str::from_utf8(&m.text[*a..*b]).unwrap_or(""), None => "" }
    }
    fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
        let p = s.find(&format!("{k}: "))? + k.len() + 2;
        let r = &s[p..];
        if let Some(q) = r.strip_prefix('"') { return q.split('"').next(); }
        Some(r.split([',', ')']).next().unwrap_or(""))
    }
    fn node(s: &str, k: &str) -> Option<u32> { Self::field(s, k)?.strip_prefix('!')?.parse().ok() }
    /// (file, function, line)
    pub fn loc(&self, m: &Module, n: u32) -> Option<(String, String, u32)> {
        let s = self.text(m, n);
        let line = Self::field(s, "line")?.parse().ok()?;
        let mut sc = Self::node(s, "scope")?;
        for _ in 0..30 {
            let t = self.text(m, sc);
            if t.contains("DISubprogram") {
                let f = Self::node(t, "file")?;
                let ft = self.text(m, f);
                let mut name = Self::field(t, "linkageName").map(demangle).unwrap_or_default();
                if name.is_empty() { name = Self::field(t, "name").unwrap_or("").to_string(); }
                let dir = Self::field(ft, "directory").unwrap_or("");
                let file = Self::field(ft, "filename").unwrap_or("");
                let full = if file.starts_with('/') { file.to_string() } else { format!("{dir}/{file}") };
                return Some((full, name, line));
            }
            sc = Self::node(t, "scope")?;
        }
        None
    }
}

/// Source functions of files under `prefix` that executed code came from.
pub fn covered(m: &Module, hits: &BTreeMap<u32, BTreeSet<u32>>, prefix: &str) -> BTreeMap<String, BTreeMap<String, BTreeSet<u32>>> {
    let meta = Meta::new(m);
    let mut out: BTreeMap<String, BTreeMap<String, BTreeSet<u32>>> = BTreeMap::new();
    let mut memo: HashMap<u32, Option<(String, String, u32)>> = HashMap::new();
    for (f, blocks) in hits {
        let fu = m.func(*f);
        for b in blocks {
            for i in &fu.blocks[*b as usize] {
                if i.dbg == 0 { continue; }
                let mut d = i.dbg;
                for _ in 0..20 {
                    let l = memo.entry(d).or_insert_with(|| meta.loc(m, d)).clone();
                    if let Some((file, name, line)) = l && file.starts_with(prefix) {
                        out.entry(file[prefix.len()..].to_string()).or_default().entry(name).or_default().insert(line);
                    }
                    match Meta::node(meta.text(m, d), "inlinedAt") { Some(n) => d = n, None => break }
                }
            }
        }
    }
    out
}
