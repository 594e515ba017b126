//! vextract: mechanical extraction of real decy functions into a Verus file.
//!
//! usage: vextract <repo-root> <template.vrs> <out.rs> <out.json>
//!
//! The template is Verus text with `//@` directives naming functions and types of /repo.
//! Every named item is read from the working tree on every run; the contract (ret/spec/loop
//! sections) comes from the template, the executable text comes from /repo.  What is dropped
//! or desugared is logged in the JSON file.
mod print;
mod template;
mod xform;

use std::collections::BTreeMap;
use std::fmt::Write as _;

pub struct Log {
    pub fns: Vec<(String, String, usize, usize)>, // name, file, start line, end line
    pub types: Vec<String>,
    pub desugar: BTreeMap<String, usize>,
    pub dropped: BTreeMap<String, usize>,
    pub inlined: Vec<String>,
    pub helpers: Vec<String>,
    /// optional functions that are not there
    pub gone: Vec<String>,
    /// loops that stand without the invariants written for them, by function
    pub lost: Vec<String>,
    pub errors: Vec<String>,
}

impl Log {
    pub fn d(&mut self, k: &str) {
        *self.desugar.entry(k.to_string()).or_default() += 1;
    }
    pub fn drop(&mut self, k: &str) {
        *self.dropped.entry(k.to_string()).or_default() += 1;
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 {
        eprintln!("usage: vextract <repo> <template> <out.rs> <out.json>");
        std::process::exit(2);
    }
    let mut log = Log {
        fns: vec![],
        types: vec![],
        desugar: BTreeMap::new(),
        dropped: BTreeMap::new(),
        inlined: vec![],
        helpers: vec![],
        gone: vec![],
        lost: vec![],
        errors: vec![],
    };
    let out = template::expand(&a[1], &a[2], &mut log);
    let code = match out {
        Ok(text) => {
            // Verus allows one module-level `broadcast use`: merge those of the included files
            let mut uses = vec![];
            let mut lines: Vec<&str> = vec![];
            for l in text.lines() {
                match l.strip_prefix("broadcast use ") {
                    Some(r) => uses.push(r.trim_end().trim_end_matches(';').trim_matches(|c| c == '{' || c == '}').to_string()),
                    None => lines.push(l),
                }
            }
            let mut text = String::new();
            for l in lines {
                text.push_str(l);
                text.push('\n');
                if !uses.is_empty() && l.starts_with("verus! {") {
                    text.push_str(&format!("broadcast use {{{}}};\n", uses.join(", ")));
                    uses.clear();
                }
            }
            std::fs::write(&a[3], text).expect("write out");
            0
        }
        Err(e) => {
            log.errors.push(e);
            3
        }
    };
    let mut j = String::from("{\n \"functions\": [");
    for (i, (n, f, s, e)) in log.fns.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        let _ = write!(j, "\n  {{\"name\": {}, \"file\": {}, \"lines\": [{}, {}]}}", jstr(n), jstr(f), s, e);
    }
    j.push_str("],\n \"types\": [");
    j.push_str(&log.types.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"desugared\": {");
    j.push_str(&log.desugar.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n \"dropped\": {");
    j.push_str(&log.dropped.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n \"inlined\": [");
    j.push_str(&log.inlined.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"helpers\": [");
    j.push_str(&log.helpers.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"gone\": [");
    j.push_str(&log.gone.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"lost\": [");
    j.push_str(&log.lost.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"errors\": [");
    j.push_str(&log.errors.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(", "));
    j.push_str("]\n}\n");
    std::fs::write(&a[4], j).expect("write log");
    for e in &log.errors {
        eprintln!("vextract: {}", e);
    }
    std::process::exit(code);
}
