//! Build order: random dependency graphs and random trees of C files, compared with an independent
//! reading of the include lines and a direct check of the order. Works in a scratch directory only.
use decy_core::DependencyGraph;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use vharness::*;

/// can every node be numbered so that edges go downwards? (Kahn)
fn acyclic(n: usize, e: &BTreeSet<(usize, usize)>) -> bool {
    let mut left: BTreeSet<usize> = (0..n).collect();
    loop {
        let free: Vec<usize> = left.iter().copied().filter(|x| !e.iter().any(|(a, b)| a == x && left.contains(b))).collect();
        if free.is_empty() {
            return left.is_empty();
        }
        for f in free {
            left.remove(&f);
        }
    }
}

fn check_order(g: &DependencyGraph, names: &[PathBuf], e: &BTreeSet<(usize, usize)>) -> Result<(), (String, String)> {
    let r = g.topological_sort();
    let ok = acyclic(names.len(), e);
    match r {
        Err(m) => {
            if ok {
                return Err(("a graph without circular dependencies was refused".into(), m.to_string()));
            }
        }
        Ok(v) => {
            if !ok {
                return Err(("circular dependencies were not reported".into(), format!("{:?}", v)));
            }
            let mut pos = BTreeMap::new();
            for (i, p) in v.iter().enumerate() {
                if pos.insert(p.clone(), i).is_some() {
                    return Err(("a file is twice in the build order".into(), format!("{:?}", v)));
                }
            }
            if v.len() != names.len() || names.iter().any(|n| !pos.contains_key(n)) {
                return Err(("the build order does not list every file once".into(), format!("{:?}", v)));
            }
            for (a, b) in e {
                if pos[&names[*b]] >= pos[&names[*a]] {
                    return Err(("a file comes before one it depends on".into(), format!("{} before {} in {:?}", names[*a].display(), names[*b].display(), v)));
                }
            }
        }
    }
    for (i, a) in names.iter().enumerate() {
        if !g.contains_file(a) {
            return Err(("a file that was added is not in the graph".into(), format!("{:?}", a)));
        }
        for (j, b) in names.iter().enumerate() {
            if g.has_dependency(a, b) != e.contains(&(i, j)) {
                return Err(("has_dependency disagrees with what was declared".into(), format!("{} -> {}", a.display(), b.display())));
            }
        }
    }
    if g.file_count() != names.len() || g.is_empty() != names.is_empty() {
        return Err(("wrong file count".into(), format!("{} for {}", g.file_count(), names.len())));
    }
    if g.contains_file(Path::new("no/such/file.c")) || (!names.is_empty() && g.has_dependency(&names[0], Path::new("no/such/file.c"))) {
        return Err(("a file that was never added is in the graph".into(), String::new()));
    }
    Ok(())
}

/// (name, quoted) of an include line, read char by char
fn include_of(line: &str) -> Option<(String, bool)> {
    let t: Vec<char> = line.trim().chars().collect();
    let key: Vec<char> = "#include".chars().collect();
    if t.len() < key.len() || t[..key.len()] != key[..] {
        return None;
    }
    let k = t.iter().position(|c| *c == '"' || *c == '<')?;
    let close = if t[k] == '"' { '"' } else { '>' };
    let e = t[k + 1..].iter().position(|c| *c == close)?;
    Some((t[k + 1..k + 1 + e].iter().collect(), t[k] == '"'))
}

const LINES: &[&str] = &[
    "int x;", "", "#include <stdio.h>", "#include <stdio.h> // for \"printf\"", "  #include \"a.h\"", "\t#include\t\"b.h\"\t", "#include \"sub/c.h\" /* <x> */", "#include\"a.h\"",
    "#include <a.h>", "#include \"b.h", "#include <b.h", "#include", "#include MACRO", "#include /*é*/ \"c.h\"", "#include \"é.h\"", "#include <é.h> \"a.h\"", "#include \"\"", "#include <>",
    "// #include \"a.h\"", "#define A 1", "#ifndef A_H", "#endif", "#if !defined(A_H)", "#include \"../b.h\"", "#include \"a.h\" #include \"b.h\"", "x #include \"a.h\"", "#included \"b.h\"",
];

fn rand_line(r: &mut Rng) -> String {
    if r.chance(3, 4) {
        return r.pick(LINES).to_string();
    }
    let mut s = String::from(*r.pick(&["#include", " #include ", "#include <", "#include \"", "#in", ""]));
    for _ in 0..r.below(10) {
        s.push(*r.pick(&['"', '<', '>', 'a', '.', 'h', ' ', 'é', '漢', '/', '\t', '🦀']));
    }
    s
}

fn main() {
    let mut run = Run::new();
    let dir = run.scratch("p05");
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let mut r = Rng::new(run.args.seed);
    let mut round = 0u64;
    while run.time_left() {
        round += 1;
        // 1. declared graphs
        for _ in 0..200 {
            let n = r.below(7);
            let names: Vec<PathBuf> = (0..n).map(|i| PathBuf::from(format!("{}f{}.c", if i % 2 == 0 { "d/" } else { "" }, i))).collect();
            let mut e = BTreeSet::new();
            let mut log = String::new();
            let mut g = DependencyGraph::new();
            for p in &names {
                g.add_file(p);
                log.push_str(&format!("add_file {}\n", p.display()));
            }
            let forward = r.chance(2, 3);
            if n > 0 {
                for _ in 0..r.below(9) {
                    let (mut a, mut b) = (r.below(n), r.below(n));
                    if forward && a == b {
                        continue;
                    }
                    if forward && a < b {
                        std::mem::swap(&mut a, &mut b);
                    }
                    e.insert((a, b));
                    let (x, y) = (&names[a], &names[b]);
                    log.push_str(&format!("add_dependency {} {}\n", x.display(), y.display()));
                    g.add_dependency(x, y);
                    if r.chance(1, 4) {
                        g.add_file(x);
                        g.add_dependency(x, y);
                        log.push_str("(again)\n");
                    }
                }
            }
            let l2 = log.clone();
            if let Err((w, d)) = run.call("topological_sort", &move || l2.clone(), || check_order(&g, &names, &e)) {
                run.fail(&w, &log, &d);
            }
        }
        // 2. include lines
        for _ in 0..300 {
            let text: String = (0..r.below(6)).map(|_| rand_line(&mut r) + *r.pick(&["\n", "\n", "\r\n"])).collect();
            let t2 = text.clone();
            let got = run.call("parse_include_directives", &move || t2.clone(), || DependencyGraph::parse_include_directives(&text));
            let want: Vec<String> = text.lines().filter_map(include_of).map(|x| x.0).collect();
            if got != want {
                run.fail("the include lines of a file were read wrongly", &text, &format!("expected {:?}, got {:?}", want, got));
            }
        }
        // 3. files on disk
        let all = ["a.h", "b.h", "sub/c.h", "main.c", "é.h", "util.c"];
        let mut texts: BTreeMap<&str, String> = BTreeMap::new();
        for f in all {
            let t: String = (0..r.below(6)).map(|_| rand_line(&mut r) + "\n").collect();
            std::fs::write(dir.join(f), &t).unwrap();
            texts.insert(f, t);
        }
        let abs = r.chance(1, 2);
        let mut files: Vec<PathBuf> = vec![];
        for f in all {
            if r.chance(4, 5) {
                files.push(if abs { dir.join(f) } else { PathBuf::from(f) });
            }
        }
        if r.chance(1, 4) && !files.is_empty() {
            files.push(files[0].clone());
        }
        let mut names: Vec<PathBuf> = vec![];
        for f in &files {
            if !names.contains(f) {
                names.push(f.clone());
            }
        }
        let input = format!("{:#?}\nlisted: {:?}", texts, files);
        let i2 = input.clone();
        let g = match run.call("from_files", &move || i2.clone(), || DependencyGraph::from_files(&files)) {
            Ok(g) => g,
            Err(m) => run.fail("from_files refused readable files", &input, &m.to_string()),
        };
        let mut e = BTreeSet::new();
        for (i, f) in names.iter().enumerate() {
            let rel = if abs { f.strip_prefix(&dir).unwrap() } else { f };
            for l in texts[rel.to_str().unwrap()].lines() {
                if let Some((n, _)) = include_of(l) {
                    let target = f.parent().unwrap().join(n);
                    if let Some(j) = names.iter().position(|x| *x == target) {
                        e.insert((i, j));
                    }
                }
            }
        }
        if let Err((w, d)) = check_order(&g, &names, &e) {
            run.fail(&w, &input, &d);
        }
        if r.chance(1, 3) {
            let mut bad = files.clone();
            bad.insert(r.below(bad.len() + 1), dir.join("missing.c"));
            if DependencyGraph::from_files(&bad).is_ok() {
                run.fail("an unreadable file was accepted", &format!("{:?}", bad), "from_files returned Ok");
            }
        }
        for f in all {
            let ls: Vec<&str> = texts[f].lines().map(|l| l.trim()).collect();
            let want = ls.iter().any(|l| l.starts_with("#ifndef") || l.starts_with("#if !defined")) && ls.iter().any(|l| l.starts_with("#define")) && ls.iter().any(|l| l.starts_with("#endif"));
            match DependencyGraph::has_header_guard(&dir.join(f)) {
                Ok(b) if b == want => {}
                o => run.fail("the header guard of a file was misread", &texts[f], &format!("expected {}, got {:?}", want, o.ok())),
            }
        }
        // 4. the dependencies a translation declares
        if round % 8 == 1 {
            for f in ["a.h", "b.h", "sub/c.h", "é.h"] {
                std::fs::write(dir.join(f), "int v;\n").unwrap();
            }
            let lines = ["#include \"a.h\"", "#include \"b.h\" // <stdio.h>", "#include <a.h>", "#include <stdio.h> // \"b.h\"", "#include \"sub/c.h\"", "#include \"é.h\"", "  #include \"a.h\"  ", "int y;", "// #include \"b.h\""];
            let mut t: String = (0..r.below(5)).map(|_| format!("{}\n", r.pick(&lines))).collect();
            t.push_str("int main(void) { return 0; }\n");
            std::fs::write(dir.join("main.c"), &t).unwrap();
            let path = if r.chance(1, 2) { dir.join("main.c") } else { PathBuf::from("main.c") };
            let t2 = t.clone();
            match run.call("transpile_file", &move || t2.clone(), || decy_core::transpile_file(&path, &decy_core::ProjectContext::new())) {
                Err(m) => run.fail("a file whose includes all exist was refused", &t, &format!("{:#}", m)),
                Ok(tf) => {
                    let want: Vec<PathBuf> = t.lines().filter_map(include_of).filter(|x| x.1).map(|x| path.parent().unwrap().join(x.0)).filter(|p| p.exists()).collect();
                    if tf.dependencies != want {
                        run.fail("the dependencies of a translation are not the files it includes", &t, &format!("expected {:?}, got {:?}", want, tf.dependencies));
                    }
                    if tf.source_path != path {
                        run.fail("a translation names another source file", &t, &format!("{:?}", tf.source_path));
                    }
                }
            }
        }
    }
    run.done()
}
