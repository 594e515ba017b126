//! Translation cache: random histories of file changes and cache calls, compared with a model that
//! remembers file contents. Works only inside a scratch directory it creates and removes.
use decy_core::{TranspilationCache, TranspiledFile};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use vharness::*;

struct Made {
    file: Vec<u8>,
    deps: Vec<(PathBuf, Vec<u8>)>,
    code: String,
}

fn contents() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![b"".to_vec(), b"int a;".to_vec(), b"int b;".to_vec(), b"int a; ".to_vec(), b"int a;\n".to_vec(), vec![0], vec![255, 254]];
    let big: Vec<u8> = (0..70_000u32).map(|i| (i % 251) as u8).collect();
    for k in [0usize, 1, 511, 4095, 4096, 8191, 8192, 35_000, 65_535, 65_536, 69_999] {
        let mut b = big.clone();
        b[k] ^= 1;
        v.push(b);
    }
    let mut sw = big.clone();
    sw.swap(10, 40_000);
    v.push(sw);
    v.push(big[..69_999].to_vec());
    v.push(big);
    v
}

fn show(c: &[u8]) -> String {
    if c.len() < 200 { format!("{:?}", String::from_utf8_lossy(c)) } else { format!("{} bytes, sum {}", c.len(), c.iter().map(|b| *b as u64).sum::<u64>()) }
}

fn main() {
    let mut run = Run::new();
    let dir = std::env::temp_dir().join(format!("vharness_p04_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    struct Clean(PathBuf);
    impl Drop for Clean {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let clean = Clean(dir.clone());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drive(&mut run, &dir)));
    drop(clean);
    match res {
        Ok(None) => run.done(),
        Ok(Some((w, log, d))) => run.fail(&w, &log, &d),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            run.fail("the cache panicked", "random history", &m)
        }
    }
}

fn drive(run: &mut Run, dir: &Path) -> Option<(String, String, String)> {
    let mut r = Rng::new(run.args.seed);
    let all = contents();
    let files: Vec<PathBuf> = ["main.c", "a.h", "b.h", "c.h"].iter().map(|f| dir.join(f)).collect();
    let cdir = dir.join("cache").join("nested");
    while run.time_left() {
        for f in &files {
            let _ = std::fs::remove_file(f);
        }
        let _ = std::fs::remove_dir_all(&cdir);
        let mut cache = TranspilationCache::with_directory(&cdir);
        let mut made: HashMap<PathBuf, Made> = HashMap::new();
        let (mut hits, mut misses) = (0usize, 0usize);
        let mut log = String::new();
        // three contents; often one small edit apart
        let mut cs = vec![r.pick(&all).clone(), r.pick(&all).clone(), r.pick(&all).clone()];
        if r.chance(1, 2) {
            let mut base: Vec<u8> = (0..r.below(60)).map(|_| *r.pick(b"ab\r\n\t #\"<>.h\0\xff\x80;")).collect();
            for c in cs.iter_mut() {
                *c = base.clone();
                let at = r.below(base.len() + 1);
                match r.below(3) {
                    0 if at < base.len() => {
                        base.remove(at);
                    }
                    1 if at < base.len() => base[at] ^= 1 << r.below(8),
                    _ => base.insert(at, *r.pick(b"ab\r\n\t #/\0\xff")),
                }
            }
        }
        let pool: Vec<usize> = vec![0, 1, 2];
        // most files exist at the start
        for f in &files {
            if r.chance(5, 6) {
                let c = *r.pick(&pool);
                std::fs::write(f, &cs[c]).unwrap();
                log.push_str(&format!("write {} {}\n", f.display(), show(&cs[c])));
            }
        }
        for step in 0..14 {
            run.cases += 1;
            let f = r.pick(&files).clone();
            match r.below(10) {
                0 | 1 => {
                    let c = *r.pick(&pool);
                    std::fs::write(&f, &cs[c]).unwrap();
                    log.push_str(&format!("write {} {}\n", f.display(), show(&cs[c])));
                }
                2 => {
                    let _ = std::fs::remove_file(&f);
                    log.push_str(&format!("delete {}\n", f.display()));
                }
                3 | 4 | 5 => {
                    let deps: Vec<PathBuf> = (0..r.below(4)).map(|_| r.pick(&files).clone()).collect();
                    let code = format!("// {}", step);
                    let t = TranspiledFile::new(f.clone(), code.clone(), deps.clone(), vec![format!("f{}", step)], format!("ffi{}", step));
                    log.push_str(&format!("insert {} deps {:?} code {:?}\n", f.display(), deps, code));
                    cache.insert(&f, &t);
                    let own = std::fs::read(&f).ok();
                    let dc: Option<Vec<_>> = deps.iter().map(|d| std::fs::read(d).ok().map(|c| (d.clone(), c))).collect();
                    match (own, dc) {
                        (Some(file), Some(deps)) => {
                            made.insert(f.clone(), Made { file, deps, code });
                        }
                        (Some(_), None) => {
                            // a dependency cannot be read: storing the translation is not safe
                            made.remove(&f);
                        }
                        _ => {}
                    }
                }
                6 => {
                    log.push_str("save, load\n");
                    cache.save().unwrap();
                    cache = TranspilationCache::load(&cdir).unwrap();
                    hits = 0;
                    misses = 0;
                }
                7 if r.chance(1, 6) => {
                    log.push_str("clear\n");
                    cache.clear();
                    made.clear();
                    hits = 0;
                    misses = 0;
                }
                _ => {
                    let want = made.get(&f).filter(|m| {
                        std::fs::read(&f).map(|c| c == m.file).unwrap_or(false) && m.deps.iter().all(|(d, c)| std::fs::read(d).map(|x| x == *c).unwrap_or(false))
                    });
                    let got = cache.get(&f).cloned();
                    log.push_str(&format!("get {}\n", f.display()));
                    match (&want, &got) {
                        (Some(m), Some(g)) if g.rust_code == m.code && g.source_path == f && g.dependencies.len() == m.deps.len() => hits += 1,
                        (None, None) => misses += 1,
                        _ => {
                            return Some((
                                if got.is_some() { "a lookup returned a translation that does not match the files on disk".into() } else { "a lookup refused a translation whose file and dependencies did not change".into() },
                                log,
                                format!("expected {:?}, got {:?}", want.map(|m| &m.code), got),
                            ));
                        }
                    }
                    let s = cache.statistics();
                    if s.hits != hits || s.misses != misses {
                        return Some(("hit and miss counts do not match the lookups".into(), log, format!("expected {} hits {} misses, got {:?}", hits, misses, s)));
                    }
                }
            }
        }
    }
    None
}
