//! Executable oracles run against the real code of /repo (never a copy of it).
//! They search for a concrete failing input; they decide nothing the verifier has proved.
pub mod gen;
pub mod prog;
pub mod rust;
pub mod slices;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) % (n as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Args {
    pub seed: u64,
    pub secs: f64,
    pub out: String,
}

pub fn args() -> Args {
    let v: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| v.iter().position(|a| a == k).and_then(|i| v.get(i + 1).cloned()).unwrap_or(d.into());
    Args { seed: get("--seed", "1").parse().unwrap_or(1), secs: get("--secs", "5").parse().unwrap_or(5.0), out: get("--out", "/dev/null") }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// Collects cases and reports: exit 0 nothing found, exit 1 failing input found.
pub struct Run {
    pub args: Args,
    pub cases: u64,
    pub skipped: u64,
    t0: std::time::Instant,
    pub notes: Vec<String>,
    scratch: Option<std::path::PathBuf>,
}

impl Run {
    pub fn new() -> Run {
        std::panic::set_hook(Box::new(|_| {}));
        Run { args: args(), cases: 0, skipped: 0, t0: std::time::Instant::now(), notes: vec![], scratch: None }
    }
    pub fn time_left(&self) -> bool {
        self.t0.elapsed().as_secs_f64() < self.args.secs
    }
    /// a scratch directory, removed when the run ends
    pub fn scratch(&mut self, name: &str) -> std::path::PathBuf {
        let d = std::env::temp_dir().join(format!("vharness_{}_{}", name, std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        self.scratch = Some(d.clone());
        d
    }
    fn clean(&self) {
        if let Some(d) = &self.scratch {
            let _ = std::fs::remove_dir_all(d);
        }
    }
    pub fn fail(&self, what: &str, input: &str, detail: &str) -> ! {
        let j = format!(
            "{{\"kind\":\"failing-input\",\"what\":\"{}\",\"input\":\"{}\",\"detail\":\"{}\",\"seed\":{},\"case\":{}}}\n",
            esc(what),
            esc(input),
            esc(detail),
            self.args.seed,
            self.cases
        );
        self.clean();
        let _ = std::fs::write(&self.args.out, &j);
        println!("FOUND {}", what);
        println!("{}", input);
        println!("{}", detail);
        std::process::exit(1)
    }
    pub fn done(&self) -> ! {
        self.clean();
        println!("NONE cases={} skipped={} secs={:.1}", self.cases, self.skipped, self.t0.elapsed().as_secs_f64());
        for n in &self.notes {
            println!("NOTE {}", n);
        }
        std::process::exit(0)
    }
    /// run the real code; a panic is a failing input
    pub fn call<T>(&mut self, what: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> T) -> T {
        self.cases += 1;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(v) => v,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.fail(&format!("{}: the code under check panicked", what), &input(), &m)
            }
        }
    }
}
/// Has rustc check texts (each a self-contained piece of Rust), many at a time: a text it rejects is a
/// failing input.
#[derive(Default)]
pub struct Rustc {
    batch: Vec<(String, String)>,
    pub checked: usize,
    pub limit: usize,
}
impl Rustc {
    pub fn new(limit: usize) -> Self {
        Rustc { batch: vec![], checked: 0, limit }
    }
    /// keep a text for checking; `prefix` declares what it uses
    pub fn add(&mut self, run: &mut Run, input: String, text: &str, prefix: &str) {
        if self.checked + self.batch.len() >= self.limit {
            return;
        }
        self.batch.push((input, format!("{}\n{}", prefix, text)));
        if self.batch.len() >= 250 {
            self.flush(run);
        }
    }
    pub fn flush(&mut self, run: &mut Run) {
        if self.batch.is_empty() {
            return;
        }
        let d = run.scratch("rustc");
        let mut src = String::from("#![allow(warnings)]\n");
        let mut at = vec![];
        for (i, (_, t)) in self.batch.iter().enumerate() {
            at.push(src.matches('\n').count() + 1);
            src.push_str(&format!("pub mod m{} {{ #![allow(static_mut_refs)]\n{}\n}}\n", i, t));
        }
        let file = d.join("batch.rs");
        std::fs::write(&file, &src).expect("scratch file");
        let out = std::process::Command::new("rustc")
            .args(["--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--cap-lints", "allow", "--error-format", "short", "--out-dir"])
            .arg(&d)
            .arg(&file)
            .output();
        let out = match out {
            Ok(o) => o,
            Err(_) => {
                self.batch.clear();
                return; // no compiler here: nothing learnt
            }
        };
        if !out.status.success() {
            let e = String::from_utf8_lossy(&out.stderr).to_string();
            if let Some(l) = e.lines().find(|l| l.contains("batch.rs:") && l.contains("error")) {
                let line: usize = l.split("batch.rs:").nth(1).and_then(|x| x.split(':').next()).and_then(|x| x.parse().ok()).unwrap_or(1);
                let i = at.iter().rposition(|a| *a <= line).unwrap_or(0);
                let (input, text) = self.batch[i].clone();
                let l = l.split("batch.rs:").nth(1).unwrap_or(l);
                run.fail("rustc rejects the generated Rust", &input, &format!("{}\n{}", l, text));
            }
        }
        self.checked += self.batch.len();
        self.batch.clear();
    }
}

impl Default for Run {
    fn default() -> Self {
        Self::new()
    }
}
