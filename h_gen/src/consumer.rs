//! Builds the consuming library (the sources of /repo/intl_pluralrules) with generated tables, and runs the driver.
use refmodel::report::{beat, root};
use refmodel::serde_json::{self, Value};
use std::path::{Path, PathBuf};
use std::process::Command;

pub const LIB: &str = "/repo/intl_pluralrules";

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let p = PathBuf::from(format!("{}/scratch/{}", root(), name));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn copy_dir(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap() {
        let e = e.unwrap();
        let t = b.join(e.file_name());
        if e.file_type().unwrap().is_dir() { copy_dir(&e.path(), &t) } else { std::fs::copy(e.path(), t).unwrap(); }
    }
}

/// What `rustfmt` makes of a text, the way the command-line tool calls it.
pub fn rustfmt(dir: &Path, text: &str) -> Result<String, String> {
    let f = dir.join("fmt_me.rs");
    std::fs::write(&f, text).unwrap();
    let o = Command::new("rustfmt").arg(&f).output().map_err(|e| e.to_string())?;
    if !o.status.success() { return Err(String::from_utf8_lossy(&o.stderr).chars().take(600).collect()); }
    let s = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
    std::fs::remove_file(&f).unwrap();
    Ok(s)
}

/// The library's own manifest under another name: its edition, dependencies and features, not its tests or benches.
fn manifest(k: usize) -> String {
    let src = std::fs::read_to_string(format!("{}/Cargo.toml", LIB)).unwrap_or_default();
    let (mut edition, mut keep, mut section) = ("2018".to_string(), String::new(), String::new());
    for l in src.lines() {
        let t = l.trim();
        if t.starts_with('[') { section = t.to_string(); }
        if section == "[package]" && t.starts_with("edition") { if let Some(v) = t.split('"').nth(1) { edition = v.to_string(); } }
        if section.starts_with("[dependencies") || section.starts_with("[features") { keep.push_str(l); keep.push('\n'); }
    }
    format!("[package]\nname = \"intl_g{}\"\nversion = \"0.0.0\"\nedition = \"{}\"\n{}", k, edition, keep)
}

pub enum Built { Out(Value), DoesNotCompile(String), Broken(String) }

/// tables[k]: Some(generated rules file) or None for the library as it is.
pub fn build_and_run(s: &Scratch, tables: &[Option<String>], mode: &str, spec: &Value) -> Built {
    let d = &s.0;
    let mut deps = String::new();
    let mut glue = String::from("fn tables() -> Vec<Table> { vec![");
    for (k, t) in tables.iter().enumerate() {
        let c = d.join(format!("intl_g{}", k));
        copy_dir(&PathBuf::from(format!("{}/src", LIB)), &c.join("src"));
        if let Some(t) = t { std::fs::write(c.join("src/rules.rs"), t).unwrap(); }
        std::fs::write(c.join("Cargo.toml"), manifest(k)).unwrap();
        deps.push_str(&format!("intl_g{} = {{ path = \"../intl_g{}\" }}\n", k, k));
        glue.push_str(&format!("table!(intl_g{}), ", k));
    }
    glue.push_str("] }\n");
    let drv = d.join("driver");
    std::fs::create_dir_all(drv.join("src")).unwrap();
    std::fs::copy(format!("{}/gen_driver/main.rs", root()), drv.join("src/main.rs")).unwrap();
    std::fs::write(drv.join("src/tables.rs"), glue).unwrap();
    std::fs::write(drv.join("Cargo.toml"), format!(
        "[package]\nname = \"gen_driver\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\nrefmodel = {{ path = \"{}/refmodel\" }}\nunic-langid = \"0.9\"\n{}\n[profile.release]\nopt-level = 2\noverflow-checks = true\n{}\n[workspace]\n",
        root(), deps, (0..tables.len()).map(|k| format!("[profile.release.package.intl_g{}]\nopt-level = 1\ncodegen-units = 16\n", k)).collect::<String>())).unwrap();
    std::fs::copy(format!("{}/h_intl/Cargo.lock", root()), drv.join("Cargo.lock")).unwrap();
    let spec_path = d.join("spec.json");
    std::fs::write(&spec_path, serde_json::to_string(spec).unwrap()).unwrap();
    beat();
    let o = Command::new("cargo").args(["build", "--release", "--offline", "--manifest-path"]).arg(drv.join("Cargo.toml")).output().expect("cargo");
    beat();
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).into_owned();
        let first: String = e.lines().skip_while(|l| !l.starts_with("error")).take(30).collect::<Vec<_>>().join("\n");
        return if e.contains("could not compile `intl_g") { Built::DoesNotCompile(first) } else { Built::Broken(first) };
    }
    let bin = format!("{}/release/gen_driver", std::env::var("CARGO_TARGET_DIR").unwrap());
    let mut ch = Command::new(bin).arg(mode).arg(&spec_path).stdout(std::process::Stdio::piped()).spawn().expect("driver");
    let mut out = String::new();
    {
        use std::io::Read;
        // the driver is bounded; keep the watchdog quiet while it works, for at most 40 minutes
        let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let d2 = done.clone();
        let pid = ch.id() as i32;
        let h = std::thread::spawn(move || { for k in 0..4800 { if d2.load(std::sync::atomic::Ordering::SeqCst) { return; } beat(); std::thread::sleep(std::time::Duration::from_millis(500)); if k == 4799 { unsafe { libc::kill(pid, 9); } } } });
        ch.stdout.take().unwrap().read_to_string(&mut out).unwrap();
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = h.join();
    }
    let st = ch.wait().unwrap();
    match serde_json::from_str(&out) { Ok(v) if st.success() => Built::Out(v), _ => Built::Broken(format!("driver ended with {:?}", st)) }
}

/// The library with its own tables compiles and works: a failure with generated tables is the generator's.
pub fn consumer_is_sane() -> bool {
    let s = Scratch::new("sane");
    matches!(build_and_run(&s, &[None], "lookup", &serde_json::json!({"tables": [{"version": 0, "cardinal": {}, "ordinal": {}}], "absent": []})), Built::Out(_))
}
