//! C19: the command-line tool, run as a process in a scratch directory, over all combinations of inputs,
//! output states, flags and failures of its environment.
use crate::consumer::Scratch;
use crate::generate;
use crate::inputs::ordered;
use refmodel::par_chunks;
use refmodel::report::{beat, Report};
use refmodel::serde_json::json;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out { Absent, Short, Long, Exact, Link, NoDir, IsDir, IsInput }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fmt { Real, Missing, Failing }

/// Names of output files; the last in a directory of its own.
const ODD: [&str; 10] = ["out", "tables.txt", "two words.rs", "\u{17c}\u{f3}\u{142}w.rs", ".rs", ".hidden", "out.rs.bak", "mod.rs", "OUT.RS", "sub dir/out.rs"];
const OLD: &str = "// what was there before\n";

struct Run { ok: bool, timed_out: bool, err: String }

fn run(bin: &Path, args: &[String], dir: &Path, path: &str, fsize: Option<u64>) -> Run {
    let mut c = Command::new(bin);
    c.args(args).current_dir(dir).env("PATH", path).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            libc::alarm(60);
            if let Some(n) = fsize {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            Ok(())
        });
    }
    let o = c.output().expect("run the tool");
    use std::os::unix::process::ExitStatusExt;
    Run { ok: o.status.success(), timed_out: o.status.signal() == Some(libc::SIGALRM), err: String::from_utf8_lossy(&o.stderr).chars().take(300).collect() }
}

/// Everything below a directory: paths and contents (of directories none).
fn listing(d: &Path) -> Vec<(PathBuf, Option<Vec<u8>>)> {
    let mut v = vec![];
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() { v.extend(listing(&p)); v.push((p, None)); } else { let c = std::fs::read(&p).ok(); v.push((p, c)); }
    }
    v.sort();
    v
}

pub fn run_all(r: &'static Report) {
    let bin = PathBuf::from(format!("{}/release/cli_under_test", std::env::var("CARGO_TARGET_DIR").unwrap()));
    let sc = Scratch::new("c19");
    let set = |t: &str| vec![("one", t.to_string())];
    let card: Vec<_> = ["en", "fr", "pt-PT", "zh"].iter().enumerate().map(|(k, l)| (l.to_string(), set(&format!("n = {}", k + 1)))).collect();
    let ord: Vec<_> = ["cy", "en"].iter().map(|l| (l.to_string(), set("i = 2..4 and v = 0"))).collect();
    let cldr = |k: &str| std::fs::read_to_string(format!("{}/data/cldr37_{}s.json", refmodel::report::root(), k)).unwrap();
    // kinds of input file
    let kinds: Vec<(&str, Option<String>)> = vec![
        ("cardinal", Some(ordered("37", Some(&card), None))),
        ("ordinal", Some(ordered("37", None, Some(&ord)))),
        ("both", Some(ordered("37", Some(&card), Some(&ord)))),
        ("ordinal-38", Some(ordered("38", None, Some(&ord)))),
        ("neither", Some(ordered("37", None, None))),
        ("garbage", Some("{\"supplemental\": ".into())),
        ("bad-rule", Some(ordered("37", Some(&vec![("en".to_string(), set("x = 1"))]), None))),
        ("empty", Some(String::new())),
        ("missing", None),
        ("cldr-cardinal", Some(cldr("cardinal"))),
        ("cldr-ordinal", Some(cldr("ordinal"))),
        ("directory", None),
        ("not-utf8", None),
    ];
    // a PATH with nothing, and one with a rustfmt that fails
    let real = std::env::var("PATH").unwrap();
    let empty = sc.0.join("emptybin");
    let failing = sc.0.join("failbin");
    std::fs::create_dir_all(&empty).unwrap();
    std::fs::create_dir_all(&failing).unwrap();
    let f = failing.join("rustfmt");
    std::fs::write(&f, "#!/bin/sh\nexit 1\n").unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    let path_of = |f: Fmt| match f { Fmt::Real => real.clone(), Fmt::Missing => empty.display().to_string(), Fmt::Failing => format!("{}:/usr/bin:/bin", failing.display()) };

    // what a list of inputs must give: the unformatted and the formatted text, or a refusal
    let mut lists: Vec<Vec<usize>> = (0..kinds.len()).map(|k| vec![k]).collect();
    for a in 0..kinds.len() { for b in 0..kinds.len() { lists.push(vec![a, b]); } }
    for l in [[0, 1, 4], [4, 4, 2], [0, 1, 0], [0, 1, 5], [0, 8, 1], [4, 0, 1]] { lists.push(l.to_vec()); }
    // many files, and the same file again and again
    let mut many = vec![4; 40]; many.push(2); lists.push(many);
    let mut many = vec![4; 20]; many.extend([0, 0]); lists.push(many);
    let want: Vec<Option<(String, String)>> = lists.iter().map(|l| {
        beat();
        let t: Option<Vec<String>> = l.iter().map(|k| kinds[*k].1.clone()).collect();
        // consistency decided by the names, not by the generator
        let names: Vec<&str> = l.iter().map(|k| kinds[*k].0).collect();
        let n = |x: &str| names.iter().filter(|y| **y == x).count();
        let good = names.iter().all(|x| ["cardinal", "ordinal", "both", "ordinal-38", "neither", "cldr-cardinal", "cldr-ordinal"].contains(x));
        let same = n("ordinal-38") == 0 || n("ordinal-38") == names.len();
        let (c, o) = (n("cardinal") + n("both") + n("cldr-cardinal"), n("ordinal") + n("both") + n("ordinal-38") + n("cldr-ordinal"));
        if !(good && same && c <= 1 && o <= 1 && c + o > 0) { return None; }
        let text = generate(&t.unwrap()).ok()?;
        let fm = crate::consumer::rustfmt(&sc.0, &text).ok()?;
        Some((text, fm))
    }).collect();

    let mut cases: Vec<(usize, Out, u8, Fmt, u8, Option<u64>)> = vec![];
    for l in 0..lists.len() {
        let good = want[l].is_some();
        for out in [Out::Absent, Out::Short, Out::Long, Out::Exact, Out::Link, Out::NoDir, Out::IsDir, Out::IsInput] {
            for flag in 0..3u8 {
                for fm in [Fmt::Real, Fmt::Missing, Fmt::Failing] {
                    for style in 0..5 + 2 * ODD.len() as u8 {
                        // refusals do not depend on the formatter or the spelling of arguments: fewer of those
                        if !good && (fm == Fmt::Failing || flag == 2 || style > 0 && out != Out::Short) { continue; }
                        if !good && r.quick() && lists[l].len() == 2 && !(out == Out::Absent || out == Out::Short) { continue; }
                        if good && r.quick() && style > 0 && !(out == Out::Long || out == Out::Absent) { continue; }
                        // the large inputs: what depends on the size of the text
                        if lists[l].iter().any(|k| kinds[*k].0.starts_with("cldr")) && (style > 0 || flag == 2 || fm == Fmt::Missing || lists[l].len() > 1 && good && lists[l] != [9, 10] || r.quick() && !good && out != Out::Short) { continue; }
                        if style == 4 && !(1..lists[l].len()).any(|j| lists[l][..j].contains(&lists[l][j])) { continue; }
                        // unusual names of the output file: inputs do not matter
                        if style > 4 && !(l < 3 && (out == Out::Absent || out == Out::Long) && fm == Fmt::Real && flag < 2) { continue; }
                        cases.push((l, out, flag, fm, style, None));
                    }
                }
            }
        }
    }
    // a write that fails at every position (file size limit), unformatted; some positions formatted
    let first_good = lists.iter().position(|l| l == &vec![2]).unwrap();
    if let Some((t, f)) = &want[first_good] {
        let top = t.len().max(f.len()) as u64 + 64;
        for n in (0..top).step_by(if r.quick() { 97 } else { 7 }).chain([t.len() as u64 - 1, t.len() as u64, t.len() as u64 + 1]) {
            cases.push((first_good, Out::Short, 1, Fmt::Real, 0, Some(n)));
            if n % 97 == 0 { for out in [Out::Absent, Out::Exact, Out::Link] { cases.push((first_good, out, 1, Fmt::Real, 0, Some(n))); } }
            if n % 5 == 0 || !r.quick() { cases.push((first_good, Out::Long, 0, Fmt::Real, 0, Some(n))); }
        }
    } else { r.violation(json!({"problem": "the generator or rustfmt refuses consistent inputs"})); }

    let (runs, oks, refused) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    par_chunks(cases.len() as u64, 4, |a, b| for k in a..b {
        let (l, out, flag, fm, style, fsize) = cases[k as usize];
        let d = sc.0.join(format!("case{}", k));
        std::fs::create_dir_all(&d).unwrap();
        let mut ins: Vec<String> = vec![];
        for (j, i) in lists[l].iter().enumerate() {
            let p = d.join(format!("in{}.json", j));
            match (&kinds[*i].1, kinds[*i].0) {
                (Some(t), _) => std::fs::write(&p, t).unwrap(),
                (None, "directory") => std::fs::create_dir_all(&p).unwrap(),
                (None, "not-utf8") => std::fs::write(&p, [b'{', 0xff, 0xfe, b'}']).unwrap(),
                _ => {}
            }
            ins.push(p.display().to_string());
        }
        // the same file, named again
        if style == 4 { for j in 1..lists[l].len() { if let Some(e) = (0..j).find(|e| lists[l][*e] == lists[l][j]) { let _ = std::fs::remove_file(&ins[j]); ins[j] = ins[e].clone(); } } }
        let o = match out { Out::Absent | Out::Long if style > 4 => { std::fs::create_dir_all(d.join("sub dir")).unwrap(); d.join(ODD[(style as usize - 5) / 2]) } Out::NoDir => d.join("nodir/out.rs"), Out::IsInput => d.join("in0.json"), _ => d.join("out.rs") };
        match out {
            Out::Short => std::fs::write(&o, OLD).unwrap(),
            // as long as the result, but different
            Out::Exact => std::fs::write(&o, want[l].as_ref().map(|w| "x".repeat(if flag == 0 { w.1.len() } else { w.0.len() })).unwrap_or("xx".into())).unwrap(),
            Out::Link => { std::fs::write(d.join("target.rs"), OLD).unwrap(); std::os::unix::fs::symlink(d.join("target.rs"), &o).unwrap(); }
            Out::Long => std::fs::write(&o, OLD.repeat(4000)).unwrap(),
            Out::IsDir => std::fs::create_dir_all(&o).unwrap(),
            _ => {}
        }
        std::fs::write(d.join("bystander.rs"), "fn  bystander ( ) { }").unwrap();
        let before = std::fs::read(&o).ok();
        let others_before = listing(&d);
        let inputs_before: Vec<Option<Vec<u8>>> = ins.iter().map(|p| std::fs::read(p).ok()).collect();
        let mut args: Vec<String> = vec![];
        let os = o.display().to_string();
        let rel = |p: &str| p.strip_prefix(&format!("{}/", d.display())).map(|s| s.to_string()).unwrap_or(p.to_string());
        match style {
            0 => { args.push("-i".into()); args.extend(ins.clone()); args.push("-o".into()); args.push(os.clone()); }
            1 => { for i in &ins { args.push(format!("--input={}", i)); } args.push(format!("--output={}", os)); }
            // relative to the working directory
            s if s == 3 || s > 4 && s % 2 == 0 => { args.push("-i".into()); args.extend(ins.iter().map(|i| rel(i))); args.push("-o".into()); args.push(rel(&os)); }
            _ => { args.push("-o".into()); args.push(os.clone()); for i in &ins { args.push("-i".into()); args.push(i.clone()); } }
        }
        match flag { 1 => args.push("-u".into()), 2 => args.push("--ugly".into()), _ => {} }
        let x = run(&bin, &args, &d, &path_of(fm), fsize);
        runs.fetch_add(1, Relaxed);
        let after = std::fs::read(&o).ok();
        let names: Vec<&str> = lists[l].iter().map(|k| kinds[*k].0).collect();
        let mut others = listing(&d);
        others.retain(|e| e.0 != o && (out != Out::Link || !e.0.ends_with("target.rs")));
        let mut others_before = others_before;
        others_before.retain(|e| e.0 != o && (out != Out::Link || !e.0.ends_with("target.rs")));
        let mut bad = |problem: &str| if r.n_violations() < 10 {
            r.violation(json!({"problem": problem, "inputs": names, "output": format!("{:?}", out), "args": args.iter().map(|a| a.replace(&d.display().to_string(), "DIR")).collect::<Vec<_>>(), "rustfmt": format!("{:?}", fm), "file_size_limit": fsize, "exit_ok": x.ok, "stderr": x.err,
                "output_bytes": after.as_ref().map(|a| a.len())}));
        };
        if x.timed_out { bad("the tool does not end"); }
        match &want[l] {
            None => {
                refused.fetch_add(1, Relaxed);
                if x.ok { bad("success although the inputs are refused"); }
                if before != after { bad("refused inputs, but the output file was changed or created"); }
                if others != others_before { bad("refused inputs, but another file was changed, created or removed"); }
                if out == Out::NoDir && d.join("nodir").exists() { bad("refused inputs, but a directory was created"); }
            }
            Some((plain, formatted)) => {
                if x.ok {
                    oks.fetch_add(1, Relaxed);
                    let w = if flag == 0 { formatted } else { plain };
                    if others != others_before && out != Out::NoDir { bad("success, but another file was changed, created or removed"); }
                    if after.as_deref() != Some(w.as_bytes()) { bad("success, but the output file does not hold exactly the generated text"); }
                } else {
                    // with a writable output and a working formatter the tool has to succeed
                    let writable = matches!(out, Out::Absent | Out::Short | Out::Long | Out::Exact | Out::Link | Out::IsInput);
                    let fits = fsize.map(|n| n >= plain.len().max(formatted.len()) as u64 + 64).unwrap_or(true);
                    if writable && fits && (flag > 0 || fm == Fmt::Real) { bad("consistent inputs and a writable output, but the tool fails"); }
                }
            }
        }
        for (p, b) in ins.iter().zip(&inputs_before) { if !(out == Out::IsInput && p == &os) && std::fs::read(p).ok() != *b { bad("an input file was changed"); } }
        std::fs::remove_dir_all(&d).unwrap();
    });
    // wrong usage: nothing is written
    for args in [vec![], vec!["-i", "in.json"], vec!["-o", "out.rs"], vec!["-i", "-o", "out.rs"], vec!["-x", "-i", "in.json", "-o", "out.rs"]] {
        let d = sc.0.join("usage");
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("in.json"), kinds[0].1.as_ref().unwrap()).unwrap();
        let x = run(&bin, &args.iter().map(|s| s.to_string()).collect::<Vec<_>>(), &d, &real, None);
        runs.fetch_add(1, Relaxed);
        if x.ok || std::fs::read_dir(&d).unwrap().count() != 1 { r.violation(json!({"problem": "wrong usage is not refused cleanly", "args": args})); }
        std::fs::remove_dir_all(&d).unwrap();
    }
    r.set("states", cases.len() as u64 + 5);
    r.set("transitions", runs.load(Relaxed));
    r.set("traces_validated_against_impl", oks.load(Relaxed) + refused.load(Relaxed));
    r.set("successful_runs", oks.load(Relaxed));
    r.set("refused_runs", refused.load(Relaxed));
    r.set("input_lists", lists.len() as u64);
    r.set("rule", "states: (inputs, output state, flags, argument style, formatter, write limit) combinations; transitions: runs of the real tool; traces: runs whose files were compared with the demanded outcome");
    r.sample(json!({"inputs": "cardinal, ordinal", "output": "existing file longer than the result", "outcome": "exactly the generated text"}));
}
