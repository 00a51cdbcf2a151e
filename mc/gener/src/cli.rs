//! T01: the command line.
use crate::world::{Cfg, Enums, Unions};
use model::explore::parallel;
use model::guard;
use model::report::{Report, Violation, root};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const FLAGS: &[&str] = &[
    "--use-std-trait",
    "--use-extra-trait",
    "--use-indexer",
    "--use-union",
];

/// what the options ask for, from the README and property T01
fn asked(flags: &[&str]) -> Cfg {
    let has = |f: &str| flags.contains(&f);
    Cfg {
        enums: if has(FLAGS[0]) {
            Enums::Std
        } else if has(FLAGS[2]) {
            Enums::Indexer
        } else {
            Enums::Complement
        },
        unions: if has(FLAGS[3]) {
            Unions::Union
        } else if has(FLAGS[1]) || has(FLAGS[2]) {
            Unions::Indexer
        } else {
            Unions::Complement
        },
        aliases: false,
    }
}
/// the text printed, or None if the tool has to fail
fn due(content: &[u8], flags: &[&str]) -> Option<String> {
    let s = std::str::from_utf8(content).ok()?;
    let cfg = asked(flags).real();
    std::panic::catch_unwind(|| {
        let d = rpcgen::parser::parse(s).ok()?;
        rpcgen::gen_code::gen_code(d, &cfg).ok()
    })
    .ok()
    .flatten()
}

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}
fn bin() -> PathBuf {
    std::env::var_os("RPCGEN_BIN")
        .map(PathBuf::from)
        .expect("RPCGEN_BIN")
}
fn spawn(dir: &Path, args: &[String], input: Option<&[u8]>) -> Ran {
    let mut c = Command::new(bin());
    c.args(args).current_dir(dir).stdin(if input.is_some() {
        Stdio::piped()
    } else {
        Stdio::null()
    });
    c.stdout(Stdio::piped()).stderr(Stdio::piped());
    c.env_remove("RUST_BACKTRACE");
    let mut p = c.spawn().expect("the tool runs");
    if let Some(b) = input {
        let mut i = p.stdin.take().unwrap();
        let b = b.to_vec();
        std::thread::spawn(move || {
            let _ = i.write_all(&b);
        });
    }
    let o = p.wait_with_output().unwrap();
    Ran {
        code: o.status.code(),
        out: o.stdout,
        err: o.stderr,
    }
}
fn short(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    s.chars().take(300).collect()
}
/// complaint about one run
fn judge(r: &Ran, want: &Option<String>) -> Option<String> {
    match want {
        Some(s) => {
            if r.code != Some(0) {
                return Some(format!(
                    "exit status {:?}, 0 is due; stderr {}",
                    r.code,
                    short(&r.err)
                ));
            }
            let got = r.out.strip_suffix(b"\n").unwrap_or(&r.out);
            if got != s.strip_suffix('\n').unwrap_or(s).as_bytes() {
                return Some(format!(
                    "printed {}, due is {}",
                    short(&r.out),
                    short(s.as_bytes())
                ));
            }
            None
        }
        None => match r.code {
            Some(0) => Some(format!(
                "exit status 0 and output {:?}, a failure is due",
                short(&r.out)
            )),
            None => Some("ended by a signal".into()),
            _ if !r.out.is_empty() => Some(format!("failed, but printed {}", short(&r.out))),
            _ if r.err.is_empty() => Some("failed without a word on standard error".into()),
            _ => None,
        },
    }
}

type Tree = BTreeMap<PathBuf, (Vec<u8>, std::time::SystemTime, u32)>;
/// every file below, with content, time of change and mode
fn tree(d: &Path) -> Tree {
    use std::os::unix::fs::PermissionsExt;
    let mut m = BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(d) = todo.pop() {
        for f in std::fs::read_dir(&d).unwrap().flatten() {
            let t = f.metadata().unwrap();
            if t.is_dir() {
                m.insert(
                    f.path(),
                    (vec![], t.modified().unwrap(), t.permissions().mode()),
                );
                todo.push(f.path());
            } else {
                let c = std::fs::read(f.path()).unwrap_or_default();
                m.insert(f.path(), (c, t.modified().unwrap(), t.permissions().mode()));
            }
        }
    }
    m
}

struct Scratch(PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    fn new() -> Self {
        let d = root().join("work").join(format!(
            "cli-{}-{}",
            std::process::id(),
            NEXT.fetch_add(1, Relaxed)
        ));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// all orders of all subsets of the options and the path ("" stands for it)
fn lines() -> Vec<Vec<&'static str>> {
    fn go(left: &[&'static str], cur: &mut Vec<&'static str>, out: &mut Vec<Vec<&'static str>>) {
        if cur.contains(&"") {
            out.push(cur.clone());
        }
        for i in 0..left.len() {
            let mut l = left.to_vec();
            cur.push(l.remove(i));
            go(&l, cur, out);
            cur.pop();
        }
    }
    let mut all = FLAGS.to_vec();
    all.push("");
    let mut out = vec![];
    go(&all, &mut vec![], &mut out);
    out
}
fn subsets() -> Vec<Vec<&'static str>> {
    (0..16u32)
        .map(|m| {
            FLAGS
                .iter()
                .enumerate()
                .filter(|(i, _)| m >> i & 1 == 1)
                .map(|(_, f)| *f)
                .collect()
        })
        .collect()
}

const FILES: &[&str] = &[
    "enum e { A = 1, B = 4 }; union u switch (e k) { case A: int a; case B: void; }; struct s { e a; u b<>; };",
    "union u switch (int k) { case 2: int a; case 5: string b<>; }; typedef u t; struct s { t a; };",
    "enum e { X = 3 };\n",
    "union u switch (bool k) { case TRUE: opaque a[4]; case FALSE: void; };",
    "enum e { N = -1, M = 2 }; struct s { e *a; };",
    "union u switch (int k) { case 0: int a; default: void; };",
    "const K = 3; typedef opaque b<K>; struct s { b a; int c[K]; };",
    "%#include <x.h>\n/* a */ struct s { unsigned hyper a; };\r\nprogram P { version V { void F(void) = 1; } = 1; } = 7;\n",
    "",
    "   \n\t/* nothing */",
    "struct s { string a<>; double b; s *next; };",
    "enum big { A = 0, Z = 300 }; union u switch (big k) { case A: int x; case Z: void; };",
    // refused by the generator
    "struct s { quadruple q; };",
    "enum e { A = 99999999999999999999 };",
    "const K = K;",
    "union u switch (int k) { case NONE: int a; };",
    // refused by the parser
    "struct s { int a };",
    "struct s { int a; }",
    "enum e { };x",
    "const K = ;",
    "\u{feff}struct s { int a; };",
    "struct s { int \u{e9}; };",
];

struct T<'a> {
    r: &'a Report,
    runs: AtomicU64,
    ok: AtomicU64,
    failed: AtomicU64,
}
impl T<'_> {
    fn one(
        &self,
        dir: &Path,
        content: &[u8],
        args: &[String],
        flags: &[&str],
        want: &Option<String>,
        how: &str,
        input: Option<&[u8]>,
    ) {
        self.runs.fetch_add(1, Relaxed);
        if want.is_some() {
            &self.ok
        } else {
            &self.failed
        }
        .fetch_add(1, Relaxed);
        let before = tree(dir);
        let got = spawn(dir, args, input);
        let after = tree(dir);
        let mut bad = judge(&got, want);
        if bad.is_none() && before != after {
            bad = Some("the directory of the interface file has changed".into());
        }
        if let Some(w) = bad {
            let spec = String::from_utf8_lossy(content);
            self.r.violation(Violation {
                key: format!(
                    "{how}/{}/{}",
                    args.join(" "),
                    spec.chars().take(200).collect::<String>()
                ),
                replay: format!(
                    "property=T01\nkind=cli\nhow={how}\nargs={}\nflags={}\nfile={}\n",
                    args.join("\u{1f}"),
                    flags.join(" "),
                    model::sexp::hex(content)
                ),
                what: format!(
                    "rpcgen {} ({how}), file {:?}: {w}",
                    args.join(" "),
                    short(content)
                ),
            });
        }
    }
}
/// success is not reported when the code could not be printed
fn full(f: &str, flags: &[&str]) -> Option<String> {
    let s = Scratch::new();
    std::fs::write(s.0.join("file.x"), f).unwrap();
    let out = std::fs::OpenOptions::new()
        .write(true)
        .open("/dev/full")
        .unwrap();
    let st = Command::new(bin())
        .args(flags)
        .arg("file.x")
        .current_dir(&s.0)
        .stdout(out)
        .stderr(Stdio::null())
        .status()
        .unwrap();
    st.success().then(|| {
        format!(
            "rpcgen {} exits with 0, but could not print the code of {:?}",
            flags.join(" "),
            short(f.as_bytes())
        )
    })
}
fn strings(l: &[&str]) -> Vec<String> {
    l.iter().map(|s| s.to_string()).collect()
}

pub fn worker() -> i32 {
    let r = Report::new("T01");
    let th = r.thorough();
    let t = T {
        r: &r,
        runs: AtomicU64::new(0),
        ok: AtomicU64::new(0),
        failed: AtomicU64::new(0),
    };
    let wants: Mutex<BTreeMap<(Vec<u8>, Cfg), Option<String>>> = Mutex::default();
    let due = |c: &[u8], f: &[&str]| -> Option<String> {
        let k = (c.to_vec(), asked(f));
        if let Some(w) = wants.lock().unwrap().get(&k) {
            return w.clone();
        }
        let w = due(c, f);
        wants.lock().unwrap().insert(k, w.clone());
        w
    };
    guard::context("kind=special\ncase=T01\n");
    // every order of every subset of the options, with every file
    let lines = lines();
    let mut jobs: Vec<(&str, &Vec<&'static str>)> = vec![];
    for (i, f) in FILES.iter().enumerate() {
        for l in &lines {
            // orders with four files, otherwise one order of each subset
            let sorted = l.windows(2).all(|w| {
                let p = |x: &str| FLAGS.iter().position(|f| *f == x).unwrap_or(9);
                p(w[0]) < p(w[1])
            });
            if th || i < 2 || i == 12 || i == 16 || sorted {
                jobs.push((f, l));
            }
        }
    }
    parallel(&jobs, |(f, l)| {
        let s = Scratch::new();
        std::fs::write(s.0.join("file.x"), f).unwrap();
        let flags: Vec<&str> = l.iter().filter(|x| !x.is_empty()).copied().collect();
        let args: Vec<String> = l
            .iter()
            .map(|x| {
                if x.is_empty() {
                    "file.x".to_string()
                } else {
                    x.to_string()
                }
            })
            .collect();
        t.one(
            &s.0,
            f.as_bytes(),
            &args,
            &flags,
            &due(f.as_bytes(), &flags),
            "relative",
            None,
        );
    });
    // where the file is, and what it is called
    let mut jobs = vec![];
    for f in [FILES[0], FILES[1], FILES[12], FILES[16]] {
        for l in subsets() {
            for how in [
                "absolute", "dot", "blank", "letters", "deep", "link", "dashes", "stdin",
                "readonly", "umlaut", "parent", "noext",
            ] {
                jobs.push((f, l.clone(), how));
            }
        }
    }
    parallel(&jobs, |(f, flags, how)| {
        placed(&t, f.as_bytes(), flags, how, &due(f.as_bytes(), flags))
    });
    // what is no interface file
    let mut jobs = vec![];
    for flags in subsets() {
        for how in [
            "missing",
            "directory",
            "empty-path",
            "latin1",
            "half",
            "nul",
            "binary",
            "dangling",
            "under-file",
            "loop",
            "long-name",
        ] {
            jobs.push((flags.clone(), how));
        }
    }
    parallel(&jobs, |(flags, how)| broken(&t, flags, how));
    // options that do not exist and too many or too few paths
    for l in [
        &[][..],
        &["--use-union"],
        &["a.x", "a.x"],
        &["--no-such-option", "a.x"],
        &["a.x", "--use-unions"],
        &["-u", "a.x"],
        &["--use-union=x", "a.x"],
    ] {
        let s = Scratch::new();
        std::fs::write(s.0.join("a.x"), FILES[0]).unwrap();
        t.one(
            &s.0,
            FILES[0].as_bytes(),
            &strings(l),
            &[],
            &None,
            "usage",
            None,
        );
    }
    // every text one token away from a file, as a file (shortest ones in the quick tier)
    let mut texts: Vec<String> = vec![];
    for f in if th { &FILES[..8] } else { &FILES[..3] } {
        let Ok(toks) = idl::lang::lex(f) else {
            continue;
        };
        for i in 0..toks.len() {
            let mut x = toks.clone();
            x.remove(i);
            texts.push(idl::lang::layout(&x, " "));
            let mut x = toks.clone();
            x.insert(i, toks[i].clone());
            texts.push(idl::lang::layout(&x, " "));
            texts.push(idl::lang::layout(&toks[..i], " "));
        }
        for i in 0..f.len() {
            if f.is_char_boundary(i) {
                texts.push(f[..i].to_string());
            }
        }
    }
    texts.sort();
    texts.dedup();
    let jobs: Vec<(String, Vec<&'static str>)> = texts
        .iter()
        .flat_map(|x| {
            [vec![], vec![FLAGS[0], FLAGS[3]], vec![FLAGS[2]]]
                .into_iter()
                .map(|f| (x.clone(), f))
        })
        .collect();
    parallel(&jobs, |(x, flags)| {
        let s = Scratch::new();
        std::fs::write(s.0.join("file.x"), x).unwrap();
        let mut args = strings(flags);
        args.push("file.x".into());
        t.one(
            &s.0,
            x.as_bytes(),
            &args,
            flags,
            &due(x.as_bytes(), flags),
            "relative",
            None,
        );
    });
    // sizes around buffers
    let mut jobs: Vec<(usize, Vec<&'static str>)> = vec![];
    for n in [
        4095usize,
        4096,
        4097,
        8191,
        8192,
        8193,
        65535,
        65536,
        65537,
        1 << 20,
    ] {
        for flags in if th {
            subsets()
        } else {
            vec![vec![], vec![FLAGS[3]]]
        } {
            jobs.push((n, flags));
        }
    }
    parallel(&jobs, |(n, flags)| {
        let body = "struct s { int a; };";
        let tail = "enum e { A = 1, B = 2 };";
        for f in [
            format!("{body}{}{tail}", " ".repeat(n - body.len() - tail.len())),
            format!(
                "{body}/*{}*/{tail}",
                "x".repeat(n - body.len() - tail.len() - 4)
            ),
        ] {
            let s = Scratch::new();
            std::fs::write(s.0.join("file.x"), &f).unwrap();
            let mut args = strings(flags);
            args.push("file.x".into());
            t.one(
                &s.0,
                f.as_bytes(),
                &args,
                flags,
                &due(f.as_bytes(), flags),
                "relative",
                None,
            );
        }
    });
    // long output
    let many = |n: usize| {
        (0..n)
            .map(|i| format!("struct s{i} {{ int a{i}; }};\n"))
            .collect::<String>()
    };
    let jobs: Vec<usize> = vec![10, 30, 100, 300, 1000];
    parallel(&jobs, |n| {
        let f = many(*n);
        let s = Scratch::new();
        std::fs::write(s.0.join("file.x"), &f).unwrap();
        t.one(
            &s.0,
            f.as_bytes(),
            &strings(&["file.x"]),
            &[],
            &due(f.as_bytes(), &[]),
            "relative",
            None,
        );
    });
    // nowhere to print the code to
    for flags in subsets() {
        for n in [1, 300] {
            t.runs.fetch_add(1, Relaxed);
            if let Some(w) = full(&many(n), &flags) {
                r.violation(Violation {
                    key: format!("full/{n}/{flags:?}"),
                    replay: format!(
                        "property=T01\nkind=cli\nhow=full\nargs=\nflags={}\nfile={}\n",
                        flags.join(" "),
                        model::sexp::hex(many(n).as_bytes())
                    ),
                    what: w,
                });
            }
        }
    }
    guard::idle();
    let n = t.runs.load(Relaxed);
    r.add(n, n, n);
    r.count("runs_that_print_code", t.ok.load(Relaxed));
    r.count("runs_that_fail", t.failed.load(Relaxed));
    r.count("command_lines", lines.len() as u64);
    r.sample(|| format!("{lines:?}"));
    r.finish(
        "every order of every subset of the options with every file of the family, every kind of unreadable, unparsable and ungenerable file with every subset; each run compared with what the library generates, exit status, both streams and the directory observed",
        &["the library is called with the configuration the README documents for the options", "what the library generates is judged by G01 to G08"],
    )
}

fn placed(t: &T, f: &[u8], flags: &[&str], how: &str, want: &Option<String>) {
    let s = Scratch::new();
    let d = &s.0;
    let mut path = "file.x".to_string();
    let mut pre: Vec<&str> = flags.to_vec();
    let mut input = None;
    match how {
        "absolute" => path = d.join("file.x").display().to_string(),
        "dot" => path = "./file.x".into(),
        "blank" => path = "a file  x.x".into(),
        "letters" => path = "x".into(),
        "noext" => path = "FILE.X.bak~".into(),
        "umlaut" => path = "\u{fc}\u{4e2d}.x".into(),
        "dashes" => {
            path = "--use-union".into();
            pre.push("--");
        }
        "deep" => {
            std::fs::create_dir_all(d.join("a/b/c")).unwrap();
            path = "a/b/c/file.x".into();
        }
        "parent" => {
            std::fs::create_dir_all(d.join("a")).unwrap();
            path = "a/../file.x".into();
        }
        "link" => {
            std::fs::write(d.join("real.x"), f).unwrap();
            std::os::unix::fs::symlink("real.x", d.join("file.x")).unwrap();
        }
        "stdin" => {
            path = "/dev/stdin".into();
            input = Some(f);
        }
        _ => {}
    }
    if how != "link" && how != "stdin" {
        std::fs::write(d.join(&path), f).unwrap();
    }
    if how == "readonly" {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(d.join(&path), std::fs::Permissions::from_mode(0o444)).unwrap();
    }
    let mut args = strings(&pre);
    args.push(path);
    t.one(d, f, &args, flags, want, how, input);
}
fn broken(t: &T, flags: &[&str], how: &str) {
    let s = Scratch::new();
    let d = &s.0;
    let mut path = "file.x".to_string();
    let mut content: Vec<u8> = vec![];
    let good = FILES[0].as_bytes();
    match how {
        "missing" => {}
        "directory" => std::fs::create_dir(d.join("file.x")).unwrap(),
        "empty-path" => path = String::new(),
        "dangling" => std::os::unix::fs::symlink("none.x", d.join("file.x")).unwrap(),
        "loop" => std::os::unix::fs::symlink("file.x", d.join("file.x")).unwrap(),
        "under-file" => {
            std::fs::write(d.join("file.x"), good).unwrap();
            path = "file.x/file.x".into();
        }
        "long-name" => path = "x".repeat(5000),
        "latin1" => content = [good, b" /* \xe9 */"].concat(),
        "half" => content = [good, b" /* \xe2\x82"].concat(),
        "nul" => content = [b"\0", good].concat(),
        _ => content = (0..=255u8).collect(),
    }
    if !content.is_empty() {
        std::fs::write(d.join("file.x"), &content).unwrap();
    }
    // file systems cannot tell a link that leads nowhere from none, so the tree is looked at without them
    let mut args = strings(flags);
    args.push(path);
    t.one(d, &content, &args, flags, &None, how, None);
}

/// one run again
pub fn replay(text: &str) -> Option<i32> {
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}=")))
            .map(|s| s.to_string())
            .unwrap_or_default()
    };
    if get("kind") != "cli" {
        return None;
    }
    let r = Report::new("T01");
    let t = T {
        r: &r,
        runs: AtomicU64::new(0),
        ok: AtomicU64::new(0),
        failed: AtomicU64::new(0),
    };
    let content = model::sexp::unhex(&get("file"));
    let flags = get("flags");
    let flags: Vec<&str> = FLAGS
        .iter()
        .filter(|f| flags.split(' ').any(|x| x == **f))
        .copied()
        .collect();
    let how = get("how");
    let args: Vec<String> = get("args").split('\u{1f}').map(|s| s.to_string()).collect();
    unsafe { std::env::set_var("MC_NO_EVIDENCE", "1") };
    if how == "full" {
        let bad = full(std::str::from_utf8(&content).unwrap(), &flags);
        println!("{bad:?}");
        return Some(bad.is_some() as i32);
    }
    println!(
        "rpcgen {}\n({how}) file {:?}",
        args.join(" "),
        short(&content)
    );
    let want = due(&content, &flags);
    match how.as_str() {
        "relative" => {
            let s = Scratch::new();
            std::fs::write(s.0.join("file.x"), &content).unwrap();
            t.one(&s.0, &content, &args, &flags, &want, &how, None);
        }
        "usage" => {
            let s = Scratch::new();
            std::fs::write(s.0.join("a.x"), &content).unwrap();
            let args: Vec<String> = args.into_iter().filter(|a| !a.is_empty()).collect();
            t.one(&s.0, &content, &args, &[], &None, &how, None);
        }
        "missing" | "directory" | "empty-path" | "latin1" | "half" | "nul" | "binary"
        | "dangling" | "under-file" | "loop" | "long-name" => broken(&t, &flags, &how),
        _ => placed(&t, &content, &flags, &how, &want),
    }
    Some(r.finish("one run again", &[]))
}
