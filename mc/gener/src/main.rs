//! Checks G01-G09, T01: the code generator.
use gener::cells::{self, Cell, cfg_by_name};
use gener::emit;
use model::driver::Engine;
use std::process::Command;
use std::time::Duration;

fn compiled(property: &str, id: &str, cells: &[Cell]) -> i32 {
    let mut e = emit::emit(cells, property == "G09");
    let mut runs = 0;
    if id == "G06" {
        let (n, l) = gener::host::names06(cells::thorough());
        runs = n;
        e.early.extend(l);
    }
    let t = std::time::Instant::now();
    let exe = match emit::build(id, &mut e, cells) {
        Ok(x) => x,
        Err(x) => {
            eprintln!("{x}");
            return 2;
        }
    };
    eprintln!(
        "{} cells, {} modules, built in {:.0} s",
        cells.len(),
        e.modules.len(),
        t.elapsed().as_secs_f64()
    );
    let s = Command::new(exe)
        .args(["check", property])
        .env("GEN_ID", id)
        .env("GEN_NAMES", runs.to_string())
        .status();
    s.ok().and_then(|s| s.code()).unwrap_or(2)
}
fn worker(id: &str) -> i32 {
    match id {
        "G01" | "G02" | "G03" | "G04" | "G06" | "G08" | "G09" => compiled(id, id, &cells::of(id)),
        "T01" => gener::cli::worker(),
        "G05" | "G07" => gener::host::worker(id),
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    }
}
/// one case of a generator check
fn replay(text: &str) -> i32 {
    if let Some(c) = gener::host::replay(text).or_else(|| gener::cli::replay(text)) {
        return c;
    }
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}=")))
            .map(|s| s.to_string())
            .unwrap_or_default()
    };
    let (mut cfg, mut spec) = (get("cfg"), get("spec"));
    let target = get("target");
    if !target.is_empty() {
        let mut p = target.splitn(2, " | ");
        cfg = p.next().unwrap().into();
        spec = p.next().unwrap().rsplit_once(" | ").unwrap().0.into();
    }
    println!("options  {cfg}\nfile     {spec}");
    unsafe {
        std::env::set_var("GEN_CFG", &cfg);
        std::env::set_var("GEN_SPEC", &spec);
        if !get("refuse").is_empty() {
            std::env::set_var("GEN_REFUSE", "1");
        }
        std::env::set_var("MC_NO_EVIDENCE", "1");
    }
    let c = Cell {
        text: spec.replace("\\n", "\n"),
        cfg: cfg_by_name(&cfg),
        refuse: false,
        only: None,
    };
    let code = emit::generate(&c);
    match &code {
        Ok(Ok(s)) => println!("code     {s}"),
        x => println!("code     {x:?}"),
    }
    if code.is_err() {
        return 1;
    }
    if std::env::var("MC_CONFIRM").is_ok() {
        return 0;
    }
    let p = get("property");
    compiled(&p, "replay", &cells::of("replay"))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "history" {
        gener::host::history_main(&a[2]);
        return;
    }
    static E: Engine = Engine {
        worker,
        target: |_| None,
        also: |_, _, _, _| None,
        hang: Duration::from_secs(30),
        replay: Some(replay),
    };
    model::driver::main(&E)
}
