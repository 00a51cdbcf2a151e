//! The command line every checker shares: supervise a worker, replay one case.
use crate::explore::{Ref, Target, Term, judge, judge_encode, reference};
use crate::report::{Report, Violation, root};
use crate::ty::*;
use crate::{alloc, bind, guard, sexp};
use std::sync::Arc;
use std::time::Duration;

pub struct Engine {
    /// explores the property; exit status
    pub worker: fn(&str) -> i32,
    /// compiled targets by name
    pub target: fn(&str) -> Option<Box<dyn Target>>,
    /// further judgements on a replayed input (property, type, input, peak of allocation)
    pub also: fn(&str, &Arc<Ty>, &[u8], u64) -> Option<String>,
    /// a case that takes longer counts as stuck
    pub hang: Duration,
    /// how to replay a case that is not a wire input
    pub replay: Option<fn(&str) -> i32>,
}

fn replay(e: &Engine, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}=")))
            .map(|s| s.to_string())
            .unwrap_or_default()
    };
    let prop = get("property");
    let kind = get("kind");
    if kind == "special" {
        let me = std::env::current_exe().unwrap();
        let s = std::process::Command::new(me)
            .args(["check", &prop])
            .status()
            .unwrap();
        return s.code().unwrap_or(2);
    }
    if let Some(f) = e.replay
        && (kind != "decode" && kind != "encode"
            || get("target") != "dyn" && (e.target)(&get("target")).is_none())
    {
        return f(&text);
    }
    let input = sexp::unhex(&get("input"));
    let name = get("target");
    let target: Box<dyn Target> = if name == "dyn" {
        Box::new(Term(sexp::read_ty(&get("type"))))
    } else {
        match (e.target)(&name) {
            Some(t) => t,
            None => {
                eprintln!("no target {name}");
                return 2;
            }
        }
    };
    let ty = target.ty();
    println!(
        "target   {name}\ntype     {}\ninput    {}",
        sexp::ty(&ty),
        sexp::hex(&input)
    );
    let mut expect = reference(&ty, &input);
    let bad = if kind == "encode" {
        let Ref::Value(v) = expect else {
            eprintln!("not a reference encoding");
            return 2;
        };
        println!("value    {v:?}");
        let got = target.encode(&v);
        let dec = target.decode(&input);
        println!("encoded  {got:?}\ndecoded  {dec:?}");
        judge_encode(&ty, &v, &got)
            .or_else(|| judge(&Ref::Value(target.hold(v)), &dec).map(|x| x.1))
            .or_else(|| (e.also)(&prop, &ty, &input, 0))
    } else {
        if let Ref::Value(v) | Ref::Lenient(v) = &mut expect {
            *v = target.hold(std::mem::replace(v, Val::Unit));
        }
        let (g, peak) = alloc::measure(|| target.decode(&input));
        println!("expected {expect:?}\ngot      {g:?}\npeak     {peak} bytes");
        judge(&expect, &g)
            .map(|x| x.1)
            .or_else(|| (e.also)(&prop, &ty, &input, peak))
    };
    match bad {
        Some(w) => {
            println!("VIOLATION property={prop} replay={path}\n  {w}");
            1
        }
        None => {
            println!("agrees with the reference");
            0
        }
    }
}
fn check(e: &Engine, id: &str) -> i32 {
    // a machine that is busy with other things can stall a case: it gets a second chance
    match attempt(id, e.hang) {
        3 => match attempt(id, e.hang * 5) {
            3 => 2,
            c => c,
        },
        c => c,
    }
}
fn attempt(id: &str, hang: Duration) -> i32 {
    let args = vec!["worker".to_string(), id.to_string()];
    let work = root().join("work");
    match guard::supervise(&work, &args, hang) {
        guard::End::Exit(c) => c,
        guard::End::Crash(how, stuck) => {
            eprintln!("{how}; {} case(s) in progress", stuck.len());
            let r = Report::new(id);
            for s in stuck {
                if std::env::var("MC_TIME").is_ok() {
                    eprintln!(
                        "  {} {}",
                        s.context.replace('\n', " "),
                        sexp::hex(&s.input[..s.input.len().min(64)])
                    );
                }
                let replay = format!(
                    "property={id}\n{}input={}\n",
                    s.context,
                    sexp::hex(&s.input)
                );
                let f = work.join(format!("confirm-{}", std::process::id()));
                std::fs::write(&f, &replay).unwrap();
                // a case that is not a plain input is confirmed by exploring once more
                let again = if s.context.starts_with("kind=special") {
                    args.clone()
                } else {
                    vec!["replay".into(), f.display().to_string()]
                };
                let how = guard::confirm(&again, Duration::from_secs(200));
                let _ = std::fs::remove_file(&f);
                r.add(1, 0, 1);
                if let Some(how) = how {
                    r.sample(|| replay.clone());
                    r.violation(Violation {
                        key: format!("crash/{}", sexp::hex(&s.input)),
                        what: format!("{how}: {}", replay.replace('\n', " ")),
                        replay,
                    });
                }
            }
            let c = r.finish(
                "the case on which the explorer stopped, run again alone",
                &[],
            );
            if c == 0 {
                eprintln!("{how}, but no case does it alone: no verdict");
                3
            } else {
                c
            }
        }
    }
}

pub fn main(e: &'static Engine) -> ! {
    let a: Vec<String> = std::env::args().collect();
    bind::quiet_panics();
    let h = std::thread::Builder::new().stack_size(256 << 20);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(e, &a[2]),
        Some("worker") => {
            guard::attach_from_env();
            let id = a[2].clone();
            h.spawn(move || match std::panic::catch_unwind(|| (e.worker)(&id)) {
                Ok(c) => c,
                Err(p) => crate::report::failed(bind::panic_text(p)),
            })
            .unwrap()
            .join()
            .unwrap_or(2)
        }
        Some("replay") => {
            let f = a[2].clone();
            h.spawn(move || replay(e, &f)).unwrap().join().unwrap_or(2)
        }
        _ => {
            eprintln!("usage: check|worker <ID> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
