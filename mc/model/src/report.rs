//! Counters, violations, known findings, evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// identifies the failing input, independent of how it is reported
    pub key: String,
    /// replay file contents
    pub replay: String,
    pub what: String,
}

#[derive(Default)]
struct Inner {
    states: u64,
    transitions: u64,
    traces: u64,
    extra: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    total_violations: u64,
    keys: BTreeSet<String>,
    notes: Vec<String>,
    alarmed: bool,
    finished: bool,
}

#[derive(Clone)]
pub struct Report {
    pub property: String,
    pub tier: String,
    start: Instant,
    known: Arc<Vec<(String, String, String)>>,
    inner: Arc<Mutex<Inner>>,
}
/// How long the exploration goes on after its first violation that no finding lists.
const GRACE: Duration = Duration::from_secs(150);

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const KEEP: usize = 20;

impl Report {
    pub fn new(property: &str) -> Self {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" {
            tier
        } else {
            "quick".to_string()
        };
        let r = Report {
            property: property.into(),
            tier,
            start: Instant::now(),
            known: Arc::new(known()),
            inner: Arc::default(),
        };
        let mut c = CURRENT.lock().unwrap();
        if c.is_none() {
            *c = Some(r.clone());
        }
        r
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        let mut i = self.inner.lock().unwrap();
        i.states += states;
        i.transitions += transitions;
        i.traces += traces;
    }
    pub fn count(&self, name: &str, n: u64) {
        *self
            .inner
            .lock()
            .unwrap()
            .extra
            .entry(name.into())
            .or_default() += n;
    }
    pub fn note(&self, s: &str) {
        self.inner.lock().unwrap().notes.push(s.into());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 {
            let s = s();
            let s = if s.len() > 400 {
                s.chars().take(400).collect::<String>() + "…"
            } else {
                s
            };
            i.samples.push(s);
        }
    }
    pub fn violation(&self, v: Violation) {
        let mut i = self.inner.lock().unwrap();
        i.total_violations += 1;
        // (not for a report made only to look at something known)
        let main = !i.alarmed
            && CURRENT
                .lock()
                .unwrap()
                .as_ref()
                .is_some_and(|r| Arc::ptr_eq(&r.inner, &self.inner));
        if main
            && !self
                .known
                .iter()
                .any(|(p, k, _)| *p == self.property && *k == v.key)
        {
            // an implementation that is wrong can also be slow: what it did wrong is reported in time
            i.alarmed = true;
            let me = self.clone();
            std::thread::spawn(move || {
                std::thread::sleep(GRACE);
                if !me.inner.lock().unwrap().finished {
                    std::process::exit(
                        me.finish("an exploration that was cut short after a violation", &[]),
                    );
                }
            });
        }
        if i.keys.len() < 100_000 && i.keys.insert(v.key.clone()) {
            // keep the shortest ones
            i.violations.push(v);
            if i.violations.len() > 4096 {
                i.violations.sort_by_key(|v| v.key.len());
                i.violations.truncate(1024);
            }
        }
    }
    pub fn violations(&self) -> u64 {
        self.inner.lock().unwrap().total_violations
    }
    pub fn traces(&self) -> u64 {
        self.inner.lock().unwrap().traces
    }

    /// Prints findings and violations, writes evidence; the exit status.
    pub fn finish(&self, rule: &str, assumptions: &[&str]) -> i32 {
        let mut i = self.inner.lock().unwrap();
        i.finished = true;
        let known = &self.known;
        let mut fresh = vec![];
        let mut seen: BTreeMap<String, String> = BTreeMap::new();
        for v in i.violations.drain(..) {
            match known
                .iter()
                .find(|(p, k, _)| *p == self.property && *k == v.key)
            {
                Some((_, k, what)) => {
                    seen.insert(k.clone(), what.clone());
                }
                None => fresh.push(v),
            }
        }
        for (k, what) in &seen {
            println!("KNOWN-FINDING: property={} {what} [{k}]", self.property);
        }
        fresh.sort_by(|a, b| (a.key.len(), &a.key).cmp(&(b.key.len(), &b.key)));
        let dir = root().join("replays");
        if !fresh.is_empty() {
            let _ = std::fs::create_dir_all(&dir);
        }
        for (n, v) in fresh.iter().take(KEEP).enumerate() {
            let f = dir.join(format!("{}-{n}.txt", self.property));
            let _ = std::fs::write(&f, &v.replay);
            println!(
                "VIOLATION property={} replay={}",
                self.property,
                f.display()
            );
            let c: Vec<char> = v.what.chars().collect();
            let (head, tail) = if c.len() > 3000 {
                (&c[..1000], &c[c.len() - 2000..])
            } else {
                (&c[..], &c[..0])
            };
            let cut = if tail.is_empty() { "" } else { " ... " };
            println!(
                "  {}{cut}{}",
                head.iter().collect::<String>(),
                tail.iter().collect::<String>()
            );
        }
        if fresh.len() > KEEP {
            println!("  … and {} more", fresh.len() - KEEP);
        }
        let secs = self.start.elapsed().as_secs_f64();
        let mut e = String::new();
        e.push_str("{\n");
        e.push_str(&format!("  \"property\": {},\n", json_str(&self.property)));
        e.push_str(&format!("  \"tier\": {},\n", json_str(&self.tier)));
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse::<i64>().ok())
            .unwrap_or(1);
        e.push_str(&format!(
            "  \"seed\": {seed},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n"
        ));
        e.push_str(&format!(
            "    \"states\": {},\n    \"transitions\": {},\n",
            i.states, i.transitions
        ));
        e.push_str(&format!(
            "    \"traces_validated_against_impl\": {},\n",
            i.traces
        ));
        for (k, v) in &i.extra {
            e.push_str(&format!("    {}: {v},\n", json_str(k)));
        }
        e.push_str("    \"exhaustive\": true,\n");
        e.push_str(&format!("    \"rule\": {},\n", json_str(rule)));
        if !i.notes.is_empty() {
            let n: Vec<_> = i.notes.iter().map(|s| json_str(s)).collect();
            e.push_str(&format!("    \"notes\": [{}],\n", n.join(", ")));
        }
        let s: Vec<_> = i
            .samples
            .iter()
            .map(|s| format!("      {}", json_str(s)))
            .collect();
        e.push_str(&format!(
            "    \"samples\": [\n{}\n    ]\n  }},\n",
            s.join(",\n")
        ));
        let a: Vec<_> = assumptions.iter().map(|s| json_str(s)).collect();
        e.push_str(&format!("  \"assumptions\": [{}],\n", a.join(", ")));
        e.push_str(&format!(
            "  \"wall_s\": {secs:.2},\n  \"violations\": {}\n}}\n",
            fresh.len()
        ));
        let _ = std::fs::create_dir_all(root().join("evidence"));
        if std::env::var("MC_NO_EVIDENCE").is_err()
            && let Err(x) = std::fs::write(
                root()
                    .join("evidence")
                    .join(format!("{}.json", self.property)),
                e,
            )
        {
            eprintln!("cannot write evidence: {x}");
            return 2;
        }
        println!(
            "{}: {} tier, {} states, {} transitions, {} traces replayed on the implementation, {} violation(s), {} known, {:.1} s",
            self.property,
            self.tier,
            i.states,
            i.transitions,
            i.traces,
            fresh.len(),
            seen.len(),
            secs
        );
        if fresh.is_empty() { 0 } else { 1 }
    }
}

static CURRENT: Mutex<Option<Report>> = Mutex::new(None);
/// The checker cannot go on. What the implementation did wrong so far is reported, and if it is the
/// implementation that panicked, that too; otherwise there is no verdict.
pub fn failed(text: String) -> i32 {
    let at = crate::bind::last_panic();
    eprintln!("checker failed at {at}: {text}");
    let Some(r) = CURRENT.lock().unwrap_or_else(|p| p.into_inner()).clone() else {
        return 2;
    };
    if r.inner.is_poisoned() {
        return 2;
    }
    if ["serde-xdr/src/", "serde-xdr-derive/src/", "rpcgen/src/"]
        .iter()
        .any(|d| at.contains(d))
    {
        r.violation(Violation {
            key: format!("panic/{at}"),
            replay: format!(
                "property={}\nkind=special\ncase=panic at {at}\n",
                r.property
            ),
            what: format!("panic at {at}: {text}"),
        });
    }
    let any = r.inner.lock().unwrap().alarmed;
    if any {
        r.finish("an exploration that was cut short by a panic", &[])
    } else {
        2
    }
}

/// known-findings.txt: lines `known: property=<id> key=<key> :: <what>`; lines starting with
/// `fixed:` and comments suppress nothing.
pub fn known() -> Vec<(String, String, String)> {
    let mut v = vec![];
    let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) else {
        return v;
    };
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: property=") else {
            continue;
        };
        let Some((p, r)) = r.split_once(" key=") else {
            continue;
        };
        let Some((k, w)) = r.split_once(" :: ") else {
            continue;
        };
        v.push((p.to_string(), k.to_string(), w.to_string()));
    }
    v
}
