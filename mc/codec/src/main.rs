//! Checks C01..C10: the codec against the reference model.
mod decode;
mod encode;
mod errors;
mod history;
mod huge;
mod refuse;
mod stdtypes;

use model::driver::Engine;
use model::explore::Class;
use model::report::Report;
use model::{alloc, statics};
use std::time::Duration;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub const ALL: &[Class] = &[
    Class::Crash,
    Class::WrongValue,
    Class::Refused,
    Class::BadAccepted,
    Class::Truncation,
    Class::Trailing,
];

fn worker(id: &str) -> i32 {
    let r = Report::new(id);
    match id {
        "C01" => {
            encode::run(&r, encode::Mode::Reference);
            huge::run(&r);
            stdtypes::run(&r, id);
            history::run(&r);
        }
        "C02" => {
            encode::run(&r, encode::Mode::RoundTrip);
            huge::run(&r);
            stdtypes::run(&r, id);
            history::run(&r);
        }
        "C03" => decode::run(&r, &[Class::WrongValue, Class::BadAccepted]),
        "C04" => {
            decode::run(&r, &[Class::Crash, Class::Truncation]);
            stdtypes::run(&r, id);
        }
        "C05" => {
            decode::run(&r, &[Class::Trailing]);
            decode::independent_of_rest(&r);
            decode::long_rest(&r);
            stdtypes::run(&r, id);
            history::run(&r);
        }
        "C06" => decode::memory(&r),
        "C07" => refuse::run(&r),
        "C08" => {
            encode::adapters(&r, encode::is_opaque);
            decode::adapters(&r, encode::is_opaque);
        }
        "C09" => {
            encode::adapters(&r, encode::is_signed);
            decode::adapters(&r, encode::is_signed);
            decode::signed(&r);
        }
        "C10" => encode::run(&r, encode::Mode::Compose),
        "C11" => errors::run(&r),
        _ => {
            eprintln!("unknown property {id}");
            return 2;
        }
    }
    let (rule, ass) = rule(id);
    r.finish(rule, ass)
}

fn rule(id: &str) -> (&'static str, &'static [&'static str]) {
    const A: &[&str] = &[
        "the reference model (mc/model/src/ty.rs, machine.rs) states RFC 4506 correctly",
        "values reach serde_xdr through the calls derived serde implementations make (mc/model/src/bind.rs), cross-checked with compiled types (statics.rs)",
    ];
    let r = match id {
        "C01" => {
            "every type term up to the tier's size x its value alphabet, exhaustive scalar lanes, all characters, length sweeps, wide and deep shapes, operation histories; real to_bytes compared byte for byte with the reference encoder"
        }
        "C02" => "the same values; real from_bytes(to_bytes(v)) compared with v, and re-encoded",
        "C03" | "C04" | "C05" => {
            "depth-first exploration of the decode automaton of every type term (state = pending work + values built; transition = one wire symbol from a menu of valid, boundary and invalid symbols), end of input at every symbol and inside symbols, suffixes after completion; every path replayed on real from_bytes. Plus all short byte strings over a small alphabet and exhaustive word lanes"
        }
        "C06" => {
            "every path of the decode automaton that claims a length or count, measured with a counting allocator"
        }
        "C07" => {
            "every unrepresentable part in every context up to the depth bound; real to_bytes must return an error"
        }
        "C11" => {
            "every part that refuses (a user type's own error at each point, requests XDR can not serve, visitors that take nothing) in every context up to the depth bound, with every short continuation of the input; the whole must be refused, with the user's own message"
        }
        "C08" | "C09" => {
            "every type term containing the adapter, encode and decode sides, all lengths or assigned values in the bounds"
        }
        _ => {
            "every composite term and value; real encoding of the whole compared with the concatenation of the real encodings of its parts"
        }
    };
    (r, A)
}

fn also(prop: &str, ty: &std::sync::Arc<model::ty::Ty>, input: &[u8], peak: u64) -> Option<String> {
    if prop == "C06" && peak > decode::limit(input.len()) {
        return Some(format!("allocates {peak} bytes"));
    }
    if prop == "C10" {
        encode::compose_case(ty, input)
    } else {
        None
    }
}

fn main() {
    static E: Engine = Engine {
        worker,
        target: |n| statics::all().into_iter().find(|t| t.name() == n),
        also,
        hang: Duration::from_secs(60),
        replay: None,
    };
    model::driver::main(&E)
}
