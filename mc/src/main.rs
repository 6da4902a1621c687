//! Bounded exhaustive model checker for litcheck.
//!
//! usage: mc <PROPERTY> <quick|thorough>
extern crate filecheck as litcheck_filecheck;
mod fc;
mod fcm;
mod fcs;
mod fw;
mod c01;
mod conc;
mod f11;
mod f13;
mod f15;
mod f16;
mod f17;
mod f18;
mod f19;
mod f20;
mod l01;
mod l02;
mod l03;
mod l04;
mod l05;
mod l06;
mod l07;
mod l08;
mod l10;
mod l13;
mod l14;
mod l15;
mod l16;
mod litx;
mod l09;
mod m01;
mod n01;
mod proc;
mod core_misc;
mod core_src;

use fw::{Run, Tier};

fn main() {
    let raw: Vec<std::ffi::OsString> = std::env::args_os().collect();
    if raw.get(1).is_some_and(|a| a == "__n") {
        n01::child(&raw);
    }
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--read-stdin") {
        core_misc::child_read(args[2] == "strict");
    }
    if args.get(1).map(String::as_str) == Some("__lit8") {
        fw::install_panic_hook();
        l08::child(args[2].as_ref(), &args[3], args[4].parse().unwrap());
    }
    let prop = args.get(1).map(String::as_str).unwrap_or("");
    let tier = match args.get(2).map(String::as_str) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let root = std::env::var_os("MC_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into());
    fw::install_panic_hook();
    let run = Run::new(prop, tier, root);
    let explored = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match prop {
        "FCX" => fcs::explore(&run),
        "F01" | "F02" | "F03" | "F04" | "F05" | "F06" | "F07" | "F08" | "F09" | "F10" | "F12" | "F14" => fcs::check(&run, prop),
        "L01" => l01::check(&run),
        "L03" => l03::check(&run),
        "L04" => l04::check(&run),
        "L05" => l05::check(&run),
        "L06" => l06::check(&run),
        "L07" => l07::check(&run),
        "L08" => l08::check(&run),
        "L10" => l10::l10(&run),
        "L11" => l10::l11(&run),
        "L12" => l10::l12(&run),
        "L13" => l13::check(&run),
        "L14" => l14::check(&run),
        "L15" => l15::check(&run),
        "L16" => l16::check(&run),
        "M01" => m01::check(&run),
        "N01" => n01::check(&run),
        "L02" => l02::check(&run),
        "L09" => l09::check(&run),
        "F15" => f15::check(&run),
        "F16" => f16::check(&run),
        "F17" => f17::check(&run),
        "F18" => f18::check(&run),
        "F19" => f19::check(&run),
        "F20" => f20::check(&run),
        "F13" => f13::check(&run),
        "F11" => f11::check(&run),
        "C01" => c01::check(&run),
        "C02" => core_src::c02(&run),
        "C03" => core_src::c03(&run),
        "C06" => core_misc::c06(&run),
        "C07" => core_misc::c07(&run),
        "C04" => conc::c04(&run),
        "C05" => conc::c05(&run),
        _ => {
            eprintln!("unknown property {prop:?}");
            std::process::exit(2);
        }
    }));
    if explored.is_err() {
        let Some(why) = fw::stopped() else { std::process::exit(101) };
        run.violation("the real code gives what no exploration can go on with", why);
    }
    std::process::exit(run.finish());
}
