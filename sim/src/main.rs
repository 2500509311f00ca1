#![cfg_attr(not(feature = "full"), allow(dead_code, unused_imports))]
mod cpu;
mod cpusc;
#[cfg(feature = "full")]
mod ctcref;
mod custom;
#[cfg(feature = "full")]
mod dis;
#[cfg(feature = "full")]
mod disref;
mod engine;
#[cfg(feature = "full")]
mod lock;
#[cfg(feature = "full")]
mod machine;
mod miri;
mod model;
#[cfg(feature = "full")]
mod pinned;
mod props;
mod rng;
mod sim;
#[cfg(feature = "saved")]
mod tree;
mod twin;

use engine::{Cfg, Prop};

macro_rules! dispatch {
    ($id:expr, $f:ident $a:tt or $els:expr; $($t:ty),* $(,)?) => {
        match $id {
            $(<$t>::ID => engine::$f::<$t> $a,)*
            _ => $els,
        }
    };
}
#[cfg(not(feature = "full"))]
macro_rules! with_props {
    ($id:expr, $f:ident $a:tt or $els:expr) => {
        dispatch!($id, $f $a or $els; props::c27::C27, props::c14::C14)
    };
}
#[cfg(feature = "full")]
macro_rules! with_props {
    ($id:expr, $f:ident $a:tt or $els:expr) => {
        dispatch!($id, $f $a or $els;
            props::c01::C01, props::c02::C02, props::c03::C03, props::c04::C04, props::c05::C05, props::c06::C06, props::c07::C07, props::c09::C09, props::c12::C12, props::c15::C15, props::c13::C13, props::c11::C11, props::c10::C10, props::c14::C14, props::c08::C08, props::c16::C16, machine::With<props::c20::C20, 6>, machine::With<props::c17::C17, 12>, machine::With<props::c18::C18, 79>, machine::With<props::c19::C19, 59>, props::c21::C21, props::c22::C22, props::c24::C24, props::c23::C23, props::c26::C26, props::c27::C27, props::c28::C28, props::c29::C29, props::c30::C30, props::c31::C31, props::c32::C32,
        )
    };
}
const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C12", "C15", "C13", "C11", "C10", "C14", "C08", "C16", "C20", "C17", "C18", "C19", "C21", "C22", "C24", "C23", "C26", "C27", "C28", "C29", "C30", "C31", "C32"];

fn main() {
    engine::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(id)) => with_props!(id.as_str(), check(&Cfg::from_env()) or usage()),
        (Some("replay"), Some(path)) => {
            let text = std::fs::read_to_string(path).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            let id = v["property"].as_str().unwrap_or("").to_string();
            with_props!(id.as_str(), replay(&text) or usage())
        }
        (Some("selfcheck"), id) => {
            let runs = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(400);
            let mut ok = true;
            for i in IDS {
                if id.map_or(true, |x| x == i) {
                    ok &= with_props!(*i, selfcheck(&Cfg::from_env(), runs) or false);
                }
            }
            !ok as i32
        }
        (Some("serve"), _) => {
            use std::io::{BufRead, Write};
            // A run of the tree under test may never end: nothing is left behind once the
            // check that asked for it is gone.
            #[cfg(all(unix, not(miri)))]
            {
                let asked_by = std::os::unix::process::parent_id();
                std::thread::spawn(move || loop {
                    std::thread::sleep(std::time::Duration::from_secs(2));
                    if std::os::unix::process::parent_id() != asked_by {
                        std::process::exit(3);
                    }
                });
            }
            println!("ready");
            for l in std::io::stdin().lock().lines() {
                let l = l.expect("request");
                let mut p = l.splitn(3, ' ');
                let (id, kind, arg) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
                let answer = with_props!(id, serve(kind, arg) or String::new());
                println!("{}", answer);
                let _ = std::io::stdout().flush();
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}

fn usage() -> i32 {
    eprintln!("usage: dst check <id> | replay <file> | selfcheck [id]");
    2
}
