mod cals;
mod fw;
mod props;
mod refcal;
use fw::{Run, Tier};
use std::sync::Arc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "dump" {
        return props::calendar::dump(&a[2]);
    }
    if a.len() < 4 {
        eprintln!("usage: fqmc ID quick|thorough ROOT");
        std::process::exit(2);
    }
    let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let Some((id, f)) = props::all().into_iter().find(|(id, _)| *id == a[1]) else {
        eprintln!("unknown property {}", a[1]);
        std::process::exit(2);
    };
    fw::install_panic_hook();
    let run = Arc::new(Run::new(id, tier, &a[3]));
    let r = run.clone();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            if let Some(l) = r.stalled() {
                r.fail_stall(&l);
                std::process::exit(1);
            }
        }
    });
    f(&run);
    std::process::exit(run.finish());
}
