mod calls;
mod common;
mod history;
mod lookup;
mod operands;
mod reprs;
mod sched;
mod select;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: h_intl <property> <quick|thorough> | h_intl replay <file>");
        std::process::exit(2);
    }
    if a[1] == "replay" {
        std::process::exit(common::replay(&a[2]));
    }
    if a[1] == "child" {
        std::process::exit(history::child(&a[2..]));
    }
    let r = refmodel::report::Report::new(&a[1], &a[2]);
    match a[1].as_str() {
        "C01" => select::run(r, "cardinal"),
        "C02" => select::run(r, "ordinal"),
        "C03" => operands::strings(r),
        "C04" => operands::ints(r),
        "C05" => operands::floats(r),
        "C06" => operands::junk(r),
        "C07" => lookup::run(r),
        "C08" => history::run(r),
        "C09" => sched::run(r),
        "C20" => reprs::run(r),
        "C21" => select::total(r),
        x => {
            eprintln!("unknown property {}", x);
            std::process::exit(2)
        }
    }
    r.finish_and_exit();
}
