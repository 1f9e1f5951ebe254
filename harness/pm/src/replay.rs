//! Native replay, as in ../rt/src/main.rs.
#[cfg(not(feature = "symx"))]
fn main() {
    let mut args = std::env::args().skip(1);
    let name = args.next().expect("harness name");
    let file = args.next().expect("values file");
    let text = std::fs::read_to_string(file).expect("values file readable");
    let values = text
        .lines()
        .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
        .flat_map(|l| l.split_whitespace().map(|b| b.parse().unwrap()))
        .collect();
    pm::verif::nd::load(values);
    match pm::verif::find(&name) {
        Some(f) => f(),
        None => std::process::exit(4),
    }
    println!("replay: property held");
}
#[cfg(feature = "symx")]
fn main() {}
