//! Native replay: `replay HARNESS FILE`, FILE holding the drawn bytes in order, separated by white space.
//! Exit 101 (panic): the property is violated. Exit 0: it held. Exit 3: assignment does not apply.
#[cfg(not(any(kani, feature = "symx")))]
fn main() {
    let mut args = std::env::args().skip(1);
    let name = args.next().expect("harness name");
    let file = args.next().expect("values file");
    let text = std::fs::read_to_string(file).expect("values file readable");
    let values = text
        .lines()
        .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
        .flat_map(|l| l.split_whitespace().map(|b| b.parse().unwrap()))
        .collect();
    rt::nd::load(values);
    match rt::find(&name) {
        Some(f) => f(),
        None => std::process::exit(4),
    }
    println!("replay: property held");
}
#[cfg(any(kani, feature = "symx"))]
fn main() {}
