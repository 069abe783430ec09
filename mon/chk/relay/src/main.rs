mod r_pay;
mod r_proof;
mod r_tree;
fn main() {
    let m = mon::Mon::from_env();
    match m.prop.as_str() {
        "R01" => r_tree::run(&m),
        "R02" => r_proof::run(&m),
        "R03" => r_pay::run(&m),
        p => panic!("unknown property {p}"),
    }
    m.finish()
}
