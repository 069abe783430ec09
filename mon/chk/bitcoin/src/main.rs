//! Monitors for crates/bitcoin.
mod b_addr;
mod b_key;
mod b_merkle;
mod b_parse;
mod b_pow;
mod b_size;
mod b_tx;
mod model;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("keychild") {
        b_key::child();
        return;
    }
    let m = mon::Mon::from_env();
    match m.prop.as_str() {
        "B01" => b_parse::run(&m),
        "B02" => b_tx::run(&m),
        "B03" => b_tx::run_header(&m),
        "B04" => b_merkle::run_complete(&m),
        "B05" => b_merkle::run_sound(&m),
        "B06" => b_pow::run(&m),
        "B07" => b_addr::run(&m),
        "B08" => b_key::run(&m),
        "B09" => b_size::run(&m),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(3)
        }
    }
    m.finish()
}
