//! Monitors of the lending pallet.
mod hist;
mod model;

fn main() {
    let m = mon::Mon::from_env();
    hist::run(&m);
    m.finish()
}
