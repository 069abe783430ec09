//! Monitors of governance, collators, pausing, client releases and fees.
mod g_amount;
mod g_any;
mod g_coll;
mod g_demo;
mod g_fee;
mod g_info;
mod g_news;
mod g_param;
mod g_pause;
mod g_start;
mod gen;

fn main() {
    let m = mon::Mon::from_env();
    match m.prop.as_str() {
        "G01" | "G02" => g_demo::run(&m),
        "G03" => g_param::run(&m),
        "Q01" => g_coll::run(&m),
        "I01" => g_info::run(&m),
        "T01" => g_pause::run(&m),
        "M01" => g_fee::run(&m),
        "Z01" | "Z02" | "Y01" => g_any::run(&m),
        "Z03" => g_news::run(&m),
        "U02" => g_start::run(&m),
        "U01" => g_amount::run(&m),
        p => panic!("unknown property {p}"),
    }
    m.finish()
}
