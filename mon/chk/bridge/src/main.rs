mod end;
mod inv;
mod ask;
mod news;
mod sim;
mod snap;
mod spec;
mod scen;
fn main() {
    let m = mon::Mon::from_env();
    match m.prop.as_str() {
        "V08" => {
            scen::histories(&m);
            scen::reborn(&m);
        }
        "V01" | "V02" | "V03" | "V04" | "V05" | "V06" | "V07" | "V09" | "V10" | "V11" | "V12" | "N01" => scen::histories(&m),
        p => panic!("unknown property {}", p),
    }
    m.finish()
}
