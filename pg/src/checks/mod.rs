use mc_engine::Check;

#[allow(dead_code)]
#[path = "../../../core/src/checks/c13.rs"]
mod c13;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c26;
mod c27;

pub fn run(id: &str, check: &mut Check) -> bool {
    match id {
        "C20" => c20::run(check),
        "C21" => c21::run(check),
        "C22" => c22::run(check),
        "C23" => c23::run(check),
        "C24" => c24::run(check),
        "C26" => c26::run(check),
        "C27" => c27::run(check),
        _ => return false,
    }
    true
}
