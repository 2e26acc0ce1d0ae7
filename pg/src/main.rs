mod checks;
#[allow(dead_code)]
#[path = "../../core/src/common.rs"]
mod common;
#[allow(dead_code)]
#[path = "../../core/src/executors.rs"]
mod executors;
mod lab;
#[allow(dead_code)]
#[path = "../../core/src/model.rs"]
mod model;
#[allow(dead_code)]
#[path = "../../core/src/world.rs"]
mod world;

use mc_engine::report::Check;

fn main() {
    let mut check = Check::from_args();
    let id = check.id.clone();
    if !checks::run(&id, &mut check) {
        eprintln!("no such check {id}");
        std::process::exit(2);
    }
    lab::clean();
    check.finish();
}
