mod checks;
mod common;
mod executors;
mod model;
mod race;
mod world;

use mc_engine::report::Check;

#[global_allocator]
static ALLOCATOR: mc_engine::threads::Points = mc_engine::threads::Points;

fn main() {
    rexecutor::verif::set_hook(mc_engine::threads::hook);
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|arg| arg == "--child") {
        checks::child(&args[2]);
        return;
    }
    let mut check = Check::from_args();
    let id = check.id.clone();
    if !checks::run(&id, &mut check) {
        eprintln!("no such check {id}");
        std::process::exit(2);
    }
    check.finish();
}
