use mc_engine::Check;

macro_rules! checks {
    ($($module:ident $id:literal),* $(,)?) => {
        $(mod $module;)*
        pub fn run(id: &str, check: &mut Check) -> bool {
            match id {
                $($id => $module::run(check),)*
                _ => return false,
            }
            true
        }
    };
}

checks! {
    c01 "C01",
    c02 "C02",
    c03 "C03",
    c04 "C04",
    c05 "C05",
    c06 "C06",
    c07 "C07",
    c08 "C08",
    c09 "C09",
    c10 "C10",
    c11 "C11",
    c12 "C12",
    c13 "C13",
    c14 "C14",
    c15 "C15",
    c16 "C16",
    c17 "C17",
    c18 "C18",
    c19 "C19",
    c25 "C25",
}

/// Executions in a process of their own.
pub fn child(name: &str) {
    c19::child(name);
}
