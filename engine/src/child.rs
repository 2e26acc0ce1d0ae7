//! Executions in a process of their own, for state that exists once per process.
use std::{
    io::{Read, Write},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

use serde_json::{Value, json};

use crate::explore::{Outcome, Run, Violation, execute};

/// Perform the whole execution in a child process, which has to call [`serve`] when it is started
/// with `--child` and the given name. To be used before any choice is made.
pub fn in_child(run: &mut Run, name: &str) -> Outcome {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("--child")
        .arg(name)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("could not start a child process");
    let request = json!({"prefix": run.prefix(), "bound": run.bound(), "verbose": run.verbose()});
    let mut stdin = child.stdin.take().unwrap();
    stdin.write_all(request.to_string().as_bytes()).unwrap();
    drop(stdin);
    let mut stdout = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut text = String::new();
        let _ = stdout.read_to_string(&mut text);
        text
    });
    let start = Instant::now();
    while !reader.is_finished() {
        if start.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(Violation::new("blocked", "blocked: the process did not finish"));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    let _ = child.wait();
    let text = reader.join().unwrap();
    let reply: Value = match serde_json::from_str(&text) {
        Ok(reply) => reply,
        Err(_) => return Err(Violation::new("died", "died: the process ended before finishing")),
    };
    let numbers = |value: &Value| -> Vec<u64> {
        value.as_array().unwrap().iter().map(|n| n.as_u64().unwrap()).collect()
    };
    run.adopt(
        reply["trace"]
            .as_array()
            .unwrap()
            .iter()
            .map(|entry| {
                let entry = numbers(entry);
                (entry[0] as u32, entry[1] as u32, entry[2] as u32)
            })
            .collect(),
        numbers(&reply["states"]),
        reply["transitions"].as_u64().unwrap(),
        reply["mismatch"].as_bool().unwrap(),
        reply["log"]
            .as_array()
            .unwrap()
            .iter()
            .map(|line| line.as_str().unwrap().to_owned())
            .collect(),
    );
    match reply["ok"].as_str() {
        Some(outcome) => Ok(outcome.to_owned()),
        None => Err(Violation::new(
            reply["signature"].as_str().unwrap(),
            reply["message"].as_str().unwrap(),
        )),
    }
}

/// The other end: perform the execution that is asked for on the standard input.
pub fn serve(f: impl Fn(&mut Run) -> Outcome) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let request: Value = serde_json::from_str(&text).unwrap();
    let prefix = request["prefix"]
        .as_array()
        .unwrap()
        .iter()
        .map(|n| n.as_u64().unwrap() as u32)
        .collect();
    let bound = request["bound"].as_u64().unwrap() as u32;
    let (run, outcome) = execute(&f, prefix, bound, request["verbose"].as_bool().unwrap());
    let (trace, states, mismatch) = run.parts();
    let mut reply = json!({
        "trace": trace, "states": states, "mismatch": mismatch,
        "transitions": run.transitions, "log": run.log,
    });
    match outcome {
        Ok(outcome) => reply["ok"] = json!(outcome),
        Err(violation) => {
            reply["signature"] = json!(violation.signature);
            reply["message"] = json!(violation.message);
        }
    }
    print!("{reply}");
}
