//! Running the scenarios of a check, evidence, known findings and replays.
use std::{
    collections::HashSet,
    path::PathBuf,
    sync::Arc,
    time::{Duration, Instant},
};

use serde_json::{Value, json};

use crate::explore::{Config, Outcome, Run, Violation, execute, explore};

pub struct Check {
    pub id: String,
    tier: String,
    seed: i64,
    root: PathBuf,
    start: Instant,
    known: Arc<HashSet<String>>,
    known_lines: Vec<(String, String)>,
    scenarios: Vec<Value>,
    samples: Vec<Value>,
    states: HashSet<(usize, u64)>,
    transitions: u64,
    executions: u64,
    complete: bool,
    replay: Option<(String, Vec<u32>, u32)>,
    only: Option<String>,
    threads: usize,
    pub assumptions: Vec<String>,
    reported: HashSet<String>,
}

impl Check {
    pub fn from_args() -> Self {
        let args: Vec<String> = std::env::args().collect();
        let id = args.get(1).cloned().unwrap_or_default();
        let tier = args
            .get(2)
            .filter(|tier| *tier == "quick" || *tier == "thorough")
            .cloned()
            .unwrap_or("quick".to_owned());
        let value = |name: &str| {
            args.iter()
                .position(|arg| arg == name)
                .and_then(|at| args.get(at + 1).cloned())
        };
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".to_owned()));
        let replay = value("--replay").map(|path| {
            let replay: Value =
                serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
            (
                replay["scenario"].as_str().unwrap().to_owned(),
                replay["answers"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|answer| answer.as_u64().unwrap() as u32)
                    .collect(),
                replay["bound"].as_u64().unwrap() as u32,
            )
        });
        let mut known_lines = Vec::new();
        if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for line in text.lines() {
                // finding: property=<id> signature=<signature> ; <what fails>
                if let Some(rest) = line.strip_prefix(&format!("finding: property={id} signature="))
                    && let Some((signature, what)) = rest.split_once(" ; ")
                {
                    known_lines.push((signature.to_owned(), what.to_owned()));
                }
            }
        }
        let known = Arc::new(known_lines.iter().map(|(sig, _)| sig.clone()).collect());
        // Expected panics of the code under test are reported where they matter.
        if std::env::var("VERIF_PANICS").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Self {
            id,
            tier,
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|seed| seed.parse().ok())
                .unwrap_or(1),
            root,
            start: Instant::now(),
            known,
            known_lines,
            scenarios: Vec::new(),
            samples: Vec::new(),
            states: HashSet::new(),
            transitions: 0,
            executions: 0,
            complete: true,
            replay,
            only: value("--only"),
            threads: value("--threads")
                .and_then(|n| n.parse().ok())
                .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
            assumptions: Vec::new(),
            reported: HashSet::new(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// Choose a parameter by tier.
    pub fn by_tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }

    pub fn assume(&mut self, assumption: &str) {
        self.assumptions.push(assumption.to_owned());
    }

    /// Explore all executions of the scenario within the bound.
    /// A scenario of several threads. Explored twice: switching the threads at the operations that
    /// are instrumented, and (usually within a lower bound) also at all allocations and readings of
    /// the clock, for whatever else they might use to communicate.
    pub fn threads<F>(&mut self, name: &str, bound: u32, fine: u32, f: F)
    where
        F: Fn(&mut Run) -> Outcome + Sync,
    {
        self.scenario(name, bound, &f);
        self.scenario(&format!("{name} (fine)"), fine, |run: &mut Run| {
            run.fine = true;
            f(run)
        });
    }

    pub fn scenario<F>(&mut self, name: &str, bound: u32, f: F)
    where
        F: Fn(&mut Run) -> Outcome + Sync,
    {
        if let Some((scenario, answers, bound)) = &self.replay {
            if scenario == name {
                let (run, outcome) = execute(&f, answers.clone(), *bound, true);
                for line in &run.log {
                    println!("{line}");
                }
                println!("{outcome:?}");
                std::process::exit(outcome.is_err() as i32);
            }
            return;
        }
        if self
            .only
            .as_ref()
            .is_some_and(|only| !name.contains(only.as_str()))
        {
            return;
        }
        let limit = self.by_tier(Duration::from_secs(420), Duration::from_secs(4 * 3600));
        let per_scenario = self.by_tier(Duration::from_secs(150), Duration::from_secs(3600));
        let deadline = (self.start + limit).min(Instant::now() + per_scenario);
        let on_hang = {
            let (id, root, name) = (self.id.clone(), self.root.clone(), name.to_owned());
            let known = self.known.clone();
            move |prefix: Vec<u32>| {
                if known.contains("hang") {
                    return;
                }
                let path = write_replay(&root, &id, &name, bound, &prefix, "hang", &[]);
                println!("{id} {name}: an execution does not terminate");
                println!("VIOLATION property={id} replay={}", path.display());
                std::process::exit(1);
            }
        };
        let config = Config {
            bound,
            threads: self.threads,
            deadline: Some(deadline),
            known: self.known.clone(),
            on_hang: Arc::new(on_hang),
            hang: Duration::from_secs(90),
        };
        let started = Instant::now();
        let explored = explore(&config, f);
        let index = self.scenarios.len();
        let mut outcomes: Vec<_> = explored.outcomes.iter().collect();
        outcomes.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
        let wall = started.elapsed().as_secs_f64();
        eprintln!(
            "{} {name}: {} executions, {} states, {} transitions, depth {}, complete {}, mismatches {}, {wall:.1}s, outcomes {:?}",
            self.id,
            explored.executions,
            explored.states.len(),
            explored.transitions,
            explored.max_depth,
            explored.complete,
            explored.mismatches,
            outcomes.iter().take(6).collect::<Vec<_>>(),
        );
        self.scenarios.push(json!({
            "scenario": name,
            "deviation_bound": bound,
            "executions": explored.executions,
            "distinct_states": explored.states.len(),
            "transitions": explored.transitions,
            "max_choices": explored.max_depth,
            "complete": explored.complete,
            "replay_mismatches": explored.mismatches,
            "unreproduced": explored.unreproduced,
            "outcomes": outcomes.iter().take(20).collect::<Vec<_>>(),
            "wall_s": wall,
        }));
        self.states
            .extend(explored.states.iter().map(|state| (index, *state)));
        self.transitions += explored.transitions;
        self.executions += explored.executions;
        self.complete &=
            explored.complete && explored.mismatches == 0 && explored.unreproduced == 0;
        if self.samples.len() < 8 {
            self.samples
                .extend(explored.samples.iter().take(1).map(|sample| {
                    let text: String = sample.chars().take(1500).collect();
                    json!({"scenario": name, "trace": text})
                }));
        }
        for signature in explored.known.keys() {
            if self.reported.insert(signature.clone()) {
                let what = self
                    .known_lines
                    .iter()
                    .find(|(sig, _)| sig == signature)
                    .map(|(_, what)| what.as_str())
                    .unwrap_or_default();
                println!("KNOWN-FINDING: property={} {what}", self.id);
            }
        }
        if let Some((violation, answers, log)) = explored.violation {
            self.fail(name, bound, violation, &answers, &log);
        }
    }

    pub fn fail(
        &self,
        name: &str,
        bound: u32,
        violation: Violation,
        answers: &[u32],
        log: &[String],
    ) -> ! {
        let path = write_replay(
            &self.root,
            &self.id,
            name,
            bound,
            answers,
            &violation.message,
            log,
        );
        for line in log {
            println!("  {line}");
        }
        println!(
            "{} {name}: {} [signature: {}]",
            self.id, violation.message, violation.signature
        );
        self.write_evidence(1);
        println!("VIOLATION property={} replay={}", self.id, path.display());
        std::process::exit(1);
    }

    fn write_evidence(&self, violations: u64) {
        let mut samples = self.samples.clone();
        if samples.is_empty() {
            samples.push(json!("no execution was recorded"));
        }
        let evidence = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states.len(),
                "transitions": self.transitions,
                "traces_validated_against_impl": self.executions,
                "exhaustive": self.complete,
                "samples": samples,
                "scenarios": self.scenarios,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&evidence).unwrap(),
        );
    }

    pub fn finish(self) -> ! {
        if self.replay.is_some() {
            println!("no such scenario");
            std::process::exit(2);
        }
        self.write_evidence(0);
        println!(
            "{}: holds on {} executions, {} states, {} transitions ({:.1} s{})",
            self.id,
            self.executions,
            self.states.len(),
            self.transitions,
            self.start.elapsed().as_secs_f64(),
            if self.complete { "" } else { ", not complete" },
        );
        std::process::exit(0);
    }
}

fn write_replay(
    root: &std::path::Path,
    id: &str,
    scenario: &str,
    bound: u32,
    answers: &[u32],
    message: &str,
    log: &[String],
) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{}.json", scenario.replace(['/', ' '], "_")));
    let _ = std::fs::write(
        &path,
        serde_json::to_string_pretty(&json!({
            "property": id,
            "scenario": scenario,
            "bound": bound,
            "answers": answers,
            "message": message,
            "log": log,
            "replay_with": format!("bash check.sh {id} quick --replay {}", path.display()),
        }))
        .unwrap(),
    );
    path
}
