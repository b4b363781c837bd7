use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::time::Instant;

use proptest::strategy::{Strategy, ValueTree};
use serde_json::{json, Value};
use vh::engine::{self, env_seed, env_tier, runner, Tier};
use vh::programs::*;

const RULE: &str = "Random struct definitions over the documented attributes (names, renames, 26 field types in 8 option forms, \
    formatters, skip conditions, attribute layouts, generics, lifetimes, macros, shadowed names, three editions), compiled in \
    batches and run on three generated instances each; recorded calls and the form are compared with a model; non-trivial = at \
    least one attribute and two fields.";

/// Compiles and runs the structs together: per struct what is wrong with it, if anything.
fn judge(name: &str, specs: &[StructSpec], edition: &str) -> Result<(), (usize, String)> {
    let c = compile(name, &program(specs), edition, true);
    if !c.ok {
        let text: Vec<_> = c
            .diagnostics
            .iter()
            .filter(|d| d.level == "error")
            .map(|d| d.rendered.clone())
            .collect();
        if specs.len() == 1 {
            return Err((
                0,
                format!(
                    "the struct does not compile (edition {}):\n{}{}\n{}",
                    edition,
                    text.join("\n"),
                    c.noise,
                    item(&specs[0])
                ),
            ));
        }
        // Find one that does not compile by itself.
        let (a, b) = specs.split_at(specs.len() / 2);
        judge(name, a, edition)?;
        judge(name, b, edition).map_err(|(i, m)| (i + a.len(), m))?;
        return Err((0, format!("the structs compile apart but not together:\n{}", text.join("\n"))));
    }
    let out = match execute(&c) {
        Ok(o) => o,
        Err(e) => {
            if specs.len() == 1 {
                return Err((0, format!("{}\n{}", e, item(&specs[0]))));
            }
            let (a, b) = specs.split_at(specs.len() / 2);
            judge(name, a, edition)?;
            judge(name, b, edition).map_err(|(i, m)| (i + a.len(), m))?;
            return Err((0, e));
        }
    };
    let mut lines = out.lines();
    for (i, s) in specs.iter().enumerate() {
        for k in 0..INSTANCES {
            let want = s.line(i, k);
            let got = lines.next().unwrap_or("<nothing>");
            if got != want {
                return Err((
                    i,
                    format!(
                        "instance {} (edition {}): calls, form, and whether a reference in Some gives the same\n  actual:   {}\n  expected: {}\n{}",
                        k, edition, got, want, item(s)
                    ),
                ));
            }
        }
    }
    Ok(())
}

fn item(s: &StructSpec) -> String {
    let mut out = String::new();
    s.resolve().emit(0, &mut out);
    out
}

fn edition_of(e: usize) -> &'static str {
    EDITIONS[e % EDITIONS.len()]
}

fn run(out: &str) -> i32 {
    let start = Instant::now();
    let tier = env_tier();
    let seed = env_seed();
    let (rounds, size) = match tier {
        Tier::Quick => (9, 50),
        Tier::Thorough => (300, 60),
    };
    toolchain();
    struct Found {
        case: Value,
        original: Value,
        message: String,
        steps: u32,
    }
    #[derive(Default)]
    struct Acc {
        evaluations: u64,
        instances: u64,
        nontrivial: u64,
        distinct: HashSet<String>,
        labels: BTreeMap<&'static str, u64>,
        samples: Vec<Value>,
        failure: Option<Found>,
    }
    let acc = Mutex::new(Acc::default());
    std::thread::scope(|s| {
        for shard in 0..8u32 {
            let acc = &acc;
            s.spawn(move || {
                let mut runner = runner(seed, "C09", shard);
                let strat = struct_spec();
                for round in 0..rounds {
                    if acc.lock().unwrap().failure.is_some() {
                        return;
                    }
                    let edition = edition_of(shard as usize + round);
                    let mut trees: Vec<_> = (0..size).map(|_| strat.new_tree(&mut runner).unwrap()).collect();
                    let specs: Vec<StructSpec> = trees.iter().map(|t| t.current()).collect();
                    let name = format!("s{}", shard);
                    let r = judge(&name, &specs, edition);
                    {
                        let mut a = acc.lock().unwrap();
                        for s in &specs {
                            a.evaluations += 1;
                            a.instances += INSTANCES as u64;
                            let r = s.resolve();
                            r.labels(|l| *a.labels.entry(l).or_insert(0) += 1);
                            if r.attributes() > 0 && r.fields.len() > 1 {
                                a.nontrivial += 1;
                                let text = serde_json::to_string(s).unwrap();
                                if a.distinct.insert(text) && a.distinct.len() % 400 == 7 {
                                    a.samples.push(json!({"edition": edition, "program": item(s)}));
                                }
                            }
                        }
                        *a.labels.entry(match edition {
                            "2018" => "edition 2018",
                            "2021" => "edition 2021",
                            _ => "edition 2024",
                        }).or_insert(0) += specs.len() as u64;
                    }
                    if let Err((i, message)) = r {
                        let original = json!({"spec": specs[i], "edition": edition});
                        {
                            let mut a = acc.lock().unwrap();
                            if a.failure.is_some() {
                                return;
                            }
                            a.failure = Some(Found {
                                case: original.clone(),
                                original: original.clone(),
                                message: message.clone(),
                                steps: 0,
                            });
                        }
                        let (best, steps) = engine::shrink(&mut trees[i], 400, 150, |s| {
                            judge(&name, std::slice::from_ref(s), edition).err().map(|e| e.1)
                        });
                        let mut a = acc.lock().unwrap();
                        if let Some((s, m)) = best {
                            a.failure = Some(Found {
                                case: json!({"spec": s, "edition": edition}),
                                original,
                                message: m,
                                steps,
                            });
                        }
                        return;
                    }
                }
            });
        }
    });
    cleanup();
    let a = acc.into_inner().unwrap();
    let failed = a.failure.is_some();
    let doc = json!({
        "property": "C09",
        "seed": seed,
        "evaluations": a.evaluations,
        "fixed_cases": 0,
        "nontrivial": a.nontrivial,
        "distinct_nontrivial": a.distinct.len(),
        "rule": RULE,
        "labels": a.labels,
        "samples": a.samples.into_iter().take(4).collect::<Vec<_>>(),
        "extra": {"instances": a.instances},
        "wall_s": start.elapsed().as_secs_f64(),
        "failure": a.failure.map(|f| json!({
            "message": f.message, "case": f.case, "original": f.original, "shrink_steps": f.steps,
        })),
    });
    std::fs::write(out, serde_json::to_string_pretty(&doc).unwrap()).expect("write report");
    std::fs::write(format!("{}.hashes", out), b"").unwrap();
    i32::from(failed)
}

fn main() {
    engine::install_hook();
    vh::gen::no_huge();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| &**s) {
        Some("run") => run(&args[2]),
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let spec: StructSpec = serde_json::from_value(v["case"]["spec"].clone()).unwrap();
            let r = judge("replay", &[spec], v["case"]["edition"].as_str().unwrap());
            cleanup();
            match r {
                Ok(()) => {
                    println!("replay: property C09 holds on this case");
                    0
                }
                Err((_, m)) => {
                    println!("replay: property C09 FAILS on this case\n{}", m);
                    1
                }
            }
        }
        Some("show") => {
            let mut r = runner(env_seed(), "C09", 0);
            let specs: Vec<_> = (0..3).map(|_| struct_spec().new_tree(&mut r).unwrap().current()).collect();
            println!("{}", program(&specs));
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
