mod ds;
mod engine;
mod geom;
mod model;
mod obj;
mod props;
mod report;
mod scratch;
mod seeds;

use engine::*;
use serde_json::{json, Value};
use std::io::Write;
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn known_findings(property: &str) -> Vec<String> {
    // lines "finding: property=<id> key=<key> <text>"; "fixed: ..." lines suppress nothing.
    let p = verif_dir().join("known_findings.txt");
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let mut it = l.split_whitespace();
            let prop = it.next()?.strip_prefix("property=")?;
            let key = it.next()?.strip_prefix("key=")?;
            (prop == property).then(|| key.to_string())
        })
        .collect()
}

fn write_replay(property: &str, tier: Tier, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{property}.json"));
    let j = json!({
        "property": property, "tier": format!("{tier:?}").to_lowercase(), "space": v.space, "choices": v.choices,
        "deviations": v.devs, "message": v.msg, "key": v.key, "reproduced_on_replay": v.reproduced, "scenario": v.notes,
        "how_to_replay": format!("cd /verif && ./check.sh replay {}", p.display()),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("child") {
        // helper process for properties about process-wide state
        install_panic_hook();
        std::process::exit(props::child(&args[2..]));
    }
    install_panic_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&args[2], &args[3..])),
        Some("replay") => std::process::exit(replay(&args[2])),
        Some("list") => {
            for id in props::IDS {
                println!("{id}");
            }
        }
        _ => {
            eprintln!("usage: mc check <id> [--tier quick|thorough] | replay <file> | list");
            std::process::exit(2);
        }
    }
}

fn replay(file: &str) -> i32 {
    let v: Value =
        serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let tier = if v["tier"] == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let choices: Vec<u32> = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u32)
        .collect();
    let spaces = props::spaces(id, tier).expect("property");
    let space = spaces
        .iter()
        .find(|s| s.name == v["space"].as_str().unwrap())
        .expect("space");
    let (ch, r) = run_one(space, &choices, true, 0);
    for n in ch.into_notes() {
        println!("{n}");
    }
    scratch::cleanup();
    match r {
        Ok(Ok(())) => {
            println!("replay: the property holds in this execution");
            0
        }
        Ok(Err(Stop::Skip)) => {
            println!("replay: skipped");
            0
        }
        Ok(Err(Stop::Fail { msg, .. })) | Err(msg) => {
            println!("replay: {msg}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

fn check(id: &str, rest: &[String]) -> i32 {
    let t0 = Instant::now();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut i = 0;
    while i < rest.len() {
        match rest[i].as_str() {
            "--tier" => {
                tier = if rest[i + 1] == "thorough" {
                    Tier::Thorough
                } else {
                    Tier::Quick
                };
                i += 1;
            }
            "--only" => {
                only = Some(rest[i + 1].clone());
                i += 1;
            }
            x => panic!("unknown argument {x}"),
        }
        i += 1;
    }
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    let Some(mut spaces) = props::spaces(id, tier) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    if let Some(o) = &only {
        spaces.retain(|s| s.name.contains(o.as_str()));
    }
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 16);
    let known = known_findings(id);
    let idc = id.to_string();
    let opts = ExploreOpts {
        threads,
        deadline: t0 + Duration::from_secs(tier.pick(500, 2400)),
        on_hang: Arc::new(move |space, choices, el, what| {
            let v = Violation {
                space: space.into(),
                choices,
                devs: 0,
                key: String::new(),
                msg: format!("{what} after {:.1} s", el.as_secs_f64()),
                notes: vec![],
                reproduced: false,
            };
            let p = write_replay(&idc, tier, &v);
            println!("{}: {}", v.space, v.msg);
            println!("VIOLATION property={} replay={}", idc, p.display());
            let _ = std::io::stdout().flush();
            scratch::cleanup();
            std::process::exit(1);
        }),
    };
    let mut stats = vec![];
    let mut new_viols: Vec<Violation> = vec![];
    let mut known_hits: Vec<(String, String)> = vec![];
    for sp in &spaces {
        let cap = if known.is_empty() { 200 } else { usize::MAX };
        let (st, viols) = explore(sp, &opts, cap);
        println!(
            "[{id}] {:<28} executions={} compared={} steps={} states={} outcomes={} depth<={} deviations<={} skipped={} violating={} {:.1}s{}",
            st.name, st.executions, st.compared, st.steps, st.states, st.outcomes, st.max_depth, st.max_devs, st.skipped, st.violating, st.wall,
            if st.capped { " CAPPED" } else { "" }
        );
        for v in viols {
            if !v.key.is_empty() && known.contains(&v.key) {
                if !known_hits.iter().any(|k| k.0 == v.key) {
                    known_hits.push((v.key.clone(), v.msg.clone()));
                }
            } else {
                new_viols.push(v);
            }
        }
        stats.push(st);
        if !new_viols.is_empty() {
            break;
        }
    }
    for (k, m) in &known_hits {
        println!("KNOWN-FINDING: property={id} {k}: {m}");
    }
    let level = props::level(id);
    let total = |f: fn(&SpaceStats) -> u64| stats.iter().map(f).sum::<u64>();
    let mut cov = json!({
        "exhaustive": stats.iter().all(|s| !s.capped) && new_viols.is_empty(),
        "distinct_observed_outcomes": total(|s| s.outcomes),
        "skipped_outside_space": total(|s| s.skipped),
        "spaces": stats.iter().map(|s| json!({
            "name": s.name, "alphabet_and_bound": s.bound, "executions": s.executions, "operations_on_real_code": s.steps,
            "compared": s.compared, "distinct_states": s.states, "distinct_outcomes": s.outcomes, "max_choices": s.max_depth,
            "max_deviations": s.max_devs, "skipped": s.skipped, "violating": s.violating, "capped": s.capped, "wall_s": s.wall,
        })).collect::<Vec<_>>(),
        "samples": stats.iter().flat_map(|s| s.samples.iter().map(move |(c, n)| json!({"space": s.name, "choices": c, "scenario": n}))).collect::<Vec<_>>(),
    });
    let o = cov.as_object_mut().unwrap();
    match level {
        "model_checking" => {
            o.insert("states".into(), json!(total(|s| s.states)));
            o.insert("transitions".into(), json!(total(|s| s.steps)));
            o.insert(
                "traces_validated_against_impl".into(),
                json!(total(|s| s.compared)),
            );
            o.insert("executions".into(), json!(total(|s| s.executions)));
        }
        _ => {
            o.insert("evaluations".into(), json!(total(|s| s.executions)));
            o.insert("distinct_nontrivial".into(), json!(total(|s| s.states)));
            o.insert(
                "rule".into(),
                json!("every choice sequence within the bound of each space is executed on the real code; a case counts as distinct and non-trivial by its canonical (scenario, observed outcome), recorded only when the outcome was compared with the reference"),
            );
        }
    }
    let ev = json!({
        "property": id, "tier": format!("{tier:?}").to_lowercase(), "seed": seed, "level": level, "coverage": cov,
        "assumptions": props::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(), "violations": new_viols.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if only.is_none() {
        std::fs::write(
            evdir.join(format!("{id}.json")),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("evidence");
    }
    scratch::cleanup();
    if let Some(v) = new_viols.first() {
        println!(
            "space {} choices {:?} deviations {}",
            v.space, v.choices, v.devs
        );
        for n in &v.notes {
            println!("  {n}");
        }
        println!(
            "  => {}{}",
            v.msg,
            if v.reproduced {
                ""
            } else {
                "  (outcome differed on replay: it is not deterministic)"
            }
        );
        let p = write_replay(id, tier, v);
        println!("VIOLATION property={id} replay={}", p.display());
        return 1;
    }
    if stats.iter().any(|s| s.capped) {
        println!("[{id}] time cap reached: see evidence for what was covered");
    }
    0
}
