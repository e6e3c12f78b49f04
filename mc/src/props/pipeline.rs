//! C27, C28: loading and evaluating as a whole.
use crate::ds::*;
use crate::engine::*;
use crate::ensure;
use crate::geom::{self, Q, V3};
use crate::model::*;
use crate::obj::*;
use crate::props::frames::plain;
use crate::props::scenario::{render, Sc, Style};
use crate::props::score;
use crate::report;
use crate::scratch;
use crate::seeds;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::{load_dataset, FrameGroundTruth};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use perception_eval::manager::PerceptionEvaluationManager;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::process::{Command, Stdio};

// ------------------------------------------------------------------------------------------------ C27

fn show_frames(fs: &[FrameGroundTruth]) -> String {
    let mut s = String::new();
    for f in fs {
        s.push_str(&format!("frame {}\n", f.timestamp));
        for o in &f.objects {
            s.push_str(&format!("  {} {:?}\n", show(o), full(o)));
        }
    }
    s
}

/// Everything the pipeline makes of a dataset: frames, results of evaluating them with disturbed estimates, report.
pub fn dump(dir: &Path) -> Result<String, String> {
    let frames = load_dataset(
        VERSION,
        &dir.to_path_buf(),
        &EvaluationTask::Detection,
        &FrameID::BaseLink,
    )
    .map_err(|e| format!("the dataset does not load: {e}"))?;
    let mut out = show_frames(&frames);
    let p = Params::new(&[0, 1, 2, 4]);
    let cfg = p.config(EvaluationTask::Detection);
    let mut m = PerceptionEvaluationManager {
        config: &cfg,
        frame_ground_truths: frames.clone(),
        frame_results: vec![],
    };
    for (i, f) in frames.iter().enumerate() {
        let mut est = f.objects.clone();
        for (k, o) in est.iter_mut().enumerate() {
            // tied confidences, some estimates off
            o.confidence = [0.5, 0.5, 0.9][(i + k) % 3];
            o.position[0] += [0.0, 0.4, 1.4, 9.0][(k + i) % 4];
        }
        let Some(g) = m.get_frame_ground_truth(&f.timestamp) else {
            return Err(format!("no frame at {}", f.timestamp));
        };
        m.add_frame_result(&est, &g).map_err(|e| e.to_string())?;
    }
    out.push_str(&show_results(&m));
    Ok(out)
}

pub fn show_results(m: &PerceptionEvaluationManager) -> String {
    let mut out = String::new();
    for r in &m.frame_results {
        let list = |v: &Vec<perception_eval::result::object::PerceptionResult>| {
            v.iter()
                .map(|r| {
                    format!(
                        "{} <- {}",
                        show(&r.estimated_object),
                        r.ground_truth_object
                            .as_ref()
                            .map(show)
                            .unwrap_or("none".into())
                    )
                })
                .collect::<Vec<_>>()
                .join("\n  ")
        };
        out.push_str(&format!(
            "results {}\n tp {}\n fp {}\n fn {}\n gt {}\n",
            list(r.results()),
            list(r.tp_results()),
            list(r.fp_results()),
            r.fn_objects()
                .iter()
                .map(show)
                .collect::<Vec<_>>()
                .join("\n  "),
            show_frames(std::slice::from_ref(r.frame_ground_truth())),
        ));
    }
    match m.get_metrics_score() {
        Ok(s) => out.push_str(&format!("{s}")),
        Err(e) => out.push_str(&format!("no score: {e}")),
    }
    out
}

pub fn first_difference(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {i}: {x:?} against {y:?}");
        }
    }
    format!("{} against {} lines", a.lines().count(), b.lines().count())
}

/// The datasets C27 repeats: (frames, annotations per frame, times, further records, row order).
fn repeat_ds(k: usize) -> Spec {
    let frames = [1usize, 2, 3, 2, 1, 3][k % 6];
    let anns = [3usize, 4, 2, 1, 6, 5][k / 6 % 6];
    let tied = k / 36 % 3;
    let extra = k / 108 % 4;
    let mut s = plain(1, frames);
    s.salt = 100 + k as u64;
    s.order = k % 4;
    s.sensors = vec![
        lidar(),
        camera(),
        Sensor {
            channel: "LIDAR_CONCAT",
            modality: "lidar",
            t: [0.0; 3],
            q: [1.0, 0.0, 0.0, 0.0],
        },
    ];
    s.categories = vec![
        "car".into(),
        "human.pedestrian.adult".into(),
        "vehicle.truck".into(),
        "bicycle".into(),
    ];
    for (j, f) in s.scenes[0].iter_mut().enumerate() {
        let t = match tied {
            0 => f.t,
            1 => T0,
            _ => T0 + (j as i64 / 2),
        };
        f.t = t;
        f.data = vec![Data {
            ego_t: [400.0 + j as f64, 1180.0, 0.5],
            ..data(0, t)
        }];
        if extra & 1 == 1 {
            f.data.push(Data {
                ego_t: [401.0 + j as f64, 1179.0, 0.25],
                ..data(2, t)
            });
        }
        if extra & 2 == 2 {
            f.data.push(data(1, t));
            f.data.push(data(0, t + 50_000));
        }
    }
    for i in 0..anns {
        s.instances.push(Inst {
            scene: 0,
            category: i % 4,
            anns: (0..frames).map(|j| ann(j, i)).collect(),
        });
    }
    s
}
const REPEATS: usize = 432;

/// How many of the 24 orders of a map of 4 entries the first `n` seeds give.
fn orders(n: u64) -> usize {
    (0..n)
        .map(|s| {
            seeds::seeded(s, || {
                (0..4u32)
                    .map(|i| (i, ()))
                    .collect::<HashMap<_, _>>()
                    .into_keys()
                    .collect::<Vec<_>>()
            })
            .unwrap()
        })
        .collect::<std::collections::HashSet<_>>()
        .len()
}

fn same_dump(ch: &mut Ch, a: &Result<String, String>, b: &Result<String, String>, how: &str) -> R {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            ch.note(|| format!("first:\n{a}\n{how}:\n{b}"));
            ensure!(a == b, "{how}: {}", first_difference(a, b));
            ch.outcome(a);
            Ok(())
        }
        (Err(e), _) | (_, Err(e)) => fail(format!("{how}: {e}")),
    }
}

fn flat<T>(r: Result<Result<T, String>, String>) -> Result<T, String> {
    r.unwrap_or_else(Err)
}

/// A history to evaluate: several labels, ties, misses, false alarms.
fn history_of(k: usize) -> (Params, Vec<score::Frame>) {
    let targets: Vec<usize> = [vec![0, 1], vec![0, 1, 2], vec![4, 3, 2, 1, 0], vec![0], vec![7, 6, 5, 4, 3, 2, 1, 0], vec![1, 0, 1]][k % 6].clone();
    let mut p = Params::new(&targets);
    if k / 6 % 2 == 1 {
        p.plane = 30.0;
        p.min_pts = Some(3);
    }
    let frames = (0..1 + k / 12 % 3)
        .map(|i| {
            let mut f: score::Frame = (vec![], vec![]);
            for l in 0..8 {
                for j in 0..1 + (k + l + i) % 3 {
                    let (mut e, g) = score::pair_of((l + j + i) % score::NKIND, l, l * 4 + j, [0.5, 0.5, 0.8][(j + l) % 3]);
                    e.uuid = Some(format!("e{i}-{l}-{j}"));
                    if (l + i + j) % 5 != 4 {
                        f.0.push(e);
                    }
                    if (l + i + 2 * j) % 4 != 3 {
                        f.1.push(g);
                    }
                }
            }
            f
        })
        .collect();
    (p, frames)
}
const HISTORIES: usize = 36;

fn evaluate(p: &Params, frames: &[score::Frame]) -> Result<String, String> {
    let cfg = p.config(EvaluationTask::Detection);
    let mut m = PerceptionEvaluationManager {
        config: &cfg,
        frame_ground_truths: vec![],
        frame_results: vec![],
    };
    for (k, (e, g)) in frames.iter().enumerate() {
        m.add_frame_result(e, &gt_frame(1_000_000 + 100_000 * k as i64, g.clone()))
            .map_err(|e| e.to_string())?;
    }
    Ok(show_results(&m))
}

pub fn c27(tier: Tier) -> Vec<Space> {
    assert!(seeds::effective() || std::env::var("MC_ANY_SEED").is_ok(), "engine: hash seeds are not under control");
    let probes = tier.pick(60, 400);
    vec![
        Space::new(
            "load-orders",
            &format!(
                "datasets of 1-3 frames x 1-6 annotations per frame x distinct or equal times x further LiDAR and camera records ({} of them): loaded and evaluated under each of the hash seeds 0..{probes} (these give {} of the 24 orders of a map of 4 entries)",
                REPEATS / tier.pick(4, 1),
                orders(probes)
            ),
            move |ch| {
                let k = ch.choose(REPEATS / tier.pick(4, 1));
                let k = if tier == Tier::Quick { k * 4 + k / 9 % 4 } else { k };
                let s = repeat_ds(k);
                let dir = scratch::worker("repeat", ch.worker);
                let d = s.build();
                d.write(&dir);
                let seed = 1 + ch.choose(probes as usize - 1) as u64;
                ch.note(|| format!("{}; seeds 0 and {seed}", d.shape()));
                let a = flat(seeds::seeded(0, || dump(&dir)));
                let b = flat(seeds::seeded(seed, || dump(&dir)));
                ch.steps(2);
                same_dump(ch, &a, &b, &format!("under hash seed {seed} instead of 0"))?;
                ch.compared();
                ch.state(&(k, seed));
                Ok(())
            },
        ),
        Space::new(
            "big",
            "every dataset of one large dimension (300 or 1030 samples of a scene, 270 scenes, 300 or 1030 objects in a sample, 80 samples with 20 objects each, 300 sensor records of a sample, 300 sensors, 300 categories, 300 further records of other tables), rows in 2 orders, loaded and evaluated under 3 (thorough 12) hash seeds each against seed 0",
            move |ch| {
                let (what, d) = big(ch.choose(BIG), 3 * ch.choose(2));
                let dir = scratch::worker("repeat", ch.worker);
                d.write(&dir);
                let seed = 1 + ch.choose(tier.pick(3, 12)) as u64;
                ch.note(|| format!("{what}; seeds 0 and {seed}"));
                let a = flat(seeds::seeded(0, || dump(&dir)));
                let b = flat(seeds::seeded(seed, || dump(&dir)));
                ch.steps(2);
                same_dump(ch, &a, &b, &format!("{what}: under hash seed {seed} instead of 0"))?;
                ch.compared();
                ch.state(&(what, seed));
                Ok(())
            },
        ),
        Space::new(
            "repeated",
            "the same datasets loaded and evaluated 1 to 4 times in one thread, with up to 3 other datasets or histories in between",
            move |ch| {
                let k = ch.choose(REPEATS / tier.pick(4, 1)) * tier.pick(4, 1) + tier.pick(1, 0);
                let between = ch.choose(4);
                let dir = scratch::worker("again", ch.worker);
                let other = scratch::worker("other", ch.worker);
                repeat_ds(k).build().write(&dir);
                repeat_ds(k + 37).build().write(&other);
                let r = seeds::seeded(7, || {
                    let mut v = vec![dump(&dir)];
                    for j in 0..between {
                        if j % 2 == 0 {
                            let _ = dump(&other);
                        } else {
                            let (p, f) = history_of(j + k);
                            let _ = evaluate(&p, &f);
                        }
                        v.push(dump(&dir));
                    }
                    v.push(dump(&dir));
                    v
                });
                ch.note(|| format!("dataset {k}, {between} others in between"));
                let v = match r {
                    Ok(v) => v,
                    Err(e) => return fail(e),
                };
                ch.steps(v.len() as u64);
                for (i, x) in v.iter().enumerate().skip(1) {
                    same_dump(ch, &v[0], x, &format!("repetition {i}"))?;
                }
                ch.compared();
                ch.state(&(k, between));
                Ok(())
            },
        ),
        Space::new(
            "evaluation-seeds",
            &format!("{HISTORIES} histories over up to 8 target labels with tied confidences, evaluated under hash seeds 0..{} against seed 0, after each of 6 other histories in the same thread or none", tier.pick(40, 400)),
            move |ch| {
                let k = ch.choose(HISTORIES);
                let before = ch.choose(7);
                let seed = ch.choose(tier.pick(40, 400)) as u64;
                let (p, f) = history_of(k);
                let a = flat(seeds::seeded(0, || evaluate(&p, &f)));
                let b = flat(seeds::seeded(seed, || {
                    if before > 0 {
                        let (p, f) = history_of(k + 5 * before);
                        let _ = evaluate(&p, &f);
                    }
                    evaluate(&p, &f)
                }));
                ch.steps(2);
                score::describe(ch, &p, &f);
                same_dump(ch, &a, &b, &format!("under hash seed {seed}, after {} other histories", before.min(1)))?;
                ch.compared();
                ch.state(&(k, before, seed));
                Ok(())
            },
        ),
        Space::new(
            "processes",
            &format!("{} datasets and histories dumped by two further processes with real random seeds, and by one with a chosen seed", tier.pick(54, 432)),
            move |ch| {
                let k = ch.choose(tier.pick(54, 432)) * tier.pick(8, 1);
                let dir = scratch::worker("process", ch.worker);
                repeat_ds(k).build().write(&dir);
                let (p, f) = history_of(k);
                let here = dump(&dir).and_then(|d| Ok(d + &evaluate(&p, &f)?));
                for i in 0..3 {
                    let out = Command::new(std::env::current_exe().expect("own executable"))
                        .args(["child", "dump"])
                        .arg(&dir)
                        .arg(k.to_string())
                        .arg(if i == 2 { "11" } else { "" })
                        .stdin(Stdio::null())
                        .output()
                        .expect("child");
                    ensure!(out.status.success(), "the other process failed: {}", String::from_utf8_lossy(&out.stderr));
                    ch.step();
                    let there = Ok(String::from_utf8_lossy(&out.stdout).to_string());
                    same_dump(ch, &here, &there, "in another process")?;
                }
                ch.compared();
                ch.state(&k);
                Ok(())
            },
        ),
    ]
}

/// Child process: prints the dump of a dataset and of a history.
pub fn dump_child(args: &[String]) -> i32 {
    let k: usize = args[1].parse().unwrap();
    let dir = Path::new(&args[0]);
    let work = || dump(dir).and_then(|d| {
        let (p, f) = history_of(k);
        Ok(d + &evaluate(&p, &f)?)
    });
    let r = match args[2].parse::<u64>() {
        Ok(s) => flat(seeds::seeded(s, work)),
        Err(_) => work(),
    };
    match r {
        Ok(s) => {
            print!("{s}");
            0
        }
        Err(e) => {
            eprintln!("{e}");
            1
        }
    }
}

// ------------------------------------------------------------------------------------------------ C28

struct Case {
    spec: Spec,
    p: Params,
    frame: FrameID,
    /// evaluate the frames in reverse, or twice
    order: usize,
    /// estimates in reverse order
    turned: bool,
    via_file: bool,
}

fn self_evaluate(ch: &mut Ch, c: &Case) -> R {
    let dir = scratch::worker("self", ch.worker);
    let d = c.spec.build();
    d.write(&dir);
    ch.note(|| format!("{}; {:?}; frames in {}", d.shape(), c.p, c.frame));
    let cfg = if c.via_file {
        let sc = Sc {
            dataset: format!("'{}'", dir.display()),
            version: VERSION.into(),
            frame: c.frame.to_string(),
            labels: c.p.targets.iter().map(|t| format!("'{}'", t.0)).collect(),
            max_x: format!("{:?}", c.p.max_x),
            max_y: format!("{:?}", c.p.max_y),
            min_pts: None,
            center: format!("{:?}", c.p.center),
            plane: format!("{:?}", c.p.plane),
            ..Default::default()
        };
        let f = dir.join("scenario.yaml");
        std::fs::write(&f, render(&sc.tree(), Style::Block)).expect("scratch");
        let r = scratch::worker("self-result", ch.worker);
        let got = PerceptionEvaluationConfig::from(f.to_str().unwrap(), r.to_str().unwrap(), false);
        log::set_max_level(log::LevelFilter::Off);
        match got {
            Ok(c) => c,
            Err(e) => return fail(format!("the scenario is refused: {e}")),
        }
    } else {
        let mut cfg = c.p.config(EvaluationTask::Detection);
        cfg.version = VERSION.into();
        cfg.dataset_path = dir.clone();
        cfg.frame_id = c.frame.clone();
        cfg
    };
    let mut m = match PerceptionEvaluationManager::from(&cfg) {
        Ok(m) => m,
        Err(e) => return fail(format!("the dataset does not load: {e}")),
    };
    ch.step();
    let mut frames = m.frame_ground_truths.clone();
    ensure!(frames.len() == d.rows("sample").len(), "{} frames for {} samples", frames.len(), d.rows("sample").len());
    match c.order {
        0 => {}
        1 => frames.reverse(),
        _ => {
            let again = frames.clone();
            frames.extend(again);
        }
    }
    let mut num: BTreeMap<usize, usize> = BTreeMap::new();
    let mut total = vec![];
    for f in &frames {
        let Some(g) = m.get_frame_ground_truth(&f.timestamp) else {
            return fail(format!("no frame is found at the time {} of a frame", f.timestamp));
        };
        ensure!(g.timestamp == f.timestamp, "the frame found at {} is that of {}", f.timestamp, g.timestamp);
        let mut est = f.objects.clone();
        if c.turned {
            est.reverse();
        }
        if let Err(e) = m.add_frame_result(&est, &g) {
            return fail(format!("the frame {} is refused: {e}", f.timestamp));
        }
        ch.steps(2);
        let want = c.p.filter(&f.objects, true);
        for o in &want {
            *num.entry(label_index(&o.label)).or_default() += 1;
        }
        let r = m.frame_results.last().unwrap();
        ch.note(|| format!("frame {}: {}", f.timestamp, f.objects.iter().map(show).collect::<Vec<_>>().join("; ")));
        ensure!(
            r.tp_results().len() == want.len() && r.fp_results().is_empty() && r.fn_objects().is_empty(),
            "frame {}: of {} objects passing the filter {} are true positives, {} false positives, {} missed",
            f.timestamp,
            want.len(),
            r.tp_results().len(),
            r.fp_results().len(),
            r.fn_objects().len()
        );
        total.push(want.len());
    }
    ch.step();
    let text = match m.get_metrics_score() {
        Ok(s) => format!("{s}"),
        Err(e) => return fail(format!("no score: {e}")),
    };
    ch.note(|| text.clone());
    let blocks = match report::detection(&text) {
        Ok(b) => b,
        Err(e) => return fail(format!("unreadable report ({e}): {text}")),
    };
    for b in &blocks {
        ensure!(b.labels.len() == c.p.targets.len(), "{} columns for {} targets", b.labels.len(), c.p.targets.len());
        for (i, t) in c.p.targets.iter().enumerate() {
            let n = num.get(&t.1).copied().unwrap_or(0);
            if n == 0 {
                continue;
            }
            for row in ["AP", "APH"] {
                let v = b.get(row, i).unwrap_or(f64::NAN);
                ensure!(v == 1.0, "{} {row} of {} is {v}, not 1, for {n} objects evaluated against themselves", b.mode, t.0);
            }
        }
    }
    ch.compared();
    ch.state(&(d.tables.values().map(|t| hash(&format!("{t:?}"))).collect::<Vec<_>>(), format!("{:?}", c.p), c.order, c.turned));
    ch.outcome(&total);
    Ok(())
}

fn egos() -> Vec<(V3, Q)> {
    vec![
        ([411.5, 1180.25, 0.5], yaw(-110.0)),
        ([0.0; 3], [1.0, 0.0, 0.0, 0.0]),
        ([-89_000.125, 42_000.5, 12.0], yaw(37.0)),
        ([400.0, 1170.0, 0.0], yaw(180.0)),
        ([10.0, -3.0, 7.0], geom::from_euler(0.3, -0.2, 2.0)),
        ([400.5, 1171.0, 1.0], [0.5, -0.5, 0.5, -0.5]),
        ([1e7, -1e7, 100.0], yaw(90.0)),
        ([405.0, 1175.0, 0.75], [0.0, 0.0, 0.0, 1.0]),
    ]
}
fn headings() -> Vec<Q> {
    vec![
        yaw(10.0),
        [1.0, 0.0, 0.0, 0.0],
        yaw(180.0),
        yaw(-180.0),
        yaw(90.0),
        yaw(179.9999),
        [-1.0, 0.0, 0.0, 0.0],
        geom::from_euler(0.05, 0.1, -2.5),
        geom::from_euler(3.1, 0.0, 0.4),
        [0.5, 0.5, 0.5, 0.5],
        [0.0, 1.0, 0.0, 0.0],
    ]
}

/// A dataset by numbers: frames per scene, objects per frame.
#[allow(clippy::too_many_arguments)]
fn scene_of(scenes: &[usize], objects: &dyn Fn(usize, usize) -> usize, gap: i64, ego: (V3, Q), step: f64, head: Q, cats: &[&str]) -> Spec {
    let mut s = base();
    s.categories = cats.iter().map(|c| c.to_string()).collect();
    s.scenes.clear();
    s.instances.clear();
    let mut t = T0;
    for (si, n) in scenes.iter().enumerate() {
        let mut list = vec![];
        let mut inst: Vec<Vec<Ann>> = vec![];
        for j in 0..*n {
            let mut e = ego;
            e.0[0] += 0.5 * j as f64;
            e.1 = geom::mul(&e.1, &yaw(3.0 * j as f64));
            list.push(SampleSpec { t, data: vec![Data { ego_t: e.0, ego_q: e.1, ..data(0, t) }, data(1, t)] });
            t += gap;
            for k in 0..objects(si, j) {
                if inst.len() <= k {
                    inst.resize(k + 1, vec![]);
                }
                let mut a = ann(j, k);
                a.pos = geom::add(&ego.0, &[4.0 + step * k as f64, -3.0 + 0.5 * step * (k % 3) as f64, 0.25]);
                a.q = geom::mul(&head, &yaw(25.0 * k as f64));
                inst[k].push(a);
            }
        }
        s.scenes.push(list);
        for (k, anns) in inst.into_iter().enumerate() {
            s.instances.push(Inst { scene: si, category: (k + si) % cats.len(), anns });
        }
    }
    s
}

const CATS: [&str; 8] = [
    "car",
    "human.pedestrian.adult",
    "vehicle.truck",
    "vehicle.bus (bendy & rigid)",
    "BICYCLE",
    "vehicle.motorcycle",
    "animal",
    "something else",
];

pub fn c28(tier: Tier) -> Vec<Space> {
    vec![
        Space::new(
            "scenes",
            &format!("1 to {} frames split into scenes in every way, each with 0 to 3 objects, four label mixes, frames evaluated in order, in reverse and twice, two time gaps", tier.pick(3, 4)),
            move |ch| {
                let total = 1 + ch.choose(tier.pick(3, 4));
                let mut scenes = vec![1usize];
                for _ in 1..total {
                    if ch.flag() {
                        scenes.push(1);
                    } else {
                        *scenes.last_mut().unwrap() += 1;
                    }
                }
                let counts: Vec<Vec<usize>> = scenes.iter().map(|n| (0..*n).map(|_| ch.choose(4)).collect()).collect();
                let mix = ch.choose(4);
                let order = ch.choose(3);
                let gap = ch.pick(&[1i64, 100_000]);
                let (cats, targets): (&[&str], Vec<usize>) = match mix {
                    0 => (&CATS[..1], vec![0]),
                    1 => (&CATS[..2], vec![1, 0]),
                    2 => (&CATS[..], vec![0, 1, 2, 3, 4, 5, 6, 7]),
                    _ => (&CATS[..3], vec![0, 3, 0]),
                };
                let spec = scene_of(&scenes, &|s, j| counts[s][j], gap, egos()[0], 3.0, yaw(10.0), cats);
                self_evaluate(ch, &Case { spec, p: Params::new(&targets), frame: FrameID::BaseLink, order, turned: false, via_file: false })
            },
        ),
        Space::new(
            "attributes",
            &format!("1-3 scenes of 1-3 frames of 0-4 objects with ego poses, headings, spacings down to 1 um, sizes (down to none), label mixes, target lists, filter ranges, thresholds from 1e-300 to 1e9, frames, orders, time gaps, with or without a scenario file: up to {} away from the default", tier.pick(3, 4)),
            |ch| {
                let scenes = ch.dev(&[vec![2usize], vec![1], vec![3], vec![1, 2], vec![1, 1, 1], vec![2, 3]]);
                let pat = ch.deviate(6);
                let objects = move |s: usize, j: usize| [3usize, 1, 4, s + j, (s + j) % 2 * 3, 0][pat];
                let gap = ch.dev(&[100_000i64, 1, 2, 74_999, 75_000, 3_600_000_000, 999]);
                let ego = egos()[ch.deviate(egos().len())];
                let head = headings()[ch.deviate(headings().len())];
                let step = ch.dev(&[3.0f64, 1e-6, 0.001, 0.3, 40.0, 500.0]);
                let cats: Vec<&str> = ch.dev(&[
                    vec!["car", "human.pedestrian.adult"],
                    CATS.to_vec(),
                    vec!["car"],
                    vec!["animal", "movable_object.barrier", "something else"],
                    vec!["vehicle.truck", "trailer", "truck"],
                ]);
                let targets = ch.dev(&[vec![0usize, 1], vec![0, 1, 2, 3, 4, 5, 6, 7], vec![1, 0, 1], vec![7, 6, 2], vec![2], vec![0]]);
                let mut p = Params::new(&targets);
                p.max_x = ch.dev(&[1e5, 1e12, 5.0, 0.5, 20.0]);
                p.max_y = ch.dev(&[1e5, 1e12, 5.0, 0.5, 20.0]);
                p.center = ch.dev(&[1.0, 1e-300, 1e-9, 1e9, 5.0]);
                p.plane = ch.dev(&[2.0, 1e-300, 1e-9, 1e9, 7.0]);
                let mut spec = scene_of(&scenes, &objects, gap, ego, step, head, &cats);
                spec.order = ch.deviate(4);
                match ch.deviate(10) {
                    0 => {}
                    k @ 5.. => {
                        let z = [[0.0, 0.0, 0.0], [0.0, 4.0, 1.5], [2.0, 0.0, 1.5], [2.0, 4.0, 0.0], [1e-9, 1e3, 1e-9]][k - 5];
                        spec.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.size = z);
                    }
                    1 => spec.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.size = [4.0, 4.0, 4.0]),
                    2 => spec.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.size = [20.0, 60.0, 3.0]),
                    3 => spec.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.size = [0.001, 0.002, 0.01]),
                    _ => spec.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.pts = 0),
                }
                let frame = frame(ch.deviate(NF));
                let order = ch.deviate(3);
                let turned = ch.deviate(2) == 1;
                let via_file = ch.deviate(2) == 1;
                self_evaluate(ch, &Case { spec, p, frame, order, turned, via_file })
            },
        )
        .budget(tier.pick(3, 4)),
        Space::new(
            "poses",
            "every ego pose with every heading, box shape and spacing, two frames, two labels, thresholds 1e-12 and 1",
            |ch| {
                let ego = ch.pick(&egos());
                let head = ch.pick(&headings());
                let step = ch.pick(&[3.0, 1e-6, 40.0]);
                let size = ch.pick(&[[2.0, 4.0, 1.5], [4.0, 2.0, 1.5], [1.0, 1.0, 1.0], [30.0, 3.0, 4.0], [0.0, 0.0, 0.0], [0.0, 3.0, 1.0], [3.0, 0.0, 0.0]]);
                let thr = ch.pick(&[1e-12, 1.0]);
                let mut p = Params::new(&[0, 1]);
                p.center = thr;
                p.plane = thr;
                p.max_x = 1e9;
                p.max_y = 1e9;
                let mut spec = scene_of(&[2], &|_, _| 3, 100_000, ego, step, head, &CATS[..2]);
                spec.instances.iter_mut().flat_map(|i| i.anns.iter_mut()).for_each(|a| a.size = size);
                self_evaluate(ch, &Case { spec, p, frame: FrameID::BaseLink, order: 0, turned: true, via_file: false })
            },
        ),
        Space::new(
            "large",
            &format!("1, 2, 17, 40, 300 and 600 frames of 0, 1, 9, 33, 64, 130, 300 and {} objects of 1, 2 or 8 labels, two spacings, three orders", tier.pick(520, 1100)),
            move |ch| {
                let n = ch.pick(&[1usize, 2, 17, 40, 300, 600]);
                let k = ch.pick(&[0usize, 1, 9, 33, 64, 130, 300, tier.pick(520, 1100)]);
                if n * k > tier.pick(700, 3000) || (k > 64 && n != 2 && n != 1) {
                    return Err(Stop::Skip);
                }
                let cats = &CATS[..ch.pick(&[1usize, 2, 8])];
                let step = ch.pick(&[0.01, 2.5]);
                let order = ch.choose(3);
                let spec = scene_of(&[n], &|_, j| if j % 5 == 4 { k / 2 } else { k }, 100_000, egos()[0], step, yaw(10.0), cats);
                self_evaluate(ch, &Case { spec, p: Params::new(&[0, 1, 2, 3, 4, 5, 6, 7]), frame: FrameID::Map, order, turned: n % 2 == 1, via_file: false })
            },
        ),
    ]
}
