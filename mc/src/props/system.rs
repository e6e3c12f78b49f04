//! C29: what a report says was evaluated. C31: files are only read. C32: evaluations do not influence one another.
use crate::ds::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::obj::*;
use crate::props::pipeline::show_results;
use crate::props::score::{check_bounds, evaluate, missed, pattern};
use crate::report;
use crate::scratch;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::nuscenes::NuScenes;
use perception_eval::dataset::{load_dataset, FrameGroundTruth};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::object::object3d::DynamicObject;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::mpsc;

fn err<E: ToString>(what: &str) -> impl Fn(E) -> Stop + '_ {
    move |e| Stop::Fail {
        key: String::new(),
        msg: format!("{what}: {}", e.to_string()),
    }
}

// ------------------------------------------------------------------------------------------------ C29

fn manager(cfg: &PerceptionEvaluationConfig) -> PerceptionEvaluationManager<'_> {
    PerceptionEvaluationManager {
        config: cfg,
        frame_ground_truths: vec![],
        frame_results: vec![],
    }
}

/// A pair of one label whose centre distance and plane distance are both `d`, 40 + 5 d metres ahead.
fn apart(l: usize, d: f64) -> (DynamicObject, DynamicObject) {
    let mut g = obj(l, [40.0 + 5.0 * d, 0.0, 0.5]);
    g.size = [2.0, 4.0, 1.5];
    let mut e = g.clone();
    e.position[0] += d;
    e.confidence = 0.75;
    (e, g)
}

pub fn c29(tier: Tier) -> Vec<Space> {
    let thr: Vec<f64> = tier.pick(
        vec![2e-4, 0.001, 0.125, 0.5, 0.999, 1.0, 2.0, 3.25, 10.0, 99.999, 1000.0, 9999.5, 12345.678, 1e6],
        vec![
            4e-6, 2e-4, 0.001, 0.002, 0.05, 0.1, 0.125, 0.25, 0.3, 0.5, 0.75, 0.999, 1.0, 1.001, 1.5, 2.0, 2.5, 3.25, 5.0, 9.999, 10.0,
            25.5, 99.999, 123.456, 1000.0, 4096.0, 9999.5, 10000.0, 12345.678, 1e6, 3.5e7,
        ],
    );
    // spellings of labels
    let names: Vec<(&str, usize)> = vec![
        ("car", 0),
        ("pedestrian", 1),
        ("truck", 2),
        ("bus", 3),
        ("bicycle", 4),
        ("motorbike", 5),
        ("animal", 6),
        ("unknown", 7),
    ];
    let t1 = thr.clone();
    let n1 = names.clone();
    let n2 = names.clone();
    vec![
        Space::new(
            "columns",
            &format!(
                "every list of 1 to {} of the 8 labels (repeats included) x 4 pairs of thresholds x no frame, an empty frame, a frame of every label, a frame of the last label only: criteria, columns, thresholds and rows of the report",
                tier.pick(5, 6)
            ),
            move |ch| {
                let n = 1 + ch.choose(tier.pick(5, 6));
                let targets: Vec<(String, usize)> = (0..n).map(|_| ch.pick(&n1)).map(|(s, l)| (s.to_string(), l)).collect();
                let mut p = Params::new(&[]);
                p.targets = targets;
                (p.center, p.plane) = ch.pick(&[(1.0, 2.0), (0.125, 0.5), (7.5, 0.031), (0.000_2, 12_345_678.0)]);
                let h = ch.choose(4);
                let cfg = p.config(EvaluationTask::Detection);
                let mut m = manager(&cfg);
                if h > 0 {
                    let objects: Vec<DynamicObject> = match h {
                        1 => vec![],
                        2 => (0..NL).map(|l| obj(l, [10.0, 6.0 * l as f64, 0.0])).collect(),
                        _ => vec![obj(p.targets[n - 1].1, [10.0, 0.0, 0.0])],
                    };
                    m.add_frame_result(&objects, &gt_frame(1_000_000, objects.clone())).map_err(err("adding a frame"))?;
                }
                ch.steps(2);
                let text = format!("{}", m.get_metrics_score().map_err(err("no score"))?);
                ch.note(|| format!("{:?} centre {} plane {}: {text}", p.targets, p.center, p.plane));
                let bs = report::parse(&text).map_err(err("the report cannot be read"))?;
                let modes: Vec<&str> = bs.iter().map(|b| b.mode.as_str()).collect();
                ensure!(modes == ["CenterDistance", "PlaneDistance"], "the report is about {modes:?}");
                for (b, t) in bs.iter().zip([p.center, p.plane]) {
                    let want: Vec<&str> = p.targets.iter().map(|t| label_name(&label(t.1))).collect();
                    ensure!(b.labels == want, "{}: the columns are {:?}, the target labels {want:?}", b.mode, b.labels);
                    ensure!(
                        b.thresholds.iter().all(|x| (x - t).abs() < 0.000_51),
                        "{}: the columns are headed {:?}, the threshold is {t}",
                        b.mode,
                        b.thresholds
                    );
                    let rows: Vec<&str> = b.rows.keys().map(|k| k.as_str()).collect();
                    ensure!(rows == ["AP", "APH"], "{}: rows {rows:?}", b.mode);
                    let means: Vec<&str> = b.means.keys().map(|k| k.as_str()).collect();
                    ensure!(means == ["mAP", "mAPH"], "{}: means {means:?}", b.mode);
                    for (c, (_, l)) in p.targets.iter().enumerate() {
                        let ap = b.rows["AP"][c];
                        let has = h == 2 || (h == 3 && p.targets[n - 1].1 == *l);
                        ensure!(
                            if has { ap == 1.0 } else { ap.is_nan() },
                            "{}: AP of {} is {ap}, {} objects of it were evaluated",
                            b.mode,
                            b.labels[c],
                            has as usize
                        );
                    }
                }
                ch.compared();
                ch.state(&(format!("{:?}", p.targets), h, p.center.to_bits()));
                ch.outcome(&text);
                Ok(())
            },
        ),
        Space::new(
            "means",
            "lists of 1 to 8 labels, each label with k of n ground truths found (n = 1, 3, 7, 8; k = 0, 1, n; 3 of 7) in 4 rotations, or one of the patterns of outcomes: each printed mean is that of its row, AP the share found",
            |ch| {
                let n = 1 + ch.choose(8);
                let turn = ch.choose(4);
                let first = ch.choose(7);
                let mut p = Params::new(&(0..n).map(|i| (i * 3 + turn) % NL).collect::<Vec<_>>());
                p.max_x = 1e6;
                let mut frames = vec![(vec![], vec![])];
                let mut want = vec![];
                for (i, (_, l)) in p.targets.iter().enumerate() {
                    let (k, of) = [(1, 3), (3, 7), (1, 7), (1, 8), (0, 3), (7, 8), (1, 1)][(first + i * (turn + 1)) % 7];
                    for j in 0..of {
                        let mut g = missed(*l, 10 * i + j);
                        g.position[2] = i as f64;
                        frames[0].1.push(g.clone());
                        if j < k {
                            g.confidence = 0.9 - 0.01 * j as f64;
                            frames[0].0.push(g);
                        }
                    }
                    want.push(k as f64 / of as f64);
                }
                let (text, bs) = evaluate(ch, &p, &frames)?;
                ch.note(|| format!("{:?}: {text}", p.targets));
                check_bounds(&p, &bs)?;
                for b in &bs {
                    let mean = want.iter().sum::<f64>() / n as f64;
                    for (row, m) in [("AP", "mAP"), ("APH", "mAPH")] {
                        for c in 0..n {
                            ensure!((b.rows[row][c] - want[c]).abs() < 0.000_51, "{}: {row} of {} is {}, found were {}", b.mode, b.labels[c], b.rows[row][c], want[c]);
                        }
                        ensure!((b.means[m] - mean).abs() < 0.000_51, "{}: {m} is {}, the mean of {want:?} is {mean}", b.mode, b.means[m]);
                    }
                }
                let mut frames = vec![(vec![], vec![]), (vec![], vec![])];
                for (i, (_, l)) in p.targets.iter().enumerate() {
                    pattern(&mut frames, *l, 3 + (first + i * (turn + 1)) % 5);
                }
                let (_, bs) = evaluate(ch, &p, &frames)?;
                check_bounds(&p, &bs)?;
                ch.compared();
                ch.state(&(n, turn, first));
                ch.outcome(&text);
                Ok(())
            },
        ),
        Space::new(
            "thresholds",
            &format!(
                "target lists of 1, 2 and 8 labels x every pair of {} thresholds for the two criteria x one label's pair just within or just beyond either: the score and the verdict of the frame follow the threshold the report prints",
                thr.len()
            ),
            move |ch| {
                let list: Vec<usize> = ch.pick(&[vec![0], vec![3, 1], vec![7, 6, 5, 4, 3, 2, 1, 0]]);
                let mut p = Params::new(&list);
                p.targets = list.iter().map(|l| n2[*l]).map(|(s, l)| (s.to_string(), l)).collect();
                p.center = ch.pick(&t1);
                p.plane = ch.pick(&t1);
                p.max_x = 1e9;
                let k = ch.choose(list.len());
                let near = if ch.flag() { p.center } else { p.plane };
                let d = near * if ch.flag() { 1.0 + 1e-4 } else { 1.0 - 1e-4 };
                let (e, g) = apart(list[k], d);
                let cfg = p.config(EvaluationTask::Detection);
                let mut m = manager(&cfg);
                m.add_frame_result(&[e], &gt_frame(1_000_000, vec![g])).map_err(err("adding a frame"))?;
                ch.steps(2);
                let text = format!("{}", m.get_metrics_score().map_err(err("no score"))?);
                ch.note(|| format!("{:?} centre {} plane {}, {} off by {d}: {text}", p.targets, p.center, p.plane, label_cfg(list[k])));
                let bs = report::detection(&text).map_err(err("the report cannot be read"))?;
                check_bounds(&p, &bs)?;
                for (b, t) in bs.iter().zip([p.center, p.plane]) {
                    ensure!(
                        (b.thresholds[k] - t).abs() < 0.000_51,
                        "{}: the column of {} is headed {}, the threshold is {t}",
                        b.mode,
                        b.labels[k],
                        b.thresholds[k]
                    );
                    let want = if d < t { 1.0 } else { 0.0 };
                    for row in ["AP", "APH"] {
                        ensure!(
                            b.rows[row][k] == want,
                            "{}: a pair {d} apart has {row} {} under the threshold {}",
                            b.mode,
                            b.rows[row][k],
                            b.thresholds[k]
                        );
                    }
                }
                // the verdict of the frame is by the plane distance
                let f = &m.frame_results[0];
                let want = if d < p.plane { (1, 0, 0) } else { (0, 1, 1) };
                let got = (f.tp_results().len(), f.fp_results().len(), f.fn_objects().len());
                ensure!(
                    got == want,
                    "a pair {d} apart gives (TP, FP, FN) {got:?} under the plane distance threshold {} (centre distance threshold {})",
                    p.plane,
                    p.center
                );
                ch.compared();
                ch.state(&(list, p.center.to_bits(), p.plane.to_bits(), d.to_bits(), k));
                ch.outcome(&got);
                Ok(())
            },
        ),
    ]
}

// ------------------------------------------------------------------------------------------------ C31

/// Path -> kind, content, permission and (of files) time of the last change, of everything below a directory.
fn snapshot(root: &Path) -> BTreeMap<String, (char, Vec<u8>, u32, i128)> {
    use std::os::unix::fs::MetadataExt;
    fn walk(root: &Path, at: &Path, out: &mut BTreeMap<String, (char, Vec<u8>, u32, i128)>) {
        for e in std::fs::read_dir(at).expect("scratch").flatten() {
            let p = e.path();
            let m = std::fs::symlink_metadata(&p).expect("scratch");
            let name = p.strip_prefix(root).unwrap().display().to_string();
            if m.is_dir() {
                out.insert(name, ('d', vec![], m.mode(), 0));
                walk(root, &p, out);
            } else {
                let b = std::fs::read(&p).unwrap_or_default();
                out.insert(name, ('f', b, m.mode(), m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(root, root, &mut out);
    out
}

/// A grey PNG picture, rows of 8-bit samples.
pub fn png_bytes(w: u32, rows: &[Vec<u8>], depth: u8, kind: u8) -> Vec<u8> {
    fn crc(b: &[u8]) -> u32 {
        let mut c = !0u32;
        for x in b {
            c ^= *x as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
            }
        }
        !c
    }
    fn chunk(out: &mut Vec<u8>, name: &[u8; 4], body: &[u8]) {
        out.extend((body.len() as u32).to_be_bytes());
        let mut b = name.to_vec();
        b.extend(body);
        out.extend(&b);
        out.extend(crc(&b).to_be_bytes());
    }
    let mut out = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut head = w.to_be_bytes().to_vec();
    head.extend((rows.len() as u32).to_be_bytes());
    head.extend([depth, kind, 0, 0, 0]);
    chunk(&mut out, b"IHDR", &head);
    let mut raw = vec![];
    for r in rows {
        raw.push(0);
        raw.extend(r);
    }
    let mut z = vec![0x78, 1];
    let n = raw.chunks(60_000).count();
    for (i, c) in raw.chunks(60_000).enumerate() {
        z.push((i + 1 == n) as u8);
        z.extend((c.len() as u16).to_le_bytes());
        z.extend((!(c.len() as u16)).to_le_bytes());
        z.extend(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in &raw {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    z.extend((b << 16 | a).to_be_bytes());
    chunk(&mut out, b"IDAT", &z);
    chunk(&mut out, b"IEND", b"");
    out
}

const OPS: [&str; 9] = [
    "build a configuration",
    "build a configuration from an incomplete scenario",
    "load the dataset and its frames",
    "load a corrupted copy of the dataset",
    "open the logs of the dataset",
    "load and open every sensor record",
    "walk every record and relation",
    "make the manager and evaluate",
    "configure logging elsewhere",
];

/// The dataset, a copy with a fault, scenario files; sensor files and logs present or not.
fn lay_out(root: &Path, files: usize) {
    let mut s = base();
    s.scenes[0][0].data[0].file = "data/LIDAR_TOP/a.pcd.bin".into();
    s.scenes[0][0].data[1].file = "data/CAM_FRONT/a.png".into();
    s.scenes[0][0].data[1].format = "png";
    s.scenes[0][1].data[0].file = "data/LIDAR_TOP/b.pcd.bin".into();
    s.scenes[1][0].data[0].file = "data/RADAR/c.pcd".into();
    let d = s.build();
    let good = root.join("data set");
    d.write(&good);
    let mut bad = d.clone();
    bad.tables.get_mut("sample_annotation").unwrap()[1]["next"] = serde_json::json!(s.tk("ann", 2));
    bad.write(&root.join("bad"));
    let put = |p: &str, b: &[u8]| {
        let p = good.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
        std::fs::write(p, b).expect("scratch");
    };
    if files > 0 {
        put("data/LIDAR_TOP/a.pcd.bin", &[7; 40]);
        put("data/CAM_FRONT/a.png", &png_bytes(2, &[vec![1, 2], vec![3, 4]], 8, 0));
    }
    if files > 1 {
        put("data/LIDAR_TOP/b.pcd.bin", &[7; 33]);
        put("data/RADAR/c.pcd", b"VERSION .7");
        put("logs/a.log", b"a log\n");
    }
}

pub fn c31(tier: Tier) -> Vec<Space> {
    let depth = tier.pick(4, 5);
    vec![damaged(), Space::new(
        "sequences",
        &format!(
            "every sequence of 1 to {depth} of {} operations (building configurations, loading clean and corrupted datasets, opening logs, loading sensor records, navigation, evaluation), with no, some and all files that the records name: every file below the scratch root before and after",
            OPS.len()
        ),
        move |ch| {
            let n = 1 + ch.choose(depth);
            let files = ch.choose(3);
            let ops: Vec<usize> = (0..n).map(|_| ch.choose(OPS.len())).collect();
            let root = scratch::worker("ro", ch.worker);
            for e in std::fs::read_dir(&root).expect("scratch").flatten() {
                let p = e.path();
                let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
            }
            lay_out(&root, files);
            let good = root.join("data set");
            let text = |whole: bool| {
                use crate::props::scenario::{render, Sc, Style};
                let mut sc = Sc {
                    dataset: format!("'{}'", good.display()),
                    version: VERSION.into(),
                    ..Default::default()
                };
                if !whole {
                    sc.task = "no task".into();
                }
                render(&sc.tree(), Style::Block)
            };
            std::fs::write(root.join("scenario.yaml"), text(true)).expect("scratch");
            std::fs::write(root.join("incomplete.yaml"), text(false)).expect("scratch");
            let before = snapshot(&root);
            // directories the operations may write to
            let mut places: Vec<String> = vec![];
            let mut seen = vec![];
            for (k, op) in ops.iter().enumerate() {
                ch.step();
                let name = OPS[*op];
                let done = guarded(|| act(*op, &root, k));
                let done = match done {
                    Ok(d) => d,
                    Err(p) => return fail(format!("{name}: {p}")),
                };
                if *op == 0 || *op == 7 || *op == 1 {
                    places.push(format!("out{k}/log"));
                }
                if *op == 8 {
                    places.push(format!("elsewhere{k}"));
                }
                ch.note(|| format!("{name}: {done}"));
                seen.push(done);
                let after = snapshot(&root);
                let allowed = |p: &str| places.iter().any(|l| {
                    p == format!("{l}/output.log") || p == l || l.starts_with(&format!("{p}/"))
                });
                for (p, v) in &before {
                    match after.get(p) {
                        None => return fail(format!("after \"{name}\" the file {p} is gone")),
                        Some(w) => ensure!(w == v, "after \"{name}\" the file {p} has changed ({} -> {} bytes, permission {:o} -> {:o}{})", v.1.len(), w.1.len(), v.2, w.2, if v.3 != w.3 { ", time" } else { "" }),
                    }
                }
                for p in after.keys() {
                    ensure!(before.contains_key(p) || allowed(p), "after \"{name}\" there is a new file {p}");
                }
            }
            ch.compared();
            ch.state(&(ops, files));
            ch.outcome(&seen);
            Ok(())
        },
    )]
}

/// Loading damaged datasets must not mend them.
fn damaged() -> Space {
    Space::new(
        "damaged",
        "each of the 13 tables, or two of them, missing, empty, cut in half, without its last record, a directory or a wrong kind of JSON, or the version or dataset directory missing or empty: loaded as dataset, as frames and by the manager, in every order of two of them",
        |ch| {
            let root = scratch::worker("damaged", ch.worker);
            for e in std::fs::read_dir(&root).expect("scratch").flatten() {
                let p = e.path();
                let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
            }
            let dir = root.join("set");
            let s = base();
            s.build().write(&dir);
            let t = ch.choose(TABLES.len() + 3);
            let mut what = String::new();
            if t < TABLES.len() {
                let second = ch.choose(TABLES.len());
                let how = ch.choose(6);
                for i in [t, second] {
                    let p = table_path(&dir, TABLES[i]);
                    let text = std::fs::read(&p).unwrap_or_default();
                    let _ = std::fs::remove_file(&p);
                    match how {
                        0 => {}
                        1 => std::fs::write(&p, b"").expect("scratch"),
                        2 => std::fs::write(&p, &text[..text.len() / 2]).expect("scratch"),
                        3 => {
                            let mut v: Vec<serde_json::Value> = serde_json::from_slice(&text).unwrap_or_default();
                            v.pop();
                            std::fs::write(&p, serde_json::to_vec(&v).unwrap()).expect("scratch");
                        }
                        4 => {
                            if !p.is_dir() {
                                std::fs::create_dir(&p).expect("scratch");
                            }
                        }
                        _ => std::fs::write(&p, b"{\"a\": null}").expect("scratch"),
                    }
                }
                what = format!("tables {} and {}, damaged in way {how}", TABLES[t], TABLES[second]);
            } else {
                let n = t - TABLES.len();
                std::fs::remove_dir_all(if n == 2 { dir.clone() } else { dir.join(VERSION) }).expect("scratch");
                if n == 1 {
                    std::fs::create_dir(dir.join(VERSION)).expect("scratch");
                }
                what += ["no version directory", "an empty version directory", "no dataset directory"][n];
            }
            let before = snapshot(&root);
            for _ in 0..2 {
                let op = ch.choose(3);
                ch.step();
                let r = guarded(|| match op {
                    0 => NuScenes::load(VERSION, &dir).is_ok(),
                    1 => load_dataset(VERSION, &dir, &EvaluationTask::Detection, &FrameID::BaseLink).is_ok(),
                    _ => {
                        let mut cfg = Params::new(&[0, 1]).config(EvaluationTask::Detection);
                        cfg.version = VERSION.into();
                        cfg.dataset_path = dir.clone();
                        PerceptionEvaluationManager::from(&cfg).is_ok()
                    }
                });
                let after = snapshot(&root);
                ch.note(|| format!("{what}: {r:?}"));
                ch.outcome(&format!("{r:?}"));
                for (p, v) in &before {
                    match after.get(p) {
                        None => return fail(format!("{what}: after loading the file {p} is gone")),
                        Some(w) => ensure!(w == v, "{what}: loading has changed the file {p} ({} -> {} bytes, permission {:o} -> {:o}{})", v.1.len(), w.1.len(), v.2, w.2, if v.3 != w.3 { ", time" } else { "" }),
                    }
                }
                if let Some(p) = after.keys().find(|p| !before.contains_key(*p)) {
                    return fail(format!("{what}: loading has made the file {p}"));
                }
            }
            ch.compared();
            ch.state(&what);
            Ok(())
        },
    )
}

fn act(op: usize, root: &Path, k: usize) -> String {
    let good: PathBuf = root.join("data set");
    let out = root.join(format!("out{k}"));
    let task = EvaluationTask::Detection;
    let show = |r: Result<usize, String>| match r {
        Ok(n) => format!("{n}"),
        Err(_) => "refused".into(),
    };
    match op {
        0 | 1 => show(
            PerceptionEvaluationConfig::from(
                root.join(["scenario.yaml", "incomplete.yaml"][op]).to_str().unwrap(),
                out.to_str().unwrap(),
                false,
            )
            .map(|_| 1)
            .map_err(|e| e.to_string()),
        ),
        2 => {
            let a = NuScenes::load(VERSION, &good).is_ok();
            let b = load_dataset(VERSION, &good, &task, &FrameID::Map).map(|f| f.len()).map_err(|e| e.to_string());
            format!("{a} {}", show(b))
        }
        3 => {
            let bad = root.join("bad");
            let a = NuScenes::load(VERSION, &bad).is_ok();
            let b = load_dataset(VERSION, &bad, &task, &FrameID::Map).map(|f| f.len()).map_err(|e| e.to_string());
            let c = NuScenes::load("no version", &good).is_ok();
            let d = NuScenes::load(VERSION, root.join("nowhere")).is_ok();
            format!("{a} {} {c} {d}", show(b))
        }
        4 => {
            let n = NuScenes::load(VERSION, &good).expect("loads");
            let v: Vec<u8> = n.log_iter().map(|l| match l.open() {
                Ok(Some(_)) => 2,
                Ok(None) => 1,
                Err(_) => 0,
            }).collect();
            let mut v = v;
            v.sort();
            format!("{v:?}")
        }
        5 => {
            let n = NuScenes::load(VERSION, &good).expect("loads");
            let mut v: Vec<String> = n
                .sample_data_iter()
                .map(|d| format!("{} {} {}", d.open().is_ok(), d.load_raw().is_ok(), d.load().is_ok()))
                .collect();
            v.sort();
            v.join(", ")
        }
        6 => {
            let n = NuScenes::load(VERSION, &good).expect("loads");
            let mut c = n.attribute_iter().count() + n.calibrated_sensor_iter().count() + n.category_iter().count() + n.ego_pose_iter().count();
            c += n.log_iter().count() + n.map_iter().count() + n.sensor_iter().count() + n.visibility_iter().count();
            for s in n.scene_iter() {
                c += s.sample_iter().count();
                c += s.log().location.len();
            }
            for s in n.sample_iter() {
                c += s.sample_annotation_iter().count() + s.sample_data_iter().count();
            }
            for i in n.instance_iter() {
                c += i.sample_annotation_iter().count();
            }
            for d in n.sample_data_iter() {
                for f in [true, false] {
                    c += n.get_sample_data(&d.token, &f).map(|b| b.1.len()).unwrap_or(99);
                }
            }
            format!("{c}")
        }
        7 => {
            let r = PerceptionEvaluationConfig::from(root.join("scenario.yaml").to_str().unwrap(), out.to_str().unwrap(), true);
            let cfg = match r {
                Ok(c) => c,
                Err(e) => return format!("no configuration: {e}"),
            };
            let mut m = match PerceptionEvaluationManager::from(&cfg) {
                Ok(m) => m,
                Err(e) => return format!("no manager: {e}"),
            };
            for f in m.frame_ground_truths.clone() {
                let g = m.get_frame_ground_truth(&f.timestamp).unwrap();
                m.add_frame_result(&f.objects, &g).unwrap();
            }
            m.get_metrics_score().map(|s| s.to_string()).unwrap_or_default()
        }
        _ => show(
            perception_eval::utils::logger::configure_logger(&root.join(format!("elsewhere{k}")), log::Level::Debug)
                .map(|_| 1)
                .map_err(|e| e.to_string()),
        ),
    }
}

// ------------------------------------------------------------------------------------------------ C32

/// The histories whose evaluations are interleaved: they agree in all that a cache could go by (times, IDs, labels,
/// places, counts) and differ in the rest.
fn history(k: usize) -> (Params, Vec<(Vec<DynamicObject>, FrameGroundTruth)>) {
    let mut p = Params::new(&[0, 1]);
    match k {
        1 => {
            p.center = 0.3;
            p.plane = 0.3;
        }
        2 => p.targets.reverse(),
        3 => p.max_x = 15.0,
        4 => p.min_pts = Some(11),
        7 => p = Params::new(&[0]),
        8 => p = Params::new(&[2, 0, 1]),
        9 => p = Params::new(&[5, 6]),
        10 => p.targets = vec![("vehicle.bus".into(), 3), ("vehicle.car".into(), 0), ("pedestrian.adult".into(), 1), ("animal".into(), 6)],
        _ => {}
    }
    let frames = (0..3)
        .map(|f| {
            let mut gt = vec![];
            for i in 0..3usize {
                let l = match k {
                    8 => i,
                    9 => 5 + i % 2,
                    10 => [0, 6, 1][i],
                    _ => i % 2,
                };
                let mut g = obj(l, [8.0 + 6.0 * i as f64, 3.0 * f as f64, 0.5]);
                g.timestamp = us(1_000_000 + 100_000 * f);
                g.uuid = Some(format!("u{i}"));
                if k == 4 {
                    g.pointcloud_num = Some(9 + i + f as usize);
                }
                gt.push(g);
            }
            let est = gt
                .iter()
                .enumerate()
                .map(|(i, g)| {
                    let mut e = g.clone();
                    e.confidence = 0.5 + 0.1 * ((i + f as usize) % 3) as f64;
                    e.position[0] += [0.1, 0.5, 0.9][(i + f as usize + k) % 3];
                    if k == 5 {
                        e.orientation = yaw(20.0 * i as f64);
                        e.size = [1.0, 3.0, 1.0];
                    }
                    if k == 6 {
                        e.confidence = 1.0 - e.confidence;
                    }
                    e
                })
                .collect();
            (est, gt_frame(1_000_000 + 100_000 * f, gt))
        })
        .collect();
    (p, frames)
}
const HISTORIES: usize = 11;
/// Operations of one evaluation: make the manager, add each frame, ask for the score.
fn perform<'a>(m: &mut Option<PerceptionEvaluationManager<'a>>, cfg: &'a PerceptionEvaluationConfig, frames: &[(Vec<DynamicObject>, FrameGroundTruth)], step: usize, score_each: bool) -> String {
    if step == 0 {
        *m = Some(PerceptionEvaluationManager { config: cfg, frame_ground_truths: frames.iter().map(|f| f.1.clone()).collect(), frame_results: vec![] });
        return String::new();
    }
    let m = m.as_mut().unwrap();
    if step <= frames.len() {
        let (est, gt) = &frames[step - 1];
        let g = m.get_frame_ground_truth(&gt.timestamp).expect("frame");
        m.add_frame_result(est, &g).expect("add");
        if !score_each {
            return String::new();
        }
    }
    show_results(m)
}

/// Runs the evaluations step by step in the given order, each in a thread of its own or all in this one.
fn interleaved(ks: &[usize], nframes: usize, order: &[usize], threads: bool, score_each: bool) -> Result<Vec<String>, String> {
    let cases: Vec<_> = ks.iter().map(|k| history(*k)).collect();
    let mut next = vec![0usize; ks.len()];
    let mut out = vec![String::new(); ks.len()];
    if !threads {
        let cfgs: Vec<_> = cases.iter().map(|c| c.0.config(EvaluationTask::Detection)).collect();
        let mut ms: Vec<Option<PerceptionEvaluationManager>> = vec![None; ks.len()];
        for w in order {
            out[*w] += &guarded(|| perform(&mut ms[*w], &cfgs[*w], &cases[*w].1[..nframes], next[*w], score_each))?;
            next[*w] += 1;
        }
        return Ok(out);
    }
    std::thread::scope(|sc| {
        let mut to = vec![];
        let mut from = vec![];
        for (i, (p, frames)) in cases.iter().enumerate() {
            let _ = i;
            let (a, go) = mpsc::channel::<usize>();
            let (done, b) = mpsc::channel();
            to.push(a);
            from.push(b);
            sc.spawn(move || {
                let cfg = p.config(EvaluationTask::Detection);
                let mut m = None;
                while let Ok(step) = go.recv() {
                    let r = guarded(|| perform(&mut m, &cfg, &frames[..nframes], step, score_each));
                    if done.send(r).is_err() {
                        break;
                    }
                }
            });
        }
        let r = (|| {
            for w in order {
                to[*w].send(next[*w]).expect("thread");
                out[*w] += &from[*w].recv().expect("thread")?;
                next[*w] += 1;
            }
            Ok(out)
        })();
        drop(to);
        r
    })
}

pub fn c32(tier: Tier) -> Vec<Space> {
    let body = move |managers: usize, nframes: usize| {
        move |ch: &mut Ch| {
            let ks: Vec<usize> = (0..managers).map(|_| ch.choose(if managers == 2 { HISTORIES } else { 3 })).collect();
            let threads = ch.flag();
            let score_each = managers == 2 && ch.flag();
            let steps = nframes + 2;
            let mut left = vec![steps; managers];
            let mut order = vec![];
            while left.iter().any(|l| *l > 0) {
                let able: Vec<usize> = (0..managers).filter(|w| left[*w] > 0).collect();
                let w = ch.pick(&able);
                left[w] -= 1;
                order.push(w);
            }
            ch.steps(order.len() as u64);
            ch.note(|| format!("histories {ks:?}, order {order:?}, threads {threads}"));
            let got = match interleaved(&ks, nframes, &order, threads, score_each) {
                Ok(g) => g,
                Err(p) => return fail(format!("histories {ks:?} in the order {order:?}: {p}")),
            };
            for (i, k) in ks.iter().enumerate() {
                // alone, in a thread that evaluated nothing before
                let alone = alone(*k, nframes, score_each);
                if got[i] != alone {
                    let diff = crate::props::pipeline::first_difference(&got[i], &alone);
                    return fail(format!("history {k}, interleaved with {ks:?} in the order {order:?} (own threads: {threads}), differs from when it is evaluated alone: {diff}"));
                }
            }
            ch.compared();
            ch.state(&(ks, order, threads, score_each));
            ch.outcome(&got);
            Ok(())
        }
    };
    let mut v = vec![
        from_datasets(),
        Space::new(
            "two",
            &format!("2 evaluations out of {HISTORIES} that agree in times, IDs, labels and places, of 1 manager, {} frames and 1 score each (or a score after every frame): every interleaving of their operations, in one thread and in a thread each, against each alone", tier.pick(2, 3)),
            body(2, tier.pick(2, 3)),
        ),
        Space::new(
            "three",
            &format!("3 evaluations out of 3, of {} frame(s) each: every interleaving, in one thread and in a thread each", tier.pick(1, 2)),
            body(3, tier.pick(1, 2)),
        ),
    ];
    v.extend(processes(tier));
    v
}

/// Evaluations of datasets of their own that agree in tokens, times and names but not in what is annotated.
fn from_datasets() -> Space {
    // (directory, version, contents, frame)
    const KINDS: [(&str, &str, usize, FrameID); 7] = [
        ("a/set", VERSION, 0, FrameID::BaseLink),
        ("b/set", VERSION, 1, FrameID::BaseLink),
        ("a/set", "other version", 1, FrameID::BaseLink),
        ("a/set", VERSION, 0, FrameID::Map),
        // the same place, written anew before it is loaded
        ("a/set", VERSION, 1, FrameID::BaseLink),
        ("a/other", VERSION, 2, FrameID::BaseLink),
        ("c/set", VERSION, 2, FrameID::Map),
    ];
    let contents = |k: usize| {
        let mut s = base();
        for (i, inst) in s.instances.iter_mut().enumerate() {
            for a in &mut inst.anns {
                a.pos[0] += [0.0, 7.0, -11.0][k] + i as f64;
            }
        }
        if k == 2 {
            s.categories.swap(0, 1);
        }
        s.build()
    };
    Space::new(
        "datasets",
        "2 evaluations out of 7 that load datasets of the same or different directories, versions and contents (the same directory may be rewritten before it is loaded), every interleaving of load, 2 frames, score and a last look at the frames, in one thread and in a thread each: each against its own tables",
        move |ch| {
            let kinds: Vec<usize> = (0..2).map(|_| ch.choose(KINDS.len())).collect();
            let threads = ch.flag();
            let mut left = [4usize; 2];
            let mut order = vec![];
            while left.iter().any(|l| *l > 0) {
                let able: Vec<usize> = (0..2).filter(|w| left[*w] > 0).collect();
                let w = ch.pick(&able);
                left[w] -= 1;
                order.push(w);
            }
            let root = scratch::worker("two-sets", ch.worker);
            ch.steps(order.len() as u64);
            ch.note(|| format!("datasets {:?}, order {order:?}, threads {threads}", kinds.iter().map(|k| KINDS[*k].clone()).collect::<Vec<_>>()));
            // one step of one evaluation
            let step = |k: usize, n: usize, m: &mut Option<PerceptionEvaluationManager<'static>>| -> Result<String, String> {
                let (dir, version, what, fid) = KINDS[k].clone();
                let d = contents(what);
                if n == 0 {
                    let dir = root.join(dir);
                    let home = dir.join(version);
                    std::fs::create_dir_all(&home).expect("scratch");
                    for t in TABLES {
                        let text = d.text(t);
                        let p = home.join(format!("{t}.json"));
                        if std::fs::read(&p).ok().as_deref() != Some(text.as_bytes()) {
                            std::fs::write(p, text).expect("scratch");
                        }
                    }
                    let mut cfg = Params::new(&[0, 1]).config(EvaluationTask::Detection);
                    cfg.version = version.into();
                    cfg.dataset_path = dir;
                    cfg.frame_id = fid.clone();
                    // a manager borrows its configuration; freed below
                    let cfg: &'static PerceptionEvaluationConfig = Box::leak(Box::new(cfg));
                    *m = Some(PerceptionEvaluationManager::from(cfg).map_err(|e| e.to_string())?);
                }
                let m = m.as_mut().unwrap();
                crate::props::frames::frames_ok(&d, &m.frame_ground_truths, &fid, true)?;
                let mut out = String::new();
                if n == 1 || n == 2 {
                    let own = m.frame_ground_truths[n - 1].clone();
                    let got = m.get_frame_ground_truth(&own.timestamp).ok_or("no frame")?;
                    if got != own {
                        return Err(format!("the frame at {} is another one", own.timestamp));
                    }
                    let mut est = own.objects.clone();
                    for e in &mut est {
                        e.position[1] += [0.0, 30.0, 0.25][what];
                    }
                    m.add_frame_result(&est, &got).map_err(|e| e.to_string())?;
                    let f = &m.frame_results[n - 1];
                    let tp = if what == 1 { 0 } else { own.objects.len() };
                    if f.tp_results().len() != tp || f.fp_results().len() + tp != own.objects.len() {
                        return Err(format!("{} TP and {} FP of {} objects", f.tp_results().len(), f.fp_results().len(), own.objects.len()));
                    }
                }
                if n == 3 {
                    let text = m.get_metrics_score().map_err(|e| e.to_string())?.to_string();
                    let want = if what == 1 { 0.0 } else { 1.0 };
                    for b in report::detection(&text)? {
                        if b.rows["AP"].iter().any(|v| !v.is_nan() && *v != want) {
                            return Err(format!("AP other than {want}: {text}"));
                        }
                    }
                    out = text;
                }
                Ok(out)
            };
            let mut next = [0usize; 2];
            let mut seen = vec![];
            let mut bad = None;
            if !threads {
                let mut ms = [None, None];
                for w in &order {
                    let r = guarded(|| step(kinds[*w], next[*w], &mut ms[*w])).and_then(|r| r);
                    match r {
                        Ok(t) => seen.push(t),
                        Err(e) => {
                            bad = Some((*w, e));
                            break;
                        }
                    }
                    next[*w] += 1;
                }
                for m in ms.into_iter().flatten() {
                    unleak(m);
                }
            } else {
                std::thread::scope(|sc| {
                    let mut to = vec![];
                    let mut from = vec![];
                    for k in &kinds {
                        let (a, go) = mpsc::channel::<usize>();
                        let (done, b) = mpsc::channel::<Result<String, String>>();
                        to.push(a);
                        from.push(b);
                        let step = &step;
                        sc.spawn(move || {
                            let mut m = None;
                            while let Ok(n) = go.recv() {
                                let r = guarded(|| step(*k, n, &mut m)).and_then(|r| r);
                                if done.send(r).is_err() {
                                    break;
                                }
                            }
                            if let Some(m) = m {
                                unleak(m);
                            }
                        });
                    }
                    for w in &order {
                        to[*w].send(next[*w]).expect("thread");
                        match from[*w].recv().expect("thread") {
                            Ok(t) => seen.push(t),
                            Err(e) => {
                                bad = Some((*w, e));
                                break;
                            }
                        }
                        next[*w] += 1;
                    }
                    drop(to);
                });
            }
            if let Some((w, e)) = bad {
                return fail(format!(
                    "evaluation {w} of {:?} in the order {order:?} (own threads: {threads}): {e}",
                    kinds.iter().map(|k| KINDS[*k].clone()).collect::<Vec<_>>()
                ));
            }
            ch.compared();
            ch.state(&(kinds, order, threads));
            ch.outcome(&seen);
            Ok(())
        },
    )
}
fn unleak(m: PerceptionEvaluationManager<'static>) {
    let cfg = m.config as *const PerceptionEvaluationConfig as *mut PerceptionEvaluationConfig;
    drop(m);
    // made by Box::leak for this manager only
    drop(unsafe { Box::from_raw(cfg) });
}

fn alone(k: usize, nframes: usize, score_each: bool) -> String {
    use std::sync::{Mutex, OnceLock};
    static MEMO: OnceLock<Mutex<BTreeMap<(usize, usize, bool), String>>> = OnceLock::new();
    let memo = MEMO.get_or_init(Default::default);
    if let Some(s) = memo.lock().unwrap().get(&(k, nframes, score_each)) {
        return s.clone();
    }
    let order: Vec<usize> = vec![0; nframes + 2];
    // in a process that evaluates nothing else
    let s = in_fresh_process(&[k], nframes, &order, true, score_each).map(|v| v[0].clone()).unwrap_or_else(|e| e);
    memo.lock().unwrap().insert((k, nframes, score_each), s.clone());
    s
}

fn in_fresh_process(ks: &[usize], nframes: usize, order: &[usize], threads: bool, score_each: bool) -> Result<Vec<String>, String> {
    let list = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let out = std::process::Command::new(std::env::current_exe().expect("own executable"))
        .args(["child", "histories", &list(ks), &nframes.to_string(), &list(order), &threads.to_string(), &score_each.to_string()])
        .output()
        .expect("child");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    match text.strip_prefix("ok\u{1e}") {
        Some(t) => Ok(t.split('\u{1e}').map(|x| x.to_string()).collect()),
        None => Err(format!("{text} ({})", out.status)),
    }
}

/// The child's side of it.
pub fn histories_child(args: &[String]) -> i32 {
    let list = |s: &str| -> Vec<usize> { s.split(',').map(|x| x.parse().expect("number")).collect() };
    let got = interleaved(&list(&args[0]), args[1].parse().expect("number"), &list(&args[2]), args[3] == "true", args[4] == "true");
    match got {
        Ok(v) => print!("ok\u{1e}{}", v.join("\u{1e}")),
        Err(e) => print!("{e}"),
    }
    0
}

/// Judges one interleaving in a process of its own.
fn fresh(ch: &mut Ch, ks: &[usize], nframes: usize, order: &[usize], threads: bool) -> R {
    ch.steps(order.len() as u64);
    ch.note(|| format!("histories {ks:?}, order {order:?}, threads {threads}, in a process of their own"));
    let got = match in_fresh_process(ks, nframes, order, threads, false) {
        Ok(g) => g,
        Err(p) => return fail(format!("histories {ks:?} in the order {order:?}: {p}")),
    };
    for (i, k) in ks.iter().enumerate() {
        let alone = alone(*k, nframes, false);
        if got[i] != alone {
            let diff = crate::props::pipeline::first_difference(&got[i], &alone);
            return fail(format!("history {k}, evaluated in one process with {ks:?} in the order {order:?} (own threads: {threads}), differs from when it is evaluated alone: {diff}"));
        }
    }
    ch.compared();
    ch.state(&(ks, order, threads));
    ch.outcome(&got);
    Ok(())
}

fn processes(tier: Tier) -> Vec<Space> {
    let n = tier.pick(2, 3);
    vec![
        Space::new(
            "processes",
            &format!("every ordered pair out of {HISTORIES} histories of {n} frame(s), every interleaving that the first one starts, in one thread and in a thread each, each in a process of its own against each alone in a process of its own"),
            move |ch| {
                let ks = [ch.choose(HISTORIES), ch.choose(HISTORIES)];
                let threads = ch.flag();
                let mut left = [n + 2; 2];
                let mut order = vec![];
                while left.iter().any(|l| *l > 0) {
                    let able: Vec<usize> = (0..2).filter(|w| left[*w] > 0 && (*w == 0 || !order.is_empty())).collect();
                    let w = ch.pick(&able);
                    left[w] -= 1;
                    order.push(w);
                }
                fresh(ch, &ks, n, &order, threads)
            },
        ),
        Space::new(
            "sequences",
            &format!("every sequence of 3 out of {HISTORIES} histories of {} frames one after the other in a process of its own, in one thread or a thread each", tier.pick(2, 3)),
            move |ch| {
                let ks = [ch.choose(HISTORIES), ch.choose(HISTORIES), ch.choose(HISTORIES)];
                let threads = ch.flag();
                let nf = tier.pick(2, 3);
                let order: Vec<usize> = (0..3).flat_map(|w| vec![w; nf + 2]).collect();
                fresh(ch, &ks, nf, &order, threads)
            },
        ),
    ]
}
