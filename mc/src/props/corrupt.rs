//! C17: a corrupted dataset is refused, a clean one accepted.
use crate::ds::*;
use crate::engine::*;
use crate::ensure;
use crate::scratch;
use perception_eval::dataset::load_dataset;
use perception_eval::dataset::nuscenes::NuScenes;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;

type Texts = BTreeMap<&'static str, Option<Vec<u8>>>;

fn texts(d: &Ds) -> Texts {
    TABLES
        .iter()
        .map(|t| (*t, Some(d.text(t).into_bytes())))
        .collect()
}

thread_local! {
    static LAST: RefCell<Texts> = const { RefCell::new(BTreeMap::new()) };
}

/// Writes the files, loads the dataset in both ways and compares with the validator.
fn judge(ch: &mut Ch, x: &Texts, what: impl Fn() -> String) -> R {
    let want = validate(x);
    let dir = scratch::worker("c17", ch.worker);
    // only the files that differ from those of the execution before are written
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_empty() {
            std::fs::create_dir_all(dir.join(VERSION)).expect("scratch");
        }
        for t in TABLES {
            if l.get(t) == Some(&x[t]) {
                continue;
            }
            let p = table_path(&dir, t);
            match &x[t] {
                Some(b) => std::fs::write(&p, b).expect("scratch"),
                None => {
                    let _ = std::fs::remove_file(&p);
                }
            }
            l.insert(t, x[t].clone());
        }
    });
    run(ch, &dir, want, what)
}

fn run(ch: &mut Ch, dir: &std::path::PathBuf, want: Verdict, what: impl Fn() -> String) -> R {
    ch.note(|| format!("{}: {want:?}", what()));
    ch.steps(2);
    let a = guarded(|| {
        NuScenes::load(VERSION, dir)
            .map(|_| ())
            .map_err(|e| e.to_string())
    });
    let b = guarded(|| {
        load_dataset(VERSION, dir, &EvaluationTask::Detection, &FrameID::BaseLink)
            .map(|f| f.len())
            .map_err(|e| e.to_string())
    });
    ch.note(|| format!("NuScenes::load -> {a:?}; load_dataset -> {b:?}"));
    match &want {
        Verdict::Unspecified(_) => return Err(Stop::Skip),
        Verdict::Clean => {
            ensure!(
                matches!(a, Ok(Ok(()))),
                "{}: clean, but loading it gives {a:?}",
                what()
            );
            ensure!(
                matches!(b, Ok(Ok(_))),
                "{}: clean, but loading its frames gives {b:?}",
                what()
            );
        }
        Verdict::Fault(f) => {
            ensure!(
                matches!(a, Ok(Err(_))),
                "{}: {f}, but loading it gives {a:?}",
                what()
            );
            ensure!(
                matches!(b, Ok(Err(_))),
                "{}: {f}, but loading its frames gives {b:?}",
                what()
            );
        }
    }
    ch.compared();
    ch.state(&(what(), format!("{want:?}")));
    ch.outcome(&format!("{a:?}").chars().take(40).collect::<String>());
    Ok(())
}

/// The base dataset with a third sample and a third annotation of the first instance, so that chains have a middle,
/// and records of every kind: sensor records between key frames and of three modalities, annotations with several
/// attributes, with one and with none, with and without visibility.
fn wide() -> Spec {
    let mut s = base();
    s.sensors.push(Sensor {
        channel: "RADAR_FRONT",
        modality: "radar",
        t: [3.4, 0.0, 0.5],
        q: crate::obj::yaw(1.0),
    });
    s.scenes[0].push(SampleSpec {
        t: T0 + 1_000_000,
        data: vec![data(0, T0 + 1_000_000)],
    });
    for (sample, sensor, dt, key, format) in [
        (0, 0, 100_000, false, "pcd"),
        (0, 1, 65_000, false, "jpg"),
        (1, 1, 480_000, true, "png"),
        (1, 2, 510_000, true, "pcd"),
        (2, 2, 910_000, false, "pcd"),
    ] {
        let mut d = data(sensor, T0 + dt);
        d.key = key;
        d.format = format;
        s.scenes[0][sample].data.push(d);
    }
    s.instances[0].anns.push(ann(2, 0));
    s.instances[0].anns[1].attrs = vec![2, 0, 1];
    s.instances[0].anns[2].attrs = vec![];
    s.instances[0].anns[2].vis = None;
    s
}
/// The wide dataset without attributes and visibilities, or without any annotations: tables nothing refers to.
fn bare(no_annotations: bool) -> Spec {
    let mut s = wide();
    if no_annotations {
        s.instances.clear();
    }
    for i in &mut s.instances {
        for a in &mut i.anns {
            a.attrs.clear();
            a.vis = None;
        }
    }
    s
}
/// One scene of one sample, one instance: the smallest dataset using every table.
fn tiny() -> Spec {
    let mut s = base();
    s.scenes = vec![vec![SampleSpec {
        t: T0,
        data: vec![data(0, T0)],
    }]];
    s.instances = vec![Inst {
        scene: 0,
        category: 0,
        anns: vec![ann(0, 0)],
    }];
    s.sensors.truncate(1);
    s
}

fn other_values(d: &Ds, f: &str, old: &Value) -> Vec<(String, Option<Value>)> {
    let fresh = tok(99, "nothing", 0);
    let mut v: Vec<(String, Option<Value>)> = vec![
        ("removed".into(), None),
        ("null".into(), Some(Value::Null)),
        ("true".into(), Some(json!(true))),
        ("-1".into(), Some(json!(-1))),
        ("0".into(), Some(json!(0))),
        ("1".into(), Some(json!(1))),
        ("2.5".into(), Some(json!(2.5))),
        ("empty text".into(), Some(json!(""))),
        ("text".into(), Some(json!("unknown thing"))),
        ("[]".into(), Some(json!([]))),
        ("[1, 2]".into(), Some(json!([1.0, 2.0]))),
        ("{}".into(), Some(json!({}))),
        ("in an array".into(), Some(json!([old]))),
        ("as text".into(), Some(json!(old.to_string()))),
        ("a token of nothing".into(), Some(json!(fresh))),
        ("30 digits".into(), Some(json!(&fresh[..30]))),
        ("31 digits".into(), Some(json!(&fresh[..31]))),
        ("33 digits".into(), Some(json!(format!("{fresh}0")))),
        ("34 digits".into(), Some(json!(format!("{fresh}00")))),
        ("64 digits".into(), Some(json!(format!("{fresh}{fresh}")))),
        (
            "a g among the digits".into(),
            Some(json!(format!("{}g", &fresh[..31]))),
        ),
        ("a blank before".into(), Some(json!(format!(" {fresh}")))),
        ("blanks only".into(), Some(json!(" ".repeat(32)))),
        ("wide letters".into(), Some(json!("\u{e9}".repeat(16)))),
    ];
    if let Some(s) = old.as_str() {
        v.push(("upper case".into(), Some(json!(s.to_ascii_uppercase()))));
        v.push(("doubled".into(), Some(json!(format!("{s}{s}")))));
        if !s.is_empty() {
            v.push((
                "without its last letter".into(),
                Some(json!(&s[..s.len() - 1])),
            ));
        }
    }
    if let Some(n) = old.as_u64() {
        v.push(("one more".into(), Some(json!(n + 1))));
        if n > 0 {
            v.push(("one less".into(), Some(json!(n - 1))));
        }
        v.push(("twice".into(), Some(json!(2 * n))));
    }
    if let Some(a) = old.as_array() {
        let mut b = a.clone();
        b.push(json!(fresh));
        v.push((
            "with a token of nothing appended".into(),
            Some(Value::Array(b)),
        ));
        if !a.is_empty() {
            v.push((
                "without its last entry".into(),
                Some(Value::Array(a[..a.len() - 1].to_vec())),
            ));
            let mut b = a.clone();
            b.push(a[0].clone());
            v.push(("with its first entry again".into(), Some(Value::Array(b))));
            let mut b = a.clone();
            b[0] = Value::Null;
            v.push(("with null first".into(), Some(Value::Array(b))));
            let mut b = a.clone();
            *b.last_mut().unwrap() = json!(fresh);
            v.push(("with a token of nothing last".into(), Some(Value::Array(b))));
        }
    }
    // tokens of every other record of every table: the right kind and the wrong one
    if f.contains("token") || f == "prev" || f == "next" {
        for t in TABLES {
            for (i, r) in d.rows(t).iter().enumerate() {
                if r["token"] != *old && !(f == "token" && t != "map" && i > 2) {
                    if old.is_array() {
                        v.push((format!("[token of {t} {i}]"), Some(json!([r["token"]]))));
                    } else {
                        v.push((format!("token of {t} {i}"), Some(r["token"].clone())));
                    }
                }
            }
        }
    }
    v
}

pub fn c17(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(Space::new(
        "truncated",
        "two datasets (tiny: 1 sample, 1 annotation; base: 2 scenes, 3 samples, 3 instances), compact or indented tables: each of the 13 tables cut at every byte",
        move |ch| {
            let d = if ch.flag() { tiny().build() } else { base().build() };
            let pretty = ch.flag();
            let t = ch.pick(&TABLES);
            let mut x = texts(&d);
            let full = if pretty {
                serde_json::to_string_pretty(&d.tables[t]).unwrap().into_bytes()
            } else {
                d.text(t).into_bytes()
            };
            let n = ch.choose(full.len() + 1);
            x.insert(t, Some(full[..n].to_vec()));
            judge(ch, &x, || format!("{t} ({}) cut after {n} of {} bytes", d.shape(), full.len()))
        },
    ));
    let repl: Vec<u8> = tier.pick(
        vec![b'"', b'}', b',', b'0', b'f', b'z', 0xff],
        vec![
            b'"', b'}', b'{', b']', b'[', b',', b':', b'0', b'9', b'f', b'z', b'-', b'.', b' ',
            b'\n', b'\\', 0, 0x80, 0xff,
        ],
    );
    v.push(Space::new(
        "byte",
        "the tiny dataset (thorough: base too): each byte of each table replaced by each of a set of bytes (quotes, brackets, digits, letters, not UTF-8), or removed, or doubled",
        move |ch| {
            let d = if tier == Tier::Thorough && ch.flag() { base().build() } else { tiny().build() };
            let t = ch.pick(&TABLES);
            let mut b = d.text(t).into_bytes();
            let i = ch.choose(b.len());
            let k = ch.choose(repl.len() + 2);
            let old = b[i];
            let how;
            if k < repl.len() {
                if b[i] == repl[k] {
                    return Err(Stop::Skip);
                }
                b[i] = repl[k];
                how = format!("replaced by {:#x}", repl[k]);
            } else if k == repl.len() {
                b.remove(i);
                how = "removed".into();
            } else {
                b.insert(i, old);
                how = "doubled".into();
            }
            let mut x = texts(&d);
            x.insert(t, Some(b));
            judge(ch, &x, || format!("byte {i} ({:?}) of {t} ({}) {how}", old as char, d.shape()))
        },
    ));
    v.push(
        Space::new(
            "file",
            "four datasets (base, wide, one whose annotations name no attributes and no visibility, one without annotations): each table missing, a directory, empty, another JSON value, an empty array, with trailing text, twice in a row, with a byte order mark, in UTF-16; at most 2 tables so",
            move |ch| {
                let d = match ch.choose(4) {
                    0 => base().build(),
                    1 => wide().build(),
                    2 => bare(false).build(),
                    _ => bare(true).build(),
                };
                let mut x = texts(&d);
                let mut what = vec![];
                let mut dirs = vec![];
                for t in TABLES {
                    let body = d.text(t);
                    let k = ch.deviate(16);
                    let new: Option<Vec<u8>> = match k {
                        0 => continue,
                        1 => None,
                        2 => {
                            dirs.push(t);
                            None
                        }
                        3 => Some(vec![]),
                        4 => Some(b"null".to_vec()),
                        5 => Some(b"{}".to_vec()),
                        6 => Some(b"[]".to_vec()),
                        7 => Some(b"[null]".to_vec()),
                        8 => Some(b"[{}]".to_vec()),
                        9 => Some(b"\"x\"".to_vec()),
                        10 => Some(b"[1]".to_vec()),
                        11 => Some(format!("{body}x").into_bytes()),
                        12 => Some(format!("{body}{body}").into_bytes()),
                        13 => Some(format!("\u{feff}{body}").into_bytes()),
                        14 => Some(body.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()),
                        _ => Some(format!("{{\"{t}\": {body}}}").into_bytes()),
                    };
                    what.push(format!(
                        "{t} {}",
                        match (&new, k) {
                            (_, 2) => "a directory".to_string(),
                            (None, _) => "missing".to_string(),
                            (Some(b), _) => format!("is {:?}", String::from_utf8_lossy(&b[..b.len().min(12)])),
                        }
                    ));
                    x.insert(t, new);
                }
                let want = validate(&x);
                let dir = scratch::worker("c17f", ch.worker);
                std::fs::create_dir_all(dir.join(VERSION)).expect("scratch");
                for t in TABLES {
                    let p = table_path(&dir, t);
                    let _ = if p.is_dir() { std::fs::remove_dir(&p) } else { std::fs::remove_file(&p) };
                    if dirs.contains(&t) {
                        std::fs::create_dir(&p).expect("scratch");
                    } else if let Some(b) = &x[t] {
                        std::fs::write(&p, b).expect("scratch");
                    }
                }
                run(ch, &dir, want, || what.join(", "))
            },
        )
        .budget(2),
    );
    v.push(Space::new(
        "field",
        "wide dataset (thorough: base too; 3 + 1 samples, 5 annotations, 3 instances): each field of each record removed or set to each of ~30 wrong values and to the token of every record of every table",
        move |ch| {
            let mut d = if tier == Tier::Thorough && ch.flag() { base().build() } else { wide().build() };
            let t = ch.pick(&TABLES);
            let i = ch.choose(d.rows(t).len());
            let f = ch.pick(&fields(t));
            let old = d.rows(t)[i][f].clone();
            let vals = other_values(&d, f, &old);
            let (name, new) = ch.pick(&vals);
            let o = d.tables.get_mut(t).unwrap()[i].as_object_mut().unwrap();
            match new {
                Some(x) => {
                    o.insert(f.into(), x);
                }
                None => {
                    o.remove(f);
                }
            }
            let x = texts(&d);
            judge(ch, &x, || format!("{t} {i}, {f} ({old}): {name}"))
        },
    ));
    v.push(
        Space::new(
            "records",
            "wide dataset, rows in 2 orders: records removed or repeated, at most 2 of them",
            move |ch| {
                let mut s = wide();
                s.order = ch.choose(2);
                let d = s.build();
                let mut e = d.clone();
                let mut what = vec![];
                for t in TABLES {
                    let mut rows = vec![];
                    for (i, r) in d.rows(t).iter().enumerate() {
                        match ch.deviate(3) {
                            0 => rows.push(r.clone()),
                            1 => what.push(format!("{t} {i} removed")),
                            _ => {
                                what.push(format!("{t} {i} twice"));
                                rows.push(r.clone());
                                rows.push(r.clone());
                            }
                        }
                    }
                    e.tables.insert(t, rows);
                }
                let x = texts(&e);
                judge(ch, &x, || what.join(", "))
            },
        )
        .budget(2),
    );
    v.push(Space::new(
        "unused",
        "wide dataset with one more record, which nothing refers to, in one of the tables without chains (sensor, calibration, log, category, attribute, visibility, map, ego pose), first or last: intact, or each of its fields removed or set to each of ~30 wrong values and to the token of every record of every table",
        move |ch| {
            let mut d = wide().build();
            let t = ch.pick(&["sensor", "calibrated_sensor", "log", "category", "attribute", "visibility", "map", "ego_pose"]);
            let mut r = d.rows(t)[0].clone();
            r["token"] = if t == "visibility" { json!("17") } else { json!(tok(77, "unused", 3)) };
            let f = ch.pick(&fields(t));
            let old = r[f].clone();
            let vals = other_values(&d, f, &old);
            let k = ch.choose(vals.len() + 1);
            let name = if k == 0 {
                "intact".to_string()
            } else {
                let (name, new) = vals[k - 1].clone();
                let o = r.as_object_mut().unwrap();
                match new {
                    Some(x) => {
                        o.insert(f.into(), x);
                    }
                    None => {
                        o.remove(f);
                    }
                }
                name
            };
            let rows = d.tables.get_mut(t).unwrap();
            let at = if ch.flag() { 0 } else { rows.len() };
            rows.insert(at, r);
            let x = texts(&d);
            judge(ch, &x, || format!("an unused record of {t} at {at}, {f} ({old}): {name}"))
        },
    ));
    v.push(Space::new(
        "near tokens",
        "wide dataset: every token in it, a record's own or one it refers to, replaced by each token one bit away, by those of one digit repeated, by itself backwards, with halves exchanged, turned by one digit, in capitals, and (of visibilities) by each of 24 texts, the visibility table as it is, empty or with this text in place of a record's",
        move |ch| {
            let mut d = wide().build();
            let mut places = vec![];
            for t in TABLES {
                for (i, r) in d.rows(t).iter().enumerate() {
                    for f in fields(t) {
                        if f.contains("token") || f == "prev" || f == "next" {
                            match &r[f] {
                                Value::String(x) => places.push((t, i, f, None, x.clone())),
                                Value::Array(a) => places.extend(a.iter().enumerate().map(|(k, x)| (t, i, f, Some(k), x.as_str().unwrap().to_string()))),
                                _ => {}
                            }
                        }
                    }
                }
            }
            let (t, i, f, k, old) = ch.pick(&places);
            let mut table = 0;
            let new = if f == "visibility_token" || t == "visibility" {
                table = ch.choose(3);
                ch.pick(&[
                    "0", "1", "2", "3", "4", "5", "01", "1.0", " 1", "1 ", "+1", "-1", "\u{661}", "v0-40", "v80-100", "none", "null", "None", "NULL", "all", "full", "*", "00000000000000000000000000000000", "\t",
                ])
                .to_string()
            } else if old.is_empty() {
                ch.pick(&["0", "f", "00"]).repeat(ch.pick(&[32usize, 16, 1]))
            } else {
                let n = old.len();
                let bits = 4 * n;
                let j = ch.choose(bits + 20);
                let mut x = old.clone().into_bytes();
                if j < bits {
                    let h = (x[j / 4] as char).to_digit(16).unwrap() ^ (1 << (j % 4));
                    x[j / 4] = char::from_digit(h, 16).unwrap() as u8;
                } else if j < bits + 16 {
                    x = vec![char::from_digit((j - bits) as u32, 16).unwrap() as u8; n];
                } else {
                    match j - bits - 16 {
                        0 => x.reverse(),
                        1 => x.rotate_left(n / 2),
                        2 => x.rotate_left(1),
                        _ => x.make_ascii_uppercase(),
                    }
                }
                String::from_utf8(x).unwrap()
            };
            let r = &mut d.tables.get_mut(t).unwrap()[i];
            match k {
                None => r[f] = json!(new),
                Some(k) => r[f][k] = json!(new),
            }
            match table {
                1 => d.tables.get_mut("visibility").unwrap().clear(),
                2 => d.tables.get_mut("visibility").unwrap()[1]["token"] = json!(new),
                _ => {}
            }
            let x = texts(&d);
            judge(ch, &x, || format!("{t} {i}, {f} {k:?} ({old}): {new:?}, visibility table {}", ["as it is", "empty", "with it"][table]))
        },
    ));
    let sizes = tier.pick(vec![5usize, 41, 70], vec![5, 17, 33, 41, 65, 70, 129, 257]);
    v.push(Space::new(
        "long chains",
        &format!("one scene of {sizes:?} samples with an object seen in all of them: at every position of the chain of samples or of annotations, one of 16 faults (previous or next link lost, to itself, skipping one, to the first, to the last, to another chain, to nothing; the record gone, or its owner, or what it refers to another one; the count off by one)"),
        move |ch| {
            let n = ch.pick(&sizes);
            let mut s = tiny();
            s.scenes = vec![
                (0..n).map(|k| { let t = T0 + 100_000 * k as i64; SampleSpec { t, data: vec![data(0, t)] } }).collect(),
                vec![SampleSpec { t: T0 + 900_000_000, data: vec![data(0, T0 + 900_000_000)] }],
            ];
            s.instances = vec![
                Inst { scene: 0, category: 0, anns: (0..n).map(|k| ann(k, 0)).collect() },
                Inst { scene: 1, category: 1, anns: vec![ann(0, 5)] },
            ];
            s.order = if n < 20 { ch.choose(2) } else { n % 2 };
            let mut d = s.build();
            let (owner, member, first, count) = ch.pick(&[
                ("instance", "sample_annotation", "first_annotation_token", "nbr_annotations"),
                ("scene", "sample", "first_sample_token", "nbr_samples"),
            ]);
            let o = d.rows(owner).iter().position(|r| r[count] == json!(n)).unwrap();
            let mut chain = vec![];
            let mut cur = st(&d.rows(owner)[o], first).to_string();
            while !cur.is_empty() {
                let at = d.rows(member).iter().position(|r| r["token"] == *cur).unwrap();
                chain.push((cur, at));
                cur = st(&d.rows(member)[at], "next").to_string();
            }
            let other = st(&d.rows(owner)[1 - o], first).to_string();
            let i = ch.choose(n);
            let fault = ch.choose(17);
            let link = if fault < 14 && fault % 2 == 1 { "next" } else { "prev" };
            let to = |k: i64| chain.get(k.clamp(0, n as i64 - 1) as usize).unwrap().0.clone();
            let step = if link == "next" { 2 } else { -2 };
            let row = chain[i].1;
            let rows = d.tables.get_mut(member).unwrap();
            match fault {
                0 | 1 => rows[row][link] = json!(""),
                2 | 3 => rows[row][link] = json!(to(i as i64)),
                4 | 5 => rows[row][link] = json!(to(i as i64 + step)),
                6 | 7 => rows[row][link] = json!(to(0)),
                8 | 9 => rows[row][link] = json!(to(n as i64 - 1)),
                10 | 11 => rows[row][link] = json!(other),
                12 | 13 => rows[row][link] = json!(tok(99, "nothing", i)),
                14 => {
                    rows.remove(row);
                }
                15 => {
                    // what the record refers to: a sample, or its scene, that is not there
                    let f = if member == "sample" { "scene_token" } else { "sample_token" };
                    rows[row][f] = json!(tok(99, "nothing", i));
                }
                _ => {
                    let c = &mut d.tables.get_mut(owner).unwrap()[o][count];
                    *c = json!(if i % 2 == 0 { n + 1 + i } else { n - 1 });
                }
            }
            let x = texts(&d);
            judge(ch, &x, || format!("{member} {i} of {n}: fault {fault} ({link}), order {}", s.order))
        },
    ));
    v.push(Space::new(
        "big",
        "every dataset of one large dimension (300 or 1030 samples of a scene, 270 scenes, 300 or 1030 objects in a sample, 80 samples with 20 objects each, 300 sensor records of a sample, 300 sensors, 300 categories, 300 further records of other tables), rows in 4 orders (quick: one each): intact, or one field of the first, last, middle or (thorough) 255th to 258th record of any table removed, emptied, or naming nothing",
        move |ch| {
            let k = ch.choose(BIG);
            let order = tier.pick(k % 4, 0);
            let order = if tier == Tier::Thorough { ch.choose(4) } else { order };
            let (what, mut d) = big(k, order);
            let t = ch.pick(&TABLES);
            let n = d.rows(t).len();
            let mut at = vec![0, n / 2, n - 1];
            if tier == Tier::Thorough {
                at.extend(255..259);
            }
            let i = ch.pick(&at);
            let f = ch.pick(&fields(t));
            let how = ch.choose(4);
            if i >= n || (how == 0 && f != fields(t)[0]) || (tier == Tier::Quick && how == 2) {
                return Err(Stop::Skip);
            }
            let r = d.tables.get_mut(t).unwrap()[i].as_object_mut().unwrap();
            match how {
                0 => {}
                1 => {
                    r.remove(f);
                }
                2 => {
                    r.insert(f.into(), json!(""));
                }
                _ => {
                    r.insert(f.into(), json!(tok(99, "nothing", i)));
                }
            }
            let x = texts(&d);
            judge(ch, &x, || format!("{what} (order {order}), {t} {i}: {f} {}", ["as it is", "removed", "empty", "naming nothing"][how]))
        },
    ));
    // every way to link three annotations (or samples) of a chain, and every declaration of its ends and count
    for (name, owner, member, first, last, count) in [
        (
            "annotation-links",
            "instance",
            "sample_annotation",
            "first_annotation_token",
            "last_annotation_token",
            "nbr_annotations",
        ),
        (
            "sample-links",
            "scene",
            "sample",
            "first_sample_token",
            "last_sample_token",
            "nbr_samples",
        ),
    ] {
        v.push(Space::new(
            name,
            "a chain of 2 or 3 records: every assignment of previous and next (none, each record of the chain, thorough: one outside it), of the declared first and last record, and of the declared count 0 to 4",
            move |ch| {
                let n = 2 + ch.choose(2);
                let mut d = if n == 3 { wide().build() } else { base().build() };
                let own = d.rows(owner)[0].clone();
                let mut chain: Vec<String> = vec![];
                let mut cur = st(&own, first).to_string();
                while !cur.is_empty() {
                    chain.push(cur.clone());
                    cur = st(d.find(member, &cur).unwrap(), "next").to_string();
                }
                assert_eq!(chain.len(), n);
                let outside = d.rows(member).iter().map(|r| st(r, "token").to_string()).find(|t| !chain.contains(t)).unwrap();
                let mut ends: Vec<String> = vec![String::new()];
                ends.extend(chain.iter().cloned());
                if tier == Tier::Thorough || n == 2 {
                    ends.push(outside);
                }
                // orders of deciding: the declared ends first, so that the scenario can be read
                let fi = ch.choose(n);
                let la = ch.choose(n);
                let counts = [n, n - 1, n + 1, 0, 2 * n];
                let cn = counts[ch.choose(if n == 3 && tier == Tier::Quick { 3 } else { 5 })];
                let mut text = format!("first {fi}, last {la}, count {cn}");
                for (i, t) in chain.iter().enumerate() {
                    let p = ch.choose(ends.len());
                    let x = ch.choose(ends.len());
                    let r = d.tables.get_mut(member).unwrap().iter_mut().find(|r| r["token"] == **t).unwrap();
                    r["prev"] = json!(ends[p]);
                    r["next"] = json!(ends[x]);
                    text += &format!(", {i}: prev {p} next {x}");
                }
                let o = &mut d.tables.get_mut(owner).unwrap()[0];
                o[first] = json!(chain[fi]);
                o[last] = json!(chain[la]);
                o[count] = json!(cn);
                let x = texts(&d);
                judge(ch, &x, || format!("{owner} of {n}: {text} (0: none, k: record k, {}: outside)", n + 1))
            },
        ));
    }
    v.push(Space::new(
        "clean",
        "consistent datasets: 1 to 3 scenes of 1 to 3 samples, every sample with or without annotations (instances absent, one, or two), maps naming unknown logs or none, 4 row orders, linked or unlinked sensor data",
        move |ch| {
            let ns = 1 + ch.choose(tier.pick(2, 3));
            let mut s = tiny();
            s.scenes.clear();
            s.instances.clear();
            s.order = ch.choose(4);
            s.linked_data = ch.flag();
            let logs = ch.choose(3);
            let mut shape = vec![];
            for sc in 0..ns {
                let n = 1 + ch.choose(3);
                s.scenes.push((0..n).map(|k| { let t = T0 + 1_000_000 * sc as i64 + 100_000 * k as i64; SampleSpec { t, data: vec![data(0, t)] } }).collect());
                // presence of one instance, as a set of samples; a second one with all of them
                let mask = ch.choose(1 << n);
                shape.push((n, mask));
                let a: Vec<Ann> = (0..n).filter(|k| mask >> k & 1 == 1).map(|k| ann(k, sc)).collect();
                if !a.is_empty() {
                    s.instances.push(Inst { scene: sc, category: sc % 2, anns: a });
                }
                if mask == 1 {
                    s.instances.push(Inst { scene: sc, category: 1, anns: vec![ann(0, 5)] });
                }
            }
            let mut d = s.build();
            let m = &mut d.tables.get_mut("map").unwrap()[0];
            match logs {
                0 => {}
                1 => m["log_tokens"] = json!([tok(5, "nowhere", 1)]),
                _ => m["log_tokens"] = json!([]),
            }
            let x = texts(&d);
            judge(ch, &x, || format!("(samples, samples with an object) per scene {shape:?}, order {}, linked {}, logs {logs}", s.order, s.linked_data))
        },
    ));
    v
}
