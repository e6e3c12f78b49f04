//! C20: iterators and relations of a loaded dataset. C26: sensor files.
use super::frames::plain;
use crate::ds::*;
use crate::engine::*;
use crate::ensure;
use crate::scratch;
use perception_eval::dataset::nuscenes::internal::{
    InstanceInternal, SampleInternal, SceneInternal,
};
use perception_eval::dataset::nuscenes::{LoadedSampleData, NuScenes};
use serde::Serialize;
use serde_json::{json, Value};

/// A record as JSON: what the library read, written by itself.
fn js<T: Serialize>(x: &T) -> Value {
    serde_json::to_value(x).expect("record")
}
fn opt(t: &Option<perception_eval::dataset::nuscenes::schema::LongToken>) -> String {
    t.as_ref().map(|t| t.to_string()).unwrap_or_default()
}
fn toks<'a>(
    l: impl IntoIterator<Item = &'a perception_eval::dataset::nuscenes::schema::LongToken>,
) -> Vec<String> {
    l.into_iter().map(|t| t.to_string()).collect()
}

/// Does the library's record show the row? Fields the library does not know are ignored; `pcd` is a way to write `bin` and so on.
fn shows(got: &Value, row: &Value) -> bool {
    if got["token"] != row["token"] {
        return false;
    }
    got.as_object().unwrap().iter().all(|(f, a)| {
        let b = &row[f.as_str()];
        match f.as_str() {
            "fileformat" => a == b || (a == "bin" && b == "pcd") || (a == "jpeg" && b == "jpg"),
            "channel" => a == b || (a == "LIDAR_TOP" && b == "LIDAR_CONCAT"),
            _ => num_eq(a, b),
        }
    })
}
fn fields_of(v: &Value) -> Vec<String> {
    v.as_object().unwrap().keys().cloned().collect()
}
fn num_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_i64(), y.as_i64()) {
            (Some(p), Some(q)) => p == q,
            // the JSON reader may be off by one unit of least precision
            _ => {
                let (p, q) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                (p - q).abs() <= 4e-16 * p.abs()
            }
        },
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| num_eq(p, q))
        }
        _ => a == b,
    }
}

fn sample_shows(s: &SampleInternal, row: &Value, d: &Ds) -> bool {
    let members = |t: &str| -> Vec<String> {
        let mut v: Vec<String> = d
            .rows(t)
            .iter()
            .filter(|r| r["sample_token"] == row["token"])
            .map(|r| st(r, "token").into())
            .collect();
        v.sort();
        v
    };
    let sorted = |mut v: Vec<String>| {
        v.sort();
        v
    };
    s.token.to_string() == st(row, "token")
        && opt(&s.prev) == st(row, "prev")
        && opt(&s.next) == st(row, "next")
        && s.scene_token.to_string() == st(row, "scene_token")
        && s.timestamp == crate::obj::us(row["timestamp"].as_i64().unwrap())
        && sorted(toks(&s.annotation_tokens)) == members("sample_annotation")
        && sorted(toks(&s.sample_data_tokens)) == members("sample_data")
}
/// The tokens of a chain, from its declared first record on.
fn chain(d: &Ds, member: &str, first: &Value) -> Vec<String> {
    let mut v = vec![];
    let mut cur = first.as_str().unwrap().to_string();
    while !cur.is_empty() {
        let r = d.find(member, &cur).unwrap();
        v.push(cur.clone());
        cur = st(r, "next").to_string();
    }
    v
}
fn instance_shows(i: &InstanceInternal, row: &Value, d: &Ds) -> bool {
    i.token.to_string() == st(row, "token")
        && i.category_token.to_string() == st(row, "category_token")
        && toks(&i.annotation_tokens)
            == chain(d, "sample_annotation", &row["first_annotation_token"])
}
fn scene_shows(s: &SceneInternal, row: &Value, d: &Ds) -> bool {
    s.token.to_string() == st(row, "token")
        && s.name == st(row, "name")
        && s.description == st(row, "description")
        && s.log_token.to_string() == st(row, "log_token")
        && toks(&s.sample_tokens) == chain(d, "sample", &row["first_sample_token"])
}

/// Every row exactly once.
fn once<T>(what: &str, rows: &[Value], got: &[T], shows: impl Fn(&T, &Value) -> bool) -> R {
    let mut rest: Vec<&Value> = rows.iter().collect();
    for (i, g) in got.iter().enumerate() {
        match rest.iter().position(|r| shows(g, r)) {
            Some(k) => {
                rest.remove(k);
            }
            None => {
                return fail(format!(
                    "{what}: entry {i} of the iterator is no (further) record of the table"
                ))
            }
        }
    }
    ensure!(
        rest.is_empty(),
        "{what}: the iterator leaves out {}",
        rest[0]
    );
    Ok(())
}
fn ordered<T: PartialOrd + std::fmt::Debug>(what: &str, times: &[T]) -> R {
    for w in times.windows(2) {
        ensure!(w[0] <= w[1], "{what}: {:?} comes before {:?}", w[0], w[1]);
    }
    Ok(())
}

fn judge(ch: &mut Ch, d: &Ds) -> R {
    let dir = scratch::worker("nav", ch.worker);
    d.write(&dir);
    let n = match NuScenes::load(VERSION, &dir) {
        Ok(n) => n,
        Err(e) => return fail(format!("the dataset does not load: {e}")),
    };
    ch.note(|| {
        format!(
            "{}, sample times {:?}",
            d.shape(),
            d.rows("sample")
                .iter()
                .map(|s| s["timestamp"].clone())
                .collect::<Vec<_>>()
        )
    });
    ensure!(
        n.version() == VERSION && n.dir() == dir,
        "version {} directory {:?}",
        n.version(),
        n.dir()
    );
    // the tables
    macro_rules! table {
        ($name:literal, $it:ident) => {{
            ch.step();
            let got: Vec<Value> = n.$it().map(|r| js(&*r)).collect();
            once($name, d.rows($name), &got, |g, r| shows(g, r))?;
        }};
    }
    table!("attribute", attribute_iter);
    table!("calibrated_sensor", calibrated_sensor_iter);
    table!("category", category_iter);
    table!("ego_pose", ego_pose_iter);
    table!("log", log_iter);
    table!("map", map_iter);
    table!("sample_annotation", sample_annotation_iter);
    table!("sample_data", sample_data_iter);
    table!("sensor", sensor_iter);
    table!("visibility", visibility_iter);
    let samples: Vec<_> = n.sample_iter().collect();
    once("sample", d.rows("sample"), &samples, |g, r| {
        sample_shows(g, r, d)
    })?;
    let instances: Vec<_> = n.instance_iter().collect();
    once("instance", d.rows("instance"), &instances, |g, r| {
        instance_shows(g, r, d)
    })?;
    let scenes: Vec<_> = n.scene_iter().collect();
    once("scene", d.rows("scene"), &scenes, |g, r| {
        scene_shows(g, r, d)
    })?;
    ch.steps(3);
    ordered(
        "ego poses",
        &n.ego_pose_iter().map(|e| e.timestamp).collect::<Vec<_>>(),
    )?;
    ordered(
        "samples",
        &samples.iter().map(|e| e.timestamp).collect::<Vec<_>>(),
    )?;
    ordered(
        "sensor records",
        &n.sample_data_iter()
            .map(|e| e.timestamp)
            .collect::<Vec<_>>(),
    )?;
    let first = |s: &SceneInternal| {
        s.sample_tokens
            .iter()
            .map(|t| {
                d.find("sample", &t.to_string()).unwrap()["timestamp"]
                    .as_i64()
                    .unwrap()
            })
            .min()
    };
    ordered(
        "scenes",
        &scenes.iter().map(|s| first(s)).collect::<Vec<_>>(),
    )?;
    // the relations
    let mut hops = 0u64;
    let mut hop = || hops += 1;
    for s in &samples {
        let me = d.find("sample", &s.token.to_string()).unwrap();
        let at = format!("sample {}", s.token);
        ensure!(
            scene_shows(&s.scene(), d.get("scene", &me["scene_token"]), d),
            "{at}: wrong scene"
        );
        for (got, f) in [(s.prev(), "prev"), (s.next(), "next")] {
            match got {
                None => ensure!(me[f] == "", "{at}: no {f}, should be {}", me[f]),
                Some(x) => ensure!(
                    me[f] != "" && sample_shows(&x, d.get("sample", &me[f]), d),
                    "{at}: wrong {f} {}",
                    x.token
                ),
            }
        }
        let a: Vec<Value> = s.sample_annotation_iter().map(|r| js(&*r)).collect();
        let rows: Vec<Value> = d
            .rows("sample_annotation")
            .iter()
            .filter(|r| r["sample_token"] == me["token"])
            .cloned()
            .collect();
        once(&format!("annotations of {at}"), &rows, &a, |g, r| {
            shows(g, r)
        })?;
        let a: Vec<Value> = s.sample_data_iter().map(|r| js(&*r)).collect();
        let rows: Vec<Value> = d
            .rows("sample_data")
            .iter()
            .filter(|r| r["sample_token"] == me["token"])
            .cloned()
            .collect();
        once(&format!("sensor records of {at}"), &rows, &a, |g, r| {
            shows(g, r)
        })?;
        hop();
    }
    for a in n.sample_annotation_iter() {
        let at = format!("annotation {}", a.token);
        let me = d.find("sample_annotation", &a.token.to_string()).unwrap();
        ensure!(
            sample_shows(&a.sample(), d.get("sample", &me["sample_token"]), d),
            "{at}: wrong sample {}",
            a.sample().token
        );
        ensure!(
            instance_shows(&a.instance(), d.get("instance", &me["instance_token"]), d),
            "{at}: wrong instance"
        );
        let got: Vec<String> = a.attribute_iter().map(|x| x.token.to_string()).collect();
        let want: Vec<String> = me["attribute_tokens"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| x.as_str().unwrap().to_string())
            .collect();
        ensure!(got == want, "{at}: attributes {got:?}, should be {want:?}");
        for (got, f) in [(a.prev(), "prev"), (a.next(), "next")] {
            match got {
                None => ensure!(me[f] == "", "{at}: no {f}, should be {}", me[f]),
                Some(x) => ensure!(
                    me[f] != "" && shows(&js(&*x), d.get("sample_annotation", &me[f])),
                    "{at}: wrong {f} {}",
                    x.token
                ),
            }
        }
        hop();
    }
    for i in &instances {
        let at = format!("instance {}", i.token);
        let me = d.find("instance", &i.token.to_string()).unwrap();
        ensure!(
            shows(
                &js(&*i.category()),
                d.get("category", &me["category_token"])
            ),
            "{at}: wrong category"
        );
        let got: Vec<String> = i
            .sample_annotation_iter()
            .map(|x| x.token.to_string())
            .collect();
        let want = chain(d, "sample_annotation", &me["first_annotation_token"]);
        ensure!(got == want, "{at}: annotations {got:?}, should be {want:?}");
        hop();
    }
    for s in &scenes {
        let at = format!("scene {}", s.token);
        let me = d.find("scene", &s.token.to_string()).unwrap();
        ensure!(
            shows(&js(&*s.log()), d.get("log", &me["log_token"])),
            "{at}: wrong log"
        );
        let got: Vec<String> = s.sample_iter().map(|x| x.token.to_string()).collect();
        let want = chain(d, "sample", &me["first_sample_token"]);
        ensure!(got == want, "{at}: samples {got:?}, should be {want:?}");
        hop();
    }
    for r in n.sample_data_iter() {
        let at = format!("sensor record {}", r.token);
        let me = d.find("sample_data", &r.token.to_string()).unwrap();
        ensure!(
            sample_shows(&r.sample(), d.get("sample", &me["sample_token"]), d),
            "{at}: wrong sample"
        );
        ensure!(
            shows(
                &js(&*r.ego_pose()),
                d.get("ego_pose", &me["ego_pose_token"])
            ),
            "{at}: wrong ego pose"
        );
        ensure!(
            shows(
                &js(&*r.calibrated_sensor()),
                d.get("calibrated_sensor", &me["calibrated_sensor_token"])
            ),
            "{at}: wrong calibration"
        );
        for (got, f) in [(r.prev(), "prev"), (r.next(), "next")] {
            match got {
                None => ensure!(me[f] == "", "{at}: no {f}, should be {}", me[f]),
                Some(x) => ensure!(
                    me[f] != "" && shows(&js(&*x), d.get("sample_data", &me[f])),
                    "{at}: wrong {f} {}",
                    x.token
                ),
            }
        }
        hop();
    }
    for c in n.calibrated_sensor_iter() {
        let me = d.find("calibrated_sensor", &c.token.to_string()).unwrap();
        ensure!(
            shows(&js(&*c.sensor()), d.get("sensor", &me["sensor_token"])),
            "calibration {}: wrong sensor",
            c.token
        );
        hop();
    }
    ch.steps(hops);
    ch.compared();
    ch.state(
        &d.tables
            .values()
            .map(|t| serde_json::to_string(t).unwrap())
            .collect::<Vec<_>>(),
    );
    ch.outcome(&d.tables.values().map(|t| t.len()).collect::<Vec<_>>());
    Ok(())
}

pub fn c20(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(Space::new(
        "graph",
        "1 to 3 scenes, 1 to 3 samples in all (thorough 4), their times in every order, 0, 1 us or 50 ms apart; 2 instances per scene, each in every subset of its samples; 1 or 2 sensor records per sample; rows in 4 orders, sensor records linked or not",
        move |ch| {
            let total = 1 + ch.choose(tier.pick(3, 4));
            let mut scenes: Vec<usize> = vec![1];
            for _ in 1..total {
                if ch.flag() {
                    scenes.push(1);
                } else {
                    *scenes.last_mut().unwrap() += 1;
                }
            }
            let perm = ch.permutation(total);
            let gap = ch.pick(&[1i64, 50_000, 0]);
            let mut s = plain(1, 1);
            s.order = ch.choose(4);
            s.linked_data = ch.flag();
            let cams = ch.choose(2);
            s.scenes.clear();
            let mut k = 0;
            for (sc, n) in scenes.iter().enumerate() {
                let mut smp = vec![];
                let mut anns = [vec![], vec![]];
                for j in 0..*n {
                    let t = T0 + gap * perm[k] as i64;
                    let mut dd = vec![data(0, t)];
                    if cams == 1 {
                        dd.push(data(1, t - 35_000 + 20_000 * k as i64));
                    }
                    smp.push(SampleSpec { t, data: dd });
                    let m = ch.choose(4);
                    for (i, a) in anns.iter_mut().enumerate() {
                        if m >> i & 1 == 1 {
                            a.push(ann(j, 2 * sc + i));
                        }
                    }
                    k += 1;
                }
                s.scenes.push(smp);
                for (i, a) in anns.into_iter().enumerate() {
                    if !a.is_empty() {
                        s.instances.push(Inst { scene: sc, category: i, anns: a });
                    }
                }
            }
            judge(ch, &s.build())
        },
    ));
    v.push(
        Space::new(
            "wiring",
            "2 scenes of 2 samples, 3 sensors with calibrations in every assignment, logs, categories, attributes and visibility in every assignment, ego poses shared or not, chains against the order of time; at most 3 (thorough 4) away from the default, 2 row orders, 2 salts of tokens",
            move |ch| {
                let mut s = plain(2, 2);
                s.sensors = vec![lidar(), camera(), radar()];
                s.salt = ch.pick(&[11u64, 12]);
                s.order = 3 * ch.choose(2);
                for sc in 0..2 {
                    for k in 0..2 {
                        let t = s.scenes[sc][k].t;
                        let t = t + ch.dev(&[0i64, 2_000_000, -2_000_000, 1]);
                        s.scenes[sc][k].t = t;
                        let mut dd = vec![data(0, t)];
                        let more = ch.deviate(4);
                        if more & 1 == 1 {
                            dd.push(data(1, t - 10_000));
                        }
                        if more & 2 == 2 {
                            dd.push(Data { key: false, ..data(2, t + 10_000) });
                        }
                        s.scenes[sc][k].data = dd;
                    }
                }
                s.instances = vec![
                    Inst { scene: 0, category: ch.deviate(2), anns: vec![ann(0, 0), ann(1, 0)] },
                    Inst { scene: 0, category: 1, anns: vec![ann(1, 1)] },
                    Inst { scene: 1, category: 0, anns: vec![ann(0, 2), ann(1, 2)] },
                ];
                if ch.deviate(2) == 1 {
                    // the chain runs against time
                    s.instances[0].anns.reverse();
                }
                for i in 0..3 {
                    let a = &mut s.instances[i].anns[0];
                    a.attrs = ch.dev(&[a.attrs.clone(), vec![], vec![2, 0, 1], vec![1], vec![0, 0]]);
                    a.vis = ch.dev(&[a.vis, None, Some(3)]);
                }
                let mut d = s.build();
                // calibrations name other sensors than their own
                for i in 0..3 {
                    let k = (i + ch.deviate(3)) % 3;
                    let t = s.tk("sensor", k);
                    d.tables.get_mut("calibrated_sensor").unwrap().iter_mut().find(|r| st(r, "token") == s.tk("calibrated", i)).unwrap()["sensor_token"] = json!(t);
                }
                for i in 0..2 {
                    if ch.deviate(2) == 1 {
                        let t = s.tk("log", 1 - i);
                        d.tables.get_mut("scene").unwrap().iter_mut().find(|r| st(r, "token") == s.tk("scene", i)).unwrap()["log_token"] = json!(t);
                    }
                }
                if ch.deviate(2) == 1 {
                    // all records share one ego pose
                    let e = d.rows("ego_pose")[0]["token"].clone();
                    for r in d.tables.get_mut("sample_data").unwrap() {
                        r["ego_pose_token"] = e.clone();
                    }
                }
                judge(ch, &d)
            },
        )
        .budget(tier.pick(3, 4)),
    );
    v.push(Space::new(
        "repeated instances",
        "2 samples, 2 instances with 1 to 4 annotations each, every annotation in either sample (also several of one instance in one sample), 3 salts of tokens, 2 row orders",
        |ch| {
            let mut s = plain(1, 2);
            s.salt = ch.pick(&[13u64, 14, 15]);
            s.order = 3 * ch.choose(2);
            for i in 0..2 {
                let n = 1 + ch.choose(4);
                let anns = (0..n).map(|k| Ann { pts: 10 * i + k, ..ann(ch.choose(2), i) }).collect();
                s.instances.push(Inst { scene: 0, category: i, anns });
            }
            judge(ch, &s.build())
        },
    ));
    v.push(Space::new(
        "large",
        "a scene of 1, 2, 17, 33 (thorough 100) samples whose times run forward, backward or mixed, with 1, 3 or 12 instances in all or in every third sample, 2 salts of tokens",
        move |ch| {
            let n = ch.pick(&tier.pick(vec![1usize, 2, 17, 33], vec![1, 2, 17, 33, 100]));
            let way = ch.choose(3);
            let m = ch.pick(&[1usize, 3, 12]);
            let third = ch.flag();
            let mut s = plain(1, n);
            s.salt = ch.pick(&[5u64, 6]);
            s.scenes.push(vec![SampleSpec { t: T0 - 5, data: vec![data(0, T0 - 5)] }]);
            for k in 0..n {
                let pos = match way {
                    0 => k,
                    1 => n - 1 - k,
                    _ => (k * 7) % n,
                };
                let t = T0 + 1000 * pos as i64;
                s.scenes[0][k] = SampleSpec { t, data: vec![data(0, t), data(1, t + 3)] };
            }
            for i in 0..m {
                let anns: Vec<Ann> = (0..n).filter(|k| !third || k % 3 == i % 3).map(|k| ann(k, i % 20)).collect();
                if !anns.is_empty() {
                    s.instances.push(Inst { scene: 0, category: i % 2, anns });
                }
            }
            judge(ch, &s.build())
        },
    ));
    v.push(Space::new("big", "every dataset of one large dimension (300 samples of a scene, 270 scenes, 300 objects in a sample, 80 samples with 20 objects each, 300 sensor records of a sample, 300 sensors, 300 categories, 300 further records of other tables), rows in 4 orders", |ch| {
        let k = ch.choose(BIG);
        if [1, 4].contains(&k) {
            return Err(Stop::Skip);
        }
        let (what, d) = big(k, ch.choose(4));
        ch.note(|| what.into());
        judge(ch, &d)
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C26

const DIRS: [&str; 3] = ["lidar", "LIDAR_TOP", "LIDAR_CONCAT"];

fn cloud(
    ch: &mut Ch,
    bytes: Option<&[u8]>,
    dirname: &str,
    format: &str,
    deep: usize,
    name: &str,
) -> R {
    let mut s = plain(1, 1);
    let rel = format!("{}{dirname}/{name}", ["", "data/", "samples/a/b/"][deep]);
    s.scenes[0][0].data[0].file = rel.clone();
    s.scenes[0][0].data[0].format = if format == "bin" { "bin" } else { "pcd" };
    let d = s.build();
    let dir = scratch::worker("cloud", ch.worker);
    d.write(&dir);
    let path = dir.join(&rel);
    std::fs::create_dir_all(path.parent().unwrap()).expect("scratch");
    match bytes {
        Some(b) => std::fs::write(&path, b).expect("scratch"),
        None => {
            let _ = std::fs::remove_file(&path);
        }
    }
    let n = NuScenes::load(VERSION, &dir).map_err(|e| Stop::Fail {
        key: String::new(),
        msg: format!("the dataset does not load: {e}"),
    })?;
    let rec = n.sample_data_iter().next().unwrap();
    ch.steps(3);
    let raw = guarded(|| rec.load_raw().map_err(|e| e.to_string()));
    let got = guarded(|| rec.load().map_err(|e| e.to_string()));
    let opened = guarded(|| rec.open().map_err(|e| e.to_string()).is_ok());
    let at = n
        .get_sample_data_path(&rec.token)
        .map_err(|e| e.to_string());
    ensure!(
        at.as_ref() == Ok(&path),
        "the path of the record is {at:?}, should be {path:?}"
    );
    let what = || format!("{rel} ({format}) of {:?} bytes", bytes.map(|b| b.len()));
    ch.note(|| {
        format!(
            "{}: {}",
            what(),
            match &got {
                Ok(Ok(LoadedSampleData::PointCloud(m))) => format!("{} x {}", m.nrows(), m.ncols()),
                Ok(Ok(_)) => "an image".into(),
                Ok(Err(e)) => format!("error {e}"),
                Err(p) => p.clone(),
            }
        )
    });
    let got = match got {
        Ok(g) => g,
        Err(p) => return fail(format!("{}: {p}", what())),
    };
    match bytes {
        None => {
            ensure!(
                matches!(raw, Ok(Err(_))),
                "{}: no file, raw bytes give {raw:?}",
                what()
            );
            ensure!(opened == Ok(false), "{}: no file, but it opens", what());
            ensure!(got.is_err(), "{}: no file, but it loads", what());
        }
        Some(b) => {
            ensure!(
                raw.as_ref()
                    .ok()
                    .and_then(|r| r.as_ref().ok())
                    .is_some_and(|r| r == b),
                "{}: raw bytes differ from the file's",
                what()
            );
            ensure!(opened == Ok(true), "{}: it does not open", what());
            if b.len() % 20 != 0 {
                ensure!(
                    got.is_err(),
                    "{}: not a whole number of points, but it loads",
                    what()
                );
            } else if b.is_empty() {
                return Err(Stop::Skip);
            } else {
                let m = match got {
                    Ok(LoadedSampleData::PointCloud(m)) => m,
                    Ok(_) => return fail(format!("{}: loads as an image", what())),
                    Err(e) => return fail(format!("{}: refused: {e}", what())),
                };
                ensure!(
                    m.nrows() == b.len() / 20 && m.ncols() == 5,
                    "{}: a {} x {} matrix",
                    what(),
                    m.nrows(),
                    m.ncols()
                );
                for (k, w) in b.chunks(4).enumerate() {
                    let want = u32::from_le_bytes([w[0], w[1], w[2], w[3]]);
                    let have = m[(k / 5, k % 5)].to_bits();
                    ensure!(
                        have == want,
                        "{}: row {} column {} is {have:#010x}, should be {want:#010x}",
                        what(),
                        k / 5,
                        k % 5
                    );
                }
            }
        }
    }
    ch.compared();
    ch.state(&(what(), bytes.map(|b| b.to_vec())));
    ch.outcome(&(bytes.map(|b| b.len() % 20), bytes.map(|b| b.len() / 20)));
    Ok(())
}

pub fn c26(tier: Tier) -> Vec<Space> {
    // words that a reader could lose: zeros of both signs, subnormals, infinities, quiet and signalling NaN with payloads, all bytes
    let words: Vec<u32> = vec![
        0,
        0x8000_0000,
        0x3f80_0000,
        1,
        0x007f_ffff,
        0x7f80_0000,
        0xff80_0000,
        0x7fc0_0000,
        0x7f80_0001,
        0xffff_ffff,
        0x4048_f5c3,
        0x0102_0304,
    ];
    let mut v = vec![];
    v.push(Space::new(
        "length",
        "file lengths 0 to 205 bytes (thorough: 0 to 1010) and 19 lengths up to 44 MB of distinct bytes, 3 directory names, both file formats, 3 depths of directories",
        move |ch| {
            let mut lens: Vec<usize> = (0..=tier.pick(205, 1010)).collect();
            lens.extend([4096, 8192, 8180, 8200, 65536, 65540, 20_000, 100_001, 163_840, 400_000]);
            // as a LiDAR of 128 lines gives in one turn, and around the powers of two
            lens.extend([694_000, 1 << 20, (1 << 20) + 20, 2_000_000, 5_300_000, (1 << 23) - 8, (1 << 24) + 12, 21_000_020, 44_000_000]);
            let n = ch.pick(&lens);
            let dirname = ch.pick(&DIRS);
            if n > 1_000_000 && dirname != DIRS[n % DIRS.len()] {
                return Err(Stop::Skip);
            }
            let format = ch.pick(&["bin", "pcd"]);
            let deep = ch.choose(3);
            let b: Vec<u8> = (0..n).map(|i| (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).to_le_bytes()[5]).collect();
            cloud(ch, Some(&b), dirname, format, deep, "x.bin")
        },
    ));
    let w2 = words.clone();
    v.push(Space::new(
        "words",
        "files of 1, 2, 3 and 6 points: one word out of 12 (zeros, subnormal, infinite, NaN with payload...) at each place, another out of 12 everywhere else",
        move |ch| {
            let n = ch.pick(&[1usize, 2, 3, 6]);
            let base = ch.pick(&w2);
            let w = ch.pick(&w2);
            let at = ch.choose(5 * n);
            let mut words = vec![base; 5 * n];
            words[at] = w;
            let b: Vec<u8> = words.iter().flat_map(|w| w.to_le_bytes()).collect();
            cloud(ch, Some(&b), "LIDAR_TOP", "pcd", 1, "x.pcd.bin")
        },
    ));
    let w3 = words.clone();
    v.push(Space::new(
        "point",
        "files of 1 or 2 points: every triple of 12 words in the coordinates of a point, intensity and ring counted up",
        move |ch| {
            let n = 1 + ch.choose(2);
            let at = ch.choose(n);
            let t = [ch.pick(&w3), ch.pick(&w3), ch.pick(&w3)];
            let mut b: Vec<u8> = vec![];
            for i in 0..n {
                for k in 0..5 {
                    let w = if i == at && k < 3 { t[k] } else { ((i * 5 + k) as f32).to_bits() };
                    b.extend(w.to_le_bytes());
                }
            }
            cloud(ch, Some(&b), "lidar", "bin", 0, "x.bin")
        },
    ));
    v.push(Space::new(
        "missing",
        "no file at all, in each directory name, format and depth; 0 to 3 points under 5 file names (blanks, dots, other endings, not ASCII)",
        move |ch| {
            let dirname = ch.pick(&DIRS);
            let format = ch.pick(&["bin", "pcd"]);
            let deep = ch.choose(3);
            let name = ch.pick(&["x.bin", "a b.pcd.bin", "n015-2018-07-24-11-22-45+0800__LIDAR_TOP__1.pcd.bin", ".hidden", "\u{70b9}.bin"]);
            let n = ch.choose(5);
            let b: Vec<u8> = (0..20 * n.saturating_sub(1)).map(|i| i as u8).collect();
            cloud(ch, if n == 0 { None } else { Some(&b) }, dirname, format, deep, name)
        },
    ));
    v
}
