//! Datasets: a generator of consistent ones, as JSON tables, and an independent validator of arbitrary ones.
use crate::engine::hash;
use crate::geom::{Q, V3};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

pub const TABLES: [&str; 13] = [
    "attribute",
    "calibrated_sensor",
    "category",
    "ego_pose",
    "instance",
    "log",
    "map",
    "sample",
    "sample_annotation",
    "sample_data",
    "scene",
    "sensor",
    "visibility",
];
pub const VERSION: &str = "annotation";

pub type Row = Map<String, Value>;

#[derive(Clone)]
pub struct Ds {
    pub tables: BTreeMap<&'static str, Vec<Value>>,
    /// Where the tokens of large tables stood when last looked for.
    places: RefCell<BTreeMap<&'static str, HashMap<String, usize>>>,
}

#[derive(Clone)]
pub struct Sensor {
    pub channel: &'static str,
    pub modality: &'static str,
    pub t: V3,
    pub q: Q,
}
#[derive(Clone)]
pub struct Data {
    pub sensor: usize,
    pub t: i64,
    pub ego_t: V3,
    pub ego_q: Q,
    pub key: bool,
    pub format: &'static str,
    pub file: String,
}
#[derive(Clone)]
pub struct SampleSpec {
    pub t: i64,
    pub data: Vec<Data>,
}
#[derive(Clone)]
pub struct Ann {
    pub sample: usize,
    pub pos: V3,
    pub q: Q,
    pub size: V3,
    pub pts: usize,
    pub attrs: Vec<usize>,
    pub vis: Option<usize>,
}
#[derive(Clone)]
pub struct Inst {
    pub scene: usize,
    pub category: usize,
    pub anns: Vec<Ann>,
}
/// A dataset in the terms of a user.
#[derive(Clone)]
pub struct Spec {
    pub salt: u64,
    pub categories: Vec<String>,
    pub sensors: Vec<Sensor>,
    pub scenes: Vec<Vec<SampleSpec>>,
    pub instances: Vec<Inst>,
    /// Order of the rows in every table: 0 as generated, 1 reversed, 2 rotated, 3 by token.
    pub order: usize,
    /// Whether sensor records are linked with previous and next of their sensor.
    pub linked_data: bool,
}

pub const ATTRS: [&str; 3] = ["vehicle.moving", "vehicle.parked", "cycle.with_rider"];
pub const VIS: [(&str, &str); 4] = [
    ("none", "v0-40"),
    ("partial", "v40-60"),
    ("most", "v60-80"),
    ("full", "v80-100"),
];

/// A token unrelated to the position of its record.
pub fn tok(salt: u64, kind: &str, i: usize) -> String {
    let a = hash(&(salt, kind, i, 1u8));
    let b = hash(&(salt, kind, i, 2u8));
    format!("{a:016x}{b:016x}")
}

impl Spec {
    pub fn tk(&self, kind: &str, i: usize) -> String {
        tok(self.salt, kind, i)
    }
    /// Global number of a sample.
    pub fn sample_no(&self, scene: usize, k: usize) -> usize {
        self.scenes[..scene].iter().map(|s| s.len()).sum::<usize>() + k
    }
    pub fn build(&self) -> Ds {
        let mut t: BTreeMap<&'static str, Vec<Value>> =
            TABLES.iter().map(|n| (*n, vec![])).collect();
        let mut put = |n: &'static str, v: Value| t.get_mut(n).unwrap().push(v);
        for (i, a) in ATTRS.iter().enumerate() {
            put(
                "attribute",
                json!({"token": self.tk("attribute", i), "name": a, "description": format!("about {a}")}),
            );
        }
        for (i, (k, l)) in VIS.iter().enumerate() {
            put(
                "visibility",
                json!({"token": k, "level": l, "description": format!("visibility {i}")}),
            );
        }
        for (i, c) in self.categories.iter().enumerate() {
            put(
                "category",
                json!({"token": self.tk("category", i), "name": c, "description": format!("kind {i}")}),
            );
        }
        for i in 0..2 {
            put(
                "log",
                json!({"token": self.tk("log", i), "logfile": if i == 0 { "logs/a.log" } else { "" }, "vehicle": format!("v{i}"), "date_captured": "2018-07-24", "location": format!("place {i}")}),
            );
        }
        put(
            "map",
            json!({"token": self.tk("map", 0), "log_tokens": [self.tk("log", 0), self.tk("log", 1)], "filename": "maps/m.png", "category": "semantic_prior"}),
        );
        for (i, s) in self.sensors.iter().enumerate() {
            put(
                "sensor",
                json!({"token": self.tk("sensor", i), "channel": s.channel, "modality": s.modality}),
            );
            let k: Value = if s.modality == "camera" {
                json!([
                    [1266.25, 0.0, 816.5],
                    [0.0, 1266.25, 491.5],
                    [0.0, 0.0, 1.0]
                ])
            } else {
                json!([])
            };
            put(
                "calibrated_sensor",
                json!({"token": self.tk("calibrated", i), "sensor_token": self.tk("sensor", i), "translation": s.t, "rotation": s.q, "camera_intrinsic": k}),
            );
        }
        let mut chains: Vec<Vec<(i64, usize)>> = vec![vec![]; self.sensors.len()];
        let mut nd = 0;
        let mut rows = vec![];
        for (si, scene) in self.scenes.iter().enumerate() {
            let n = scene.len();
            put(
                "scene",
                json!({"token": self.tk("scene", si), "log_token": self.tk("log", si % 2), "nbr_samples": n,
                    "first_sample_token": self.tk("sample", self.sample_no(si, 0)),
                    "last_sample_token": self.tk("sample", self.sample_no(si, n - 1)),
                    "name": format!("scene-{si}"), "description": format!("scene number {si}")}),
            );
            for (k, s) in scene.iter().enumerate() {
                let g = self.sample_no(si, k);
                let link = |c: bool, j: usize| {
                    if c {
                        self.tk("sample", j)
                    } else {
                        String::new()
                    }
                };
                put(
                    "sample",
                    json!({"token": self.tk("sample", g), "timestamp": s.t, "prev": link(k > 0, g.wrapping_sub(1)), "next": link(k + 1 < n, g + 1),
                        "scene_token": self.tk("scene", si)}),
                );
                for d in &s.data {
                    put(
                        "ego_pose",
                        json!({"token": self.tk("ego", nd), "timestamp": d.t, "rotation": d.ego_q, "translation": d.ego_t}),
                    );
                    chains[d.sensor].push((d.t, nd));
                    rows.push(json!({"token": self.tk("data", nd), "sample_token": self.tk("sample", g), "ego_pose_token": self.tk("ego", nd),
                        "calibrated_sensor_token": self.tk("calibrated", d.sensor), "timestamp": d.t, "fileformat": d.format,
                        "is_key_frame": d.key, "height": 0, "width": 0, "filename": d.file, "prev": "", "next": ""}));
                    nd += 1;
                }
            }
        }
        if self.linked_data {
            for c in chains.iter_mut() {
                c.sort();
                for w in c.windows(2) {
                    let (a, b) = (w[0].1, w[1].1);
                    rows[a]["next"] = json!(self.tk("data", b));
                    rows[b]["prev"] = json!(self.tk("data", a));
                }
            }
        }
        for r in rows {
            put("sample_data", r);
        }
        let mut na = 0;
        for (ii, inst) in self.instances.iter().enumerate() {
            let n = inst.anns.len();
            put(
                "instance",
                json!({"token": self.tk("instance", ii), "category_token": self.tk("category", inst.category), "nbr_annotations": n,
                    "first_annotation_token": self.tk("ann", na), "last_annotation_token": self.tk("ann", na + n - 1)}),
            );
            for (k, a) in inst.anns.iter().enumerate() {
                let link = |c: bool, j: usize| if c { self.tk("ann", j) } else { String::new() };
                put(
                    "sample_annotation",
                    json!({"token": self.tk("ann", na), "sample_token": self.tk("sample", self.sample_no(inst.scene, a.sample)),
                        "instance_token": self.tk("instance", ii), "visibility_token": a.vis.map(|v| VIS[v].0).unwrap_or(""),
                        "attribute_tokens": a.attrs.iter().map(|x| self.tk("attribute", *x)).collect::<Vec<_>>(),
                        "translation": a.pos, "size": a.size, "rotation": a.q, "prev": link(k > 0, na.wrapping_sub(1)), "next": link(k + 1 < n, na + 1),
                        "num_lidar_pts": a.pts, "num_radar_pts": 3}),
                );
                na += 1;
            }
        }
        for rows in t.values_mut() {
            match self.order {
                0 => {}
                1 => rows.reverse(),
                2 => {
                    let m = rows.len() / 2;
                    rows.rotate_left(m)
                }
                _ => rows.sort_by_key(|r| r["token"].as_str().unwrap().to_string()),
            }
        }
        Ds { tables: t, places: Default::default() }
    }
}

pub fn table_path(dir: &Path, name: &str) -> PathBuf {
    dir.join(VERSION).join(format!("{name}.json"))
}

impl Ds {
    pub fn rows(&self, t: &str) -> &Vec<Value> {
        &self.tables[t]
    }
    pub fn find(&self, t: &str, token: &str) -> Option<&Value> {
        let rows = &self.tables[t];
        if rows.len() > 50 {
            let mut p = self.places.borrow_mut();
            let name = TABLES.iter().find(|n| **n == t).unwrap();
            let ix = p.entry(name).or_insert_with(|| {
                let all = rows.iter().enumerate().rev();
                all.map(|(i, r)| (r["token"].as_str().unwrap_or_default().to_string(), i)).collect()
            });
            if let Some(r) = ix.get(token).and_then(|i| rows.get(*i)) {
                if r["token"] == token {
                    return Some(r);
                }
            }
        }
        rows.iter().find(|r| r["token"] == token)
    }
    pub fn get(&self, t: &str, token: &Value) -> &Value {
        self.find(t, token.as_str().unwrap()).unwrap()
    }
    pub fn text(&self, t: &str) -> String {
        serde_json::to_string(&self.tables[t]).unwrap()
    }
    pub fn write(&self, dir: &Path) {
        std::fs::create_dir_all(dir.join(VERSION)).expect("scratch");
        for t in TABLES {
            let p = table_path(dir, t);
            if p.is_dir() {
                std::fs::remove_dir(&p).expect("scratch");
            }
            std::fs::write(p, self.text(t)).expect("scratch");
        }
    }
    pub fn shape(&self) -> String {
        format!(
            "{} scenes, {} samples, {} sensor records, {} instances, {} annotations",
            self.rows("scene").len(),
            self.rows("sample").len(),
            self.rows("sample_data").len(),
            self.rows("instance").len(),
            self.rows("sample_annotation").len()
        )
    }
}

pub fn st<'a>(v: &'a Value, f: &str) -> &'a str {
    v[f].as_str().unwrap()
}
pub fn vec3(v: &Value) -> V3 {
    [
        v[0].as_f64().unwrap(),
        v[1].as_f64().unwrap(),
        v[2].as_f64().unwrap(),
    ]
}
pub fn quat(v: &Value) -> Q {
    [
        v[0].as_f64().unwrap(),
        v[1].as_f64().unwrap(),
        v[2].as_f64().unwrap(),
        v[3].as_f64().unwrap(),
    ]
}

// ---------------------------------------------------------------------------------------------- validator

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    /// No fault of the property's list, sensor data for every sample.
    Clean,
    Fault(String),
    /// Neither clean by the property's list nor faulty.
    Unspecified(String),
}

#[derive(Clone, Copy, PartialEq)]
enum Ty {
    Token,
    OptToken,
    Tokens,
    Str,
    Count,
    Floats(usize),
    Time,
    Bool,
    Date,
    Intrinsic,
    Enum(&'static [&'static str]),
}
use Ty::*;

const MODALITY: &[&str] = &["camera", "lidar", "radar"];
const FORMAT: &[&str] = &["bin", "pcd", "jpeg", "jpg", "png"];
const LEVEL: &[&str] = &[
    "v0-40", "none", "v40-60", "partial", "v60-80", "most", "v80-100", "full",
];
pub const CHANNELS: &[&str] = &[
    "CAM_BACK",
    "CAM_BACK_LEFT",
    "CAM_BACK_RIGHT",
    "CAM_FRONT",
    "CAM_FRONT_LEFT",
    "CAM_FRONT_RIGHT",
    "CAM_FRONT_ZOOMED",
    "LIDAR_TOP",
    "LIDAR_CONCAT",
    "RADAR_BACK_LEFT",
    "RADAR_BACK_RIGHT",
    "RADAR_FRONT",
    "RADAR_FRONT_LEFT",
    "RADAR_FRONT_RIGHT",
    "CAM_TRAFFIC_LIGHT_NEAR",
    "CAM_TRAFFIC_LIGHT_FAR",
];

fn schema(table: &str) -> Vec<(&'static str, Ty)> {
    match table {
        "attribute" | "category" => vec![("token", Token), ("description", Str), ("name", Str)],
        "calibrated_sensor" => vec![
            ("token", Token),
            ("sensor_token", Token),
            ("rotation", Floats(4)),
            ("translation", Floats(3)),
            ("camera_intrinsic", Intrinsic),
        ],
        "ego_pose" => vec![
            ("token", Token),
            ("timestamp", Time),
            ("rotation", Floats(4)),
            ("translation", Floats(3)),
        ],
        "instance" => vec![
            ("token", Token),
            ("nbr_annotations", Count),
            ("category_token", Token),
            ("first_annotation_token", Token),
            ("last_annotation_token", Token),
        ],
        "log" => vec![
            ("token", Token),
            ("date_captured", Date),
            ("location", Str),
            ("vehicle", Str),
            ("logfile", Str),
        ],
        "map" => vec![
            ("token", Token),
            ("log_tokens", Tokens),
            ("filename", Str),
            ("category", Str),
        ],
        "sample" => vec![
            ("token", Token),
            ("next", OptToken),
            ("prev", OptToken),
            ("scene_token", Token),
            ("timestamp", Time),
        ],
        "sample_annotation" => vec![
            ("token", Token),
            ("num_lidar_pts", Count),
            ("num_radar_pts", Count),
            ("size", Floats(3)),
            ("rotation", Floats(4)),
            ("translation", Floats(3)),
            ("sample_token", Token),
            ("instance_token", Token),
            ("attribute_tokens", Tokens),
            ("visibility_token", Str),
            ("prev", OptToken),
            ("next", OptToken),
        ],
        "sample_data" => vec![
            ("token", Token),
            ("fileformat", Enum(FORMAT)),
            ("is_key_frame", Bool),
            ("filename", Str),
            ("timestamp", Time),
            ("sample_token", Token),
            ("ego_pose_token", Token),
            ("calibrated_sensor_token", Token),
            ("prev", OptToken),
            ("next", OptToken),
        ],
        "scene" => vec![
            ("token", Token),
            ("name", Str),
            ("description", Str),
            ("log_token", Token),
            ("nbr_samples", Count),
            ("first_sample_token", Token),
            ("last_sample_token", Token),
        ],
        "sensor" => vec![
            ("token", Token),
            ("modality", Enum(MODALITY)),
            ("channel", Enum(CHANNELS)),
        ],
        "visibility" => vec![("token", Str), ("level", Enum(LEVEL)), ("description", Str)],
        _ => unreachable!(),
    }
}
/// Names of the fields of a table.
pub fn fields(table: &str) -> Vec<&'static str> {
    schema(table).into_iter().map(|f| f.0).collect()
}

fn is_token(v: &Value) -> bool {
    v.as_str()
        .is_some_and(|s| s.len() == 32 && s.bytes().all(|b| b.is_ascii_hexdigit()))
}

/// Some(true): right; Some(false): malformed; None: unspecified.
fn typed(v: &Value, ty: Ty) -> Option<bool> {
    let floats = |v: &Value, n: usize| {
        v.as_array()
            .is_some_and(|a| a.len() == n && a.iter().all(|x| x.is_number()))
    };
    Some(match ty {
        Token => is_token(v),
        OptToken => v == "" || is_token(v),
        Tokens => v.as_array().is_some_and(|a| a.iter().all(is_token)),
        Str => v.is_string(),
        Count => match v {
            Value::Number(n) => n.is_u64(),
            _ => false,
        },
        Floats(n) => floats(v, n),
        Time => match v {
            Value::Number(n) if n.as_u64().is_some_and(|t| t < 9_000_000_000_000_000) => true,
            Value::Number(_) => return None,
            _ => false,
        },
        Bool => v.is_boolean(),
        Date => match v {
            Value::Null => return None,
            Value::String(s) => match s.len() == 10
                && s.bytes().enumerate().all(|(i, b)| {
                    if i == 4 || i == 7 {
                        b == b'-'
                    } else {
                        b.is_ascii_digit()
                    }
                }) {
                true if &s[5..7] >= "01"
                    && &s[5..7] <= "12"
                    && &s[8..] >= "01"
                    && &s[8..] <= "28" =>
                {
                    true
                }
                true if &s[5..7] > "12"
                    || &s[5..7] == "00"
                    || &s[8..] > "31"
                    || &s[8..] == "00" =>
                {
                    false
                }
                // dates written in other ways, or at the end of a month
                _ => {
                    return if s.bytes().any(|b| b.is_ascii_alphabetic()) {
                        Some(false)
                    } else {
                        None
                    }
                }
            },
            _ => false,
        },
        Intrinsic => match v.as_array() {
            Some(a) if a.is_empty() => true,
            Some(a) if a.len() == 3 => a.iter().all(|r| floats(r, 3)),
            // more rows than a matrix has
            Some(a) if a.len() > 3 => return None,
            _ => false,
        },
        Enum(names) => v.as_str().is_some_and(|s| names.contains(&s)),
    })
}

/// Judges the tables by the property's list of faults. `texts` are the files' contents (None: missing or unreadable).
pub fn validate(texts: &BTreeMap<&'static str, Option<Vec<u8>>>) -> Verdict {
    let mut unspecified: Option<String> = None;
    let mut tables: BTreeMap<&str, Vec<Row>> = BTreeMap::new();
    for t in TABLES {
        let Some(text) = &texts[t] else {
            return Verdict::Fault(format!("{t} is missing"));
        };
        let v: Value = match serde_json::from_slice(text) {
            Ok(v) => v,
            Err(e) => return Verdict::Fault(format!("{t} is not JSON: {e}")),
        };
        let Value::Array(rows) = v else {
            return Verdict::Fault(format!("{t} is not an array"));
        };
        let mut out = vec![];
        for r in rows {
            let Value::Object(o) = r else {
                // a record as an array of its fields' values, or not a record at all
                if r.is_array() {
                    unspecified = Some(format!("{t}: record written as an array"));
                    continue;
                }
                return Verdict::Fault(format!("{t}: record is {r}"));
            };
            for (f, ty) in schema(t) {
                match o.get(f) {
                    None if ty == Date => unspecified = Some(format!("{t}: no {f}")),
                    None => return Verdict::Fault(format!("{t}: no {f}")),
                    Some(v) => match typed(v, ty) {
                        Some(true) => {}
                        Some(false) => return Verdict::Fault(format!("{t}.{f} is {v}")),
                        None => unspecified = Some(format!("{t}.{f} is {v}")),
                    },
                }
            }
            out.push(o);
        }
        tables.insert(t, out);
    }
    if let Some(u) = unspecified {
        return Verdict::Unspecified(u);
    }
    // tokens are hexadecimal: their case does not matter
    let norm = |t: &str, v: &Value| {
        let s = v.as_str().unwrap();
        if t == "visibility" {
            s.to_string()
        } else {
            s.to_ascii_lowercase()
        }
    };
    let mut index: BTreeMap<&str, BTreeMap<String, &Row>> = BTreeMap::new();
    for (t, rows) in &tables {
        let mut m = BTreeMap::new();
        for r in rows {
            if m.insert(norm(t, &r["token"]), r).is_some() {
                unspecified = Some(format!("{t}: token {} twice", r["token"]));
            }
        }
        index.insert(t, m);
    }
    // duplicates may hide what the other faults are about
    let dup = unspecified.is_some();
    let soft = |what: String| {
        if dup {
            Verdict::Unspecified(what)
        } else {
            Verdict::Fault(what)
        }
    };
    let has = |t: &str, v: &Value| index[t].contains_key(&norm(t, v));
    let refs: [(&str, &str, &str); 14] = [
        ("calibrated_sensor", "sensor_token", "sensor"),
        ("instance", "category_token", "category"),
        ("instance", "first_annotation_token", "sample_annotation"),
        ("instance", "last_annotation_token", "sample_annotation"),
        ("scene", "log_token", "log"),
        ("scene", "first_sample_token", "sample"),
        ("scene", "last_sample_token", "sample"),
        ("sample", "scene_token", "scene"),
        ("sample_annotation", "sample_token", "sample"),
        ("sample_annotation", "instance_token", "instance"),
        ("sample_data", "sample_token", "sample"),
        ("sample_data", "ego_pose_token", "ego_pose"),
        (
            "sample_data",
            "calibrated_sensor_token",
            "calibrated_sensor",
        ),
        ("sample_annotation", "visibility_token", "visibility"),
    ];
    for (t, f, to) in refs {
        for r in &tables[t] {
            if f == "visibility_token" && r[f] == "" {
                continue;
            }
            if !has(to, &r[f]) {
                return soft(format!("{t}.{f} {} refers to no {to}", r[f]));
            }
        }
    }
    for r in &tables["sample_annotation"] {
        for a in r["attribute_tokens"].as_array().unwrap() {
            if !has("attribute", a) {
                return soft(format!("attribute {a} does not exist"));
            }
        }
    }
    for t in ["sample", "sample_annotation", "sample_data"] {
        for r in &tables[t] {
            for f in ["prev", "next"] {
                if r[f] != "" && !has(t, &r[f]) {
                    return soft(format!("{t}.{f} {} refers to nothing", r[f]));
                }
            }
        }
    }
    for (owner, first, last, count, member, back) in [
        (
            "instance",
            "first_annotation_token",
            "last_annotation_token",
            "nbr_annotations",
            "sample_annotation",
            "instance_token",
        ),
        (
            "scene",
            "first_sample_token",
            "last_sample_token",
            "nbr_samples",
            "sample",
            "scene_token",
        ),
    ] {
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for o in &tables[owner] {
            let me = norm(owner, &o["token"]);
            let mut cur = norm(member, &o[first]);
            let mut prev = String::new();
            let mut n = 0u64;
            loop {
                let r = index[member][&cur];
                if norm(member, &r["prev"]) != prev {
                    return soft(format!(
                        "{owner} {me}: previous of {cur} is {}, should be {prev:?}",
                        r["prev"]
                    ));
                }
                if norm(owner, &r[back]) != me {
                    unspecified = Some(format!(
                        "{owner} {me}: the chain holds a record of another {owner}"
                    ));
                }
                n += 1;
                seen.insert(cur.clone());
                let next = norm(member, &r["next"]);
                prev = cur;
                if next.is_empty() {
                    break;
                }
                cur = next;
            }
            if prev != norm(member, &o[last]) {
                return soft(format!(
                    "{owner} {me}: the chain ends at {prev}, not at {}",
                    o[last]
                ));
            }
            if n != o[count].as_u64().unwrap() {
                return soft(format!("{owner} {me}: the chain has {n}, not {}", o[count]));
            }
        }
        if seen.len() != index[member].len() {
            unspecified = Some(format!("a {member} outside all chains"));
        }
    }
    for k in index["sample"].keys() {
        if !tables["sample_data"]
            .iter()
            .any(|r| norm("sample", &r["sample_token"]) == *k)
        {
            unspecified = Some(format!("sample {k} without sensor data"));
        }
    }
    match unspecified {
        Some(u) => Verdict::Unspecified(u),
        None => Verdict::Clean,
    }
}

// ---------------------------------------------------------------------------------------------- small datasets

pub const T0: i64 = 1_532_402_927_647_951;

pub fn lidar() -> Sensor {
    Sensor {
        channel: "LIDAR_TOP",
        modality: "lidar",
        t: [0.9, 0.0, 1.8],
        q: crate::obj::yaw(90.0),
    }
}
pub fn camera() -> Sensor {
    Sensor {
        channel: "CAM_FRONT",
        modality: "camera",
        t: [1.7, 0.1, 1.5],
        q: [0.5, -0.5, 0.5, -0.5],
    }
}
pub fn radar() -> Sensor {
    Sensor {
        channel: "RADAR_FRONT",
        modality: "radar",
        t: [3.4, 0.0, 0.5],
        q: [1.0, 0.0, 0.0, 0.0],
    }
}

pub fn data(sensor: usize, t: i64) -> Data {
    Data {
        sensor,
        t,
        ego_t: [411.5 + (t % 1000) as f64, 1180.25, 0.5],
        ego_q: crate::obj::yaw(-110.0 + (t % 7) as f64),
        key: true,
        format: "pcd",
        file: format!("data/LIDAR_TOP/{sensor}_{t}.pcd.bin"),
    }
}
pub fn ann(sample: usize, k: usize) -> Ann {
    Ann {
        sample,
        pos: [400.0 + 3.5 * k as f64, 1170.0 - 2.25 * sample as f64, 0.75],
        q: crate::obj::yaw(17.0 * k as f64 + 5.0 * sample as f64),
        size: [0.5 + 0.25 * k as f64, 1.5 + 0.5 * k as f64, 1.75],
        pts: 1 + 7 * k + sample,
        attrs: if k % 2 == 0 { vec![k % 3] } else { vec![] },
        vis: if k % 3 == 2 {
            None
        } else {
            Some((k + sample) % 4)
        },
    }
}

/// Two scenes (2 samples and 1 sample), three instances with 2, 1 and 1 annotations.
pub fn base() -> Spec {
    Spec {
        salt: 7,
        categories: vec!["car".into(), "human.pedestrian.adult".into()],
        sensors: vec![lidar(), camera()],
        scenes: vec![
            vec![
                SampleSpec {
                    t: T0,
                    data: vec![data(0, T0), data(1, T0 - 35_000)],
                },
                SampleSpec {
                    t: T0 + 500_000,
                    data: vec![data(0, T0 + 500_000)],
                },
            ],
            vec![SampleSpec {
                t: T0 + 250_000,
                data: vec![data(0, T0 + 250_000)],
            }],
        ],
        instances: vec![
            Inst {
                scene: 0,
                category: 0,
                anns: vec![ann(0, 0), ann(1, 0)],
            },
            Inst {
                scene: 0,
                category: 1,
                anns: vec![ann(1, 1)],
            },
            Inst {
                scene: 1,
                category: 0,
                anns: vec![ann(0, 2)],
            },
        ],
        order: 0,
        linked_data: true,
    }
}

pub const BIG: usize = 10;
/// Datasets of one large dimension each: what it is, and the tables.
pub fn big(k: usize, order: usize) -> (&'static str, Ds) {
    let mut s = base();
    s.order = order;
    s.salt = 40 + k as u64;
    s.instances.clear();
    let scene = |n: usize, from: i64| -> Vec<SampleSpec> {
        (0..n)
            .map(|i| {
                let t = from + 100_000 * i as i64;
                SampleSpec { t, data: vec![data(0, t)] }
            })
            .collect()
    };
    let inst = |scene: usize, n: usize, k: usize| Inst { scene, category: k % 2, anns: (0..n).map(|i| ann(i, k)).collect() };
    let mut grown: &[&str] = &[];
    let what = match k {
        0 => {
            s.scenes = vec![scene(300, T0)];
            s.instances.push(inst(0, 300, 0));
            "300 samples of a scene"
        }
        1 => {
            s.scenes = vec![scene(1030, T0)];
            s.instances.push(inst(0, 1030, 0));
            "1030 samples of a scene"
        }
        2 => {
            s.scenes = (0..270).map(|i| scene(1, T0 - 1_000_000 * i as i64)).collect();
            s.instances = (0..270).map(|i| inst(i, 1, i % 9)).collect();
            "270 scenes"
        }
        3 => {
            s.scenes = vec![scene(1, T0)];
            s.instances = (0..300).map(|i| inst(0, 1, i)).collect();
            "300 objects in a sample"
        }
        4 => {
            s.scenes = vec![scene(1, T0)];
            s.instances = (0..1030).map(|i| inst(0, 1, i)).collect();
            "1030 objects in a sample"
        }
        5 => {
            s.scenes = vec![scene(40, T0 + 7), scene(40, T0)];
            s.instances = (0..40).map(|i| inst(i % 2, 40, i)).collect();
            "2 scenes of 40 samples with 20 objects in each"
        }
        6 => {
            s.scenes = vec![scene(3, T0)];
            for k in 0..3 {
                for j in 0..300 {
                    let t = s.scenes[0][k].t;
                    s.scenes[0][k].data.push(data(j % 2, t - 50_000 + 130 * j as i64));
                }
            }
            s.instances.push(inst(0, 3, 1));
            "300 sensor records of each sample"
        }
        7 => {
            s.sensors = (0..300).map(|i| if i % 3 == 0 { lidar() } else { camera() }).collect();
            s.scenes = vec![(0..2)
                .map(|k| {
                    let t = T0 + 500_000 * k;
                    let mut d: Vec<Data> = (1..300).map(|i| data(i, t + 1 + i as i64)).collect();
                    d.push(data(0, t));
                    SampleSpec { t, data: d }
                })
                .collect()];
            s.instances.push(inst(0, 2, 2));
            "300 sensors"
        }
        8 => {
            s.scenes = vec![scene(2, T0)];
            s.categories = (0..300).map(|i| ["car", "bus", "pedestrian", "animal", "thing"][i % 5].to_string()).collect();
            s.instances = (0..300).map(|i| Inst { scene: 0, category: i, anns: vec![ann(i % 2, i)] }).collect();
            "300 categories"
        }
        _ => {
            s.scenes = vec![scene(2, T0)];
            s.instances.push(inst(0, 2, 0));
            grown = &["attribute", "visibility", "log", "map", "category"];
            "300 more attributes, visibilities, logs, maps and categories"
        }
    };
    let mut d = s.build();
    for t in grown {
        let rows = d.tables.get_mut(t).unwrap();
        for i in 0..300 {
            let mut r = rows[0].clone();
            r["token"] = serde_json::json!(if *t == "visibility" { format!("kind{i}") } else { tok(77, t, i) });
            rows.insert(if order % 2 == 0 { rows.len() } else { 0 }, r);
        }
    }
    (what, d)
}
