//! C22, C23: scenario files, the configuration built from them, and the process-wide logger.
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::obj::*;
use crate::props::names::{derived_names, reference_label};
use crate::scratch;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::utils::logger::configure_logger;
use serde_yaml::Value;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;

/// A scenario as a tree of (key, value) in the order written.
#[derive(Clone, Debug)]
pub enum Y {
    /// plain scalar, written as is
    S(String),
    M(Vec<(String, Y)>),
    L(Vec<Y>),
}

fn s(x: &str) -> Y {
    Y::S(x.into())
}
fn m(xs: Vec<(&str, Y)>) -> Y {
    Y::M(xs.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

/// The parts of a scenario that matter, with the spelling used for each.
#[derive(Clone, Debug)]
pub struct Sc {
    pub dataset: String,
    pub version: String,
    pub task: String,
    pub frame: String,
    pub labels: Vec<String>,
    pub max_x: String,
    pub max_y: String,
    pub min_pts: Option<String>,
    pub uuids: Option<Vec<String>>,
    pub center: String,
    pub plane: String,
    pub iou2: String,
    pub iou3: String,
    pub use_case: String,
    pub rest: usize,
}

impl Default for Sc {
    fn default() -> Self {
        Sc {
            dataset: "data/set_a".into(),
            version: "annotation".into(),
            task: "detection".into(),
            frame: "base_link".into(),
            labels: vec!["car".into(), "bicycle".into(), "pedestrian".into(), "motorbike".into()],
            max_x: "100.0".into(),
            max_y: "60.0".into(),
            min_pts: Some("3".into()),
            uuids: None,
            center: "1.0".into(),
            plane: "2.0".into(),
            iou2: "0.5".into(),
            iou3: "0.25".into(),
            use_case: "perception".into(),
            rest: 0,
        }
    }
}

impl Sc {
    pub fn tree(&self) -> Y {
        let seq = |xs: &Vec<String>| Y::L(xs.iter().map(|x| s(x)).collect());
        let mut params = vec![
            ("evaluation_task", s(&self.task)),
            ("frame_id", s(&self.frame)),
            ("target_labels", seq(&self.labels)),
            ("max_x_position", s(&self.max_x)),
            ("max_y_position", s(&self.max_y)),
        ];
        if let Some(n) = &self.min_pts {
            params.push(("min_point_number", s(n)));
        }
        if let Some(u) = &self.uuids {
            params.push(("target_uuids", if u == &["null"] { s("null") } else { seq(u) }));
        }
        params.extend([
            ("center_distance_threshold", s(&self.center)),
            ("plane_distance_threshold", s(&self.plane)),
            ("iou_2d_threshold", s(&self.iou2)),
            ("iou_3d_threshold", s(&self.iou3)),
        ]);
        let r = self.rest;
        m(vec![
            ("ScenarioFormatVersion", s(["3.0.0", "'2.1'", "1.0.0"][r % 3])),
            ("ScenarioName", s(["sample", "''", "\"a: b\""][r % 3])),
            ("ScenarioDescription", s(["sample evaluation for perception", "'x'", "'日本語'"][r % 3])),
            ("SensorModel", s("sample_sensor_kit")),
            ("VehicleModel", s("sample_vehicle")),
            (
                "Evaluation",
                m(vec![
                    ("UseCaseName", s(&self.use_case)),
                    ("UseCaseFormatVersion", s("0.4.0")),
                    (
                        "Datasets",
                        Y::L(vec![Y::M(vec![(
                            self.dataset.clone(),
                            m(vec![
                                ("Version", s(&self.version)),
                                ("VehicleId", s("default")),
                                ("LaunchSensing", s(["false", "true", "false"][r % 3])),
                                ("LocalMapPath", s("$HOME/autoware_map/sample")),
                            ]),
                        )])]),
                    ),
                    ("Conditions", m(vec![("PassRate", s(["99.0", "0", "50.5"][r % 3]))])),
                    ("PerceptionEvaluationConfig", m(vec![("evaluation_config_dict", m(params))])),
                ]),
            ),
        ])
    }
}

/// How a tree is written.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Block,
    Comments,
    Flow,
    Crlf,
}

fn put(y: &Y, ind: usize, style: Style, out: &mut String) {
    let pad = " ".repeat(ind);
    match y {
        Y::S(x) => {
            out.push(' ');
            out.push_str(x);
            if style == Style::Comments {
                out.push_str("   # a comment: with a colon");
            }
            out.push('\n');
        }
        Y::M(xs) if xs.is_empty() => out.push_str(" {}\n"),
        Y::L(xs) if xs.is_empty() => out.push_str(" []\n"),
        Y::M(xs) => {
            if ind > 0 || !out.is_empty() {
                out.push('\n');
            }
            for (k, v) in xs {
                if style == Style::Comments {
                    out.push_str(&format!("{pad}# about {k}\n\n"));
                }
                out.push_str(&format!("{pad}{k}:"));
                put(v, ind + 2, style, out);
            }
        }
        Y::L(xs) => {
            out.push('\n');
            for v in xs {
                match v {
                    Y::M(_) => {
                        out.push_str(&format!("{pad}-"));
                        put(v, ind + 2, style, out);
                    }
                    _ => {
                        out.push_str(&format!("{pad}-"));
                        put(v, ind + 2, style, out);
                    }
                }
            }
        }
    }
}

fn put_flow(y: &Y, out: &mut String) {
    match y {
        Y::S(x) => out.push_str(x),
        Y::M(xs) => {
            out.push('{');
            for (i, (k, v)) in xs.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                out.push_str(k);
                out.push_str(": ");
                put_flow(v, out);
            }
            out.push('}');
        }
        Y::L(xs) => {
            out.push('[');
            for (i, v) in xs.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                put_flow(v, out);
            }
            out.push(']');
        }
    }
}

pub fn render(y: &Y, style: Style) -> String {
    let mut out = String::new();
    match style {
        Style::Flow => {
            put_flow(y, &mut out);
            out.push('\n');
        }
        _ => put(y, 0, style, &mut out),
    }
    if style == Style::Crlf {
        out = out.replace('\n', "\r\n");
    }
    out
}

/// What the configuration must be.
#[derive(Clone, Debug, PartialEq)]
pub struct Want {
    pub dataset: PathBuf,
    pub version: String,
    pub task: EvaluationTask,
    pub frame: FrameID,
    pub labels: Vec<String>,
    pub max_x: f64,
    pub max_y: f64,
    pub min_pts: Option<usize>,
    pub uuids: Option<Vec<String>>,
    pub center: f64,
    pub plane: f64,
    pub iou2: f64,
    pub iou3: f64,
}

pub enum Expect {
    Config(Box<Want>),
    Refuse(String),
    Unspecified,
}

/// Reads a scenario text: what does the format (README, schema) make of it?
pub fn expect(text: &[u8]) -> Expect {
    // hexadecimal and octal integers are left open where a fraction is expected
    let based = text.windows(3).any(|w| w[0] == b'0' && (w[1] == b'x' || w[1] == b'o') && w[2].is_ascii_hexdigit());
    let v: Value = match serde_yaml::from_slice(text) {
        Ok(v) => v,
        Err(e) => {
            let e = e.to_string();
            // repeated keys, aliases and several documents are left open
            if e.contains("duplicate") || e.contains("anchor") || e.contains("alias") || e.contains("more than one document") || e.contains("recursion") || e.contains("repetition") {
                return Expect::Unspecified;
            }
            return Expect::Refuse(format!("not YAML: {e}"));
        }
    };
    match read(&v) {
        Ok(_) if based => Expect::Unspecified,
        Ok(w) => Expect::Config(Box::new(w)),
        Err(Some(why)) => Expect::Refuse(why),
        Err(None) => Expect::Unspecified,
    }
}

type Read<T> = Result<T, Option<String>>;

fn tagged(v: &Value) -> bool {
    match v {
        Value::Tagged(_) => true,
        Value::Sequence(x) => x.iter().any(tagged),
        Value::Mapping(x) => x.iter().any(|(k, v)| tagged(k) || tagged(v)),
        _ => false,
    }
}

fn read(v: &Value) -> Read<Want> {
    fn odd_keys(v: &Value) -> bool {
        match v {
            Value::Sequence(x) => x.iter().any(odd_keys),
            Value::Mapping(x) => x.iter().any(|(k, v)| k.as_str().is_none() || odd_keys(v)),
            _ => false,
        }
    }
    // keys of other types may be refused or ignored
    if tagged(v) || odd_keys(v) {
        return Err(None);
    }
    // every refusal wins over anything left open: collect both
    let mut open = false;
    let mut bad: Option<String> = None;
    let mut why = |x: Option<String>, open: &mut bool| match x {
        Some(x) => {
            if bad.is_none() {
                bad = Some(x)
            }
        }
        None => *open = true,
    };
    macro_rules! take {
        ($e:expr, $d:expr) => {
            match $e {
                Ok(x) => x,
                Err(x) => {
                    why(x, &mut open);
                    $d
                }
            }
        };
    }
    // a part the rest is read from: without it there is nothing to read
    macro_rules! part {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(x) => {
                    why(x, &mut open);
                    return Err(bad);
                }
            }
        };
    }
    fn field<'a>(v: &'a Value, k: &str) -> Read<&'a Value> {
        match v {
            Value::Mapping(m) => {
                m.get(k).ok_or(Some(format!("no {k}")))
            }
            Value::Sequence(_) => Err(None), // a record written as a list
            _ => Err(Some(format!("no {k}: not a mapping"))),
        }
    }
    fn text(v: &Value) -> Read<String> {
        match v {
            Value::String(x) => Ok(x.clone()),
            // a plain scalar that looks like another type
            Value::Number(_) | Value::Bool(_) | Value::Null => Err(None),
            _ => Err(Some("text expected".into())),
        }
    }
    fn float(v: &Value) -> Read<f64> {
        match v {
            Value::Number(n) => Ok(n.as_f64().unwrap()),
            // 05 and the like: numbers in one version of YAML and texts in another
            Value::String(x) if x.parse::<f64>().is_ok() && x.trim_start_matches(['+', '-']).starts_with('0') && x.trim_start_matches(['+', '-']).as_bytes().get(1).is_some_and(|b| b.is_ascii_digit()) => Err(None),
            _ => Err(Some("number expected".into())),
        }
    }
    for k in ["ScenarioFormatVersion", "ScenarioName", "ScenarioDescription", "SensorModel", "VehicleModel"] {
        take!(field(v, k).and_then(text), String::new());
    }
    let ev = part!(field(v, "Evaluation"));
    match take!(field(ev, "UseCaseName").and_then(text), String::new()).as_str() {
        "perception" | "perception_2d" | "traffic_light" => {}
        _ => why(None, &mut open),
    }
    take!(field(ev, "UseCaseFormatVersion").and_then(text), String::new());
    let pass = part!(field(ev, "Conditions"));
    take!(field(pass, "PassRate").and_then(float), 0.0);
    let mut dataset = PathBuf::new();
    let mut version = String::new();
    match part!(field(ev, "Datasets")) {
        Value::Sequence(l) if l.is_empty() => why(Some("no dataset".into()), &mut open),
        Value::Sequence(l) => {
            if l.len() > 1 {
                why(None, &mut open);
            }
            for e in l {
                match e {
                    Value::Mapping(m) if m.is_empty() => why(Some("no dataset".into()), &mut open),
                    Value::Mapping(m) => {
                        if m.len() > 1 {
                            why(None, &mut open);
                        }
                        for (k, d) in m {
                            dataset = PathBuf::from(take!(text(k), String::new()));
                            if dataset == Path::new("") {
                                why(None, &mut open);
                            }
                            version = take!(field(d, "Version").and_then(text), String::new());
                            take!(field(d, "VehicleId").and_then(text), String::new());
                            take!(field(d, "LocalMapPath").and_then(text), String::new());
                            match take!(field(d, "LaunchSensing"), &Value::Bool(true)) {
                                Value::Bool(_) => {}
                                _ => why(Some("LaunchSensing is no bool".into()), &mut open),
                            }
                        }
                    }
                    _ => why(Some("dataset expected".into()), &mut open),
                }
            }
        }
        _ => why(Some("list of datasets expected".into()), &mut open),
    }
    let p = part!(field(ev, "PerceptionEvaluationConfig"));
    let p = part!(field(p, "evaluation_config_dict"));
    let t = take!(field(p, "evaluation_task").and_then(text), "detection".into());
    let task = match t.as_str() {
        "Detection" | "detection" => EvaluationTask::Detection,
        "Tracking" | "tracking" => EvaluationTask::Tracking,
        "Prediction" | "prediction" => EvaluationTask::Prediction,
        _ => {
            why(Some(format!("unknown task {t:?}")), &mut open);
            EvaluationTask::Detection
        }
    };
    let f = take!(field(p, "frame_id").and_then(text), "map".into());
    let frame = match (0..NF).map(frame).find(|x| {
        let camel = format!("{x:?}");
        let mut snake = String::new();
        for c in camel.chars() {
            if c.is_uppercase() && !snake.is_empty() {
                snake.push('_');
            }
            snake.push(c.to_ascii_lowercase());
        }
        camel == f || snake == f
    }) {
        Some(x) => x,
        None => {
            why(Some(format!("unknown frame {f:?}")), &mut open);
            FrameID::Map
        }
    };
    fn list(v: &Value) -> Read<Vec<String>> {
        match v {
            Value::Sequence(l) => l.iter().map(text).collect(),
            _ => Err(Some("list expected".into())),
        }
    }
    let labels = take!(field(p, "target_labels").and_then(list), vec![]);
    let max_x = take!(field(p, "max_x_position").and_then(float), 0.0);
    let max_y = take!(field(p, "max_y_position").and_then(float), 0.0);
    let min_pts = match field(p, "min_point_number") {
        Err(Some(_)) | Ok(Value::Null) => None,
        Ok(Value::Number(n)) if n.as_u64().is_some() => Some(n.as_u64().unwrap() as usize),
        Ok(_) => {
            why(Some("min_point_number is no count".into()), &mut open);
            None
        }
        Err(None) => None,
    };
    let uuids = match field(p, "target_uuids") {
        Err(Some(_)) | Ok(Value::Null) => None,
        Ok(l) => Some(take!(list(l), vec![])),
        Err(None) => None,
    };
    let center = take!(field(p, "center_distance_threshold").and_then(float), 0.0);
    let plane = take!(field(p, "plane_distance_threshold").and_then(float), 0.0);
    let iou2 = take!(field(p, "iou_2d_threshold").and_then(float), 0.0);
    let iou3 = take!(field(p, "iou_3d_threshold").and_then(float), 0.0);
    if bad.is_some() {
        return Err(bad);
    }
    if open {
        return Err(None);
    }
    Ok(Want { dataset, version, task, frame, labels, max_x, max_y, min_pts, uuids, center, plane, iou2, iou3 })
}

/// Scene that tells parameters apart: objects around every boundary of the filter and both thresholds.
fn probe(w: &Want, p: &Params) -> Vec<(Vec<perception_eval::object::object3d::DynamicObject>, Vec<perception_eval::object::object3d::DynamicObject>)> {
    let mut gts = vec![];
    let base = p.targets.first().map(|t| t.1).unwrap_or(0);
    let clampx = |x: f64| if x.is_finite() && x.abs() < 1e9 { x } else { 1e6 };
    let (mx, my) = (clampx(w.max_x), clampx(w.max_y));
    // x and y boundaries, both signs
    for f in [0.25, 0.999, 1.0, 1.001, 1.5] {
        for sg in [1.0, -1.0] {
            gts.push(obj(base, [sg * mx * f, 0.1 * my, 0.0]));
            gts.push(obj(base, [0.1 * mx, sg * my * f, 0.5]));
        }
    }
    // labels
    for l in 0..NL {
        gts.push(obj(l, [0.3 * mx, 0.2 * my, 0.0]));
    }
    // points
    let n = w.min_pts.unwrap_or(2);
    for k in [None, Some(0), Some(1), Some(n), n.checked_sub(1), n.checked_add(1), Some(usize::MAX)] {
        let mut o = obj(base, [0.4 * mx, -0.3 * my, 0.0]);
        o.pointcloud_num = k;
        gts.push(o);
    }
    // identities
    let mut ids: Vec<Option<String>> = vec![None, Some("".into()), Some("zz".into()), Some("null".into())];
    for u in w.uuids.iter().flatten() {
        ids.push(Some(u.clone()));
        ids.push(Some(u.to_uppercase()));
        ids.push(Some(format!("{u}x")));
    }
    for id in ids {
        let mut o = obj(base, [-0.3 * mx, 0.3 * my, 0.0]);
        o.uuid = id;
        gts.push(o);
    }
    vec![(gts.clone(), gts)]
}

/// Pairs that only the thresholds tell apart, one per frame, for label `l`.
fn threshold_frames(l: usize, w: &Want, p: &Params) -> Vec<(Vec<perception_eval::object::object3d::DynamicObject>, Vec<perception_eval::object::object3d::DynamicObject>)> {
    let mut out = vec![];
    let id = w.uuids.as_ref().map(|u| u.first().cloned().unwrap_or_default());
    let mut ds: Vec<f64> = vec![0.0];
    for t in [w.center, w.plane, w.iou2, w.iou3, w.max_x, w.max_y] {
        for f in [0.98, 1.02] {
            if t.is_finite() && t.abs() < 1e4 {
                ds.push(t.abs() * f);
            }
        }
    }
    let g0 = [0.3_f64.min(0.4 * w.max_x.abs()), 0.2_f64.min(0.4 * w.max_y.abs()), 0.0];
    for (i, d) in ds.iter().enumerate() {
        let mut g = obj(l, g0);
        g.pointcloud_num = Some(w.min_pts.unwrap_or(7).saturating_add(1));
        if let Some(id) = &id {
            g.uuid = Some(id.clone());
        }
        let mut e = g.clone();
        e.position[2] = g0[2] + d;
        e.confidence = 0.9 - 0.01 * i as f64;
        let mut g2 = g.clone();
        g2.position[0] *= 0.5;
        let mut e2 = g2.clone();
        // in the plane
        e2.position[0] += d;
        e2.confidence = 0.5 - 0.01 * i as f64;
        if p.keep(&e, false) {
            out.push((vec![e], vec![g]));
        }
        if p.keep(&e2, false) {
            out.push((vec![e2], vec![g2]));
        }
    }
    out
}

fn judge_config(ch: &mut Ch, c: &PerceptionEvaluationConfig, w: &Want, result_dir: &str, raw: bool) -> R {
    ensure!(c.dataset_path == w.dataset, "dataset path {:?}, not {:?}", c.dataset_path, w.dataset);
    ensure!(c.version == w.version, "version {:?}, not {:?}", c.version, w.version);
    ensure!(c.evaluation_task == w.task, "task {:?}, not {:?}", c.evaluation_task, w.task);
    ensure!(c.frame_id == w.frame, "frame {:?}, not {:?}", c.frame_id, w.frame);
    let rd = PathBuf::from(result_dir);
    ensure!(c.result_dir == rd, "result directory {:?}, not {rd:?}", c.result_dir);
    for (n, d) in [("log", &c.log_dir), ("visualization", &c.viz_dir)] {
        ensure!(d.starts_with(&rd) && *d != rd, "{n} directory {d:?} is not under {rd:?}");
    }
    ensure!(c.log_dir == rd.join("log"), "log directory {:?}", c.log_dir);
    ensure!(c.viz_dir == rd.join("visualize"), "visualization directory {:?}", c.viz_dir);
    ensure!(c.load_raw_data == raw, "raw-data flag {}, not {raw}", c.load_raw_data);
    // the parameters act as written
    let p = Params {
        targets: w.labels.iter().map(|n| (n.clone(), label_index(&reference_label(n)))).collect(),
        max_x: w.max_x,
        max_y: w.max_y,
        min_pts: w.min_pts,
        uuids: w.uuids.clone(),
        center: w.center,
        plane: w.plane,
        iou2: w.iou2,
        iou3: w.iou3,
    };
    let mut det = c.clone();
    det.evaluation_task = EvaluationTask::Detection;
    let mut mgr = PerceptionEvaluationManager { config: &det, frame_ground_truths: vec![], frame_results: vec![] };
    for (e, g) in probe(w, &p) {
        let add = mgr.add_frame_result(&e, &gt_frame(1_000_000, g.clone()));
        ensure!(add.is_ok(), "the probe scene is refused: {:?}", add.err());
        ch.step();
        let fr = mgr.frame_results.last().unwrap();
        let want = p.filter(&g, true);
        ensure!(
            same_list(&fr.frame_ground_truth().objects, &want),
            "the filter {p:?} keeps the ground truths {}, not {}",
            fr.frame_ground_truth().objects.iter().map(show).collect::<Vec<_>>().join("; "),
            want.iter().map(show).collect::<Vec<_>>().join("; ")
        );
        let want = p.filter(&e, false);
        ensure!(
            fr.results().len() == want.len(),
            "the filter {p:?} keeps {} estimates, not {}",
            fr.results().len(),
            want.len()
        );
        ch.outcome(&want.len());
    }
    let mut seen = vec![];
    for (_, l) in &p.targets {
        if !seen.contains(l) {
            seen.push(*l);
        }
    }
    for l in seen {
        let frames = threshold_frames(l, w, &p);
        mgr.frame_results.clear();
        for (e, g) in &frames {
            let add = mgr.add_frame_result(e, &gt_frame(1_000_000, g.clone()));
            ensure!(add.is_ok(), "a threshold scene is refused: {:?}", add.err());
            ch.step();
            if let Some(j) = history(&p, &[(e.clone(), g.clone())]) {
                let col = p.targets.iter().position(|t| t.1 == l).unwrap();
                if let Some(i) = j[col].items.first() {
                    let fr = mgr.frame_results.last().unwrap();
                    let tp = fr.tp_results().len();
                    ensure!(
                        (tp == 1) == i.tp[1],
                        "plane distance threshold {}: the pair {} / {} is {}",
                        w.plane,
                        show(&e[0]),
                        show(&g[0]),
                        if tp == 1 { "accepted" } else { "rejected" }
                    );
                }
            }
        }
        match crate::props::score::by_definition_of(ch, &p, &frames, &mgr) {
            // a borderline verdict or too many ties: nothing to compare
            Err(Stop::Skip) => {}
            r => r?,
        }
    }
    Ok(())
}

/// Runs the real code on a scenario text and judges it.
fn run_text(ch: &mut Ch, text: &[u8], result: &Path, raw: bool) -> R {
    let dir = scratch::worker("scenario", ch.worker);
    let file = dir.join("scenario.yaml");
    std::fs::write(&file, text).expect("scratch");
    ch.note(|| String::from_utf8_lossy(text).to_string());
    let want = expect(text);
    run_file(ch, &file, want, result.to_str().unwrap(), raw)?;
    ch.state(&(hash(&text), raw));
    Ok(())
}

fn run_file(ch: &mut Ch, file: &Path, want: Expect, result: &str, raw: bool) -> R {
    ch.step();
    let got = guarded(|| PerceptionEvaluationConfig::from(file.to_str().unwrap(), result, raw));
    log::set_max_level(log::LevelFilter::Off);
    let got = match got {
        Ok(g) => g,
        Err(p) => return fail(format!("building the configuration {p}")),
    };
    match want {
        Expect::Config(w) => {
            ch.note(|| format!("a well-formed scenario: {w:?}"));
            match got {
                Ok(c) => judge_config(ch, &c, &w, result, raw)?,
                Err(e) => return fail(format!("a well-formed scenario is refused: {e}")),
            }
            ch.compared();
        }
        Expect::Refuse(why) => {
            ch.note(|| format!("to be refused: {why}"));
            if got.is_ok() {
                return fail(format!("a scenario to be refused ({why}) is accepted"));
            }
            ch.outcome(&why.len());
            ch.compared();
        }
        Expect::Unspecified => {
            ch.note(|| "left open, only no panic".into());
            ch.outcome(&got.is_ok());
            ch.compared();
        }
    }
    Ok(())
}

/// The same place seen from the working directory.
fn relative(p: &Path) -> PathBuf {
    let cwd = std::env::current_dir().expect("cwd").canonicalize().expect("cwd");
    let mut r: PathBuf = cwd.components().skip(1).map(|_| "..").collect();
    r.extend(p.components().skip(1));
    r
}

fn result_dir(ch: &Ch) -> PathBuf {
    scratch::worker("result", ch.worker)
}

/// Every node of the tree by its path.
fn paths(y: &Y, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    let kids: Vec<&Y> = match y {
        Y::S(_) => vec![],
        Y::M(x) => x.iter().map(|k| &k.1).collect(),
        Y::L(x) => x.iter().collect(),
    };
    for (i, k) in kids.into_iter().enumerate() {
        at.push(i);
        out.push(at.clone());
        paths(k, at, out);
        at.pop();
    }
}

fn parent<'a>(y: &'a mut Y, path: &[usize]) -> Option<&'a mut Y> {
    let mut y = y;
    for &i in &path[..path.len() - 1] {
        y = match y {
            Y::S(_) => return None,
            Y::M(x) => &mut x.get_mut(i)?.1,
            Y::L(x) => x.get_mut(i)?,
        };
    }
    Some(y)
}

const REPLACEMENTS: usize = 14;
fn replacement(k: usize) -> Y {
    match k {
        0 => s("null"),
        1 => s("text"),
        2 => Y::L(vec![]),
        3 => Y::L(vec![s("text")]),
        4 => Y::L(vec![s("1")]),
        5 => m(vec![]),
        6 => m(vec![("a", s("1"))]),
        7 => s("7"),
        8 => s("-7"),
        9 => s("2.5"),
        10 => s("true"),
        11 => s("'4'"),
        12 => s("''"),
        _ => Y::L(vec![m(vec![])]),
    }
}

/// Damages one node; false if the path does not exist any more.
fn damage(y: &mut Y, path: &[usize], how: usize) -> bool {
    let i = *path.last().unwrap();
    let Some(p) = parent(y, path) else { return false };
    match p {
        Y::S(_) => false,
        Y::M(x) => {
            if i >= x.len() {
                return false;
            }
            match how {
                0 => {
                    x.remove(i);
                }
                1 => x[i].0 = x[i].0.to_uppercase(),
                2 => x[i].0.push('s'),
                3 => x[i].0.insert(0, 'x'),
                4 => {
                    x[i].0.pop();
                }
                5 => {
                    // one level deeper
                    let v = x[i].1.clone();
                    x[i].1 = m(vec![("inner", v)]);
                }
                6 => {
                    let v = x[i].1.clone();
                    x[i].1 = Y::L(vec![v]);
                }
                _ => x[i].1 = replacement(how - 7),
            }
            true
        }
        Y::L(x) => {
            if i >= x.len() {
                return false;
            }
            match how {
                0 => {
                    x.remove(i);
                }
                5 => {
                    let v = x[i].clone();
                    x[i] = m(vec![("inner", v)]);
                }
                6 => {
                    let v = x[i].clone();
                    x[i] = Y::L(vec![v]);
                }
                1..=4 => return false,
                _ => x[i] = replacement(how - 7),
            }
            true
        }
    }
}

fn reorder(y: &mut Y, how: usize) {
    match y {
        Y::S(_) => {}
        Y::L(x) => x.iter_mut().for_each(|v| reorder(v, how)),
        Y::M(x) => {
            x.iter_mut().for_each(|v| reorder(&mut v.1, how));
            match how {
                0 => {}
                1 => x.reverse(),
                2 if !x.is_empty() => x.rotate_left(1),
                _ => x.sort_by(|a, b| a.0.to_lowercase().cmp(&b.0.to_lowercase())),
            }
        }
    }
}

fn styles() -> [Style; 4] {
    [Style::Block, Style::Flow, Style::Comments, Style::Crlf]
}

fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|x| x.to_string()).collect()
}

pub fn c22(tier: Tier) -> Vec<Space> {
    vec![
        Space::new(
            "values",
            &format!(
                "well-formed scenarios: dataset path, version, task and frame in every spelling, label lists, number formats, optional parameters absent, null or given, layouts, key orders, raw-data flag and result directories; all combinations of up to {} of these away from the default",
                tier.pick(2, 3)
            ),
            |ch| {
                let d = Sc::default();
                let tasks = ["detection", "Detection", "tracking", "Tracking", "prediction", "'Prediction'"];
                let mut frames: Vec<String> = vec!["base_link".into()];
                for f in (0..NF).map(frame) {
                    let camel = format!("{f:?}");
                    let mut snake = String::new();
                    for c in camel.chars() {
                        if c.is_uppercase() && !snake.is_empty() {
                            snake.push('_');
                        }
                        snake.push(c.to_ascii_lowercase());
                    }
                    if snake != "base_link" {
                        frames.push(snake);
                    }
                    frames.push(camel);
                }
                let sc = Sc {
                    dataset: ch.dev(&["data/set_a", "/abs/dir/set", "set", "'with blank/set b'", "a/b/c/d/e.f", "../up", "\"$HOME/日本\"", "trailing/", "'~/set'", "'~'", "'~root/x'", "/bin", "/dev/../dev/fd", "'.'", "./x//y/.", "'${HOME}/x'", "'%7E/a%20b'", "'C:\\x\\y'", "'file:///x'", "/", "'a:b'", "'#x'", "' x '", "/dev/shm"]).into(),
                    version: ch.dev(&["annotation", "v1.0-mini", "'2'", "sample data", "\"annotation \"", "data/set_a"]).into(),
                    task: ch.dev(&tasks).into(),
                    frame: frames[ch.deviate(frames.len())].clone(),
                    labels: ch.dev(&[
                        d.labels.clone(),
                        strs(&["car"]),
                        strs(&["pedestrian", "car"]),
                        strs(&["motorbike", "bicycle", "bus", "truck", "pedestrian", "car", "animal", "unknown"]),
                        strs(&["CAR", "Vehicle.Bus"]),
                        strs(&["vehicle.truck", "trailer", "truck"]),
                        strs(&["\"vehicle.bus (bendy & rigid)\"", "hovercraft"]),
                        strs(&["car", "car", "bus"]),
                        vec![],
                        strs(&["animal"]),
                    ]),
                    max_x: ch.dev(&["100.0", "50", "12.5", "1e2", ".inf", "0.75", "99.999"]).into(),
                    max_y: ch.dev(&["60.0", "100.0", "7", "2.5e+1", ".inf", "0.5", "0"]).into(),
                    min_pts: ch.dev(&[Some("3"), None, Some("null"), Some("~"), Some("0"), Some("1"), Some("5000000000"), Some("7")]).map(|x| x.to_string()),
                    uuids: ch.dev(&[
                        None,
                        Some(strs(&["null"])),
                        Some(vec![]),
                        Some(strs(&["id-a"])),
                        Some(strs(&["id-a", "0b1c2d", "'12'"])),
                        Some(strs(&["'id-a'", "\"id-b\"", "id-a"])),
                    ]),
                    center: ch.dev(&["1.0", "2.0", "0.5", "3", "1e-1", "0.0"]).into(),
                    plane: ch.dev(&["2.0", "1.0", "0.25", "4", "0.05", "0"]).into(),
                    iou2: ch.dev(&["0.5", "0.1", "1", "0"]).into(),
                    iou3: ch.dev(&["0.25", "0.5", "1.0", "0"]).into(),
                    use_case: ch.dev(&["perception", "perception_2d", "traffic_light"]).into(),
                    rest: ch.deviate(3),
                };
                let style = ch.dev(&styles());
                let mut y = sc.tree();
                reorder(&mut y, ch.deviate(4));
                let raw = ch.deviate(2) == 1;
                let mut dir = result_dir(ch);
                match ch.deviate(14) {
                    0 => {}
                    1 => dir = dir.join("deep/er/new"),
                    2 => dir = dir.join("with blank.d/日本"),
                    3 => dir = dir.join("log"),
                    4 => dir = dir.join("new/"),
                    5 => dir = dir.join("new///"),
                    6 => dir = dir.join("./a//b/./"),
                    7 => dir = dir.join("."),
                    8 => {
                        std::fs::create_dir_all(dir.join("x")).expect("scratch");
                        dir = dir.join("x/../y")
                    }
                    9 => dir = relative(&dir.join("rel")),
                    10 => dir = relative(&dir.join("rel/")),
                    11 => dir = dir.join("visualize"),
                    12 => dir = dir.join("~"),
                    _ => dir = dir.join("$HOME %20 'q' \\ .."),
                }
                let text = render(&y, style);
                if let Expect::Refuse(w) = expect(text.as_bytes()) {
                    panic!("engine: {w}: {text}");
                }
                run_text(ch, text.as_bytes(), &dir, raw)
            },
        )
        .budget(tier.pick(2, 3)),
        Space::new(
            "target names",
            &format!("target lists of 6 names out of {}: every documented label name, with prefixes, suffixes, other letter cases, parts, cut by a character", derived_names().len()),
            move |ch| {
                let names = derived_names();
                // neighbours in the list are alike: deal them out
                let n = names.len().div_ceil(6);
                let at = ch.choose(n);
                let mut sc = Sc::default();
                sc.labels = (0..6).filter_map(|k| names.get(at + k * n)).map(|x| serde_json::to_string(x).unwrap()).collect();
                sc.min_pts = None;
                let dir = result_dir(ch);
                let text = render(&sc.tree(), Style::Block);
                if let Expect::Refuse(w) = expect(text.as_bytes()) {
                    panic!("engine: {w}: {text}");
                }
                run_text(ch, text.as_bytes(), &dir, false)
            },
        ),
        Space::new(
            "numbers",
            "each of the six number fields and each pair of them written as each of 34 numbers (signs, exponents, tiny, huge, infinite, bare points, underscores, blanks, texts)",
            move |ch| {
                const N: [&str; 34] = [
                    "1", "1.5", "-1", "-0.5", "-0.0", "+2", "+2.5", ".5", "5.", "1e3", "1E3", "1e+3", "1e-3", "2.5e-7", "0.001", "0.0005", "0.1", "0.30000000000000004",
                    "123456.789", "1e300", "1e-300", "1e400", ".inf", "+.inf", "-.inf", "4294967296", "18446744073709551615", "0.0000000000000000001", "9007199254740993",
                    "1_000", "1 000", "'1.0'", "1,5", "1.0.0",
                ];
                let mut sc = Sc::default();
                let a = ch.choose(6);
                let b = ch.choose(6);
                if b < a {
                    return Err(Stop::Skip);
                }
                let (x, y) = (ch.choose(N.len()), if b == a { 0 } else { ch.choose(tier.pick(N.len() / 2, N.len())) });
                for (k, v) in [(a, x), (b, if b == a { x } else { y * tier.pick(2, 1) })] {
                    let f = [&mut sc.max_x, &mut sc.max_y, &mut sc.center, &mut sc.plane, &mut sc.iou2, &mut sc.iou3];
                    *f.into_iter().nth(k).unwrap() = N[v].into();
                }
                let dir = result_dir(ch);
                run_text(ch, render(&sc.tree(), Style::Block).as_bytes(), &dir, false)
            },
        ),
        Space::new(
            "fields",
            &format!(
                "{} of the ways to damage a node of the scenario (removed, misspelled in four ways, wrapped, replaced by null, text, numbers, booleans, lists and mappings), for every node, in block and flow layout",
                tier.pick("each, and each pair of the more telling,", "each pair")
            ),
            move |ch| {
                let mut sc = Sc::default();
                if ch.flag() {
                    sc.uuids = Some(strs(&["id-a", "id-b"]));
                }
                let mut y = sc.tree();
                let mut ps = vec![];
                paths(&y, &mut vec![], &mut ps);
                let p = ch.pick(&ps);
                let how = ch.choose(7 + REPLACEMENTS);
                if !damage(&mut y, &p, how) {
                    return Err(Stop::Skip);
                }
                let how2 = ch.choose(1 + tier.pick(3, 7 + REPLACEMENTS));
                if how2 > 0 {
                    let p2 = ch.pick(&ps);
                    if p2 <= p {
                        return Err(Stop::Skip);
                    }
                    let h2 = tier.pick([0, 7, 8][(how2 - 1) % 3], how2 - 1);
                    if tier == Tier::Quick && ![0, 7, 10].contains(&how) || !damage(&mut y, &p2, h2) {
                        return Err(Stop::Skip);
                    }
                }
                let style = if how2 == 0 { ch.pick(&[Style::Block, Style::Flow]) } else { Style::Flow };
                let text = render(&y, style);
                let dir = result_dir(ch);
                run_text(ch, text.as_bytes(), &dir, false)
            },
        ),
        Space::new("truncations", "every byte prefix of the scenario in four layouts and four key orders, with and without optional parameters", |ch| {
            let mut sc = Sc::default();
            match ch.choose(3) {
                0 => {}
                1 => sc.uuids = Some(strs(&["id-a", "id-b"])),
                _ => {
                    sc.min_pts = None;
                    sc.rest = 1;
                }
            }
            let style = ch.pick(&styles());
            let mut y = sc.tree();
            reorder(&mut y, ch.choose(4));
            let text = render(&y, style);
            let cut = ch.choose(text.len() + 1);
            let dir = result_dir(ch);
            run_text(ch, &text.as_bytes()[..cut], &dir, false)
        }),
        Space::new(
            "bytes",
            "every byte of the scenario in block and flow layout deleted, doubled, or replaced by or preceded by each of 18 bytes (structure characters, digits, letters, white space, control and non-UTF-8 bytes)",
            move |ch| {
                let style = ch.pick(&[Style::Block, Style::Flow]);
                let sc = Sc::default();
                let mut text = render(&sc.tree(), style).into_bytes();
                let at = ch.choose(text.len());
                let bytes = b":-#{}[]\"',\n \t0x\x00\xff\x1b";
                match ch.choose(tier.pick(3, 4)) {
                    0 => {
                        text.remove(at);
                    }
                    1 => {
                        let b = text[at];
                        text.insert(at, b);
                    }
                    2 => text[at] = bytes[ch.choose(bytes.len())],
                    _ => text.insert(at, bytes[ch.choose(bytes.len())]),
                }
                let dir = result_dir(ch);
                run_text(ch, &text, &dir, false)
            },
        ),
        Space::new("names", "the task or the frame named by every text within edit distance 1 of a valid spelling over letters, digits, blank, underscore and hyphen, and by every valid spelling of the other kind", |ch| {
            let mut names: Vec<String> = vec![];
            let tasks = ["Detection", "detection", "Tracking", "tracking", "Prediction", "prediction"];
            names.extend(tasks.map(String::from));
            for f in (0..NF).map(frame) {
                names.push(format!("{f:?}"));
            }
            names.extend(["base_link", "map", "cam_back", "cam_back_left", "cam_back_right", "cam_front", "cam_front_left", "cam_front_right", "cam_traffic_light_near", "cam_traffic_light_far"].map(String::from));
            let name = ch.pick(&names);
            let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyzBCDFLMNRTP01 _-".chars().collect();
            let mut es = crate::props::names::edits(&name, &alpha);
            es.push(name.clone());
            es.push(name.to_uppercase());
            let e = es[ch.choose(es.len())].clone();
            let mut sc = Sc::default();
            if ch.flag() {
                sc.task = format!("'{e}'");
            } else {
                sc.frame = format!("'{e}'");
            }
            let text = render(&sc.tree(), Style::Block);
            let dir = result_dir(ch);
            run_text(ch, text.as_bytes(), &dir, false)
        }),
        Space::new("files", "no file, an empty path, a directory, a dangling link, a link to a good file, empty and blank files, a good file with and without a byte order mark, good after bad and bad after good", |ch| {
            let dir = scratch::fresh("files");
            let good = render(&Sc::default().tree(), Style::Block);
            let f = dir.join("x.yaml");
            std::fs::write(dir.join("good.yaml"), &good).unwrap();
            let refuse = |w: &str| Expect::Refuse(w.into());
            let n = ch.choose(3) + 1;
            for _ in 0..n {
                let _ = std::fs::remove_file(&f);
                let _ = std::fs::remove_dir(&f);
                let k = ch.choose(13);
                let (path, want) = match k {
                    0 => (f.clone(), refuse("no file")),
                    1 => (PathBuf::new(), refuse("empty path")),
                    2 => {
                        std::fs::create_dir(&f).unwrap();
                        (f.clone(), refuse("a directory"))
                    }
                    3 => {
                        std::os::unix::fs::symlink(dir.join("nowhere"), &f).unwrap();
                        (f.clone(), refuse("a dangling link"))
                    }
                    4 => {
                        std::os::unix::fs::symlink(dir.join("good.yaml"), &f).unwrap();
                        (f.clone(), expect(good.as_bytes()))
                    }
                    5..=10 => {
                        let t: &[u8] = [b"" as &[u8], b"\n", b"# nothing\n", b"---\n", b"\x00\x01\x02", b"{\"a\": 1}"][k - 5];
                        std::fs::write(&f, t).unwrap();
                        (f.clone(), refuse("not a scenario"))
                    }
                    11 => {
                        std::fs::write(&f, &good).unwrap();
                        (f.join("under"), refuse("a path under a file"))
                    }
                    _ => (dir.join("good.yaml"), expect(good.as_bytes())),
                };
                ch.note(|| format!("file case {k}"));
                let r = result_dir(ch);
                run_file(ch, &path, want, r.to_str().unwrap(), true)?;
            }
            scratch::remove(&dir);
            ch.state(&ch.trace.clone());
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------------------------------------------- C23

const LEVELS: [&str; 4] = ["debug", "info", "warn", "error"];

fn level_of(x: &str) -> log::Level {
    log::Level::from_str(x).unwrap()
}

fn emit(tag: &str) {
    log::trace!("{tag}-trace.");
    log::debug!("{tag}-debug.");
    log::info!(target: "perception_eval::filter", "{tag}-info.");
    log::warn!(target: "some::other", "{tag}-warn.");
    log::error!("{tag}-error.");
}

/// Child process: carries out the operations given as arguments and logs after each.
/// c:<log dir>:<level>  s:<scenario>:<result dir>  n (nothing)
pub fn log_child(ops: &[String]) -> i32 {
    for (i, op) in ops.iter().enumerate() {
        let mut it = op.splitn(3, '|');
        let kind = it.next().unwrap();
        let a = it.next().unwrap_or("").to_string();
        let b = it.next().unwrap_or("").to_string();
        let r = guarded(|| match kind {
            "c" => configure_logger(Path::new(&a), level_of(&b)).map_err(|e| e.to_string()),
            "s" => PerceptionEvaluationConfig::from(&a, &b, false).map(|_| ()).map_err(|e| e.to_string()),
            _ => Ok(()),
        });
        match r {
            Ok(Ok(())) => println!("ok"),
            Ok(Err(e)) => println!("err {}", e.replace('\n', " ")),
            Err(p) => println!("panic {}", p.replace('\n', " ")),
        }
        emit(&format!("m{i}"));
        std::thread::spawn(move || emit(&format!("t{i}"))).join().unwrap();
    }
    0
}

/// Targets of messages: of this crate, of crates it uses, of a user's program.
const TARGETS: [&str; 22] = [
    "mc::props::scenario", "perception_eval", "perception_eval::filter", "perception_eval::metrics::detection", "perception_eval::dataset::nuscenes",
    "perception_eval::utils::logger", "perception_eval_rs", "image", "image::codecs::png", "nalgebra", "serde", "serde_json", "serde_yaml", "chrono",
    "indicatif", "log4rs", "log", "thiserror", "my_program::module", "", "some target, with: punctuation", "\u{8eca}",
];
const KINDS: usize = 18;
/// The text of a message, in marks that tell it from others.
fn body(k: usize, tag: &str) -> String {
    let b = match k {
        0 => String::new(),
        1 => "x".into(),
        2 => "{m} {l} {d} {{}} {}".into(),
        3 => "two\nlines".into(),
        4 => "a tab\t, a quote \", a backslash \\ and a percent %s".into(),
        5 => "\u{8eca}\u{4e21} caf\u{e9} \u{1f697}".into(),
        6 => "  blanks around  ".into(),
        7 => "DEBUG - INFO - WARN - ERROR".into(),
        8 => "\u{1b}[31mred\u{1b}[0m".into(),
        k => "0123456789".repeat(7000)[..[79, 80, 100, 200, 255, 256, 1024, 8192, 70_000][k - 9]].to_string(),
    };
    format!("<{tag}:{b}:{tag}>")
}
/// Child process: configures the log, then logs messages from two threads.
pub fn messages_child(args: &[String]) -> i32 {
    let n = |i: usize| args[i].parse::<usize>().unwrap();
    let r = match args[0].as_str() {
        "scenario" => PerceptionEvaluationConfig::from("good.yaml", "rel/new/d1", false).map(|_| ()).map_err(|e| e.to_string()),
        l => configure_logger(Path::new("rel/new/d1/log"), level_of(l)).map_err(|e| e.to_string()),
    };
    if let Err(e) = r {
        println!("{e}");
        return 3;
    }
    let target = TARGETS[n(1)];
    let kinds = [n(2), n(3)];
    let all = move |who: &str| {
        for (i, k) in kinds.into_iter().enumerate() {
            for (j, l) in [log::Level::Trace, log::Level::Debug, log::Level::Info, log::Level::Warn, log::Level::Error].into_iter().enumerate() {
                log::log!(target: target, l, "{}", body(k, &format!("{who}{i}{j}")));
            }
        }
    };
    all("m");
    std::thread::Builder::new().name("worker".into()).spawn(move || all("t")).unwrap().join().unwrap();
    0
}

fn run_messages(ch: &mut Ch, how: &str, target: usize, kinds: [usize; 2]) -> R {
    let w = log_world();
    let out = Command::new(std::env::current_exe().expect("own executable"))
        .args(["child", "messages", how, &target.to_string(), &kinds[0].to_string(), &kinds[1].to_string()])
        .current_dir(&w.root)
        .stdin(Stdio::null())
        .output()
        .expect("child");
    let text = std::fs::read(w.root.join("rel/new/d1/log/output.log")).map(|b| String::from_utf8_lossy(&b).to_string());
    scratch::remove(&w.root);
    ch.steps(20);
    ensure!(out.status.success(), "the process ended with {}: {}", out.status, String::from_utf8_lossy(&out.stdout));
    let text = text.unwrap_or_default();
    let from = LEVELS.iter().position(|l| *l == how).unwrap_or(0) + 1;
    let names = ["TRACE", "DEBUG", "INFO", "WARN", "ERROR"];
    let mut at = 0;
    for who in ["m", "t"] {
        for (i, k) in kinds.into_iter().enumerate() {
            for (j, level) in names.iter().enumerate() {
                let b = body(k, &format!("{who}{i}{j}"));
                let hit = text[at..].find(&b);
                let shown: String = b.chars().take(60).collect();
                if j < from {
                    ensure!(!text.contains(&b), "level {how}: the {level} message {shown:?} of target {:?} was written", TARGETS[target]);
                    continue;
                }
                let Some(p) = hit else {
                    return fail(format!("level {how}: the {level} message {shown:?} ({} characters) of target {:?} was not written whole, in its turn", b.chars().count(), TARGETS[target]));
                };
                ensure!(text[at..at + p].to_uppercase().contains(level), "level {how}: the line of {shown:?} does not say its level {level}");
                at += p + b.len();
                ensure!(text.matches(&b).count() == 1, "level {how}: the {level} message {shown:?} was written more than once");
            }
        }
    }
    ch.compared();
    ch.state(&(how.to_string(), target, kinds));
    ch.outcome(&from);
    Ok(())
}

/// A step of a history, and what it does according to the property.
#[derive(Clone, Debug)]
pub struct LogOp {
    arg: String,
    /// succeeds, and then messages go to this file from this level on
    to: Option<(PathBuf, usize)>,
    refuse: bool,
}

/// Runs one history in a child process and judges the files.
fn run_log(ch: &mut Ch, root: &Path, ops: &[LogOp], old: &[(PathBuf, String)]) -> R {
    let exe = std::env::current_exe().expect("own executable");
    let out = Command::new(exe)
        .arg("child")
        .arg("log")
        .args(ops.iter().map(|o| &o.arg))
        .current_dir(root)
        .stdin(Stdio::null())
        .output()
        .expect("child");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let lines: Vec<&str> = text.lines().collect();
    ch.steps(ops.len() as u64);
    for (i, o) in ops.iter().enumerate() {
        let l = lines.get(i).copied().unwrap_or("nothing, the process ended");
        ch.note(|| format!("{i}: {} => {l}", o.arg.replace(root.to_str().unwrap(), "")));
        let ok = l == "ok";
        let want_ok = !o.refuse;
        if ok != want_ok || !ok && !l.starts_with("err") {
            return fail(format!(
                "step {i} ({}) ends with {l:?}, expected {}",
                o.arg.replace(root.to_str().unwrap(), ""),
                if want_ok { "success" } else { "an error" }
            ));
        }
    }
    ensure!(out.status.success(), "the process ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr));
    // what every file must hold: (file, messages in order)
    let mut want: std::collections::BTreeMap<PathBuf, Vec<String>> = Default::default();
    for (f, _) in old {
        want.insert(f.clone(), vec![]);
    }
    let mut cur: Option<(PathBuf, usize)> = None;
    for (i, o) in ops.iter().enumerate() {
        if let Some(t) = &o.to {
            cur = Some(t.clone());
        }
        if let Some((f, lv)) = &cur {
            let e = want.entry(f.clone()).or_default();
            for who in ["m", "t"] {
                for l in &LEVELS[*lv..] {
                    e.push(format!("{who}{i}-{l}."));
                }
            }
        }
    }
    // every output.log below the root
    fn find(d: &Path, out: &mut Vec<PathBuf>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                find(&p, out);
            } else {
                out.push(p);
            }
        }
    }
    let mut files = vec![];
    find(root, &mut files);
    files.retain(|f| f.extension().map(|e| e != "yaml").unwrap_or(true));
    for f in want.keys() {
        ensure!(files.contains(f), "there is no {}", f.strip_prefix(root).unwrap().display());
    }
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let show = f.strip_prefix(root).unwrap().display().to_string();
        let mut body = text.as_str();
        if let Some((_, o)) = old.iter().find(|o| o.0 == f) {
            ensure!(body.starts_with(o.as_str()), "{show} lost what it held before");
            body = &body[o.len()..];
        }
        // the probe messages, in order
        let mut got: Vec<String> = vec![];
        for line in body.lines() {
            let words: Vec<&str> = line
                .split(|c: char| c.is_whitespace())
                .filter(|w| w.ends_with('.') && (w.starts_with('m') || w.starts_with('t')) && LEVELS.iter().chain(&["trace"]).any(|l| w.ends_with(&format!("-{l}."))))
                .collect();
            for w in &words {
                got.push(w.to_string());
                let lv = w.rsplit('-').next().unwrap().trim_end_matches('.').to_uppercase();
                ensure!(line.to_uppercase().matches(&lv).count() >= 2, "{show}: the line {line:?} does not say its level");
            }
        }
        let w = want.get(&f).cloned().unwrap_or_default();
        ensure!(got == w, "{show} holds the messages {got:?}, not {w:?}");
        ch.outcome(&w.len());
    }
    ch.compared();
    Ok(())
}

struct LogWorld {
    root: PathBuf,
    old: Vec<(PathBuf, String)>,
}

/// Scratch directory with scenarios, a log with content, a file and a directory in the way.
fn log_world() -> LogWorld {
    let root = scratch::fresh("log");
    let good = Sc::default();
    std::fs::write(root.join("good.yaml"), render(&good.tree(), Style::Block)).unwrap();
    let mut bad = good.clone();
    bad.task = "guessing".into();
    std::fs::write(root.join("task.yaml"), render(&bad.tree(), Style::Block)).unwrap();
    let mut bad = good.clone();
    bad.frame = "nowhere".into();
    std::fs::write(root.join("frame.yaml"), render(&bad.tree(), Style::Block)).unwrap();
    let full = render(&good.tree(), Style::Block);
    std::fs::write(root.join("cut.yaml"), &full[..full.len() / 2]).unwrap();
    let mut y = good.tree();
    let mut ps = vec![];
    paths(&y, &mut vec![], &mut ps);
    let p = ps.iter().find(|p| {
        let mut c = y.clone();
        matches!(parent(&mut c, p), Some(Y::M(x)) if x[*p.last().unwrap()].0 == "Datasets")
    });
    let p = p.unwrap().clone();
    damage(&mut y, &p, 7 + 2);
    std::fs::write(root.join("nodata.yaml"), render(&y, Style::Block)).unwrap();
    std::fs::create_dir_all(root.join("d2/log")).unwrap();
    let old = "INFO - written before\nhalf a line".to_string();
    std::fs::write(root.join("d2/log/output.log"), &old).unwrap();
    std::fs::write(root.join("plain.log.yaml"), "x").unwrap();
    std::fs::create_dir_all(root.join("taken/log/output.log")).unwrap();
    LogWorld { old: vec![(root.join("d2/log/output.log"), old)], root }
}

/// The operations a history is made of.
fn log_ops(w: &LogWorld) -> Vec<LogOp> {
    let r = w.root.to_str().unwrap();
    // absolute, relative and new, existing with content
    let dirs = [format!("{r}/d0"), "rel/new/d1".to_string(), format!("{r}/d2")];
    let file = |k: usize| if k == 1 { w.root.join("rel/new/d1/log/output.log") } else { w.root.join(format!("d{k}/log/output.log")) };
    let mut out = vec![];
    for (k, d) in dirs.iter().enumerate() {
        for (lv, l) in LEVELS.iter().enumerate() {
            out.push(LogOp { arg: format!("c|{d}/log|{l}"), to: Some((file(k), lv)), refuse: false });
        }
    }
    for (k, d) in dirs.iter().enumerate() {
        out.push(LogOp { arg: format!("s|good.yaml|{d}"), to: Some((file(k), 0)), refuse: false });
    }
    for f in ["task", "frame", "cut", "nodata", "missing"] {
        out.push(LogOp { arg: format!("s|{f}.yaml|{r}/d0"), to: None, refuse: true });
    }
    out.push(LogOp { arg: format!("c|{r}/plain.log.yaml/log|debug"), to: None, refuse: true });
    out.push(LogOp { arg: format!("c|{r}/taken/log|warn"), to: None, refuse: true });
    out.push(LogOp { arg: format!("s|good.yaml|{r}/plain.log.yaml"), to: None, refuse: true });
    out.push(LogOp { arg: format!("s|good.yaml|{r}/taken"), to: None, refuse: true });
    out.push(LogOp { arg: "n".into(), to: None, refuse: false });
    out
}

pub fn c23(tier: Tier) -> Vec<Space> {
    let depth = tier.pick(3, 4);
    vec![
        Space::new(
            "histories",
            &format!(
                "all histories of up to {depth} steps in one process, each step one of: configuring the logger (3 directories: new, relative, with an earlier log; 4 levels), building a configuration (3 result directories), 5 kinds of bad scenarios, 4 unusable directories, nothing; messages of all 5 levels are logged from two threads after every step"
            ),
            move |ch| {
                // the first steps are those of the alphabet; later ones leave out what only repeats a kind
                let w = log_world();
                let ops = log_ops(&w);
                let n = ch.choose(depth) + 1;
                let mut h = vec![];
                for k in 0..n {
                    let o = ch.choose(ops.len());
                    if n == 4 && k > 0 && [1, 5, 9, 17, 18, 21, 23].contains(&o) {
                        scratch::remove(&w.root);
                        return Err(Stop::Skip);
                    }
                    h.push(ops[o].clone());
                }
                let r = run_log(ch, &w.root, &h, &w.old);
                scratch::remove(&w.root);
                ch.state(&ch.trace.clone());
                r
            },
        )
        .threads(tier.pick(16, 16)),
        Space::new(
            "messages",
            "one process each: the log configured with each of 4 levels or from a scenario, then messages of all 5 levels with one of 22 targets (modules of this crate, the crates it uses, others, none), from two threads, of every text out of 18 (empty, patterns, lines, other scripts, 79 to 70000 characters; thorough: every ordered pair of them): each message of the level or above whole, once, in order, with its level",
            move |ch| {
                let how = ch.pick(&["debug", "info", "warn", "error", "scenario"]);
                let t = ch.choose(TARGETS.len());
                let k = ch.choose(KINDS);
                let k2 = tier.pick((k + 7) % KINDS, 0);
                let k2 = if tier == Tier::Thorough { ch.choose(KINDS) } else { k2 };
                run_messages(ch, how, t, [k, k2])
            },
        )
        .threads(tier.pick(16, 16)),
        Space::new(
            "long",
            &format!("histories of {} steps that walk through the alphabet in every stride from every start, so that every pair of steps comes at every distance", tier.pick(60, 400)),
            move |ch| {
                let w = log_world();
                let ops = log_ops(&w);
                let start = ch.choose(ops.len());
                let stride = 1 + ch.choose(ops.len() - 1);
                let h: Vec<LogOp> = (0..tier.pick(60, 400)).map(|i| ops[(start + i * stride + i * i / 7) % ops.len()].clone()).collect();
                let r = run_log(ch, &w.root, &h, &w.old);
                scratch::remove(&w.root);
                ch.state(&(start, stride));
                r
            },
        ),
    ]
}
