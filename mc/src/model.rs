//! Reference model of the evaluation pipeline: filter -> pair nearest first -> verdict -> AP / APH.
use crate::geom;
use crate::obj::*;
use perception_eval::config::{FilterParams, MetricsParams, PerceptionEvaluationConfig};
use perception_eval::dataset::FrameGroundTruth;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use perception_eval::label::Label;
use perception_eval::object::object3d::DynamicObject;
use std::collections::BTreeSet;
use std::path::PathBuf;

#[derive(Clone, Debug)]
pub struct Params {
    /// (name as configured, label index)
    pub targets: Vec<(String, usize)>,
    pub max_x: f64,
    pub max_y: f64,
    pub min_pts: Option<usize>,
    pub uuids: Option<Vec<String>>,
    pub center: f64,
    pub plane: f64,
    pub iou2: f64,
    pub iou3: f64,
}

impl Params {
    pub fn new(targets: &[usize]) -> Self {
        Params {
            targets: targets
                .iter()
                .map(|l| (label_cfg(*l).to_string(), *l))
                .collect(),
            max_x: 1e5,
            max_y: 1e5,
            min_pts: None,
            uuids: None,
            center: 1.0,
            plane: 2.0,
            iou2: 0.5,
            iou3: 0.5,
        }
    }
    pub fn filter_params(&self) -> FilterParams {
        let names: Vec<&str> = self.targets.iter().map(|t| t.0.as_str()).collect();
        FilterParams::new(
            &names,
            self.max_x,
            self.max_y,
            self.min_pts,
            self.uuids.clone(),
        )
        .expect("filter params")
    }
    pub fn metrics_params(&self) -> MetricsParams {
        let names: Vec<&str> = self.targets.iter().map(|t| t.0.as_str()).collect();
        MetricsParams::new(&names, self.center, self.plane, self.iou2, self.iou3)
            .expect("metrics params")
    }
    pub fn config(&self, task: EvaluationTask) -> PerceptionEvaluationConfig {
        PerceptionEvaluationConfig {
            version: "v".into(),
            dataset_path: PathBuf::from("/nonexistent"),
            evaluation_task: task,
            frame_id: FrameID::BaseLink,
            result_dir: PathBuf::from("r"),
            log_dir: PathBuf::from("r/log"),
            viz_dir: PathBuf::from("r/visualize"),
            filter_params: self.filter_params(),
            metrics_params: self.metrics_params(),
            load_raw_data: false,
        }
    }
    pub fn labels(&self) -> Vec<Label> {
        self.targets.iter().map(|t| label(t.1)).collect()
    }
    pub fn is_target(&self, l: &Label) -> bool {
        self.targets.iter().any(|t| label(t.1) == *l)
    }
    pub fn keep(&self, o: &DynamicObject, is_gt: bool) -> bool {
        if !self.is_target(&o.label)
            || !(o.position[0].abs() < self.max_x)
            || !(o.position[1].abs() < self.max_y)
        {
            return false;
        }
        if is_gt {
            if let (Some(min), Some(n)) = (self.min_pts, o.pointcloud_num) {
                if n < min {
                    return false;
                }
            }
            if let Some(ids) = &self.uuids {
                match &o.uuid {
                    None => return false,
                    Some(u) => {
                        if !ids.iter().any(|x| x == u) {
                            return false;
                        }
                    }
                }
            }
        }
        true
    }
    pub fn filter(&self, os: &[DynamicObject], is_gt: bool) -> Vec<DynamicObject> {
        os.iter().filter(|o| self.keep(o, is_gt)).cloned().collect()
    }
}

/// Pairing, nearest first. None if it is not unique (two candidate distances equal within 1e-9).
pub fn pair(est: &[DynamicObject], gt: &[DynamicObject]) -> Option<Vec<Option<usize>>> {
    let mut c: Vec<(f64, usize, usize)> = vec![];
    for (i, e) in est.iter().enumerate() {
        for (j, g) in gt.iter().enumerate() {
            if e.label == g.label {
                c.push((geom::center(e, g), i, j));
            }
        }
    }
    c.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut used = vec![false; gt.len()];
    let mut out: Vec<Option<usize>> = vec![None; est.len()];
    let live = |k: usize, out: &Vec<Option<usize>>, used: &Vec<bool>| {
        out[c[k].1].is_none() && !used[c[k].2]
    };
    for k in 0..c.len() {
        let (d, i, j) = c[k];
        if !live(k, &out, &used) {
            continue;
        }
        // a tie matters only if it competes for the same estimate or ground truth
        for m in k + 1..c.len() {
            if c[m].0 - d > 1e-9 * (1.0 + d) {
                break;
            }
            if live(m, &out, &used) && (c[m].1 == i || c[m].2 == j) {
                return None;
            }
        }
        out[i] = Some(j);
        used[j] = true;
    }
    Some(out)
}

/// One evaluated estimate of a label.
#[derive(Clone, Debug)]
pub struct Item {
    pub conf: f64,
    /// verdict under centre distance and plane distance
    pub tp: [bool; 2],
    /// heading weight
    pub w: f64,
}

#[derive(Clone, Debug)]
pub struct LabelData {
    pub items: Vec<Item>,
    pub num_gt: usize,
}

/// The history as the model sees it, per target; None when a verdict or the pairing is not clear-cut.
pub fn history(
    p: &Params,
    frames: &[(Vec<DynamicObject>, Vec<DynamicObject>)],
) -> Option<Vec<LabelData>> {
    let mut out: Vec<LabelData> = p
        .targets
        .iter()
        .map(|_| LabelData {
            items: vec![],
            num_gt: 0,
        })
        .collect();
    for (est, gt) in frames {
        let e = p.filter(est, false);
        let g = p.filter(gt, true);
        let m = pair(&e, &g)?;
        for (t, d) in p.targets.iter().zip(out.iter_mut()) {
            let l = label(t.1);
            d.num_gt += g.iter().filter(|o| o.label == l).count();
            for (i, o) in e.iter().enumerate().filter(|(_, o)| o.label == l) {
                let mut it = Item {
                    conf: o.confidence,
                    tp: [false; 2],
                    w: 0.0,
                };
                if let Some(j) = m[i] {
                    let c = geom::center(o, &g[j]);
                    let q = if c == 0.0 && o.orientation == g[j].orientation && o.size == g[j].size
                    {
                        0.0
                    } else {
                        geom::plane(o, &g[j])?
                    };
                    for (k, (v, thr)) in [(c, p.center), (q, p.plane)].into_iter().enumerate() {
                        if v != 0.0 && (v - thr).abs() < verdict_margin(o, &g[j], thr) {
                            return None;
                        }
                        it.tp[k] = v < thr;
                    }
                    let d = geom::angle_diff(
                        geom::heading(&o.orientation),
                        geom::heading(&g[j].orientation),
                    );
                    it.w = 1.0 - d / std::f64::consts::PI;
                }
                d.items.push(it);
            }
        }
    }
    Some(out)
}

/// A distance closer than this to its threshold is not judged: rounding may decide.
pub fn verdict_margin(a: &DynamicObject, b: &DynamicObject, thr: f64) -> f64 {
    let unit = |o: &DynamicObject| {
        (o.orientation.iter().map(|x| x * x).sum::<f64>() - 1.0).abs() < 1e-12
    };
    let scale = [a, b]
        .iter()
        .flat_map(|o| o.position.iter().chain(o.size.iter()))
        .fold(0.0f64, |m, x| m.max(x.abs()));
    if unit(a) && unit(b) {
        1e-9 * thr.abs() + 1e-13 * scale
    } else {
        1e-6
    }
}

/// Area under the interpolated precision-recall curve of a ranking given by its true-positive weights.
pub fn ap_of(weights: &[f64], num_gt: usize) -> f64 {
    if num_gt == 0 {
        return if weights.is_empty() { f64::NAN } else { 0.0 };
    }
    let mut cum = 0.0;
    let pr: Vec<(f64, f64)> = weights
        .iter()
        .enumerate()
        .map(|(k, w)| {
            cum += w;
            (cum / (k + 1) as f64, cum / num_gt as f64)
        })
        .collect();
    let mut best = 0.0f64;
    let mut ap = 0.0;
    for k in (0..pr.len()).rev() {
        best = best.max(pr[k].0);
        let before = if k == 0 { 0.0 } else { pr[k - 1].1 };
        ap += (pr[k].1 - before) * best;
    }
    ap
}

/// Every AP and APH the definition allows for criterion `mode` (several only when confidences tie); None if there
/// are too many tied rankings to enumerate.
pub fn allowed(d: &LabelData, mode: usize) -> Option<(Vec<f64>, Vec<f64>)> {
    let mut items: Vec<(f64, f64, f64)> = d
        .items
        .iter()
        .map(|i| {
            (
                i.conf,
                if i.tp[mode] { 1.0 } else { 0.0 },
                if i.tp[mode] { i.w } else { 0.0 },
            )
        })
        .collect();
    items.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    // groups of equal confidence
    let mut groups: Vec<Vec<(f64, f64)>> = vec![];
    let mut last = f64::NAN;
    for (c, a, h) in items {
        if c == last {
            groups.last_mut().unwrap().push((a, h));
        } else {
            groups.push(vec![(a, h)]);
            last = c;
        }
    }
    let mut total = 1usize;
    for g in &mut groups {
        g.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if g.iter().all(|x| *x == g[0]) {
            continue;
        }
        total = total.checked_mul((1..=g.len()).product())?;
    }
    if total > 5040 {
        return None;
    }
    let mut seqs: Vec<Vec<(f64, f64)>> = vec![vec![]];
    for g in &groups {
        let perms = distinct_permutations(g);
        let mut next = vec![];
        for s in &seqs {
            for p in &perms {
                let mut t = s.clone();
                t.extend(p.iter().copied());
                next.push(t);
            }
        }
        seqs = next;
    }
    let mut aps: BTreeSet<u64> = BTreeSet::new();
    let mut aphs: BTreeSet<u64> = BTreeSet::new();
    for s in &seqs {
        aps.insert(ap_of(&s.iter().map(|x| x.0).collect::<Vec<_>>(), d.num_gt).to_bits());
        aphs.insert(ap_of(&s.iter().map(|x| x.1).collect::<Vec<_>>(), d.num_gt).to_bits());
    }
    let f = |s: BTreeSet<u64>| s.into_iter().map(f64::from_bits).collect::<Vec<_>>();
    Some((f(aps), f(aphs)))
}

fn distinct_permutations(g: &[(f64, f64)]) -> Vec<Vec<(f64, f64)>> {
    if g.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..g.len() {
        if i > 0 && g[i] == g[i - 1] {
            continue;
        }
        let mut rest = g.to_vec();
        let x = rest.remove(i);
        for mut p in distinct_permutations(&rest) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

/// Does a printed value (3 decimals) agree with one of the allowed ones?
pub fn agrees(printed: f64, allowed: &[f64]) -> bool {
    allowed
        .iter()
        .any(|a| (a.is_nan() && printed.is_nan()) || (a - printed).abs() <= 0.000_501)
}

pub fn gt_frame(t: i64, objects: Vec<DynamicObject>) -> FrameGroundTruth {
    FrameGroundTruth {
        timestamp: us(t),
        objects,
    }
}
