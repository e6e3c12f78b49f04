//! C33: evaluation is total.
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::obj::*;
use crate::report;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::filter::filter_objects;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::matching::MatchingMode;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::frame::PerceptionFrameResult;
use perception_eval::result::object::{get_perception_results, PerceptionResult};

const MODES: [MatchingMode; 4] = [
    MatchingMode::CenterDistance,
    MatchingMode::PlaneDistance,
    MatchingMode::Iou2d,
    MatchingMode::Iou3d,
];

fn weird(ch: &mut Ch, mut o: DynamicObject) -> DynamicObject {
    let p = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e200, 1e308, -1e308, 0.0, -0.0, 1e-300, -1e-12, 1.0, 1e6, -1e9, 1e15, 1e100];
    for i in 0..3 {
        let k = ch.deviate(p.len() + 1);
        if k > 0 {
            o.position[i] = p[k - 1];
        }
    }
    let s = [f64::NAN, f64::INFINITY, 1e200, 1e308, 0.0, 1e-300, 1e-9, 1e6, 1e100, -1.0];
    for i in 0..3 {
        let k = ch.deviate(s.len() + 1);
        if k > 0 {
            o.size[i] = s[k - 1];
        }
    }
    let h = std::f64::consts::FRAC_1_SQRT_2;
    let q = [
        [0.0; 4],[f64::NAN,0.0,0.0,0.0],[f64::NAN;4],[f64::INFINITY,0.0,0.0,0.0],[1e200,1e200,1.0,0.0],
        [2.0, 0.0, 0.0, 0.0],
        [0.5, 0.0, 0.0, 0.0],
        [1e-200, 0.0, 0.0, 1e-200],
        [1e100, 0.0, 0.0, 1e100],
        [h, 0.0, h, 0.0],
        [h, 0.0, -h, 0.0],
        [0.0, 1.0, 0.0, 0.0],
        [0.0, 0.0, 0.0, 1.0],
        [1.0, 1.0, 1.0, 1.0],
        [-1.0, 0.0, 0.0, 0.0],
    ];
    let k = ch.deviate(q.len() + 1);
    if k > 0 {
        o.orientation = q[k - 1];
    }
    let c = [f64::NAN, 0.0, -0.0, 1.0, -1.0, 2.0, 1e308, 1e-320, f64::INFINITY, f64::NEG_INFINITY];
    let k = ch.deviate(c.len() + 1);
    if k > 0 {
        o.confidence = c[k - 1];
    }
    match ch.deviate(5) {
        0 => {}
        1 => o.pointcloud_num = None,
        2 => o.pointcloud_num = Some(usize::MAX),
        3 => o.uuid = None,
        _ => o.velocity = Some([f64::NAN, 0.0, f64::INFINITY]),
    }
    o
}

fn total(ch: &mut Ch, est: &[DynamicObject], gt: &[DynamicObject], p: &Params) -> R {
    let what = || format!("estimates {}, ground truths {}", est.iter().map(show).collect::<Vec<_>>().join("; "), gt.iter().map(show).collect::<Vec<_>>().join("; "));
    ch.note(what);
    let r = guarded(|| get_perception_results(&est.to_vec(), &gt.to_vec()));
    let results = match r {
        Ok(r) => r,
        Err(e) => return fail(format!("pairing: {e}: {}", what())),
    };
    ensure!(results.len() == est.len(), "{} results for {} estimates: {}", results.len(), est.len(), what());
    // every pair under every mode
    for e in est {
        for g in gt {
            for mode in &MODES {
                for (a, b) in [(e, g), (g, e), (e, e)] {
                    ch.step();
                    let pr = PerceptionResult::new(a.clone(), Some(b.clone()));
                    for t in [0.0, 0.5, 1e9] {
                        if let Err(x) = guarded(|| pr.is_result_correct(mode, &t).map_err(|e| e.to_string())) {
                            return fail(format!("{mode:?}: {x}: {} against {}", show(a), show(b)));
                        }
                    }
                }
            }
        }
    }
    let labels = p.labels();
    for (mode, t) in MODES.iter().zip([p.center, p.plane, p.iou2, p.iou3]) {
        let m = format!("{mode:?}");
        let thr = vec![t; labels.len()];
        let mode = mode.clone();
        let f = guarded(|| PerceptionFrameResult::new(results.clone(), gt_frame(1_000_000, gt.to_vec()), &labels, mode, &thr).map_err(|e| e.to_string()));
        let f = match f {
            Ok(Ok(f)) => f,
            Ok(Err(e)) => return fail(format!("{m}: {e}: {}", what())),
            Err(e) => return fail(format!("{m}: {e}: {}", what())),
        };
        let n = results.iter().filter(|r| p.is_target(&r.estimated_object.label)).count();
        ensure!(f.tp_results().len() + f.fp_results().len() == n, "{m}: {} TP and {} FP of {n} results: {}", f.tp_results().len(), f.fp_results().len(), what());
        ensure!(f.fn_objects().len() <= gt.len(), "{m}: {} FN of {}", f.fn_objects().len(), gt.len());
    }
    let cfg = p.config(EvaluationTask::Detection);
    let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
    let r = guarded(|| {
        filter_objects(est, false, &cfg.filter_params);
        filter_objects(gt, true, &cfg.filter_params);
        m.add_frame_result(est, &gt_frame(1_000_000, gt.to_vec())).map_err(|e| e.to_string())?;
        m.add_frame_result(gt, &gt_frame(1_100_000, est.to_vec())).map_err(|e| e.to_string())?;
        m.get_metrics_score().map(|s| s.to_string()).map_err(|e| e.to_string())
    });
    let text = match r {
        Ok(Ok(t)) => t,
        Ok(Err(e)) | Err(e) => return fail(format!("manager: {e}: {}", what())),
    };
    for b in report::detection(&text).map_err(|e| Stop::Fail { key: String::new(), msg: format!("{e}: {text}") })? {
        for (row, v) in &b.rows {
            for (i, x) in v.iter().enumerate() {
                ensure!(x.is_nan() || (0.0..=1.0).contains(x), "{}: {row} of {} is {x}: {}", b.mode, b.labels[i], what());
                let any = m.frame_results.iter().any(|f| {
                    f.results().iter().any(|r| label_name(&r.estimated_object.label) == b.labels[i]) || f.frame_ground_truth().objects.iter().any(|o| label_name(&o.label) == b.labels[i])
                });
                // an orientation without a heading leaves the score that weighs headings open
                let headless = row == "APH" && est.iter().chain(gt).any(|o| o.heading().is_nan());
                ensure!(headless || !(any && x.is_nan()), "{}: {row} of {} is NaN although objects were evaluated: {}", b.mode, b.labels[i], what());
            }
        }
    }
    for o in est.iter().chain(gt) {
        if let Err(e) = guarded(|| {
            (o.heading(), o.euler(), o.footprint(), o.area(), o.volume(), o.distance(), o.distance_bev(), o.rotation_matrix(), o.to_string(), o.state().to_string())
        }) {
            return fail(format!("geometry: {e}: {}", show(o)));
        }
    }
    ch.steps(8);
    ch.compared();
    ch.state(&(hl(est), hl(gt), p.targets.clone(), [p.max_x, p.max_y, p.center, p.plane, p.iou2, p.iou3].map(f64::to_bits), p.min_pts, p.uuids.clone()));
    ch.outcome(&text);
    Ok(())
}

pub fn c33(tier: Tier) -> Vec<Space> {
    let limits = Space::new(
        "limits",
        "four pairs of objects (one with every number NaN, one without point count and identifier) x target lists of 0 to 8 labels, repeats included, x any N of the two reaches, the fewest points, the identifiers and the four thresholds at extreme values",
        move |ch| {
            let n = 9.min(ch.choose(10));
            let mut p = Params::new(&[vec![], vec![0], vec![0, 1], vec![1, 0, 0], vec![7], vec![0; 8], vec![2, 1], vec![0, 1, 2, 3, 4, 5, 6, 7], vec![6, 5, 4, 3, 2, 1, 0], vec![0, 7]][n]);
            let x = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, -1.0, 1e-300, 1e300, f64::MAX, f64::MIN_POSITIVE, 1e-3, 16.0];
            let mut pick = |ch: &mut Ch, to: &mut f64| {
                let k = ch.deviate(x.len() + 1);
                if k > 0 {
                    *to = x[k - 1];
                }
            };
            pick(ch, &mut p.max_x);
            pick(ch, &mut p.max_y);
            pick(ch, &mut p.center);
            pick(ch, &mut p.plane);
            pick(ch, &mut p.iou2);
            pick(ch, &mut p.iou3);
            p.min_pts = [None, Some(0), Some(1), Some(usize::MAX / 2), Some(usize::MAX / 2 + 1), Some(usize::MAX), Some(u32::MAX as usize + 1)][ch.deviate(7)];
            p.uuids = [None, Some(vec![]), Some(vec![String::new()]), Some(vec!["g1".into()]), Some(vec!["g1".into(); 3])][ch.deviate(5)].clone();
            let mut est = vec![];
            let mut gt = vec![];
            for (i, l) in [0usize, 0, 1, 7].into_iter().enumerate() {
                let at = [5.0 + 9.0 * i as f64, 1.0, 0.0];
                est.push(obj(l, at));
                let mut g = obj(l, [at[0] + 0.4, 1.0, 0.0]);
                g.uuid = Some(format!("g{i}"));
                g.pointcloud_num = Some([0, 1, usize::MAX, 5][i]);
                gt.push(g);
            }
            gt[3].uuid = None;
            gt[3].pointcloud_num = None;
            let mut broken = obj(0, [f64::NAN; 3]);
            broken.size = [f64::NAN; 3];
            broken.orientation = [f64::NAN; 4];
            broken.confidence = f64::NAN;
            est.push(broken);
            total(ch, &est, &gt, &p)
        },
    )
    .budget(tier.pick(2, 4));
    vec![limits, Space::new(
        "objects",
        "one estimate and one ground truth, and a second ordinary pair or none: any N numbers at extreme values, NaN and infinities included",
        move |ch| {
            let two = ch.flag();
            let near = ch.choose(3);
            let e = weird(ch, obj(0, [5.0, 1.0, 0.0]));
            let g = weird(ch, obj(0, [[5.0, 1.0, 0.0], [5.3, 1.2, 0.1], [25.0, 1.0, 0.0]][near]));
            let mut est = vec![e];
            let mut gt = vec![g];
            if two {
                est.push(obj(0, [15.0, 1.0, 0.0]));
                gt.push(obj(0, [15.5, 1.0, 0.0]));
                est.push(obj(1, [15.0, 1.0, 0.0]));
            }
            let mut p = Params::new(&[0, 1]);
            p.max_x = f64::MAX;
            p.max_y = f64::MAX;
            total(ch, &est, &gt, &p)
        },
    )
    .budget(tier.pick(2, 3))]
}
