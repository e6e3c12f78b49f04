//! C03: TP / FP / FN of a frame. C04: filtering.
use crate::engine::*;
use crate::ensure;
use crate::geom;
use crate::model::*;
use crate::obj::*;
use perception_eval::config::FilterParams;
use perception_eval::filter::filter_objects;
use perception_eval::matching::MatchingMode;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::frame::PerceptionFrameResult;
use perception_eval::result::object::PerceptionResult;

pub const MODES: [MatchingMode; 4] = [
    MatchingMode::CenterDistance,
    MatchingMode::PlaneDistance,
    MatchingMode::Iou2d,
    MatchingMode::Iou3d,
];

/// Reference score of a pair; None if it is not clear-cut.
pub fn score(mode: usize, e: &DynamicObject, g: &DynamicObject) -> Option<f64> {
    match mode {
        0 => Some(geom::center(e, g)),
        1 => geom::plane(e, g),
        2 => Some(geom::iou2d(e, g)),
        _ => Some(geom::iou3d(e, g)),
    }
}
pub fn passes(mode: usize, v: f64, thr: f64) -> bool {
    if mode < 2 {
        v < thr
    } else {
        v > thr
    }
}

fn res_same(a: &PerceptionResult, b: &PerceptionResult) -> bool {
    same(&a.estimated_object, &b.estimated_object)
        && match (&a.ground_truth_object, &b.ground_truth_object) {
            (None, None) => true,
            (Some(x), Some(y)) => same(x, y),
            _ => false,
        }
}
fn res_list(a: &[PerceptionResult], b: &[PerceptionResult]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| res_same(x, y))
}
fn show_res(r: &[PerceptionResult]) -> String {
    r.iter()
        .map(|r| {
            format!(
                "{}->{}",
                short(&r.estimated_object),
                r.ground_truth_object
                    .as_ref()
                    .map(short)
                    .unwrap_or("-".into())
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Judges one frame: the results, the ground truths of the frame, the targets and their thresholds.
fn judge_frame(
    ch: &mut Ch,
    results: &[PerceptionResult],
    gts: &[DynamicObject],
    targets: &[usize],
    mode: usize,
    thr: &[f64],
) -> R {
    let labels: Vec<_> = targets.iter().map(|l| label(*l)).collect();
    let mut tp: Vec<PerceptionResult> = vec![];
    let mut fp: Vec<PerceptionResult> = vec![];
    let mut missed: Vec<DynamicObject> = gts.to_vec();
    for r in results {
        let Some(k) = labels.iter().position(|l| *l == r.estimated_object.label) else {
            continue;
        };
        let ok = match &r.ground_truth_object {
            None => false,
            Some(g) => {
                let Some(v) = score(mode, &r.estimated_object, g) else {
                    return Err(Stop::Skip);
                };
                if (v - thr[k]).abs() < 1e-9 {
                    return Err(Stop::Skip);
                }
                passes(mode, v, thr[k])
            }
        };
        if ok {
            tp.push(r.clone());
            let g = r.ground_truth_object.as_ref().unwrap();
            if let Some(p) = missed.iter().position(|m| same(m, g)) {
                missed.remove(p);
            }
        } else {
            fp.push(r.clone());
        }
    }
    let frame = gt_frame(1_000_000, gts.to_vec());
    ch.step();
    let out = match PerceptionFrameResult::new(
        results.to_vec(),
        frame,
        &labels,
        MODES[mode].clone(),
        thr,
    ) {
        Ok(o) => o,
        Err(e) => return fail(format!("error {e}")),
    };
    if ch.verbose() {
        let s = format!(
            "mode {:?} targets {:?} thresholds {:?} results {} ground truths {}",
            MODES[mode],
            labels,
            thr,
            show_res(results),
            shorts(gts)
        );
        ch.note(|| s);
        let s = format!(
            "TP {} | FP {} | FN {}",
            show_res(out.tp_results()),
            show_res(out.fp_results()),
            shorts(out.fn_objects())
        );
        ch.note(|| s);
    }
    ensure!(
        res_list(out.results(), results),
        "the results of the frame are not the given ones"
    );
    ensure!(
        same_list(&out.frame_ground_truth().objects, gts)
            && out.frame_ground_truth().timestamp == us(1_000_000),
        "the ground truth of the frame is not the given one"
    );
    ensure!(
        res_list(out.tp_results(), &tp),
        "TP: expected {}, got {}",
        show_res(&tp),
        show_res(out.tp_results())
    );
    ensure!(
        res_list(out.fp_results(), &fp),
        "FP: expected {}, got {}",
        show_res(&fp),
        show_res(out.fp_results())
    );
    let key = |v: &[DynamicObject]| {
        let mut k: Vec<u64> = v.iter().map(h).collect();
        k.sort();
        k
    };
    ensure!(
        key(out.fn_objects()) == key(&missed),
        "FN: expected {}, got {}",
        shorts(&missed),
        shorts(out.fn_objects())
    );
    ch.compared();
    let rs: Vec<_> = results
        .iter()
        .map(|r| {
            (
                h(&r.estimated_object),
                r.ground_truth_object.as_ref().map(h),
            )
        })
        .collect();
    let t: Vec<u64> = thr.iter().map(|x| x.to_bits()).collect();
    ch.state(&(rs, hl(gts), targets, mode, t));
    ch.outcome(&(tp.len(), fp.len(), missed.len()));
    Ok(())
}

const TARGETS: &[&[usize]] = &[
    &[0],
    &[0, 1],
    &[1, 0],
    &[2, 1, 0],
    &[],
    &[0, 1, 0],
    &[1, 1, 2],
    &[7, 6, 5, 4, 3, 2, 1, 0],
];

/// Threshold lists per mode: the same for all, rising, falling.
fn thresholds(mode: usize, n: usize, k: usize) -> Vec<f64> {
    let menu: [f64; 4] = if mode < 2 {
        [0.5, 1.5, 4.0, 100.0]
    } else {
        [0.9, 0.5, 0.2, 0.01]
    };
    (0..n)
        .map(|i| match k {
            0 => menu[1],
            1 => menu[i % 4],
            2 => menu[3 - i % 4],
            _ => menu[(i * 2 + 1) % 4],
        })
        .collect()
}

/// Result kinds: label 0..3 x {at its ground truth, slightly off, off, far away, unpaired}.
fn kind(k: usize, at: usize) -> (DynamicObject, Option<DynamicObject>) {
    let (l, q) = (k / 5, k % 5);
    let mut g = obj(l, [20.0 + 15.0 * at as f64, 3.0, 0.5]);
    g.uuid = Some(format!("g{at}"));
    g.confidence = 1.0;
    let mut e = g.clone();
    e.uuid = Some(format!("e{at}"));
    e.confidence = 0.3 + 0.1 * at as f64;
    e.position[0] += [0.0, 0.7, 2.3, 60.0, 0.0][q];
    (e, (q != 4).then_some(g))
}

pub fn c03(tier: Tier) -> Vec<Space> {
    let max = tier.pick(3, 4);
    let lists = Space::new(
        "verdicts",
        &format!("all lists of up to {max} results over 3 labels x 5 kinds (exact, slightly off, off, far, unpaired) x 8 target lists x 4 modes x 4 threshold lists x 4 kinds of extra ground truths"),
        move |ch| {
            let n = ch.choose(max + 1);
            let mut results = vec![];
            let mut gts = vec![];
            for k in 0..n {
                let (e, g) = kind(ch.choose(15), k);
                gts.extend(g.clone());
                results.push(PerceptionResult::new(e, g));
            }
            let t = ch.pick(TARGETS);
            let mode = ch.choose(4);
            let thr = thresholds(mode, t.len(), ch.choose(4));
            match ch.choose(4) {
                0 => {}
                1 => gts.insert(0, obj(0, [90.0, 1.0, 0.0])),
                2 => {
                    // a twin of the first ground truth, differing only in its ID
                    let mut g = gts.first().cloned().unwrap_or(obj(1, [5.0, 5.0, 0.0]));
                    g.uuid = Some("twin".into());
                    gts.insert(0, g);
                }
                _ => {
                    gts.reverse();
                    gts.push(obj(5, [5.0, 5.0, 0.0]));
                }
            }
            judge_frame(ch, &results, &gts, t, mode, &thr)
        },
    );
    // Ground truths that agree in much of what they carry.
    let twins = Space::new(
        "twins",
        "3 same-label ground truths, the second and third each differing from the first in one of 10 ways (or in none), every subset paired by an exact or a far result, in both orders",
        |ch| {
            let l = ch.choose(NL);
            let base = obj(l, [12.0, 3.0, 0.5]);
            let mut gts = vec![base.clone()];
            for _ in 0..2 {
                let mut g = base.clone();
                match ch.choose(11) {
                    0 => {}
                    10 => g.frame_id = perception_eval::frame_id::FrameID::Map,
                    1 => g.uuid = Some("other".into()),
                    2 => g.uuid = None,
                    3 => g.size = [2.0, 4.0, 1.7],
                    4 => g.pointcloud_num = None,
                    5 => g.velocity = Some([1.0, 0.0, 0.0]),
                    6 => g.confidence = 0.9,
                    7 => g.orientation = yaw(5.0),
                    8 => g.timestamp = us(1_000_001),
                    _ => g.position[2] += 0.1,
                }
                gts.push(g);
            }
            let mut results = vec![];
            for k in 0..3 {
                let q = ch.choose(3);
                if q == 0 {
                    continue;
                }
                let mut e = gts[k].clone();
                e.uuid = Some(format!("e{k}"));
                e.position[0] += if q == 1 { 0.1 } else { 50.0 };
                results.push(PerceptionResult::new(e, Some(gts[k].clone())));
            }
            if ch.flag() {
                results.reverse();
            }
            let order = ch.permutation(3);
            let gts: Vec<_> = order.iter().map(|i| gts[*i].clone()).collect();
            judge_frame(ch, &results, &gts, &[l], 0, &[2.0])
        },
    );
    // Two ground truths that differ in one small detail: only the one that is detected is no FN.
    let close = Space::new(
        "close twins",
        "2 ground truths that differ in one small detail out of 34 (unknown / 0 / 1 points, confidences and coordinates by one ulp to a millionth, q and -q, times by 1 us and 1 ns, identifiers by case or blanks or missing, velocities none / zero / small, frames), one of them or both or none detected, in both orders, in 4 modes",
        |ch| {
            let l = ch.choose(NL);
            let mut a = obj(l, [12.0, 3.0, 0.5]);
            a.uuid = Some("a".into());
            let mut b = a.clone();
            match ch.choose(34) {
                0 => (a.pointcloud_num, b.pointcloud_num) = (None, Some(0)),
                1 => (a.pointcloud_num, b.pointcloud_num) = (Some(0), Some(1)),
                2 => (a.pointcloud_num, b.pointcloud_num) = (None, Some(usize::MAX)),
                3 => (a.pointcloud_num, b.pointcloud_num) = (Some(1), Some((1 << 32) + 1)),
                k @ 4..=6 => b.confidence = [1.0 - 1e-6, 1.0 - 1e-12, next_down(1.0)][k - 4],
                7 => (a.confidence, b.confidence) = (0.0, 1e-300),
                k @ 8..=10 => b.position[k - 8] = next_up(b.position[k - 8]),
                k @ 11..=13 => b.position[k - 11] += 1e-7,
                k @ 14..=16 => b.size[k - 14] = next_up(b.size[k - 14]),
                k @ 17..=19 => b.size[k - 17] += 1e-7,
                20 => b.orientation = b.orientation.map(|v| -v),
                21 => b.orientation[3] = 1e-12,
                22 => b.timestamp = a.timestamp + chrono::Duration::microseconds(1),
                23 => b.timestamp = a.timestamp + chrono::Duration::nanoseconds(1),
                24 => b.uuid = Some("A".into()),
                25 => b.uuid = Some("a ".into()),
                26 => b.uuid = Some("".into()),
                27 => (a.uuid, b.uuid) = (None, Some("".into())),
                28 => b.uuid = None,
                29 => (a.velocity, b.velocity) = (None, Some([0.0; 3])),
                30 => (a.velocity, b.velocity) = (Some([0.0; 3]), Some([0.0, 0.0, 1e-9])),
                31 => b.velocity = b.velocity.map_or(Some([1.0; 3]), |_| None),
                32 => b.frame_id = perception_eval::frame_id::FrameID::Map,
                _ => (a.uuid, b.uuid) = (Some("1".into()), Some("01".into())),
            }
            let (detect_a, detect_b) = (ch.flag(), ch.flag());
            let mut results = vec![];
            for (g, detected) in [(&a, detect_a), (&b, detect_b)] {
                let mut e = g.clone();
                e.uuid = Some(format!("e{}", results.len()));
                e.position[1] += if detected { 0.1 } else { 50.0 };
                results.push(PerceptionResult::new(e, Some(g.clone())));
            }
            if ch.flag() {
                results.reverse();
            }
            let gts = if ch.flag() { vec![a, b] } else { vec![b, a] };
            let mode = ch.choose(4);
            judge_frame(ch, &results, &gts, &[l], mode, &[if mode < 2 { 2.0 } else { 0.1 }])
        },
    );
    let long_n = tier.pick(
        vec![0usize, 1, 5, 16, 33, 64, 100, 130, 260, 520, 1030],
        vec![
            0, 1, 5, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 300, 520,
            1030, 2100,
        ],
    );
    let long = Space::new(
        "long",
        &format!("result lists of length {long_n:?} in 6 patterns x 8 labels x 4 modes, with every third ground truth missed or not"),
        move |ch| {
            let n = ch.pick(&long_n);
            let pat = ch.choose(6);
            let l = ch.choose(NL);
            let mode = ch.choose(4);
            let extra = ch.flag();
            let (mut results, mut gts) = (vec![], vec![]);
            for k in 0..n {
                let q = match pat {
                    0 => 0,
                    1 => 3,
                    2 => k % 5,
                    3 => (k / 7) % 5,
                    4 => 4,
                    _ => (k * k) % 5,
                };
                let (mut e, mut g) = kind(q, k);
                e.label = label(l + if pat == 5 { k % 2 } else { 0 });
                if let Some(g) = &mut g {
                    g.label = e.label.clone();
                    gts.push(g.clone());
                }
                if extra && k % 3 == 0 {
                    let mut m = obj(l, [k as f64, -70.0, 0.0]);
                    m.uuid = None;
                    gts.push(m);
                }
                results.push(PerceptionResult::new(e, g));
            }
            let targets: Vec<usize> = (0..NL).map(|i| (i + 3) % NL).collect();
            let thr = thresholds(mode, NL, 1);
            judge_frame(ch, &results, &gts, &targets, mode, &thr)
        },
    );
    // Results put together by the caller: the counterpart's label, and which ground truth it is, are free.
    let counterparts = Space::new(
        "counterparts",
        "2 results put together freely: each of 3 labels, with one of 5 counterparts (own, the other's, of another label, not of this frame, none), exact, off or far; ground truths of the frame: both, one, none, doubled; 5 target lists x 4 threshold lists x 4 modes",
        |ch| {
            let g: Vec<DynamicObject> = (0..2)
                .map(|k| {
                    let mut g = obj(k, [20.0 + 15.0 * k as f64, 3.0, 0.5]);
                    g.uuid = Some(format!("g{k}"));
                    g.confidence = 1.0;
                    g
                })
                .collect();
            let mode = ch.choose(4);
            let mut results = vec![];
            for k in 0..2 {
                let l = ch.choose(3);
                let c = match ch.choose(5) {
                    0 => Some(g[k].clone()),
                    1 => Some(g[1 - k].clone()),
                    2 => {
                        let mut x = g[k].clone();
                        x.label = label(7);
                        Some(x)
                    }
                    3 => {
                        let mut x = obj(l, [50.0, -9.0, 0.0]);
                        x.uuid = None;
                        Some(x)
                    }
                    _ => None,
                };
                let mut e = c.clone().unwrap_or(g[k].clone());
                e.label = label(l);
                e.uuid = Some(format!("e{k}"));
                e.confidence = 0.3 + 0.1 * k as f64;
                if c.is_some() {
                    e.position[0] += ch.pick(&[0.0, 2.3, 60.0]);
                }
                results.push(PerceptionResult::new(e, c));
            }
            let gts: Vec<DynamicObject> = match ch.choose(4) {
                0 => g,
                1 => vec![g[1].clone()],
                2 => vec![],
                _ => vec![g[0].clone(), g[0].clone(), g[1].clone()],
            };
            let t: &[usize] = ch.pick(&[&[0, 1, 2][..], &[1, 0], &[7, 2, 1], &[0, 7], &[2]]);
            let thr = thresholds(mode, t.len(), ch.choose(4));
            judge_frame(ch, &results, &gts, t, mode, &thr)
        },
    );
    // Thresholds that let everything or nothing pass.
    let odd = Space::new(
        "odd thresholds",
        "2 results of 2 labels, each exact, slightly off, off, far or unpaired, with thresholds of their own out of 14 (zeros, negatives, infinities, the smallest and largest numbers, 1, around 1e9), in 4 modes and both target orders",
        |ch| {
            let v = [
                0.0, -0.0, -0.5, -1e-6, -1e300, f64::NEG_INFINITY, f64::INFINITY, f64::MAX, f64::MIN_POSITIVE, 1e-6, 1.0, 1.0 - 1e-6, 1e9, 1.5,
            ];
            let mode = ch.choose(4);
            let mut results = vec![];
            let mut gts = vec![];
            for k in 0..2 {
                let (e, g) = kind(5 * k + ch.choose(5), k);
                gts.extend(g.clone());
                results.push(PerceptionResult::new(e, g));
            }
            let thr = [ch.pick(&v), ch.pick(&v)];
            let t = [[0, 1], [1, 0]][ch.choose(2)];
            judge_frame(ch, &results, &gts, &t, mode, &thr)
        },
    );
    vec![lists, counterparts, twins, close, odd, long]
}

// ---------------------------------------------------------------- C04

/// Target lists as configured: (names, labels).
const TL: &[&[(&str, usize)]] = &[
    &[("car", 0)],
    &[],
    &[("pedestrian", 1), ("car", 0)],
    &[("car", 0), ("vehicle.car", 0), ("bus", 3)],
    &[("truck", 2), ("trailer", 2), ("bicycle", 4)],
    &[("unknown", 7)],
    &[("no.such.name", 7), ("animal", 6)],
    &[
        ("car", 0),
        ("bicycle", 4),
        ("pedestrian", 1),
        ("motorbike", 5),
    ],
    &[
        ("animal", 6),
        ("unknown", 7),
        ("motorbike", 5),
        ("pedestrian", 1),
        ("bicycle", 4),
        ("bus", 3),
        ("truck", 2),
        ("car", 0),
    ],
];

fn next_up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}
fn next_down(x: f64) -> f64 {
    f64::from_bits(x.to_bits() - 1)
}

fn ids(k: usize) -> Option<Vec<String>> {
    let f = |v: &[&str]| Some(v.iter().map(|s| s.to_string()).collect());
    match k {
        0 => None,
        1 => f(&[]),
        2 => f(&["a"]),
        3 => f(&["b", "a"]),
        4 => f(&["", "c"]),
        _ => f(&["A", "aa"]),
    }
}

fn params_of(p: &Params) -> FilterParams {
    p.filter_params()
}

fn judge_filter(ch: &mut Ch, objs: &[DynamicObject], is_gt: bool, p: &Params) -> R {
    let fp = params_of(p);
    ch.step();
    let got = filter_objects(objs, is_gt, &fp);
    let want = p.filter(objs, is_gt);
    if ch.verbose() {
        let s = format!("is_gt {is_gt} {p:?}");
        ch.note(|| s);
        let s = format!(
            "given {}",
            objs.iter().map(show).collect::<Vec<_>>().join(" ; ")
        );
        ch.note(|| s);
        let s = format!("kept {}", shorts(&got));
        ch.note(|| s);
    }
    ensure!(
        same_list(&got, &want),
        "kept {}, expected {}",
        shorts(&got),
        shorts(&want)
    );
    ch.compared();
    ch.state(&(hl(objs), is_gt, format!("{p:?}")));
    ch.outcome(&objs.iter().map(|o| p.keep(o, is_gt)).collect::<Vec<_>>());
    Ok(())
}

pub fn c04(tier: Tier) -> Vec<Space> {
    let mk = |names: &[(&str, usize)]| {
        let mut p = Params::new(&[]);
        p.targets = names.iter().map(|(n, l)| (n.to_string(), *l)).collect();
        p
    };
    let one = Space::new(
        "one object",
        "every combination of 9 target lists x 8 labels x 6 point counts x 4 minima x 5 IDs x 6 ID lists x estimate/ground truth, at places in, at and out of the region",
        move |ch| {
            let mut p = mk(ch.pick(TL));
            p.max_x = 20.0;
            p.max_y = 7.5;
            let is_gt = ch.flag();
            let mut o = obj(ch.choose(NL), [1.0, -1.0, 0.0]);
            o.position = ch.pick(&[[1.0, -1.0, 0.0], [20.0, 0.0, 0.0], [-19.5, 7.0, 80.0]]);
            o.pointcloud_num = ch.pick(&[Some(10), None, Some(0), Some(4), Some(5), Some(usize::MAX)]);
            p.min_pts = ch.pick(&[None, Some(0), Some(5), Some(11)]);
            o.uuid = ch.pick(&[Some("a"), None, Some("b"), Some(""), Some("aa")]).map(|s| s.to_string());
            p.uuids = ids(ch.choose(6));
            judge_filter(ch, &[o], is_gt, &p)
        },
    );
    let names = Space::new(
        "identifiers",
        "every identifier out of 20 texts (empty, blanks, letter case, prefixes, leading zeros, control and non-ASCII characters, composed and decomposed, 300 characters) or none x lists of no, one or any two of them x estimate/ground truth",
        move |ch| {
            let long = "0123456789".repeat(30);
            let texts = [
                "", " ", "a", " a", "a ", "A", "aa", "a\0", "a\n", "\u{e1}", "a\u{301}", "0", "00", "a,b", "b", "None", "null", "*",
                &long, &long[..299],
            ];
            let mut p = mk(&[("car", 0)]);
            let is_gt = ch.flag();
            let mut o = obj(0, [1.0, -1.0, 0.0]);
            let k = ch.choose(texts.len() + 1);
            o.uuid = texts.get(k).map(|t| t.to_string());
            let n = ch.choose(3);
            p.uuids = Some((0..n).map(|_| texts[ch.choose(texts.len())].to_string()).collect());
            judge_filter(ch, &[o], is_gt, &p)
        },
    );
    let region = Space::new(
        "region",
        "every combination of 20 x values x 20 y values relative to the limits (one ulp inside, at, one ulp outside, both signs, zeros, infinities, NaN) x 6 x-limits x 6 y-limits x estimate/ground truth x 8 labels x heights 0, 1e9, NaN, negative infinity",
        move |ch| {
            let lims = [20.0, 0.5, 1e-9, 0.0, 1e12, f64::INFINITY];
            let mut p = mk(TL[8]);
            p.max_x = ch.pick(&lims);
            p.max_y = ch.pick(&lims);
            let is_gt = ch.flag();
            let vals = |m: f64| -> Vec<f64> {
                let mut v = vec![0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 19.999, -20.0, 0.3];
                if m > 0.0 && m.is_finite() {
                    for x in [m, next_up(m), next_down(m), m / 2.0, 2.0 * m] {
                        v.push(x);
                        v.push(-x);
                    }
                } else {
                    v.extend([1e-300, -1e-300, f64::MAX, f64::MIN]);
                }
                v
            };
            let x = ch.pick(&vals(p.max_x));
            let y = ch.pick(&vals(p.max_y));
            let z = ch.pick(&[0.0, 1e9, f64::NAN, f64::NEG_INFINITY]);
            let l = ch.choose(NL);
            judge_filter(ch, &[obj(l, [x, y, z])], is_gt, &p)
        },
    );
    let counts = Space::new(
        "point counts",
        "every pair of a point count and a minimum out of 29 numbers (0, 1, 2, around 128, 256, 65 536, 2^24, 2^31, 2^32, 2^53, 2^63, the largest) x estimate/ground truth",
        move |ch| {
            let mut v: Vec<usize> = vec![0, 1, 2, usize::MAX, usize::MAX - 1];
            for b in [7, 8, 16, 24, 31, 32, 53, 63] {
                v.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
            }
            let mut p = mk(TL[8]);
            let is_gt = ch.flag();
            let a = ch.pick(&v);
            p.min_pts = Some(ch.pick(&v));
            let mut o = obj(ch.choose(NL), [1.0, -1.0, 0.0]);
            o.pointcloud_num = Some(a);
            let mut o2 = o.clone();
            o2.pointcloud_num = p.min_pts;
            judge_filter(ch, &[o, o2], is_gt, &p)
        },
    );
    let max = tier.pick(7, 8);
    let lists = Space::new(
        "lists",
        &format!("all lists of up to {max} objects over 6 kinds (kept, other label, outside x, outside y, few points, other ID) x estimate/ground truth"),
        move |ch| {
            let mut p = mk(TL[7]);
            p.max_x = 20.0;
            p.max_y = 30.0;
            p.min_pts = Some(3);
            p.uuids = Some(vec!["a".into(), "b".into()]);
            let is_gt = ch.flag();
            let n = ch.choose(max + 1);
            let objs: Vec<_> = (0..n)
                .map(|k| {
                    let mut o = obj(0, [k as f64, 0.5, 0.0]);
                    o.uuid = Some(if k % 2 == 0 { "a".into() } else { "b".into() });
                    match ch.choose(6) {
                        0 => {}
                        1 => o.label = label(2),
                        2 => o.position[0] = -20.5,
                        3 => o.position[1] = 31.0,
                        4 => o.pointcloud_num = Some(2),
                        _ => o.uuid = Some("c".into()),
                    }
                    o
                })
                .collect();
            judge_filter(ch, &objs, is_gt, &p)
        },
    );
    let b = tier.pick(3, 4);
    let irrelevant = Space::new(
        "attributes",
        &format!("3 objects, all attributes varied (frames, sizes, headings, confidences, velocities, times, places, point counts, IDs, and heights, sizes, headings, confidences and velocities that are no numbers, infinite, zero or negative), up to {b} deviations, x 3 filters x estimate/ground truth"),
        move |ch| {
            let mut p = mk(TL[ch.pick(&[8usize, 7, 2])]);
            p.max_x = 100.0;
            p.max_y = 50.0;
            if ch.flag() {
                p.min_pts = Some(1);
                p.uuids = Some(vec!["e1".into(), "u".into(), "".into()]);
            }
            let is_gt = ch.flag();
            let mut objs: Vec<_> = (0..3).map(|k| obj(k % 2, [3.0 * k as f64, 1.0, 0.0])).collect();
            for o in objs.iter_mut() {
                super::pairing::vary(ch, o, is_gt);
                let x = f64::INFINITY;
                match ch.deviate(9) {
                    0 => {}
                    1 => o.position[2] = f64::NAN,
                    2 => o.size = [f64::NAN, 0.0, -x],
                    3 => o.orientation = [f64::NAN, 0.0, x, 0.0],
                    4 => o.orientation = [0.0; 4],
                    5 => o.confidence = f64::NAN,
                    6 => o.confidence = x,
                    7 => o.velocity = Some([f64::NAN, x, 0.0]),
                    _ => o.size = [-4.0, -2.0, -1.0],
                }
            }
            judge_filter(ch, &objs, is_gt, &p)
        },
    )
    .budget(b);
    let ns = tier.pick(
        vec![0usize, 10, 33, 100, 130, 260, 520, 1030, 5000],
        vec![0, 10, 31, 32, 33, 64, 100, 128, 129, 257, 1000, 5000, 70000],
    );
    let long = Space::new(
        "long",
        &format!(
            "lists of {ns:?} objects in 4 patterns x ID lists of 0..1100 IDs x estimate/ground truth"
        ),
        move |ch| {
            let mut p = mk(TL[8]);
            p.max_x = 50.0;
            p.max_y = 50.0;
            let n = ch.pick(&ns);
            let pat = ch.choose(4);
            let nid = ch.pick(&[usize::MAX, 0, 1, 7, 40, 300, 1100]);
            if nid != usize::MAX {
                p.uuids = Some((0..nid).map(|k| format!("id{}", k * 3)).collect());
            }
            p.min_pts = [None, Some(2)][ch.choose(2)];
            let is_gt = ch.flag();
            let objs: Vec<_> = (0..n)
                .map(|k| {
                    let f = k as f64;
                    let mut o = obj(
                        k % if pat == 0 { 1 } else { 8 },
                        [f * 0.7, if pat == 2 { -f } else { 0.0 }, 0.0],
                    );
                    o.uuid = (pat != 3 || k % 2 == 0).then(|| format!("id{k}"));
                    o.pointcloud_num = Some(k % 4);
                    o
                })
                .collect();
            judge_filter(ch, &objs, is_gt, &p)
        },
    );
    vec![one, region, counts, names, lists, irrelevant, long]
}
