//! C05 - C08: scores through the manager.
use crate::engine::*;
use crate::ensure;
use crate::geom;
use crate::model::*;
use crate::obj::*;
use crate::report::{self, Block};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::frame::PerceptionFrameResult;

pub type Frame = (Vec<DynamicObject>, Vec<DynamicObject>);
const ROW: [&str; 2] = ["AP", "APH"];
const MODE: [&str; 2] = ["CenterDistance", "PlaneDistance"];

/// Report of a history.
pub fn evaluate(ch: &mut Ch, p: &Params, frames: &[Frame]) -> Result<(String, [Block; 2]), Stop> {
    let cfg = p.config(EvaluationTask::Detection);
    let mut m = PerceptionEvaluationManager {
        config: &cfg,
        frame_ground_truths: vec![],
        frame_results: vec![],
    };
    for (k, (e, g)) in frames.iter().enumerate() {
        ch.step();
        if let Err(e) = m.add_frame_result(e, &gt_frame(1_000_000 + 100_000 * k as i64, g.clone()))
        {
            return fail(format!("adding frame {k}: {e}"));
        }
    }
    ch.step();
    let text = match m.get_metrics_score() {
        Ok(s) => format!("{s}"),
        Err(e) => return fail(format!("no score: {e}")),
    };
    match report::detection(&text) {
        Ok(b) => Ok((text, b)),
        Err(e) => fail(format!("unreadable report ({e}): {text}")),
    }
}

pub fn describe(ch: &mut Ch, p: &Params, frames: &[Frame]) {
    if ch.verbose() {
        let s = format!("{p:?}");
        ch.note(|| s);
        for (k, (e, g)) in frames.iter().enumerate() {
            let f = |os: &[DynamicObject]| {
                os.iter()
                    .map(|o| format!("{} yaw {:.3}", short(o), geom::heading(&o.orientation)))
                    .collect::<Vec<_>>()
                    .join(", ")
            };
            let s = format!("frame {k}: estimates [{}] ground truths [{}]", f(e), f(g));
            ch.note(|| s);
        }
    }
}
pub fn hframes(frames: &[Frame]) -> u64 {
    let v: Vec<(u64, u64)> = frames.iter().map(|(e, g)| (hl(e), hl(g))).collect();
    hash(&v)
}

/// C05: the report against the definition.
pub fn by_definition(ch: &mut Ch, p: &Params, frames: &[Frame]) -> R {
    describe(ch, p, frames);
    let Some(data) = history(p, frames) else {
        return Err(Stop::Skip);
    };
    let (text, blocks) = evaluate(ch, p, frames)?;
    judge_report(ch, p, &data, &text, &blocks)?;
    ch.compared();
    ch.state(&(hframes(frames), format!("{p:?}")));
    Ok(())
}

/// The report of a manager that already holds the history.
pub fn by_definition_of(
    ch: &mut Ch,
    p: &Params,
    frames: &[Frame],
    m: &PerceptionEvaluationManager,
) -> R {
    let Some(data) = history(p, frames) else {
        return Err(Stop::Skip);
    };
    ch.step();
    let text = match m.get_metrics_score() {
        Ok(s) => format!("{s}"),
        Err(e) => return fail(format!("no score: {e}")),
    };
    match report::detection(&text) {
        Ok(b) => judge_report(ch, p, &data, &text, &b),
        Err(e) => fail(format!("unreadable report ({e}): {text}")),
    }
}

fn judge_report(
    ch: &mut Ch,
    p: &Params,
    data: &[LabelData],
    text: &str,
    blocks: &[Block; 2],
) -> R {
    ch.note(|| text.to_string());
    let mut seen = vec![];
    for (mode, b) in blocks.iter().enumerate() {
        ensure!(
            b.labels.len() == p.targets.len(),
            "{}: {} columns for {} targets",
            MODE[mode],
            b.labels.len(),
            p.targets.len()
        );
        for (i, t) in p.targets.iter().enumerate() {
            ensure!(
                b.labels[i] == label_name(&label(t.1)),
                "{}: column {i} is {}, not {}",
                MODE[mode],
                b.labels[i],
                t.0
            );
            let Some((ap, aph)) = allowed(&data[i], mode) else {
                return Err(Stop::Skip);
            };
            for (row, want) in [(0, &ap), (1, &aph)] {
                let got = b.get(ROW[row], i).unwrap_or(f64::INFINITY);
                ensure!(
                    agrees(got, want),
                    "{} {} of {}: reported {}, by definition {:?} ({} ground truths, estimates by confidence {:?})",
                    MODE[mode],
                    ROW[row],
                    t.0,
                    got,
                    want,
                    data[i].num_gt,
                    {
                        let mut v: Vec<_> = data[i].items.iter().map(|x| (x.conf, x.tp[mode], x.w)).collect();
                        v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
                        v
                    }
                );
                seen.push((got * 1000.0).round() as i64);
            }
        }
    }
    ch.outcome(&seen);
    Ok(())
}

/// Outcome kinds of an estimate and its ground truth. Boxes 2 x 4, thresholds 1.0 (centre) and 2.0 (plane) unless varied.
/// 0 exact, 1 turned by 30 degrees, 2 turned by 180, 3 beyond both thresholds, 4 between the two thresholds (1.4 m off),
/// 5 turned by 90, 6 slightly off and turned by -150.
pub const NKIND: usize = 7;
pub fn pair_of(kind: usize, l: usize, at: usize, conf: f64) -> (DynamicObject, DynamicObject) {
    let mut g = obj(l, [30.0 + 25.0 * at as f64, 11.0, 0.0]);
    g.confidence = 1.0;
    g.uuid = Some(format!("g{at}"));
    g.orientation = yaw(20.0);
    let mut e = g.clone();
    e.uuid = None;
    e.pointcloud_num = None;
    e.confidence = conf;
    match kind {
        0 => {}
        1 => e.orientation = yaw(50.0),
        2 => e.orientation = yaw(200.0),
        3 => e.position[0] += 4.0,
        4 => e.position[1] += 1.4,
        5 => e.orientation = yaw(110.0),
        _ => {
            e.position[0] += 0.3;
            e.orientation = yaw(-130.0);
        }
    }
    (e, g)
}
fn surplus(l: usize, at: usize, conf: f64) -> DynamicObject {
    let mut e = obj(l, [30.0 + 25.0 * at as f64, -14.0, 0.0]);
    e.confidence = conf;
    e.uuid = None;
    e
}
pub fn missed(l: usize, k: usize) -> DynamicObject {
    let mut g = obj(l, [-40.0 - 23.0 * k as f64, 13.0, 0.0]);
    g.uuid = Some(format!("m{k}"));
    g.confidence = 1.0;
    g
}

/// Confidence of rank r (0 = highest).
fn conf_of(scale: usize, r: usize) -> f64 {
    let r = r as f64;
    match scale {
        0 => 0.95 - 0.05 * r,
        1 => 0.5 - 1e-10 * r,
        2 => 0.9 / (1.0 + r * r),
        _ => 2.0 - 0.75 * r,
    }
}

/// All rankings of up to n estimates of one label: kinds, submission orders, frames, missed ground truths.
fn rankings(tier: Tier) -> Vec<Space> {
    let n = tier.pick(3, 4);
    let full = Space::new(
        "rankings",
        &format!("one label: up to {n} estimates x 8 kinds (exact, turned 30/90/180/-150 degrees, between the thresholds, beyond them, unpaired) x every submission order x every split over 2 frames x 0..2 missed ground truths"),
        move |ch| {
            let cnt = ch.choose(n + 1);
            let kinds: Vec<usize> = (0..cnt).map(|_| ch.choose(NKIND + 1)).collect();
            let ranks = ch.permutation(cnt);
            let nm = ch.choose(3);
            let mut frames: Vec<Frame> = vec![(vec![], vec![]), (vec![], vec![])];
            for k in 0..cnt {
                let f = ch.choose(2);
                add(&mut frames[f], kinds[k], 0, k, conf_of(0, ranks[k]));
            }
            for k in 0..nm {
                frames[k % 2].1.push(missed(0, k));
            }
            by_definition(ch, &Params::new(&[0]), &frames)
        },
    );
    let m = tier.pick(5, 6);
    let binary = Space::new(
        "precision-recall curves",
        &format!("one label: every sequence of {m} estimates that are exact, half-turned-away (30 degrees) or wrong, by rank, submitted in 4 orders, 4 confidence scales, 0..2 missed"),
        move |ch| {
            let cnt = m;
            let kinds: Vec<usize> = (0..cnt).map(|_| [0, 3, 1][ch.choose(3)]).collect();
            let order = ch.choose(4);
            let scale = ch.choose(4);
            let nm = ch.choose(3);
            let mut f: Frame = (vec![], vec![]);
            for s in 0..cnt {
                let r = match order {
                    0 => s,
                    1 => cnt - 1 - s,
                    2 => (s * 2 + 1) % (2 * (cnt / 2) + 1),
                    _ => (s + cnt / 2) % cnt,
                };
                let r = if order == 2 && cnt % 2 == 0 { (s * (cnt + 1) / 2 * 2 + s) % cnt } else { r };
                add(&mut f, kinds[r % cnt], 0, r, conf_of(scale, r));
            }
            for k in 0..nm {
                f.1.push(missed(0, k));
            }
            by_definition(ch, &Params::new(&[0]), &[f])
        },
    );
    vec![full, binary]
}

fn add(f: &mut Frame, kind: usize, l: usize, at: usize, conf: f64) {
    if kind == NKIND {
        f.0.push(surplus(l, at, conf));
    } else {
        let (e, g) = pair_of(kind, l, at, conf);
        f.0.push(e);
        f.1.push(g);
    }
}

/// Confidence ties: any ranking within the tie is allowed.
fn ties(tier: Tier) -> Space {
    let n = tier.pick(4, 5);
    Space::new(
        "ties",
        &format!(
            "one label: up to {n} estimates x 4 kinds x every assignment of 2..3 confidence levels"
        ),
        move |ch| {
            let cnt = ch.choose(n) + 1;
            let mut f: Frame = (vec![], vec![]);
            for k in 0..cnt {
                let kind = [0, 3, 1, NKIND][ch.choose(4)];
                let c = ch.pick(&[0.5, 0.8, 0.3]);
                add(&mut f, kind, 1, k, c);
            }
            by_definition(ch, &Params::new(&[1]), &[f])
        },
    )
}

/// Thresholds of the two criteria, offsets and heights around them.
fn criteria() -> Space {
    Space::new(
        "criteria",
        "2 estimates of one label, each 7 offsets x 3 axes from its ground truth, 4 centre x 4 plane thresholds x 3 IoU thresholds, all 8 labels",
        |ch| {
            let l = ch.choose(NL);
            let mut p = Params::new(&[l]);
            p.center = ch.pick(&[1.0, 0.4, 2.6, 20.0]);
            p.plane = ch.pick(&[2.0, 0.4, 1.1, 7.0]);
            let i = ch.choose(3);
            p.iou2 = [0.5, 0.0, 1.0][i];
            p.iou3 = [0.5, 1.0, 0.0][i];
            let mut f: Frame = (vec![], vec![]);
            for k in 0..2 {
                let (mut e, g) = pair_of(0, l, 2 * k, 0.7 - 0.2 * k as f64);
                let ax = ch.choose(3);
                e.position[ax] += ch.pick(&[0.0, 0.3, 0.5, 0.9, 1.5, 3.0, 8.0]);
                f.0.push(e);
                f.1.push(g);
            }
            by_definition(ch, &p, &[f])
        },
    )
}

/// Thresholds at the edges of the number range, distances around them.
fn extremes() -> Space {
    Space::new(
        "extreme thresholds",
        "two pairs of one label at 12 distances (0 .. 1e7, both sides of each threshold) x 11 centre and 11 plane thresholds (negative, 0, 1e-300 .. 1e-2, 1e3 .. 1e300, infinite)",
        |ch| {
            const T: [f64; 11] = [-1.0, 0.0, 1e-300, 1e-12, 1e-6, 5e-4, 1e-2, 1e3, 1e6, 1e300, f64::INFINITY];
            const D: [f64; 12] = [0.0, 1e-13, 4e-7, 3e-6, 2e-4, 8e-4, 4e-3, 5e-2, 300.0, 3e3, 3e5, 1e7];
            let mut p = Params::new(&[2]);
            p.center = ch.pick(&T);
            p.plane = ch.pick(&T);
            p.max_x = 1e9;
            p.max_y = 1e9;
            let mut frames: Vec<Frame> = vec![];
            for k in 0..2 {
                let mut g = obj(2, [0.0, 3.0, 0.0]);
                g.orientation = yaw(0.0);
                let mut e = g.clone();
                e.confidence = 0.8 - 0.3 * k as f64;
                e.position[0] = ch.pick(&D);
                frames.push((vec![e], vec![g]));
            }
            by_definition(ch, &p, &frames)
        },
    )
}

/// Pairs barely within or barely beyond the threshold, at every rank.
fn margins(tier: Tier) -> Space {
    let n = tier.pick(5, 6);
    Space::new(
        "margins",
        &format!("one label: {n} pairs, each by rank within or beyond the threshold by 5e-4 or 1e-5 of it, or a sequence of 40 alike but one (at every rank); 3 thresholds, submitted in rank order or reversed, in 1 or n frames"),
        move |ch| {
            let mut p = Params::new(&[3]);
            let t = ch.pick(&[1.0, 0.37, 6.5]);
            p.center = t;
            p.plane = t;
            p.max_x = 1e5;
            let by = [1.0 - 1e-5, 1.0 + 1e-5, 1.0 - 5e-4, 1.0 + 5e-4];
            let kinds: Vec<usize> = if ch.flag() {
                let (a, b) = (ch.choose(4), ch.choose(4));
                let at = ch.choose(40);
                (0..40).map(|k| if k == at { b } else { a }).collect()
            } else {
                (0..n).map(|_| ch.choose(4)).collect()
            };
            let reverse = ch.flag();
            let split = ch.flag();
            let cnt = kinds.len();
            let mut frames: Vec<Frame> = vec![(vec![], vec![]); if split { cnt } else { 1 }];
            for s in 0..cnt {
                let r = if reverse { cnt - 1 - s } else { s };
                let (mut e, mut g) = pair_of(0, 3, 2 * r, 0.99 - 0.02 * r as f64);
                g.orientation = yaw(0.0);
                e.orientation = g.orientation;
                e.position[0] += t * by[kinds[r]];
                let f = if split { s } else { 0 };
                frames[f].0.push(e);
                frames[f].1.push(g);
            }
            by_definition(ch, &p, &frames)
        },
    )
}

/// Heading weights over the whole circle.
fn headings(tier: Tier) -> Space {
    let step = tier.pick(15, 5);
    Space::new(
        "headings",
        &format!("one pair, both headings over the circle in steps of {step} degrees, both signs of both quaternions, 3 places"),
        move |ch| {
            let n = 360 / step;
            let a = (ch.choose(n) * step) as f64 - 180.0;
            let b = (ch.choose(n) * step) as f64 - 180.0;
            let s = ch.choose(4);
            let mut g = obj(0, ch.pick(&[[30.0, 11.0, 0.0], [-7.0, 40.0, 1.0], [-21.0, -22.0, 0.0]]));
            let mut e = g.clone();
            g.orientation = yaw(a);
            e.orientation = yaw(b);
            if s & 1 == 1 {
                g.orientation = g.orientation.map(|x| -x);
            }
            if s & 2 == 2 {
                e.orientation = e.orientation.map(|x| -x);
            }
            e.confidence = 0.4;
            let mut p = Params::new(&[0]);
            p.plane = 50.0;
            by_definition(ch, &p, &[(vec![e], vec![g])])
        },
    )
}

/// Several labels at once, each with its own pattern; targets in any order.
fn labels(tier: Tier) -> Space {
    let n = tier.pick(2, 3);
    Space::new(
        "labels",
        &format!("target lists of up to {n} distinct labels out of 8 in every order, each label with one of 8 patterns (nothing, only missed, only wrong, perfect, mixed ...), plus objects of a label that is no target"),
        move |ch| {
            let cnt = ch.choose(n) + 1;
            let mut rest: Vec<usize> = (0..NL).collect();
            let mut t = vec![];
            for _ in 0..cnt {
                let i = ch.choose(rest.len());
                t.push(rest.remove(i));
            }
            let mut frames: Vec<Frame> = vec![(vec![], vec![]), (vec![], vec![])];
            for l in &t {
                pattern(&mut frames, *l, ch.choose(8));
            }
            pattern(&mut frames, rest[0], 5);
            by_definition(ch, &Params::new(&t), &frames)
        },
    )
}
pub fn pattern(frames: &mut [Frame], l: usize, k: usize) {
    let b = l * 7;
    match k {
        0 => {}
        1 => frames[0].1.push(missed(l, b)),
        2 => frames[1].0.push(surplus(l, b, 0.6)),
        3 => {
            add(&mut frames[0], 0, l, b, 0.8);
            add(&mut frames[1], 0, l, b + 1, 0.3);
        }
        4 => {
            add(&mut frames[0], 3, l, b, 0.8);
            add(&mut frames[0], 0, l, b + 1, 0.3);
        }
        5 => {
            add(&mut frames[1], 1, l, b, 0.2);
            add(&mut frames[0], 0, l, b + 1, 0.35);
            add(&mut frames[1], NKIND, l, b + 2, 0.9);
        }
        6 => {
            add(&mut frames[0], 4, l, b, 0.7);
            frames[1].1.push(missed(l, b));
            add(&mut frames[1], 5, l, b + 1, 0.75);
        }
        _ => {
            for i in 0..4 {
                add(
                    &mut frames[i % 2],
                    [0, 3, 0, 1][i],
                    l,
                    b + i,
                    0.2 + 0.17 * i as f64,
                );
            }
            frames[0].1.push(missed(l, b));
            frames[0].1.push(missed(l, b + 1));
        }
    }
}

/// Many estimates.
fn long(tier: Tier) -> Space {
    let ns = tier.pick(
        vec![7usize, 10, 16, 21, 33, 50, 65, 101, 129, 257, 513, 1025],
        vec![
            7, 8, 9, 10, 11, 12, 13, 16, 17, 31, 32, 33, 40, 41, 50, 64, 65, 100, 101, 128, 129,
            200, 257, 400, 513, 1025, 2049, 4100,
        ],
    );
    Space::new(
        "long",
        &format!("{ns:?} estimates of one label in 8 patterns of outcome by rank x 4 submission orders x 1, 2 or n frames x 0 or n/3 missed"),
        move |ch| {
            let n = ch.pick(&ns);
            let pat = ch.choose(8);
            let ord = ch.choose(4);
            // pairing within one frame takes cubic time: the longest lists are spread over as many frames
            let split = if n > 100 { 2 } else { ch.choose(3) };
            let miss = ch.flag();
            let nf = [1, 2, n][split];
            let mut frames: Vec<Frame> = (0..nf).map(|_| (vec![], vec![])).collect();
            for s in 0..n {
                let r = match ord {
                    0 => s,
                    1 => n - 1 - s,
                    2 => (s % 2) * n.div_ceil(2) + s / 2,
                    _ => (s + n / 3) % n,
                };
                let kind = match pat {
                    0 => 0,
                    1 => 3,
                    2 => [0, 3][r % 2],
                    3 => [3, 0][r % 2],
                    4 => [0, 0, NKIND, 1, 3][r % 5],
                    5 => {
                        if r < n / 2 {
                            0
                        } else {
                            3
                        }
                    }
                    6 => {
                        if r < n / 2 {
                            3
                        } else {
                            1
                        }
                    }
                    _ => [0, 1, 5, 6, 2, 3, 4][r % 7],
                };
                add(&mut frames[s % nf], kind, 0, r, 0.99 - 0.9 * r as f64 / n as f64);
            }
            if miss {
                for k in 0..n / 3 {
                    frames[k % nf].1.push(missed(0, k));
                }
            }
            by_definition(ch, &Params::new(&[0]), &frames)
        },
    )
}

/// Attributes that must not matter, and filters that must.
fn attributes(tier: Tier) -> Space {
    let b = tier.pick(2, 3);
    Space::new(
        "attributes",
        &format!("a history of 2 frames and 2 labels, every attribute of every object varied, up to {b} deviations, with and without point-count and ID filters"),
        move |ch| {
            let mut p = Params::new(&[0, 1]);
            p.max_x = 200.0;
            if ch.flag() {
                p.min_pts = Some(1);
                p.uuids = Some(vec!["g0".into(), "g1".into(), "g2".into(), "u".into()]);
            }
            let mut frames: Vec<Frame> = vec![(vec![], vec![]), (vec![], vec![])];
            add(&mut frames[0], 0, 0, 0, 0.9);
            add(&mut frames[0], 3, 0, 1, 0.8);
            add(&mut frames[1], 1, 0, 0, 0.55);
            add(&mut frames[1], 0, 1, 1, 0.95);
            frames[1].1.push(missed(0, 0));
            for f in frames.iter_mut() {
                for o in f.0.iter_mut() {
                    super::pairing::vary(ch, o, false);
                }
                for o in f.1.iter_mut() {
                    super::pairing::vary(ch, o, true);
                }
            }
            by_definition(ch, &p, &frames)
        },
    )
    .budget(b)
}

pub fn c05(tier: Tier) -> Vec<Space> {
    let mut v = rankings(tier);
    v.extend([
        ties(tier),
        criteria(),
        extremes(),
        margins(tier),
        headings(tier),
        labels(tier),
        long(tier),
        attributes(tier),
    ]);
    v
}

// ---------------------------------------------------------------- C06

pub fn check_bounds(p: &Params, blocks: &[Block; 2]) -> R {
    for (m, b) in blocks.iter().enumerate() {
        for i in 0..b.labels.len() {
            let (ap, aph) = (b.get("AP", i).unwrap(), b.get("APH", i).unwrap());
            if ap.is_nan() || aph.is_nan() {
                ensure!(
                    ap.is_nan() == aph.is_nan(),
                    "{} {}: AP {ap} but APH {aph}",
                    MODE[m],
                    b.labels[i]
                );
                continue;
            }
            ensure!(
                (0.0..=1.0).contains(&ap) && aph >= 0.0 && aph <= ap,
                "{} {}: AP {ap} APH {aph} not within 0 <= APH <= AP <= 1",
                MODE[m],
                b.labels[i]
            );
        }
        for row in ROW {
            let vals = &b.rows[row];
            let mean = match b.means.get(&format!("m{row}")) {
                Some(m) => *m,
                None => return fail(format!("no mean m{row} in {b:?}")),
            };
            let want = vals.iter().sum::<f64>() / vals.len() as f64;
            // each printed value is within 0.0005 of the exact one
            let tol = if vals
                .iter()
                .all(|v| ((v * 4.0) - (v * 4.0).round()).abs() < 1e-9)
            {
                0.000_501
            } else {
                0.001_001
            };
            ensure!(
                (want.is_nan() && mean.is_nan()) || (want - mean).abs() <= tol,
                "{} m{row} is {mean}, the mean of {vals:?} is {want}",
                MODE[m]
            );
        }
    }
    let _ = p;
    Ok(())
}

/// The confidence of a (possibly half) rank: within (0, 1); the second is 0 and later ones negative; the last is 0; above 1.
fn ranked(scale: usize, r: f64, n: usize) -> f64 {
    match scale {
        0 => 0.95 - 0.9 * r / n.max(1) as f64,
        1 => 0.5 - 0.5 * r,
        2 => 0.25 * (n as f64 - 1.0 - r),
        _ => 3.0 + n as f64 - r,
    }
}

/// A ranking of one label: per rank a kind; `extra` missed ground truths. All confidences differ.
fn scene(kinds: &[usize], order: &[usize], extra: usize, l: usize, scale: usize) -> Vec<Frame> {
    // one frame per estimate keeps its pairing to itself; missed ground truths have a frame of their own
    let mut frames: Vec<Frame> = vec![];
    for r in order {
        let mut f = (vec![], vec![]);
        add(
            &mut f,
            kinds[*r],
            l,
            *r,
            ranked(scale, *r as f64, kinds.len()),
        );
        frames.push(f);
    }
    for k in 0..extra {
        frames.push((vec![], vec![missed(l, k)]));
    }
    frames
}

pub fn c06(tier: Tier) -> Vec<Space> {
    let n = tier.pick(4, 5);
    let laws = Space::new(
        "laws",
        &format!("one label: every ranking of up to {n} estimates over 5 kinds (exact, turned 30, turned 180, beyond the thresholds, unpaired) x 0..2 missed x submission in rank order, reversed or mixed x 4 scales of confidence (within 0 and 1, through 0, down to 0, above 1): bounds, extremes, and both one-step changes at every rank"),
        move |ch| {
            let cnt = ch.choose(n + 1);
            let kinds: Vec<usize> = (0..cnt).map(|_| [0, 1, 2, 3, NKIND][ch.choose(5)]).collect();
            let extra = ch.choose(3);
            let order: Vec<usize> = match ch.choose(3) {
                0 => (0..cnt).collect(),
                1 => (0..cnt).rev().collect(),
                _ => (0..cnt).map(|s| (s % 2) * cnt.div_ceil(2) + s / 2).collect(),
            };
            let scale = ch.choose(4);
            let p = Params::new(&[0]);
            let frames = scene(&kinds, &order, extra, 0, scale);
            describe(ch, &p, &frames);
            let (text, b) = evaluate(ch, &p, &frames)?;
            ch.note(|| text.clone());
            check_bounds(&p, &b)?;
            let ap = |b: &[Block; 2], m: usize| b[m].get("AP", 0).unwrap();
            for m in 0..2 {
                // kinds 0..2 pass both criteria as long as the boxes are turned about their centre by 0 or 180;
                // turned by 30 degrees passes as well (plane distance about 1.1)
                let passing = kinds.iter().filter(|k| **k < 3).count();
                let gts = kinds.iter().filter(|k| **k < NKIND).count() + extra;
                let v = ap(&b, m);
                if gts > 0 && passing == gts && cnt == passing {
                    ensure!(v == 1.0, "{}: all {gts} ground truths matched and nothing else estimated, but AP is {v}", MODE[m]);
                }
                if passing == 0 && (cnt > 0 || gts > 0) {
                    ensure!(v == 0.0, "{}: no estimate passes, but AP is {v}", MODE[m]);
                }
                if cnt == 0 && gts == 0 {
                    ensure!(v.is_nan(), "{}: nothing to score, but AP is {v}", MODE[m]);
                }
            }
            ch.compared();
            ch.state(&(&kinds, extra, &order, scale));
            ch.outcome(&text);
            // turn a wrong estimate into one that finds a missed ground truth
            if extra > 0 {
                for r in 0..cnt {
                    if kinds[r] < 3 {
                        continue;
                    }
                    let mut k2 = kinds.clone();
                    k2[r] = 0;
                    // the estimate at rank r now sits on a ground truth of its own; one missed ground truth fewer.
                    // An unpaired estimate (kind 7) had no ground truth, one beyond the thresholds leaves its own missed.
                    let e2 = if kinds[r] == NKIND { extra - 1 } else { extra };
                    let (_, b2) = evaluate(ch, &p, &scene(&k2, &order, e2, 0, scale))?;
                    for m in 0..2 {
                        ensure!(
                            ap(&b2, m) >= ap(&b, m),
                            "{}: AP fell from {} to {} when the estimate of rank {r} became a true positive",
                            MODE[m],
                            ap(&b, m),
                            ap(&b2, m)
                        );
                    }
                }
            }
            // add a false positive at every rank
            for r in 0..=cnt {
                for kind in 0..2 {
                    let mut f2 = frames.clone();
                    let conf = ranked(scale, r as f64 - 0.5, cnt);
                    let fp = surplus(0, 40, conf);
                    if kind == 0 {
                        f2.insert(r.min(f2.len()), (vec![fp], vec![]));
                    } else if let Some(i) = f2.iter().position(|f| f.0.is_empty() && !f.1.is_empty()) {
                        f2[i].0.push(fp); // far from the missed ground truth it is paired with
                    } else {
                        continue;
                    }
                    let (_, b2) = evaluate(ch, &p, &f2)?;
                    for m in 0..2 {
                        ensure!(
                            !(ap(&b2, m) > ap(&b, m)) || ap(&b, m).is_nan(),
                            "{}: AP rose from {} to {} when a false positive of confidence {conf} was added",
                            MODE[m],
                            ap(&b, m),
                            ap(&b2, m)
                        );
                    }
                }
            }
            Ok(())
        },
    );
    let means = Space::new(
        "means",
        "target lists of 1..4 labels (every order of a 4-label choice), with no label, the first or the last of them listed twice or three times, x 8 patterns per label: bounds and means of the report",
        move |ch| {
            let all: [usize; 4] = [[0, 1, 2, 3], [7, 6, 5, 4]][ch.choose(2)];
            let n = ch.choose(4) + 1;
            let perm = ch.permutation(4);
            let t: Vec<usize> = perm.iter().take(n).map(|i| all[*i]).collect();
            if n < 4 && perm[n..].windows(2).any(|w| w[0] > w[1]) {
                return Err(Stop::Skip);
            }
            let mut frames: Vec<Frame> = vec![(vec![], vec![]), (vec![], vec![])];
            for l in &t {
                let pat = if n == 4 { [0, 1, 3, 5, 6, 7][ch.choose(tier.pick(4, 6))] } else { ch.choose(8) };
                pattern(&mut frames, *l, pat);
            }
            let mut t = t;
            match ch.choose(if n < 4 { 4 } else { 2 }) {
                0 => {}
                1 => t.push(t[0]),
                2 => t.insert(0, t[n - 1]),
                _ => {
                    t.insert(1, t[0]);
                    t.push(t[0]);
                }
            }
            let p = Params::new(&t);
            describe(ch, &p, &frames);
            let (text, b) = evaluate(ch, &p, &frames)?;
            ch.note(|| text.clone());
            for (m, b) in b.iter().enumerate() {
                let want: Vec<String> = t.iter().map(|l| label_name(&label(*l)).to_string()).collect();
                ensure!(b.labels == want, "{}: columns {:?} for targets {want:?}", MODE[m], b.labels);
            }
            check_bounds(&p, &b)?;
            ch.compared();
            ch.state(&(hframes(&frames), &t));
            ch.outcome(&text);
            Ok(())
        },
    );
    let b = tier.pick(2, 3);
    let bounds = Space::new(
        "bounds",
        &format!("bounds and means on a 2-frame, 2-label history with every attribute varied, up to {b} deviations, with distinct and tied confidences"),
        move |ch| {
            let tied = ch.flag();
            let mut frames: Vec<Frame> = vec![(vec![], vec![]), (vec![], vec![])];
            let c = |x: f64| if tied { 0.5 } else { x };
            add(&mut frames[0], 0, 0, 0, c(0.9));
            add(&mut frames[0], 3, 0, 1, c(0.8));
            add(&mut frames[1], 6, 0, 0, c(0.55));
            add(&mut frames[1], 5, 1, 1, c(0.95));
            for f in frames.iter_mut() {
                for o in f.0.iter_mut().chain(f.1.iter_mut()) {
                    super::pairing::vary(ch, o, false);
                }
            }
            let mut p = Params::new(&[0, 1]);
            p.plane = ch.pick(&[2.0, 30.0]);
            describe(ch, &p, &frames);
            let (text, b) = evaluate(ch, &p, &frames)?;
            ch.note(|| text.clone());
            check_bounds(&p, &b)?;
            ch.compared();
            ch.state(&(hframes(&frames), tied, p.plane.to_bits()));
            ch.outcome(&text);
            Ok(())
        },
    )
    .budget(b);
    vec![laws, means, bounds]
}

// ---------------------------------------------------------------- C07

fn fp_result(r: &PerceptionFrameResult) -> u64 {
    let rs = |v: &[perception_eval::result::object::PerceptionResult]| -> Vec<(u64, Option<u64>)> {
        v.iter()
            .map(|r| {
                (
                    h(&r.estimated_object),
                    r.ground_truth_object.as_ref().map(h),
                )
            })
            .collect()
    };
    hash(&(
        rs(r.results()),
        rs(r.tp_results()),
        rs(r.fp_results()),
        hl(r.fn_objects()),
        hl(&r.frame_ground_truth().objects),
        r.frame_ground_truth().timestamp,
    ))
}

fn bag(os: &[DynamicObject]) -> Vec<u64> {
    let mut v: Vec<u64> = os.iter().map(h).collect();
    v.sort();
    v
}

/// Frames of the history menu: confidences of different frames all differ.
fn menu(k: usize) -> Frame {
    let mut f: Frame = (vec![], vec![]);
    let c = 0.9 - 0.11 * k as f64;
    match k {
        0 => {}
        1 => add(&mut f, 0, 0, 0, c),
        2 => {
            add(&mut f, 3, 0, 1, c);
            f.1.push(missed(1, 0));
        }
        3 => {
            add(&mut f, 1, 0, 2, c);
            add(&mut f, 0, 1, 3, c - 0.01);
            f.0.push(surplus(0, 4, c - 0.02));
            f.0.push(surplus(6, 5, c - 0.03)); // not a target
            f.0.push(obj(0, [5000.0, 0.0, 0.0])); // outside
            f.0[4].confidence = c - 0.04;
        }
        4 => {
            f.1.push(missed(0, 3));
            f.1.push(missed(6, 3));
            f.1.push(obj(1, [0.0, 5000.0, 0.0]));
            let mut few = missed(1, 4);
            few.pointcloud_num = Some(1);
            f.1.push(few);
        }
        5 => {
            f.0.push(surplus(1, 6, c));
            add(&mut f, 5, 1, 7, c - 0.015);
        }
        _ => {
            // estimates only, surer than all others
            f.0.push(surplus(0, 8, 0.96));
            f.0.push(surplus(1, 9, 0.97));
        }
    }
    f
}
const NMENU: usize = 7;

/// Time of the k-th frame: rising, all equal, falling, alternating between two, days apart, before the epoch.
pub fn frame_time(clock: usize, k: usize) -> i64 {
    let k = k as i64;
    match clock {
        0 => 1_000_000 + 77_777 * k,
        1 => 1_000_000,
        2 => 1_000_000 - 50_000 * k,
        3 => 1_000_000 + 100_000 * (k % 2),
        4 => 1_600_000_000_000_000 + 86_400_000_000 * k,
        _ => -10_000_000 + k,
    }
}

pub fn c07(tier: Tier) -> Vec<Space> {
    let depth = tier.pick(6, 7);
    let make = move |name: &str, depth: usize, clocks: &'static [usize]| Space::new(
        name,
        &format!("all sequences of up to {depth} operations: add one of {NMENU} frames (empty, perfect, wrong, mixed with filtered objects, only missed, surplus, only estimates), ask for the score, clone the manager; frame times out of {} patterns", clocks.len()),
        move |ch| {
            let clock = ch.pick(clocks);
            let mut p = Params::new(&[0, 1]);
            p.max_x = 900.0;
            p.max_y = 900.0;
            p.min_pts = Some(2);
            let cfg = p.config(EvaluationTask::Detection);
            let before = format!("{cfg:?}");
            let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![gt_frame(5, vec![obj(0, [1.0; 3])])], frame_results: vec![] };
            let gts0 = hl(&m.frame_ground_truths[0].objects);
            let mut added: Vec<usize> = vec![];
            let mut prints: Vec<u64> = vec![];
            for step in 0..depth {
                let op = ch.choose(NMENU + 3);
                if op == NMENU + 2 {
                    break;
                }
                if op < NMENU {
                    let (e, g) = menu(op);
                    let fgt = gt_frame(frame_time(clock, step), g.clone());
                    let (e0, g0) = (hl(&e), hl(&g));
                    ch.step();
                    ch.note(|| format!("add frame {op}"));
                    if let Err(x) = m.add_frame_result(&e, &fgt) {
                        return fail(format!("adding frame {op}: {x}"));
                    }
                    ensure!(hl(&e) == e0 && hl(&fgt.objects) == g0, "the inputs of frame {op} were changed");
                    added.push(op);
                    ensure!(m.frame_results.len() == added.len(), "{} frame results after {} frames", m.frame_results.len(), added.len());
                    let r = m.frame_results.last().unwrap();
                    let got: Vec<DynamicObject> = r.results().iter().map(|r| r.estimated_object.clone()).collect();
                    ensure!(
                        bag(&got) == bag(&p.filter(&e, false)),
                        "the result of frame {op} holds estimates {}, the filter leaves {}",
                        shorts(&got),
                        shorts(&p.filter(&e, false))
                    );
                    ensure!(
                        same_list(&r.frame_ground_truth().objects, &p.filter(&g, true)) && r.frame_ground_truth().timestamp == fgt.timestamp,
                        "the result of frame {op} holds ground truths {} at {}, the filter leaves {} at {}",
                        shorts(&r.frame_ground_truth().objects),
                        r.frame_ground_truth().timestamp,
                        shorts(&p.filter(&g, true)),
                        fgt.timestamp
                    );
                    prints.push(fp_result(r));
                } else if op == NMENU {
                    ch.step();
                    ch.note(|| "score twice".into());
                    let s: Vec<String> = match (m.get_metrics_score(), m.get_metrics_score()) {
                        (Ok(a), Ok(b)) => vec![format!("{a}"), format!("{b}")],
                        _ => return fail(format!("no score after frames {added:?}")),
                    };
                    ensure!(s[0] == s[1], "asked twice, two reports: {} / {}", s[0], s[1]);
                    let b = match report::detection(&s[0]) {
                        Ok(b) => b,
                        Err(e) => return fail(format!("{e}: {}", s[0])),
                    };
                    // the frames in ascending order give the same report (duplicated frames tie in confidence)
                    let mut sorted = added.clone();
                    sorted.sort();
                    if sorted.windows(2).all(|w| w[0] != w[1]) && sorted != added {
                        let frames: Vec<Frame> = sorted.iter().map(|k| menu(*k)).collect();
                        let (t2, _) = evaluate(ch, &p, &frames)?;
                        ensure!(t2 == s[0], "frames {added:?} give {}, frames {sorted:?} give {t2}", s[0]);
                    }
                    // and it is the score of exactly these frames
                    let frames: Vec<Frame> = added.iter().map(|k| menu(*k)).collect();
                    if let Some(d) = history(&p, &frames) {
                        for mode in 0..2 {
                            for i in 0..2 {
                                if let Some((ap, _)) = allowed(&d[i], mode) {
                                    let got = b[mode].get("AP", i).unwrap_or(f64::INFINITY);
                                    ensure!(agrees(got, &ap), "{} AP of {} is {got} after frames {added:?}, expected {ap:?}", MODE[mode], p.targets[i].0);
                                }
                            }
                        }
                    }
                    ch.compared();
                    ch.outcome(&s[0]);
                } else {
                    ch.step();
                    ch.note(|| "clone".into());
                    m = m.clone();
                }
                let now: Vec<u64> = m.frame_results.iter().map(fp_result).collect();
                ensure!(now == prints, "operation {step} changed an earlier frame result");
                ensure!(m.frame_ground_truths.len() == 1 && hl(&m.frame_ground_truths[0].objects) == gts0, "the dataset frames were changed");
                ch.state(&(&added, op));
            }
            ensure!(format!("{:?}", m.config) == before, "the configuration was changed");
            Ok(())
        },
    );
    let n = tier.pick(5, 6);
    let orders = Space::new(
        "frame orders",
        &format!("a history of {n} frames (two labels, distinct confidences, all outcome kinds) added in every order"),
        move |ch| {
            let scene = ch.choose(6);
            let frames: Vec<Frame> = (0..n)
                .map(|k| {
                    let mut f: Frame = (vec![], vec![]);
                    let c = |j: usize| 0.97 - 0.05 * ((k * 7 + j * 3 + scene) % 18) as f64 - 0.0001 * k as f64 - 0.001 * j as f64;
                    add(&mut f, (k + scene) % 8, 0, k, c(0));
                    add(&mut f, (k * 3 + scene) % 8, 1, k, c(1));
                    if k % 3 == scene % 3 {
                        f.1.push(missed(k % 2, k));
                    }
                    f
                })
                .collect();
            let p = Params::new(&[1, 0]);
            let (t1, _) = evaluate(ch, &p, &frames)?;
            let o = ch.permutation(n);
            let f2: Vec<Frame> = o.iter().map(|i| frames[*i].clone()).collect();
            describe(ch, &p, &f2);
            let (t2, _) = evaluate(ch, &p, &f2)?;
            ensure!(t1 == t2, "in order {o:?}: {t2}, in the original order: {t1}");
            ch.compared();
            ch.state(&(scene, &o));
            ch.outcome(&t1);
            Ok(())
        },
    );
    let tasks = Space::new(
        "tasks",
        "tracking and prediction x all histories of up to 3 frames of the menu",
        move |ch| {
            let t = [
                EvaluationTask::Tracking,
                EvaluationTask::Prediction,
                EvaluationTask::Detection,
            ][ch.choose(3)]
            .clone();
            let p = Params::new(&[0, 1]);
            let det = t == EvaluationTask::Detection;
            let cfg = p.config(t);
            let mut m = PerceptionEvaluationManager {
                config: &cfg,
                frame_ground_truths: vec![],
                frame_results: vec![],
            };
            let n = ch.choose(4);
            let mut ops = vec![];
            for k in 0..n {
                let op = ch.choose(NMENU);
                ops.push(op);
                let (e, g) = menu(op);
                ch.step();
                if m.add_frame_result(&e, &gt_frame(k as i64, g)).is_err() {
                    return fail("adding a frame failed");
                }
            }
            ch.step();
            let s = m.get_metrics_score();
            ensure!(
                s.is_ok() == det,
                "task {:?}: score {}",
                cfg.evaluation_task,
                if s.is_ok() { "given" } else { "refused" }
            );
            ch.compared();
            ch.state(&(&ops, format!("{:?}", cfg.evaluation_task)));
            ch.outcome(&s.is_ok());
            Ok(())
        },
    );
    let ns = tier.pick(
        vec![30usize, 64, 100, 101, 128, 200, 256, 257, 300, 1030, 4200],
        vec![30, 64, 99, 100, 101, 128, 129, 200, 256, 257, 300, 512, 1000, 1030, 4200, 8200, 17000],
    );
    let long = Space::new(
        "long histories",
        &format!("{ns:?} frames in 6 patterns of the menu's frames, each with confidences of its own: the count, every earlier result after every further frame (each of them at powers of two and around every hundred, from 1000 on every thousand), the score by definition, and asked twice"),
        move |ch| {
            let n = ch.pick(&ns);
            let pat = ch.choose(6);
            let p = Params::new(&[0, 1]);
            let cfg = p.config(EvaluationTask::Detection);
            let mut m = PerceptionEvaluationManager { config: &cfg, frame_ground_truths: vec![], frame_results: vec![] };
            let frames: Vec<Frame> = (0..n)
                .map(|k| {
                    let mut f: Frame = (vec![], vec![]);
                    let r = match pat {
                        0 | 1 => k,
                        2 => n - 1 - k,
                        _ => (k * 7 + 3) % n,
                    };
                    let c = 0.95 - 0.9 * r as f64 / n as f64;
                    let kind = match pat {
                        0 => 0,
                        1 | 2 => [0, 3, 1][k % 3],
                        3 => [0, NKIND, 3, 5][k % 4],
                        4 => if k < n / 2 { NKIND } else { 0 },
                        _ => if k < 3 || k + 3 > n { 0 } else { NKIND + 1 },
                    };
                    if kind <= NKIND {
                        add(&mut f, kind, k % 2, k % 5, c);
                    } else {
                        f.1.push(missed(k % 2, k % 7));
                    }
                    f
                })
                .collect();
            let mut prints: Vec<u64> = vec![];
            for (k, (e, g)) in frames.iter().enumerate() {
                ch.step();
                if let Err(x) = m.add_frame_result(e, &gt_frame(frame_time(pat, k), g.clone())) {
                    return fail(format!("adding frame {k} of {n}: {x}"));
                }
                ensure!(m.frame_results.len() == k + 1, "{} frame results after {} frames", m.frame_results.len(), k + 1);
                prints.push(fp_result(&m.frame_results[k]));
                if (k + 1).is_power_of_two() || (k + 1) % if k < 1000 { 100 } else { 1000 } < 2 || k + 1 == n {
                    let now: Vec<u64> = m.frame_results.iter().map(fp_result).collect();
                    ensure!(now == prints, "adding frame {k} changed an earlier frame result");
                }
            }
            ch.step();
            by_definition_of(ch, &p, &frames, &m)?;
            let two: Vec<String> = (0..2).filter_map(|_| m.get_metrics_score().ok().map(|s| format!("{s}"))).collect();
            ensure!(two.len() == 2 && two[0] == two[1], "asked twice after {n} frames: {two:?}");
            ch.compared();
            ch.state(&(n, pat));
            ch.outcome(&two[0]);
            Ok(())
        },
    );
    vec![
        long,
        make("histories", depth, &[0]),
        make("frame times", depth - 1, &[1, 2, 3, 4, 5]),
        orders,
        tasks,
    ]
}

// ---------------------------------------------------------------- C08

/// What the evaluation says about one label.
#[derive(PartialEq, Debug)]
struct About {
    pairs: Vec<(String, Option<String>)>,
    tp: Vec<String>,
    fp: Vec<String>,
    fne: Vec<String>,
    scores: Vec<Vec<String>>,
}

fn about(ch: &mut Ch, p: &Params, frames: &[Frame], l: usize) -> Result<About, Stop> {
    let cfg = p.config(EvaluationTask::Detection);
    let mut m = PerceptionEvaluationManager {
        config: &cfg,
        frame_ground_truths: vec![],
        frame_results: vec![],
    };
    for (k, (e, g)) in frames.iter().enumerate() {
        ch.step();
        if let Err(e) = m.add_frame_result(e, &gt_frame(k as i64, g.clone())) {
            return fail(format!("adding frame {k}: {e}"));
        }
    }
    let lab = label(l);
    let s = |o: &DynamicObject| show(o);
    let mut a = About {
        pairs: vec![],
        tp: vec![],
        fp: vec![],
        fne: vec![],
        scores: vec![],
    };
    for (k, r) in m.frame_results.iter().enumerate() {
        let mut pairs: Vec<_> = r
            .results()
            .iter()
            .filter(|x| x.estimated_object.label == lab)
            .map(|x| {
                (
                    format!("{k}:{}", s(&x.estimated_object)),
                    x.ground_truth_object.as_ref().map(s),
                )
            })
            .collect();
        pairs.sort();
        a.pairs.extend(pairs);
        for (list, out) in [(r.tp_results(), &mut a.tp), (r.fp_results(), &mut a.fp)] {
            let mut v: Vec<_> = list
                .iter()
                .filter(|x| x.estimated_object.label == lab)
                .map(|x| format!("{k}:{}", s(&x.estimated_object)))
                .collect();
            v.sort();
            out.extend(v);
        }
        let mut v: Vec<_> = r
            .fn_objects()
            .iter()
            .filter(|x| x.label == lab)
            .map(|x| format!("{k}:{}", s(x)))
            .collect();
        v.sort();
        a.fne.extend(v);
    }
    ch.step();
    let text = match m.get_metrics_score() {
        Ok(s) => format!("{s}"),
        Err(e) => return fail(format!("no score: {e}")),
    };
    let b = match report::detection(&text) {
        Ok(b) => b,
        Err(e) => return fail(format!("{e}: {text}")),
    };
    // every column of the label must say the same
    for blk in &b {
        let cols = blk.columns(label_name(&lab));
        ensure!(!cols.is_empty(), "no column for {}", label_name(&lab));
        let per: Vec<Vec<String>> = cols
            .iter()
            .map(|c| {
                ROW.iter()
                    .map(|r| format!("{:.3}", blk.get(r, *c).unwrap()))
                    .collect()
            })
            .collect();
        ensure!(
            per.iter().all(|x| *x == per[0]),
            "{} columns of {} differ: {per:?}",
            blk.mode,
            label_name(&lab)
        );
        a.scores.push(per[0].clone());
    }
    Ok(a)
}

pub fn c08(tier: Tier) -> Vec<Space> {
    let n = tier.pick(2, 3);
    // base content of label A in two frames
    fn base(l: usize, k: usize) -> Vec<Frame> {
        let mut frames: Vec<Frame> = vec![(vec![], vec![]), (vec![], vec![])];
        pattern(&mut frames, l, k);
        frames
    }
    let others = Space::new(
        "other objects",
        &format!("label A (8) with one of 7 patterns; up to {n} objects of any other label added: estimate or ground truth, 6 places (on top of A's objects, near, far), 4 confidences, 2 frames, before or after A's; targets with and without the other labels"),
        move |ch| {
            let l = ch.choose(tier.pick(3, NL));
            let k = ch.choose(7) + 1;
            let b = base(l, k);
            let p0 = Params::new(&[l]);
            let a0 = about(ch, &p0, &b, l)?;
            let mut f = b.clone();
            let cnt = ch.choose(n) + 1;
            let mut others = vec![];
            for _ in 0..cnt {
                let o = (l + 1 + [0, 3, 6][ch.choose(3)]) % NL;
                others.push(o);
                let side = ch.choose(2);
                let fr = ch.choose(2);
                let at = ch.choose(4);
                let front = ch.flag();
                let mut x = match at {
                    0 => b[fr].1.first().cloned().unwrap_or(missed(l, 0)),
                    1 => b[fr].0.first().cloned().unwrap_or(surplus(l, 0, 0.5)),
                    2 => {
                        let mut x = b[fr].1.last().cloned().unwrap_or(missed(l, 0));
                        x.position[0] += 0.2;
                        x.confidence = 0.999;
                        x
                    }
                    _ => {
                        let mut x = obj(o, [-9.0, -9.0, 3.0]);
                        x.confidence = 0.001;
                        x
                    }
                };
                x.label = label(o);
                let list = if side == 0 { &mut f[fr].0 } else { &mut f[fr].1 };
                if front {
                    list.insert(0, x);
                } else {
                    list.push(x);
                }
            }
            let p1 = match ch.choose(3) {
                0 => p0.clone(),
                1 => Params::new(&[others[0], l]),
                _ => Params::new(&[7 - l, l, others[cnt - 1]]),
            };
            describe(ch, &p1, &f);
            let a1 = about(ch, &p1, &f, l)?;
            ensure!(a0 == a1, "{}: alone {a0:?}, with other labels {a1:?}", label_cfg(l));
            ch.compared();
            ch.state(&(hframes(&f), format!("{:?}", p1.targets)));
            ch.outcome(&format!("{:?}", a1.scores));
            Ok(())
        },
    );
    const SYN: [&[&str]; NL] = [
        &["car", "vehicle.car", "CAR", "vehicle.police"],
        &[
            "pedestrian",
            "human.pedestrian.adult",
            "pedestrian.stroller",
            "Pedestrian",
        ],
        &["truck", "trailer", "vehicle.truck", "TRAILER"],
        &[
            "bus",
            "vehicle.bus.rigid",
            "vehicle.bus (bendy & rigid)",
            "Bus",
        ],
        &["bicycle", "vehicle.bicycle", "BICYCLE", "Vehicle.Bicycle"],
        &["motorbike", "vehicle.motorcycle", "MOTORBIKE", "motorBike"],
        &["animal", "ANIMAL", "Animal", "aniMal"],
        &["unknown", "no.such.label", "movable_object.debris", ""],
    ];
    let targets = Space::new(
        "target lists",
        "two labels with patterns; the target list is every sequence of up to 4 entries over {A, a synonym of A, B, a synonym of B, C}, compared with naming A alone",
        move |ch| {
            let l = ch.choose(NL);
            let o = (l + 1 + ch.choose(tier.pick(2, 7))) % NL;
            let c = (0..NL).find(|x| *x != l && *x != o).unwrap();
            let k = ch.pick(&[3usize, 5, 7, 1, 4, 6]);
            let mut f = base(l, k);
            pattern(&mut f, o, 5);
            let mut p0 = Params::new(&[l]);
            let a0 = about(ch, &p0, &f, l)?;
            let n = ch.choose(4) + 1;
            let syn = ch.choose(3) + 1;
            let mut t: Vec<(String, usize)> = vec![];
            for _ in 0..n {
                t.push(match ch.choose(5) {
                    0 => (SYN[l][0].to_string(), l),
                    1 => (SYN[l][syn].to_string(), l),
                    2 => (SYN[o][0].to_string(), o),
                    3 => (SYN[o][syn].to_string(), o),
                    _ => (SYN[c][0].to_string(), c),
                });
            }
            if !t.iter().any(|x| x.1 == l) {
                return Err(Stop::Skip);
            }
            p0.targets = t;
            describe(ch, &p0, &f);
            let a1 = about(ch, &p0, &f, l)?;
            ensure!(a0 == a1, "{}: alone {a0:?}, among targets {:?}: {a1:?}", label_cfg(l), p0.targets);
            ch.compared();
            ch.state(&(hframes(&f), format!("{:?}", p0.targets)));
            ch.outcome(&format!("{:?}", a1.scores));
            Ok(())
        },
    );
    let b = tier.pick(2, 3);
    let changed = Space::new(
        "changed objects",
        &format!("objects of two other labels around those of A, every attribute but their label's difference from A varied, up to {b} deviations"),
        move |ch| {
            let l = ch.pick(&[0usize, 1, 7]);
            let f0 = base(l, ch.pick(&[5usize, 7, 6]));
            let p = Params::new(&[l, (l + 1) % NL]);
            let mut f = f0.clone();
            for (i, fr) in f.iter_mut().enumerate() {
                for s in 0..2 {
                    let mut x = obj((l + 1 + i) % NL, [31.0 + 25.0 * (l * 7) as f64, 11.0, 0.0]);
                    super::pairing::vary(ch, &mut x, s == 1);
                    if x.label == label(l) {
                        return Err(Stop::Skip);
                    }
                    if s == 0 {
                        fr.0.push(x);
                    } else {
                        fr.1.push(x);
                    }
                }
            }
            let a0 = about(ch, &p, &f0, l)?;
            describe(ch, &p, &f);
            let a1 = about(ch, &p, &f, l)?;
            ensure!(a0 == a1, "{}: without the others {a0:?}, with them {a1:?}", label_cfg(l));
            ch.compared();
            ch.state(&hframes(&f));
            ch.outcome(&format!("{:?}", a1.scores));
            Ok(())
        },
    )
    .budget(b);
    let many = Space::new(
        "many others",
        "A with a pattern among 1..120 (and 260, 600, 1030) objects of 7 other labels in 4 layouts",
        move |ch| {
            let l = ch.choose(NL);
            let f0 = base(l, ch.choose(7) + 1);
            let cnt = ch.pick(&[1usize, 5, 17, 33, 64, 120, 260, 600, 1030]);
            let lay = ch.choose(4);
            let mut f = f0.clone();
            for k in 0..cnt {
                let o = (l + 1 + if lay == 0 { 0 } else { k % 7 }) % NL;
                let mut x = obj(
                    o,
                    [30.0 + 25.0 * (l * 7) as f64 + 0.1 * k as f64, 11.0, 0.0],
                );
                x.confidence = 0.99 - 0.96 * k as f64 / cnt as f64;
                match lay {
                    0 | 1 => f[k % 2].0.insert(0, x),
                    2 => f[k % 2].1.insert(0, x),
                    _ => {
                        f[0].0.push(x.clone());
                        f[1].1.push(x);
                    }
                }
            }
            let p0 = Params::new(&[l]);
            let p1 = Params::new(&(0..NL).map(|i| (i * 3 + l) % NL).collect::<Vec<_>>());
            let a0 = about(ch, &p0, &f0, l)?;
            let a1 = about(ch, &p1, &f, l)?;
            ensure!(
                a0 == a1,
                "{}: alone {a0:?}, among {cnt} others {a1:?}",
                label_cfg(l)
            );
            ch.compared();
            ch.state(&hframes(&f));
            ch.outcome(&format!("{:?}", a1.scores));
            Ok(())
        },
    );
    let lengthy = Space::new(
        "long target lists",
        "two labels with patterns; target lists of 5..64 names (labels and synonyms in turn, from 8 starts), with A named at one place out of 6 or at every turn, compared with naming A alone",
        move |ch| {
            let l = ch.choose(NL);
            let o = (l + 1 + ch.choose(2)) % NL;
            let mut f = base(l, ch.pick(&[3usize, 5, 7]));
            pattern(&mut f, o, 5);
            let p0 = Params::new(&[l]);
            let a0 = about(ch, &p0, &f, l)?;
            let n = ch.pick(&[5usize, 7, 8, 9, 10, 12, 16, 17, 24, 32, 33, 64]);
            let start = ch.choose(8);
            let place = ch.pick(&[Some(0), Some(4), Some(n / 2), Some(n - 3), Some(n - 2), Some(n - 1), None]);
            let mut t: Vec<(String, usize)> = vec![];
            for k in 0..n {
                let m = match place {
                    None => (l + k) % NL,
                    Some(at) if at == k => l,
                    Some(_) => (l + 1 + (start + k) % (NL - 1)) % NL,
                };
                t.push((SYN[m][k / 8 % 4].to_string(), m));
            }
            let mut p1 = p0.clone();
            p1.targets = t;
            describe(ch, &p1, &f);
            let a1 = about(ch, &p1, &f, l)?;
            ensure!(a0 == a1, "{}: alone {a0:?}, among {n} targets {:?}: {a1:?}", label_cfg(l), p1.targets);
            ch.compared();
            ch.state(&(hframes(&f), format!("{:?}", p1.targets)));
            ch.outcome(&format!("{:?}", a1.scores));
            Ok(())
        },
    );
    vec![others, targets, lengthy, changed, many]
}
