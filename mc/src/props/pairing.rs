//! C01, C02: pairing of estimates and ground truths.
use crate::engine::*;
use crate::ensure;
use crate::geom;
use crate::model;
use crate::obj::*;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::object::{get_perception_results, PerceptionResult};

/// For each result: (index of the estimate, index of the ground truth). Objects equal in all fields are interchangeable.
pub fn assign(
    est: &[DynamicObject],
    gt: &[DynamicObject],
    res: &[PerceptionResult],
) -> Result<Vec<(usize, Option<usize>)>, String> {
    let mut eu = vec![false; est.len()];
    let mut gu = vec![false; gt.len()];
    let mut out = vec![];
    for (k, r) in res.iter().enumerate() {
        let i = (0..est.len())
            .find(|i| !eu[*i] && same(&est[*i], &r.estimated_object))
            .ok_or_else(|| {
                let known = est.iter().any(|e| same(e, &r.estimated_object));
                format!(
                    "result {k}: estimate {} {}",
                    short(&r.estimated_object),
                    if known {
                        "returned more often than it was given"
                    } else {
                        "is not one of the given estimates (altered)"
                    }
                )
            })?;
        eu[i] = true;
        let j = match &r.ground_truth_object {
            None => None,
            Some(g) => {
                let j = (0..gt.len())
                    .find(|j| !gu[*j] && same(&gt[*j], g))
                    .ok_or_else(|| {
                        let known = gt.iter().any(|x| same(x, g));
                        format!(
                            "result {k}: ground truth {} {}",
                            short(g),
                            if known {
                                "used more than once"
                            } else {
                                "is not one of the given ones (altered)"
                            }
                        )
                    })?;
                gu[j] = true;
                Some(j)
            }
        };
        out.push((i, j));
    }
    if let Some(i) = eu.iter().position(|u| !u) {
        return Err(format!("estimate {i} {} has no result", short(&est[i])));
    }
    Ok(out)
}

pub fn describe(
    ch: &mut Ch,
    est: &[DynamicObject],
    gt: &[DynamicObject],
    res: &[PerceptionResult],
) {
    if ch.verbose() {
        let (e, g) = (shorts(est), shorts(gt));
        ch.note(|| format!("estimates {e}"));
        ch.note(|| format!("ground truths {g}"));
        let r = res
            .iter()
            .map(|r| {
                format!(
                    "{} -> {}",
                    short(&r.estimated_object),
                    r.ground_truth_object
                        .as_ref()
                        .map(short)
                        .unwrap_or("-".into())
                )
            })
            .collect::<Vec<_>>()
            .join("; ");
        ch.note(|| format!("results {r}"));
    }
}

fn run(ch: &mut Ch, est: &Vec<DynamicObject>, gt: &Vec<DynamicObject>) -> Vec<PerceptionResult> {
    ch.step();
    let res = get_perception_results(est, gt);
    describe(ch, est, gt, &res);
    res
}

fn record(ch: &mut Ch, est: &[DynamicObject], gt: &[DynamicObject], m: &[(usize, Option<usize>)]) {
    ch.compared();
    let mut v = m.to_vec();
    v.sort();
    ch.state(&(hl(est), hl(gt), &v));
    ch.outcome(&v);
}

/// C01 on one scene.
fn conserve(ch: &mut Ch, est: &Vec<DynamicObject>, gt: &Vec<DynamicObject>) -> R {
    let (e0, g0) = (hl(est), hl(gt));
    let res = run(ch, est, gt);
    ensure!(hl(est) == e0 && hl(gt) == g0, "inputs were changed");
    ensure!(
        res.len() == est.len(),
        "{} estimates but {} results",
        est.len(),
        res.len()
    );
    let m = match assign(est, gt, &res) {
        Ok(m) => m,
        Err(e) => return fail(e),
    };
    for (i, j) in &m {
        if let Some(j) = j {
            ensure!(
                est[*i].label == gt[*j].label,
                "pair of different labels: {} with {}",
                short(&est[*i]),
                short(&gt[*j])
            );
        }
    }
    for (i, j) in &m {
        if j.is_none() {
            if let Some(f) = (0..gt.len())
                .find(|f| gt[*f].label == est[*i].label && !m.iter().any(|(_, x)| *x == Some(*f)))
            {
                return fail(format!(
                    "{} is unpaired although {} is unused",
                    short(&est[*i]),
                    short(&gt[f])
                ));
            }
        }
    }
    record(ch, est, gt, &m);
    Ok(())
}

/// C02 on one scene.
fn nearest(
    ch: &mut Ch,
    est: &Vec<DynamicObject>,
    gt: &Vec<DynamicObject>,
) -> Result<Vec<(usize, Option<usize>)>, Stop> {
    let res = run(ch, est, gt);
    let m = match assign(est, gt, &res) {
        Ok(m) => m,
        Err(e) => return fail(format!("not a pairing: {e}")),
    };
    let mut ep: Vec<Option<usize>> = vec![None; est.len()];
    let mut gp: Vec<Option<usize>> = vec![None; gt.len()];
    for (i, j) in &m {
        ep[*i] = *j;
        if let Some(j) = j {
            gp[*j] = Some(*i);
        }
    }
    let d = |i: usize, j: usize| geom::center(&est[i], &gt[j]);
    let de: Vec<f64> = (0..est.len())
        .map(|i| ep[i].map(|j| d(i, j)).unwrap_or(f64::INFINITY))
        .collect();
    let dg: Vec<f64> = (0..gt.len())
        .map(|j| gp[j].map(|i| d(i, j)).unwrap_or(f64::INFINITY))
        .collect();
    for i in 0..est.len() {
        for j in 0..gt.len() {
            if est[i].label != gt[j].label || ep[i] == Some(j) {
                continue;
            }
            let x = d(i, j);
            let tol = 1e-12 * (1.0 + x);
            ensure!(
                !(x < de[i] - tol && x < dg[j] - tol),
                "{} and {} are {} apart, but the estimate was given a partner at {} and the ground truth one at {}",
                short(&est[i]),
                short(&gt[j]),
                x,
                de[i],
                dg[j]
            );
        }
    }
    record(ch, est, gt, &m);
    Ok(m)
}

type Judge = fn(&mut Ch, &Vec<DynamicObject>, &Vec<DynamicObject>) -> R;
fn j_conserve(ch: &mut Ch, e: &Vec<DynamicObject>, g: &Vec<DynamicObject>) -> R {
    conserve(ch, e, g)
}
fn j_nearest(ch: &mut Ch, e: &Vec<DynamicObject>, g: &Vec<DynamicObject>) -> R {
    nearest(ch, e, g).map(|_| ())
}

fn numbered(mut o: DynamicObject, k: usize, gt: bool) -> DynamicObject {
    o.uuid = Some(format!("{}{k}", if gt { "g" } else { "e" }));
    o.confidence = if gt { 1.0 } else { 0.1 + 0.07 * k as f64 };
    o
}

/// All lists over a small alphabet in which distances collide and compete.
fn lists(tier: Tier, judge: Judge) -> Space {
    let pos: [[f64; 3]; 4] = [
        [0.0, 0.0, 0.0],
        [1.0, 0.0, 0.0],
        [2.5, 0.0, 0.0],
        [0.0, 0.0, 1.5],
    ];
    let max = tier.pick((4, 3), (4, 4));
    Space::new(
        "lists",
        &format!("all lists of up to {} estimates and {} ground truths over 2 labels x 4 places (one above another), with and without IDs", max.0, max.1),
        move |ch| {
            let ids = ch.flag();
            let ne = ch.choose(max.0 + 1);
            let ng = ch.choose(max.1 + 1);
            let mk = |ch: &mut Ch, k: usize, gt: bool| {
                let c = ch.choose(8);
                let o = obj(c / 4, pos[c % 4]);
                if ids {
                    numbered(o, k, gt)
                } else {
                    o
                }
            };
            let est: Vec<_> = (0..ne).map(|k| mk(ch, k, false)).collect();
            let gt: Vec<_> = (0..ng).map(|k| mk(ch, k, true)).collect();
            judge(ch, &est, &gt)
        },
    )
}

/// Every attribute of every object, a bounded number of deviations from a base scene.
fn attributes(_tier: Tier, judge: Judge) -> Space {
    let b = 3;
    Space::new(
        "attributes",
        &format!("3 base scenes of up to 4 x 4 objects, every attribute of every object varied, up to {b} deviations: 8 labels, 10 frames, places, heights, headings, sizes, confidences, point counts, IDs, velocities, times"),
        move |ch| {
            let base = ch.choose(3);
            let mut est: Vec<DynamicObject> = vec![];
            let mut gt: Vec<DynamicObject> = vec![];
            match base {
                0 => {
                    for k in 0..3 {
                        est.push(numbered(obj(0, [10.0 * k as f64, 0.3, 0.0]), k, false));
                        gt.push(numbered(obj(0, [10.0 * k as f64, 0.0, 0.0]), k, true));
                    }
                }
                1 => {
                    for k in 0..4 {
                        est.push(numbered(obj(k / 2, [1.1 * k as f64, 0.0, 0.0]), k, false));
                        gt.push(numbered(obj(k / 2, [1.7 * k as f64 + 0.2, 0.0, 0.0]), k, true));
                    }
                }
                _ => {
                    for k in 0..4 {
                        est.push(numbered(obj(2, [3.0 * (k as f64).powi(2), 1.0, 0.0]), k, false));
                    }
                    for k in 0..2 {
                        gt.push(numbered(obj(2, [5.0 * k as f64 + 1.0, 0.0, 0.0]), k, true));
                    }
                }
            }
            for (side, list) in [&mut est, &mut gt].into_iter().enumerate() {
                for o in list.iter_mut() {
                    vary(ch, o, side == 1);
                }
            }
            judge(ch, &est, &gt)
        },
    )
    .budget(b)
}

/// Varies the attributes of an object; each answer but the first costs a deviation.
pub fn vary(ch: &mut Ch, o: &mut DynamicObject, gt: bool) {
    let l0 = label_index(&o.label);
    let k = ch.deviate(NL);
    o.label = label((l0 + k) % NL);
    let k = ch.deviate(NF);
    o.frame_id = frame(k);
    match ch.deviate(9) {
        0 => {}
        1 => o.position[0] += 4.0,
        2 => o.position[1] -= 7.5,
        3 => o.position[2] += 2.25,
        4 => o.position[2] -= 30.0,
        5 => o.position = [0.0; 3],
        6 => o.position[0] = -o.position[0] - 1.0,
        7 => o.position = [1e6, -1e6, 3.0],
        _ => o.position = [1e200, 0.0, 0.0],
    }
    match ch.deviate(5) {
        0 => {}
        1 => o.orientation = yaw(180.0),
        2 => o.orientation = yaw(77.0),
        3 => o.orientation = [-1.0, 0.0, 0.0, 0.0],
        _ => o.orientation = geom::from_euler(0.3, -0.4, 2.0),
    }
    match ch.deviate(4) {
        0 => {}
        1 => o.size = [0.5, 0.5, 0.5],
        2 => o.size = [0.0, 0.0, 0.0],
        _ => o.size = [30.0, 2.0, 9.0],
    }
    match ch.deviate(7) {
        0 => {}
        1 => o.confidence = 0.0,
        2 => o.confidence = 1.0,
        3 => o.confidence = 0.5,
        4 => o.confidence = -3.0,
        5 => o.confidence = 120.0,
        _ => o.confidence = 1e-300,
    }
    match ch.deviate(4) {
        0 => {}
        1 => o.pointcloud_num = None,
        2 => o.pointcloud_num = Some(0),
        _ => o.pointcloud_num = Some(usize::MAX),
    }
    match ch.deviate(5) {
        0 => {}
        1 => o.uuid = None,
        2 => o.uuid = Some("e1".into()),
        3 => o.uuid = Some("g1".into()),
        _ => o.uuid = Some(String::new()),
    }
    match ch.deviate(6) {
        0 => {}
        1 => o.velocity = Some([1.0, 2.0, 3.0]),
        2 => o.velocity = Some([-40.0, 0.0, 0.0]),
        3 => o.velocity = Some([0.0; 3]),
        4 => o.velocity = Some([0.0, 400.0, -7.0]),
        _ => o.velocity = Some([1e300; 3]),
    }
    match ch.deviate(6) {
        0 => {}
        1 => o.timestamp = us(0),
        2 => o.timestamp = us(1_000_001),
        3 => o.timestamp = us(-5_000_000),
        4 => o.timestamp = us(10_801_000_000),
        _ => o.timestamp = us(1_681_234_567_890_123),
    }
    let _ = gt;
}

const SIZES_Q: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65,
];
const SIZES_T: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63,
    64, 65, 100, 127, 128, 129, 200, 255, 256, 257,
];

/// Regular scenes of many sizes.
fn sizes(tier: Tier, judge: Judge) -> Space {
    let sz: Vec<usize> = tier.pick(SIZES_Q, SIZES_T).to_vec();
    Space::new(
        "sizes",
        &format!("all pairs of list lengths from {sz:?} x 8 regular layouts (lines, reversed, crossing, clustered, coincident, stacked, two and eight labels)"),
        move |ch| {
            let ne = ch.pick(&sz);
            let ng = ch.pick(&sz);
            let lay = ch.choose(8);
            let mk = |k: usize, n: usize, gt: bool| -> DynamicObject {
                let (f, off) = (k as f64, if gt { 0.0 } else { 0.37 });
                let (l, p) = match lay {
                    0 => (0, [f + off * f / 3.0, 0.0, 0.0]),
                    1 => (0, if gt { [f * 1.01, 0.0, 0.0] } else { [(n - k) as f64, 0.0, 0.0] }),
                    2 => (0, [(f * 7.3) % 11.0 + off, (f * 3.1) % 5.0, 0.0]),
                    3 => (0, [5.0, 5.0, 5.0]),
                    4 => (1, [0.0, 0.0, f * 1.5 + off * (1.0 + f)]),
                    5 => (k % 2, [f * 0.9 + off, if gt { 0.0 } else { 0.1 * f }, 0.0]),
                    6 => (k % 8, [(f * 2.7) % 13.0, off + (f * 1.9) % 7.0, 0.0]),
                    _ => (if gt { k % 3 } else { k % 5 }, [f * f * 0.01, off * f, 0.0]),
                };
                numbered(obj(l, p), k, gt)
            };
            let est: Vec<_> = (0..ne).map(|k| mk(k, ne, false)).collect();
            let gt: Vec<_> = (0..ng).map(|k| mk(k, ng, true)).collect();
            judge(ch, &est, &gt)
        },
    )
}

/// Crowded scenes.
fn large(tier: Tier, judge: Judge) -> Space {
    let mut sz = vec![
        (101, 100),
        (128, 130),
        (200, 200),
        (255, 256),
        (256, 255),
        (257, 257),
        (300, 40),
        (40, 300),
        (520, 513),
        (1025, 1030),
        (1100, 30),
    ];
    if tier == Tier::Thorough {
        sz.extend([(513, 700), (1600, 1500)]);
    }
    Space::new(
        "large",
        &format!("list lengths {sz:?} (estimates, ground truths) x 3 layouts: one label close to its ground truths, one label crossing, eight labels"),
        move |ch| {
            let (ne, ng) = ch.pick(&sz);
            let lay = ch.choose(3);
            let mk = |k: usize, gt: bool| -> DynamicObject {
                let f = k as f64;
                let (l, p) = match (lay, gt) {
                    (0, false) => (0, [3.0 * f + 0.1 + 1e-3 * f, 0.4, 0.0]),
                    (0, true) => (0, [3.0 * f, 0.0, 0.0]),
                    (1, false) => (3, [(f * 7.3) % 211.0, (f * 3.1) % 57.0, 0.37]),
                    (1, true) => (3, [(f * 5.9) % 223.0, (f * 2.3) % 61.0, 0.0]),
                    (_, false) => (k % 8, [f * 0.9, 0.01 * f, 0.0]),
                    (_, true) => (k % 8, [f * 1.1, 0.3, 0.0]),
                };
                numbered(obj(l, p), k, gt)
            };
            let est: Vec<_> = (0..ne).map(|k| mk(k, false)).collect();
            let gt: Vec<_> = (0..ng).map(|k| mk(k, true)).collect();
            judge(ch, &est, &gt)
        },
    )
}

/// Both lists in every order.
fn orders(_tier: Tier) -> Space {
    let n = 5;
    Space::new(
        "orders",
        &format!(
            "10 scenes with all distances different, both lists (up to {n} each) in every order"
        ),
        move |ch| {
            let scene = ch.choose(10);
            let xs: &[f64] = match scene % 5 {
                0 => &[0.0, 1.0, 2.1, 3.3, 4.6],
                1 => &[0.0, 10.0, 20.5, 31.5, 43.0],
                2 => &[0.0, 0.1, 0.25, 5.0, 9.0],
                3 => &[0.0, 3.0, 3.4, 3.9, 20.0],
                _ => &[9.0, 8.9, 8.7, 8.4, 8.0],
            };
            let ys: &[f64] = match scene / 5 {
                0 => &[0.43, 1.77, 2.9, 4.15, 5.03],
                _ => &[3.07, -2.0, 0.17, 3.65, 6.21],
            };
            let (ne, ng) = [(n, n), (n, n - 1), (n - 1, n)][ch.choose(3)];
            let labels = ch.choose(2);
            let est: Vec<_> = (0..ne)
                .map(|k| numbered(obj(k * labels % 2, [xs[k], 0.0, 0.0]), k, false))
                .collect();
            let gt: Vec<_> = (0..ng)
                .map(|k| numbered(obj(k * labels % 2, [ys[k], 0.2, 0.1 * k as f64]), k, true))
                .collect();
            let Some(want) = model::pair(&est, &gt) else {
                return Err(Stop::Skip);
            };
            let pe = ch.permutation(ne);
            let pg = ch.permutation(ng);
            let e2: Vec<_> = pe.iter().map(|i| est[*i].clone()).collect();
            let g2: Vec<_> = pg.iter().map(|i| gt[*i].clone()).collect();
            let m = nearest(ch, &e2, &g2)?;
            for (i, j) in m {
                let (i0, j0) = (pe[i], j.map(|j| pg[j]));
                ensure!(
                    want[i0] == j0,
                    "estimate {i0} is paired with {j0:?} in this order, with {:?} otherwise",
                    want[i0]
                );
            }
            Ok(())
        },
    )
}

/// Two scales of places: fine differences far away and close by.
fn scales(judge: Judge) -> Space {
    Space::new("scales", "2 estimates x 2 ground truths, all places over 7 coordinates per axis pair at scales 1e-6 .. 1e5, 3 axes", move |ch| {
        let axis = ch.choose(3);
        let scale = ch.pick(&[1e-6, 1e-3, 1.0, 1e3, 1e5]);
        let shift = ch.pick(&[0.0, 50.0]);
        let v = [0.0, 1.0, 1.5, 2.0, 2.25, 4.0, -3.0];
        let mk = |ch: &mut Ch, k, gt| {
            let mut p = [shift, shift, 0.5];
            p[axis] += scale * v[ch.choose(7)];
            numbered(obj(3, p), k, gt)
        };
        let est = vec![mk(ch, 0, false), mk(ch, 1, false)];
        let gt = vec![mk(ch, 0, true), mk(ch, 1, true)];
        judge(ch, &est, &gt)
    })
}

/// Rivals whose distances differ by little.
fn rivals(judge: Judge) -> Space {
    Space::new(
        "rivals",
        "2 estimates and 1 or 2 ground truths, the two distances to the first ground truth apart by 1e-11 .. 1e-3 of themselves (either one the shorter), distances 0.1 .. 1000, along and across the axes, with 0..2 further pairs closer by",
        move |ch| {
            let d = ch.pick(&[1.0, 0.1, 3.7, 60.0, 1000.0]);
            let rel = ch.pick(&[1e-9, 1e-11, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]);
            let dirs = [[1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0], [0.6, -0.8, 0.0], [0.48, 0.6, 0.64]];
            let longer = ch.choose(2);
            let mut gt = vec![obj(0, [2.0, -1.0, 0.5])];
            let mut est: Vec<DynamicObject> = (0..2)
                .map(|k| {
                    let v = ch.pick(&dirs);
                    let r = if k == longer { d * (1.0 + rel) } else { d };
                    obj(0, [2.0 + r * v[0], -1.0 + r * v[1], 0.5 + r * v[2]])
                })
                .collect();
            if ch.flag() {
                gt.push(obj(0, [2.0, 5000.0, 0.5]));
            }
            for k in 0..ch.choose(3) {
                gt.push(obj(k, [300.0 + 7000.0 * k as f64, 3000.0, 0.0]));
                est.push(obj(k, [300.0 + 7000.0 * k as f64, 3000.01, 0.0]));
            }
            if ch.flag() {
                est.reverse();
                gt.reverse();
            }
            let est: Vec<_> = est.into_iter().enumerate().map(|(k, o)| numbered(o, k, false)).collect();
            let gt: Vec<_> = gt.into_iter().enumerate().map(|(k, o)| numbered(o, k, true)).collect();
            judge(ch, &est, &gt)
        },
    )
}

pub fn c01(tier: Tier) -> Vec<Space> {
    vec![
        lists(tier, j_conserve),
        attributes(tier, j_conserve),
        sizes(tier, j_conserve),
        large(tier, j_conserve),
        scales(j_conserve),
    ]
}
pub fn c02(tier: Tier) -> Vec<Space> {
    vec![
        lists(tier, j_nearest),
        orders(tier),
        attributes(tier, j_nearest),
        sizes(tier, j_nearest),
        large(tier, j_nearest),
        scales(j_nearest),
        rivals(j_nearest),
    ]
}
