//! C12 - C15: the scores by which a pair is judged. Observed through the verdict at chosen thresholds.
use crate::engine::*;
use crate::ensure;
use crate::geom::{self, V3};
use crate::obj::*;
use crate::props::verdict::{score, MODES};
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::object::PerceptionResult;
use perception_eval::utils::point::get_point_left_right;
use std::f64::consts::PI;

pub const NAME: [&str; 4] = ["centre distance", "plane distance", "2D IoU", "3D IoU"];

fn verdict(
    ch: &mut Ch,
    mode: usize,
    e: &DynamicObject,
    g: &DynamicObject,
    thr: f64,
) -> Result<bool, Stop> {
    ch.step();
    match PerceptionResult::new(e.clone(), Some(g.clone())).is_result_correct(&MODES[mode], &thr) {
        Ok(b) => Ok(b),
        Err(x) => fail(format!("no verdict: {x}")),
    }
}

/// The score used in the verdict is `v` up to `tol`.
fn value_is(ch: &mut Ch, mode: usize, e: &DynamicObject, g: &DynamicObject, v: f64, tol: f64) -> R {
    let s = if mode < 2 { 1.0 } else { -1.0 };
    ensure!(
        verdict(ch, mode, e, g, v + s * tol)?,
        "{}: should be {v} but the pair fails at threshold {}: {} and {}",
        NAME[mode],
        v + s * tol,
        show(e),
        show(g)
    );
    ensure!(
        !verdict(ch, mode, e, g, v - s * tol)?,
        "{}: should be {v} but the pair passes at threshold {}: {} and {}",
        NAME[mode],
        v - s * tol,
        show(e),
        show(g)
    );
    Ok(())
}

/// Both directions.
fn both(ch: &mut Ch, mode: usize, e: &DynamicObject, g: &DynamicObject, v: f64, tol: f64) -> R {
    ch.note(|| {
        format!(
            "{} should be {v} for {} and {}",
            NAME[mode],
            show(e),
            show(g)
        )
    });
    value_is(ch, mode, e, g, v, tol)?;
    value_is(ch, mode, g, e, v, tol)?;
    ch.compared();
    ch.state(&(h(e), h(g)));
    ch.outcome(&((v * 1e6).round() as i64));
    Ok(())
}

fn place(pos: V3, deg: f64, size: V3) -> DynamicObject {
    let mut o = obj(0, pos);
    o.orientation = yaw(deg);
    o.size = size;
    o
}
/// Both boxes moved by one planar rigid motion.
fn moved(o: &DynamicObject, deg: f64, t: V3) -> DynamicObject {
    let mut o = o.clone();
    let q = yaw(deg);
    o.position = geom::add(&geom::rot(&q, &o.position), &t);
    o.orientation = geom::mul(&q, &o.orientation);
    o
}

const SIZES: [V3; 6] = [
    [2.0, 4.0, 1.5],
    [1.0, 1.0, 1.0],
    [2.5, 12.0, 3.5],
    [0.6, 0.8, 1.7],
    [4.0, 2.0, 1.5],
    [0.1, 9.0, 2.0],
];
const BASES: [(f64, V3); 6] = [
    (0.0, [0.0; 3]),
    (90.0, [20.0, 0.0, 0.0]),
    (37.0, [-15.0, 40.0, 1.0]),
    (-120.5, [3.0, -2.0, 0.0]),
    (179.0, [80.0, 80.0, -2.0]),
    (-45.0, [-150.0, -60.0, 0.0]),
];

pub fn c12(tier: Tier) -> Vec<Space> {
    let (n, st) = tier.pick((13, 15), (21, 5));
    let grid = Space::new(
        "grid",
        &format!("two boxes: 6 x 6 sizes, {n} x {n} relative positions, headings in steps of {st} degrees, {} placements", tier.pick(4, 6)),
        move |ch| {
            let (s1, s2) = (ch.pick(&SIZES), ch.pick(&SIZES));
            let c = |k: usize| (k as f64 - (n / 2) as f64) * 5.0 / n as f64;
            let (x, y) = (c(ch.choose(n)), c(ch.choose(n)));
            let a = (ch.choose(360 / st) * st) as f64;
            let (d, t) = BASES[[2, 0, 1, 3, 4, 5][ch.choose(tier.pick(4, 6))]];
            let e = moved(&place([x, y, 0.0], a, s1), d, t);
            let g = moved(&place([0.0; 3], 0.0, s2), d, t);
            both(ch, 2, &e, &g, geom::iou2d(&e, &g), 1e-6)
        },
    );
    // aligned edges, shared corners, touching sides, equal boxes: exact coincidences
    let m = tier.pick(8, 16);
    let touch = Space::new(
        "coincidences",
        &format!("axis-parallel boxes whose edges coincide, touch or nest (offsets in steps of 1/{m} of the size, beyond touching), quarter-turn headings with exact and rounded quaternions, {} placements", BASES.len()),
        move |ch| {
            let s1 = ch.pick(&[[2.0, 4.0, 1.5], [4.0, 2.0, 1.0], [2.0, 2.0, 2.0], [1.0, 2.0, 1.0]]);
            let s2 = ch.pick(&[[2.0, 4.0, 1.5], [2.0, 2.0, 2.0]]);
            let k = 4 * m + 1;
            let off = |k: usize| (k as f64 - (2 * m) as f64) / m as f64 * 2.0;
            let (x, y) = (off(ch.choose(k)), off(ch.choose(k)));
            let (d, t) = BASES[ch.choose(6)];
            let mut e = place([x, y, 0.0], 0.0, s1);
            let r = std::f64::consts::FRAC_1_SQRT_2;
            e.orientation = ch.pick(&[[1.0, 0.0, 0.0, 0.0], [r, 0.0, 0.0, r], [0.0, 0.0, 0.0, 1.0], [-r, 0.0, 0.0, r], [-1.0, 0.0, 0.0, 0.0]]);
            let e = moved(&e, d, t);
            let g = moved(&place([0.0; 3], 0.0, s2), d, t);
            both(ch, 2, &e, &g, geom::iou2d(&e, &g), 1e-6)
        },
    );
    let tiny = Space::new(
        "small displacements",
        "a box and itself displaced by 0 or 1e-3 .. 1e-15 in x, y and turned by as much, 36 headings, 6 sizes, 6 placements",
        |ch| {
            let s = ch.pick(&SIZES);
            let m = [0.0, 1e-3, 1e-6, 1e-9, 1e-10, 1e-12, 1e-14, 1e-15];
            let dx = ch.pick(&m);
            let dy = ch.pick(&[0.0, 1e-7, -1e-13]) + if ch.flag() { dx } else { 0.0 };
            let da = ch.pick(&m);
            let a = ch.choose(36) as f64 * 10.0;
            let (_, t) = BASES[ch.choose(6)];
            let g = moved(&place([0.0; 3], 0.0, s), a, t);
            let mut e = g.clone();
            e.position[0] += dx;
            e.position[1] += dy;
            e.orientation = geom::mul(&geom::axis_angle([0.0, 0.0, 1.0], da), &e.orientation);
            both(ch, 2, &e, &g, geom::iou2d(&e, &g), 1e-5)
        },
    );
    let laws = Space::new(
        "extremes",
        "identical boxes (1 up to rounding, for every heading in steps of 5 degrees x 6 sizes x 6 places), boxes apart by 1 mm .. 1 km (0), heights and elevations irrelevant",
        |ch| {
            let s = ch.pick(&SIZES);
            let a = ch.choose(72) as f64 * 5.0;
            let (_, t) = BASES[ch.choose(6)];
            let g = moved(&place([0.0; 3], 0.0, s), a, t);
            let mut e = g.clone();
            match ch.choose(8) {
                0 => both(ch, 2, &e, &g, 1.0, 1e-9),
                1 => {
                    e.position[2] += 50.0;
                    e.size[2] *= 7.0;
                    both(ch, 2, &e, &g, 1.0, 1e-9)
                }
                2 => {
                    e.orientation = e.orientation.map(|x| -x);
                    both(ch, 2, &e, &g, 1.0, 1e-9)
                }
                3 => {
                    e.orientation = geom::mul(&yaw(180.0), &e.orientation);
                    both(ch, 2, &e, &g, 1.0, 1e-6)
                }
                k => {
                    let gap = [0.001, 0.5, 30.0, 1000.0][k - 4];
                    let dir = ch.choose(24) as f64 * 15.0;
                    let reach = s[0].hypot(s[1]) + gap;
                    e.position = geom::add(&e.position, &geom::rot(&yaw(dir), &[reach, 0.0, 0.0]));
                    both(ch, 2, &e, &g, 0.0, 1e-9)
                }
            }
        },
    );
    vec![grid, touch, tiny, laws, box_scales(2)]
}

/// The ratio does not depend on how large the boxes are.
fn box_scales(mode: usize) -> Space {
    Space::new(
        "scales",
        "two boxes of 1 mm .. 1 km (13 common scales; and one of them larger by 1, 30 or 1000): 5 relative positions, 5 relative headings, 3 x 3 sizes, 4 placements",
        move |ch| {
            let k = [
                1e-3, 3e-3, 0.01, 0.02, 0.04, 0.07, 0.1, 0.3, 1.0, 10.0, 60.0, 300.0, 1e3,
            ][ch.choose(13)];
            let up = ch.pick(&[1.0, 30.0, 1000.0]);
            let s = [[2.0, 4.0, 1.5], [1.0, 1.0, 1.0], [0.3, 2.0, 3.0]];
            let (s1, s2) = (ch.pick(&s), ch.pick(&s));
            let off = ch.pick(&[
                [0.0, 0.0, 0.0],
                [0.2, 0.1, 0.3],
                [-0.9, 0.4, -0.6],
                [0.1, -0.7, 0.05],
                [2.1, 1.9, 0.0],
            ]);
            let a = ch.pick(&[0.0, 25.0, 90.0, -140.0, 180.0]);
            let (d, t) = BASES[ch.choose(4)];
            let e = place(off.map(|x| x * k), a, s1.map(|x| x * k));
            let g = place([0.0; 3], 0.0, s2.map(|x| x * k * up));
            let (e, g) = (moved(&e, d, t), moved(&g, d, t));
            let v = if mode == 2 {
                geom::iou2d(&e, &g)
            } else {
                geom::iou3d(&e, &g)
            };
            // ratios down to 1e-9 are told from 0
            let tol = if v > 0.0 { (v * 0.1).min(1e-6) } else { 1e-12 };
            both(ch, mode, &e, &g, v, tol.max(1e-11 / k.min(1.0)))
        },
    )
}

pub fn c13(tier: Tier) -> Vec<Space> {
    let heights = Space::new(
        "heights",
        "two boxes over each other: 8 elevations x 6 x 6 heights, 5 relative positions, 4 relative headings, 3 placements",
        move |ch| {
            let hs = [1.5, 1.0, 4.0, 0.25, 2.0, 0.1];
            let g = place([0.0; 3], 0.0, [2.0, 4.0, ch.pick(&hs)]);
            let z = ch.pick(&[0.0, 0.3, 1.25, -0.75, 2.1, -3.9, 6.0, -100.0]);
            let (x, y) = ch.pick(&[(0.0, 0.0), (1.0, 0.5), (-2.5, 1.0), (0.0, -1.9), (7.0, 0.0)]);
            let e = place([x, y, z], ch.pick(&[0.0, 45.0, 100.0, 180.0]), [1.8, 4.5, ch.pick(&hs)]);
            let (d, t) = BASES[ch.choose(3)];
            let t = geom::add(&t, &[0.0, 0.0, ch.pick(&[0.0, 10.0, -7.0])]);
            let (e, g) = (moved(&e, d, t), moved(&g, d, t));
            both(ch, 3, &e, &g, geom::iou3d(&e, &g), 1e-6)
        },
    );
    let (n, st) = tier.pick((9, 15), (13, 10));
    let grid = Space::new(
        "grid",
        &format!("two boxes: 6 x 6 sizes, {n} x {n} x {n} relative positions, headings in steps of {st} degrees"),
        move |ch| {
            let (s1, s2) = (ch.pick(&SIZES), ch.pick(&SIZES));
            let c = |k: usize, w: f64| (k as f64 - (n / 2) as f64) * w / n as f64;
            let (x, y, z) = (c(ch.choose(n), 5.0), c(ch.choose(n), 5.0), c(ch.choose(n), 4.0) + 0.01);
            let a = (ch.choose(360 / st) * st) as f64;
            let (d, t) = BASES[2];
            let e = moved(&place([x, y, z], a, s1), d, t);
            let g = moved(&place([0.0; 3], 0.0, s2), d, t);
            both(ch, 3, &e, &g, geom::iou3d(&e, &g), 1e-6)
        },
    );
    let bound = Space::new(
        "bounds",
        "boxes with the same footprint, 101 elevations x 5 x 5 heights: the height overlap ratio, 0 when apart, 1 when equal, never above the 2D IoU of boxes of equal height",
        |ch| {
            let hs = [1.5, 1.0, 4.0, 0.25, 2.0];
            let (_, t) = BASES[ch.choose(6)];
            let a = ch.choose(8) as f64 * 23.0;
            let g = moved(&place([0.0; 3], 0.0, [2.0, 4.0, ch.pick(&hs)]), a, t);
            let mut e = g.clone();
            e.size[2] = ch.pick(&hs);
            e.position[2] += (ch.choose(101) as f64 - 50.0) * 0.1 + 0.003;
            let o = geom::overlap_height(&e, &g);
            let v = o / (e.size[2] + g.size[2] - o);
            both(ch, 3, &e, &g, v, 1e-6)
        },
    );
    vec![heights, grid, bound, box_scales(3)]
}

fn score_clear(mode: usize, e: &DynamicObject, g: &DynamicObject) -> Result<f64, Stop> {
    match score(mode, e, g) {
        Some(v) => Ok(v),
        None => Err(Stop::Skip),
    }
}

/// The score the verdict uses, found by bisection of the threshold (distances only).
fn bisect(ch: &mut Ch, mode: usize, e: &DynamicObject, g: &DynamicObject) -> Result<f64, Stop> {
    let (mut lo, mut hi) = (0.0, 1e4);
    ensure!(
        verdict(ch, mode, e, g, hi)?,
        "{}: fails at threshold {hi}",
        NAME[mode]
    );
    while hi - lo > 1e-7 {
        let mid = 0.5 * (lo + hi);
        if verdict(ch, mode, e, g, mid)? {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    Ok(lo)
}

pub fn c14(tier: Tier) -> Vec<Space> {
    let g = tier.pick(7, 9);
    let center = Space::new(
        "centre distances",
        &format!("two boxes at all pairs of points of a {g}^3 grid of 2 scales, with different sizes and headings"),
        move |ch| {
            let st = ch.pick(&[0.75, 30.0]);
            let c = |k: usize| (k as f64 - (g / 2) as f64) * st + 0.125;
            let (a, b): (V3, V3) = ([c(ch.choose(g)), c(ch.choose(g)), c(ch.choose(g))], [c(ch.choose(g)), c(ch.choose(g)), c(ch.choose(g))]);
            let k = ch.choose(2);
            let e = place(a, [0.0, 133.0][k], SIZES[k]);
            let g = place(b, [0.0, -20.0][k], SIZES[2 * k]);
            both(ch, 0, &e, &g, geom::dist(&a, &b), 1e-9)
        },
    );
    let (m, st) = tier.pick((9, 15), (15, 5));
    let plane = Space::new(
        "plane distances",
        &format!("ground truth at 9 places around (and over) the ego x headings in steps of {st} degrees, estimate at {m} x {m} offsets, 4 relative headings, 3 x 3 sizes"),
        move |ch| {
            let p = ch.pick(&[[30.0, 11.0, 0.0], [0.3, 25.0, 0.0], [-18.0, 9.0, 1.0], [-40.0, -1.7, 0.0], [-6.0, -7.0, -1.0], [1.3, -50.0, 0.0], [9.0, -3.0, 2.0], [3.0, 0.7, 0.0], [0.2, 0.1, 0.0]]);
            let a = (ch.choose(360 / st) * st) as f64 + 1.5;
            let s = [SIZES[0], SIZES[1], SIZES[2]];
            let g = place(p, a, ch.pick(&s));
            let c = |k: usize| (k as f64 - (m / 2) as f64) * 0.9;
            let q = [p[0] + c(ch.choose(m)), p[1] + c(ch.choose(m)), p[2] + 0.4];
            let da = ch.pick(&[0.0, 14.0, 95.0, 181.0]);
            let e = place(q, a + da, ch.pick(&s));
            let v = score_clear(1, &e, &g)?;
            both(ch, 1, &e, &g, v, 1e-7)
        },
    );
    let tilted = Space::new(
        "tilted boxes",
        "plane distance of boxes with roll and pitch: 7 x 7 orientations at 8 directions x 3 ranges (3, 7, 22 m) x 5 heights (also 5 km above and 1 km below), 4 offsets",
        |ch| {
            let qs = [
                yaw(10.0),
                geom::from_euler(0.2, 0.1, 1.0),
                geom::from_euler(-0.3, 0.4, -2.0),
                geom::from_euler(0.0, -0.5, 0.1),
                geom::from_euler(1.0, 0.0, 3.0),
                geom::from_euler(0.05, -0.02, -1.4),
                geom::from_euler(-0.7, 0.7, 0.7),
            ];
            let p = geom::rot(&yaw(ch.choose(8) as f64 * 45.0 + 3.0), &[ch.pick(&[22.0, 7.0, 3.0]), 0.0, ch.pick(&[0.5, 12.0, -4.0, 5000.0, -1000.0])]);
            let mut g = place(p, 0.0, SIZES[0]);
            g.orientation = ch.pick(&qs);
            let mut e = g.clone();
            e.orientation = ch.pick(&qs);
            e.position = geom::add(
                &e.position,
                &ch.pick(&[
                    [0.0; 3],
                    [1.0, 0.3, 0.0],
                    [-0.7, 2.0, 1.0],
                    [4.0, -4.0, 0.0],
                ]),
            );
            let v = score_clear(1, &e, &g)?;
            both(ch, 1, &e, &g, v, 1e-7)
        },
    );
    let far = Space::new(
        "far and near",
        "plane and centre distance of boxes 60 m to 500 km from the ego (also where map frames put them), in 8 directions, 3 x 2 headings, 7 offsets of 1 um to 10 m scaled in 3 directions",
        |ch| {
            let r = ch.pick(&[60.0, 119.0, 121.0, 150.0, 255.0, 300.0, 1000.0, 5000.0, 99_000.0, 500_000.0]);
            let d = ch.choose(8);
            let p = geom::rot(&yaw(d as f64 * 45.0 + 3.0), &[r, 0.0, 0.5]);
            let g = place(p, ch.pick(&[0.0, 55.0, -110.0]), SIZES[0]);
            let s = ch.pick(&[1e-6, 1e-4, 1e-3, 4e-3, 0.1, 1.0, 10.0]);
            let u = ch.pick(&[[1.0, 0.25, 0.0], [-0.3, 0.8, 0.1], [-0.7, -0.2, 0.5]]);
            let mut e = place(geom::add(&p, &u.map(|x| x * s)), 0.0, SIZES[0]);
            e.orientation = geom::mul(&yaw(ch.pick(&[0.0, 2.0])), &g.orientation);
            // the positions are known to an ulp of their coordinates
            let tol = 1e-9 + 4e-15 * r;
            both(ch, 0, &e, &g, geom::dist(&e.position, &g.position), tol)?;
            let v = score_clear(1, &e, &g)?;
            both(ch, 1, &e, &g, v, 4.0 * tol)
        },
    );
    let close = Space::new(
        "close corners",
        "boxes of which two or three corners are about as near the ego: seen broadside, end on and corner on (as exactly as bisection finds it) but for turns of 1e-6 to 2 degrees, in 8 directions, 3 ranges, 4 heights, level, leaning forward, sideways or both, estimates at 3 offsets and with the opposite turn",
        |ch| {
            let d = ch.choose(4) as f64 * 90.0 + ch.pick(&[0.0, 33.0]);
            let p = geom::rot(&yaw(d), &[ch.pick(&[20.0, 5.0, 150.0]), 0.0, ch.pick(&[0.5, 80.0, -300.0, 3000.0])]);
            let t = ch.pick(&[1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5, 2.0]);
            let t = if ch.flag() { t } else { -t };
            let lean = ch.pick(&[geom::from_euler(0.0, 0.0, 0.0), geom::from_euler(0.0, 0.02, 0.0), geom::from_euler(-0.01, 0.0, 0.0), geom::from_euler(0.03, -0.05, 0.0)]);
            let turned = |a: f64| {
                let mut g = place(p, 0.0, SIZES[0]);
                g.orientation = geom::mul(&yaw(d + a), &lean);
                g
            };
            let side = match ch.choose(4) {
                0 => 0.0,
                1 => 90.0,
                k => {
                    // the turn at which two opposite corners are as far from the ego
                    let gap = |a: f64| {
                        let c = geom::footprint(&turned(a));
                        c[k - 2][0].hypot(c[k - 2][1]) - c[k][0].hypot(c[k][1])
                    };
                    let at = (SIZES[0][1] / SIZES[0][0]).atan().to_degrees() * if k == 2 { 1.0 } else { -1.0 };
                    let (mut lo, mut hi) = (at - 15.0, at + 15.0);
                    if gap(lo) * gap(hi) > 0.0 {
                        return Err(Stop::Skip);
                    }
                    let up = gap(lo) < 0.0;
                    for _ in 0..60 {
                        let m = 0.5 * (lo + hi);
                        if (gap(m) < 0.0) == up {
                            lo = m;
                        } else {
                            hi = m;
                        }
                    }
                    lo
                }
            };
            let g = turned(side + t);
            let mut e = if ch.flag() { turned(side - t) } else { g.clone() };
            e.position = geom::add(&p, &ch.pick(&[[0.0; 3], [0.4, 0.3, 0.0], [-0.7, 0.2, 1.0]]));
            let v = score_clear(1, &e, &g)?;
            both(ch, 1, &e, &g, v, 1e-7)
        },
    );
    let inline = Space::new(
        "in line with the ego",
        "boxes whose nearest side points at the ego but for 1e-7 .. 0.3 m to one or the other side (shorter than wide, 4 lengths, 3 widths, 4 ranges, either side of the line), in 8 directions; estimates at 3 offsets along it and to the same or the other side",
        |ch| {
            let d = ch.choose(8) as f64 * 45.0 + ch.pick(&[0.0, 7.0]);
            let near = ch.pick(&[2.0, 10.0, 40.0, 120.0]);
            let l = ch.pick(&[0.05, 0.3, 0.9, 2.0]);
            let w = ch.pick(&[6.0, 15.0, 40.0]);
            let side = if ch.flag() { 1.0 } else { -1.0 };
            let off = ch.pick(&[1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.3]);
            // the box lies on one side of the line, its long edge `off` beyond or short of it
            let at = |x: f64, off: f64| {
                let mut o = place(geom::rot(&yaw(d), &[x + l / 2.0, side * (w / 2.0) + off, 0.4]), d, [w, l, 1.5]);
                o.orientation = yaw(d);
                o
            };
            let off = if ch.flag() { off } else { -off };
            let g = at(near, off);
            let e = at(near + ch.pick(&[0.0, 0.02, 0.2]), if ch.flag() { off } else { -off });
            let v = score_clear(1, &e, &g)?;
            both(ch, 1, &e, &g, v, 1e-7)
        },
    );
    let small = Space::new(
        "slightly off",
        "plane distance of boxes that differ by offsets of 1 um to 30 cm and turns of 0, 1e-5, 0.01, 1 and 5 degrees, at 5 places x 6 headings: exact to a nanometre",
        |ch| {
            let p = ch.pick(&[[30.0, 11.0, 0.0], [-18.0, 9.0, 1.0], [3.0, -7.0, 0.0], [5.0, 1.0, 0.0], [-60.0, -1.0, 2.0]]);
            let g = place(p, ch.choose(6) as f64 * 57.0 + 3.0, SIZES[ch.choose(3)]);
            let s = ch.pick(&[0.0, 1e-6, 1e-5, 1e-4, 1e-3, 5e-3, 9e-3, 0.02, 0.1, 0.3]);
            let u = ch.pick(&[[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [-0.6, 0.8, 0.0], [0.5, 0.2, 1.0]]);
            let mut e = g.clone();
            e.position = geom::add(&p, &u.map(|x| x * s));
            e.orientation = geom::mul(&yaw(ch.pick(&[0.0, 1e-5, 0.01, -1.0, 5.0])), &g.orientation);
            let v = score_clear(1, &e, &g)?;
            both(ch, 1, &e, &g, v, 1e-9)
        },
    );
    let turn = Space::new(
        "turning about the ego",
        "pairs of boxes turned together about the vertical axis in steps of 7.5 degrees: the same plane distance as before",
        |ch| {
            let p = ch.pick(&[[30.0, 11.0, 0.0], [0.3, 25.0, 0.0], [-18.0, 9.0, 1.0], [5.0, 1.0, 0.0]]);
            let g = place(p, ch.pick(&[3.0, 70.0, -100.0]), SIZES[0]);
            let mut e = g.clone();
            e.position = geom::add(&e.position, &ch.pick(&[[0.0; 3], [1.0, 0.3, 0.0], [-0.7, 2.0, 1.0], [4.0, -4.0, 0.0]]));
            e.orientation = geom::mul(&yaw(ch.pick(&[0.0, 12.0, 170.0])), &e.orientation);
            let v = score_clear(1, &e, &g)?;
            let d = ch.choose(48) as f64 * 7.5;
            let (e, g) = (moved(&e, d, [0.0; 3]), moved(&g, d, [0.0; 3]));
            both(ch, 1, &e, &g, v, 1e-7)
        },
    );
    let same = Space::new(
        "identical and tied boxes",
        "identical boxes anywhere (also around the ego, squares, tied corners): plane distance 0; tied nearest corners: the same distance in both directions",
        |ch| {
            let p = ch.pick(&[[0.0, 0.0, 0.0], [10.0, 0.0, 0.0], [0.0, -10.0, 0.0], [7.0, 7.0, 0.0], [2.0, 1.0, 0.0], [0.0, 1.0, 4.0], [-30.0, 2.0, 1.0]]);
            let a = ch.choose(24) as f64 * 15.0;
            let s = ch.pick(&[[2.0, 4.0, 1.5], [2.0, 2.0, 2.0], [0.0, 0.0, 0.0], [0.0, 3.0, 1.0]]);
            let g = place(p, a, s);
            let k = ch.choose(4);
            if k == 0 {
                return both(ch, 1, &g, &g, 0.0, 1e-9);
            }
            let mut e = g.clone();
            match k {
                1 => e.position[0] += 1.5,
                2 => e.position[1] -= 2.0,
                _ => e.size = [1.0, 1.0, 1.0],
            }
            let (u, v) = (bisect(ch, 1, &e, &g)?, bisect(ch, 1, &g, &e)?);
            ch.note(|| format!("{} and {}: {u} one way, {v} the other", show(&e), show(&g)));
            ensure!((u - v).abs() < 1e-6, "plane distance {u} one way, {v} the other: {} and {}", show(&e), show(&g));
            ch.compared();
            ch.state(&(h(&e), h(&g)));
            ch.outcome(&((u * 1e5).round() as i64));
            Ok(())
        },
    );
    let k = tier.pick(15, 25);
    let lr = Space::new(
        "left and right",
        &format!("all pairs of points of a {k} x {k} grid around the ego at 3 x 3 heights: which is left"),
        move |ch| {
            let c = |i: usize| (i as f64 - (k / 2) as f64) * 2.5 + 0.3;
            let p = [c(ch.choose(k)), c(ch.choose(k)), ch.pick(&[0.0, 1.0, -50.0])];
            let q = [c(ch.choose(k)), c(ch.choose(k)), ch.pick(&[0.0, 1.0, 7.0])];
            ch.step();
            let (l, r) = get_point_left_right(&p, &q);
            ensure!((*l == p && *r == q) || (*l == q && *r == p), "{p:?} {q:?} give {l:?} {r:?}");
            let (ap, aq) = (p[1].atan2(p[0]), q[1].atan2(q[0]));
            let d = (aq - ap).rem_euclid(2.0 * PI); // q is counter-clockwise of p by d
            if d < 1e-9 || (d - PI).abs() < 1e-9 || d > 2.0 * PI - 1e-9 {
                return Err(Stop::Skip);
            }
            let want = if d < PI { q } else { p };
            ensure!(*l == want, "{p:?} and {q:?}: left is {l:?}, should be {want:?}");
            let (l2, r2) = get_point_left_right(&q, &p);
            ensure!(l2 == l && r2 == r, "{p:?} and {q:?}: the answer depends on their order");
            ch.compared();
            ch.state(&(p.map(f64::to_bits), q.map(f64::to_bits)));
            ch.outcome(&(d < PI));
            Ok(())
        },
    );
    vec![center, plane, tilted, close, inline, far, small, turn, same, lr]
}

fn up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    f64::from_bits(if x > 0.0 {
        x.to_bits() + 1
    } else {
        x.to_bits() - 1
    })
}
fn down(x: f64) -> f64 {
    -up(-x)
}

pub fn c15(tier: Tier) -> Vec<Space> {
    let equal = Space::new(
        "equal scores",
        "pairs whose score is an exact machine number (Pythagorean and dyadic offsets, identical, disjoint and nested axis-parallel boxes) x 4 modes, at the score, one unit of least precision off on each side, and further",
        |ch| {
            let mode = ch.choose(4);
            let l = ch.choose(NL);
            let flip = ch.flag();
            let (mut e, mut g, v): (DynamicObject, DynamicObject, f64) = match mode {
                0 => {
                    let (d, v) = ch.pick(&[
                        ([0.0, 0.0, 0.0], 0.0),
                        ([3.0, 4.0, 0.0], 5.0),
                        ([-4.0, 0.0, 3.0], 5.0),
                        ([0.0, -5.0, 12.0], 13.0),
                        ([2.0, 3.0, 6.0], 7.0),
                        ([0.5, 0.0, 0.0], 0.5),
                        ([0.0, 0.25, 0.0], 0.25),
                        ([0.0, 0.0, -2.0], 2.0),
                        ([1.0, 2.0, 2.0], 3.0),
                    ]);
                    let g = obj(l, ch.pick(&[[8.0, -2.0, 1.0], [0.0, 0.0, 0.0]]));
                    let mut e = g.clone();
                    e.position = geom::add(&g.position, &d);
                    (e, g, v)
                }
                1 => {
                    // both nearest corners move by the same exact distance
                    let (d, v) = ch.pick(&[([0.0, 0.0, 0.0], 0.0), ([1.0, 0.0, 0.0], 1.0), ([2.0, 0.0, 5.0], 2.0), ([0.5, 0.0, 0.0], 0.5), ([4.0, 0.0, 0.0], 4.0), ([0.0, 0.25, 0.0], 0.25)]);
                    let g = obj(l, [16.0, 0.5, 0.0]);
                    let mut e = g.clone();
                    e.position = geom::add(&g.position, &d);
                    (e, g, v)
                }
                _ => {
                    // nested or disjoint axis-parallel boxes
                    let k = ch.choose(5);
                    let mut g = obj(l, [16.0, 8.0, 0.0]);
                    g.size = [2.0, 4.0, 2.0];
                    let mut e = g.clone();
                    let (i2, i3) = match k {
                        0 => (1.0, 1.0),
                        1 => {
                            e.size = [1.0, 4.0, 2.0];
                            (0.5, 0.5)
                        }
                        2 => {
                            e.size = [1.0, 2.0, 2.0];
                            (0.25, 0.25)
                        }
                        3 => {
                            e.position[0] += 64.0;
                            (0.0, 0.0)
                        }
                        _ => {
                            e.size = [2.0, 2.0, 1.0];
                            (0.5, 0.25)
                        }
                    };
                    (e, g, if mode == 2 { i2 } else { i3 })
                }
            };
            if flip {
                std::mem::swap(&mut e, &mut g);
            }
            ch.note(|| format!("{} is exactly {v}: {} and {}", NAME[mode], show(&e), show(&g)));
            let better = |t: f64| if mode < 2 { v < t } else { v > t };
            let mut seen = 0u64;
            for (i, t) in [
                v, up(v), down(v), v + 1e-9, v - 1e-9, v + 0.5, v - 0.5, 0.0, -0.0, 1.0, -1.0, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE,
            ]
            .into_iter()
            .enumerate()
            {
                let got = verdict(ch, mode, &e, &g, t)?;
                ensure!(got == better(t), "{}: score {v}, threshold {t:e}: judged {got}", NAME[mode]);
                seen |= (got as u64) << i;
            }
            ch.compared();
            ch.state(&(h(&e), h(&g), mode));
            ch.outcome(&(mode, seen));
            Ok(())
        },
    );
    let mono = Space::new(
        "threshold scan",
        "pairs (6 places x 7 offsets x 4 headings x 3 sizes) x 4 modes x a scan of 60 thresholds from far below to far above the score: one change of verdict, at the score",
        |ch| {
            let mode = ch.choose(4);
            let p = ch.pick(&[[30.0, 11.0, 0.0], [0.3, 25.0, 0.0], [-18.0, 9.0, 1.0], [-40.0, -1.7, 0.0], [-6.0, -7.0, -1.0], [3.0, 0.7, 0.0]]);
            let g = place(p, 21.0, SIZES[0]);
            let off = ch.pick(&[[0.0, 0.0, 0.0], [0.3, 0.2, 0.1], [1.0, -1.0, 0.5], [-2.0, 0.4, -0.6], [0.0, 3.0, 0.0], [9.0, 9.0, 9.0], [0.0, 0.0, 2.0]]);
            let e = place(geom::add(&p, &off), 21.0 + ch.pick(&[0.0, 20.0, 90.0, 180.0]), ch.pick(&[SIZES[0], SIZES[1], SIZES[4]]));
            let v = score_clear(mode, &e, &g)?;
            let mut ts: Vec<f64> = (0..20).flat_map(|k| [v + 1e-7 * 2.5f64.powi(k), v - 1e-7 * 2.5f64.powi(k)]).collect();
            ts.extend((0..10).map(|k| k as f64 * 0.11));
            ts.extend([-1.0, -1e9, 1e9, 2.0, 50.0, 100.0, 1e6, f64::INFINITY, f64::NEG_INFINITY, 5.0]);
            let mut ok = 0;
            for t in ts {
                if (t - v).abs() < 5e-8 {
                    continue;
                }
                let want = if mode < 2 { v < t } else { v > t };
                let got = verdict(ch, mode, &e, &g, t)?;
                ensure!(got == want, "{}: score {v}, threshold {t}: judged {got}: {} and {}", NAME[mode], show(&e), show(&g));
                ok += got as u32;
            }
            ch.compared();
            ch.state(&(h(&e), h(&g), mode));
            ch.outcome(&(mode, ok, (v * 1e6) as i64));
            Ok(())
        },
    );
    let alone =
        Space::new(
            "unpaired",
            "a result without ground truth x 8 labels x 4 modes x 12 thresholds x 6 places",
            |ch| {
                let e = obj(
                    ch.choose(NL),
                    ch.pick(&[
                        [0.0; 3],
                        [1.0, 0.0, 0.0],
                        [30.0, 11.0, 0.0],
                        [-5.0, -5.0, 0.0],
                        [1e9, 0.0, 0.0],
                        [1.0, 1.0, 1.0],
                    ]),
                );
                let mode = ch.choose(4);
                let t = ch.pick(&[
                    0.0,
                    -0.0,
                    1.0,
                    -1.0,
                    1e300,
                    -1e300,
                    f64::INFINITY,
                    f64::NEG_INFINITY,
                    f64::NAN,
                    0.5,
                    1e-300,
                    50.0,
                ]);
                let r = PerceptionResult::new(e.clone(), None);
                ch.step();
                match r.is_result_correct(&MODES[mode], &t) {
                    Ok(false) => {}
                    Ok(true) => return fail(format!(
                        "{} with threshold {t}: a result without ground truth is judged correct",
                        NAME[mode]
                    )),
                    Err(x) => return fail(format!("no verdict: {x}")),
                }
                ensure!(
                    !r.is_label_correct(),
                    "a result without ground truth has a correct label"
                );
                ch.compared();
                ch.state(&(h(&e), mode, t.to_bits()));
                Ok(())
            },
        );
    let b = tier.pick(3, 4);
    let irrelevant = Space::new(
        "other attributes",
        &format!("pairs just above and just below the threshold, every attribute but the box varied, up to {b} deviations, 4 modes: the verdict stays; the label verdict is the equality of the labels"),
        move |ch| {
            let mode = ch.choose(4);
            let l = ch.choose(NL);
            let mut g = obj(l, [30.0, 11.0, 0.0]);
            g.orientation = yaw(20.0);
            let mut e = g.clone();
            e.position = geom::add(&e.position, &[0.4, 0.3, 0.1]);
            e.orientation = yaw(31.0);
            let v = score_clear(mode, &e, &g)?;
            let (pe, pg) = (e.clone(), g.clone());
            super::pairing::vary(ch, &mut e, false);
            super::pairing::vary(ch, &mut g, true);
            for (o, p) in [(&e, &pe), (&g, &pg)] {
                if o.position != p.position || o.orientation != p.orientation || o.size != p.size {
                    return Err(Stop::Skip); // a change of the box: other spaces
                }
            }
            let t = if ch.flag() { v + 1e-6 } else { v - 1e-6 };
            let want = if mode < 2 { v < t } else { v > t };
            let got = verdict(ch, mode, &e, &g, t)?;
            ensure!(got == want, "{}: score {v}, threshold {t}: judged {got}: {} and {}", NAME[mode], show(&e), show(&g));
            let r = PerceptionResult::new(e.clone(), Some(g.clone()));
            ensure!(r.is_label_correct() == (e.label == g.label), "label verdict {} for {} and {}", r.is_label_correct(), label_name(&e.label), label_name(&g.label));
            ensure!(same(&r.estimated_object, &e) && r.ground_truth_object.as_ref().is_some_and(|x| same(x, &g)), "the pair was altered");
            ch.compared();
            ch.state(&(h(&e), h(&g), mode));
            ch.outcome(&(mode, got, e.label == g.label));
            Ok(())
        },
    )
    .budget(b);
    vec![equal, mono, alone, irrelevant]
}
