//! C09: quaternion helpers. C10: angles. C11: box geometry.
use crate::engine::*;
use crate::ensure;
use crate::geom::{self, Q, V3};
use crate::obj::*;
use perception_eval::dataset::nuscenes::r#box::NuScenesBox;
use perception_eval::dataset::nuscenes::schema::LongToken;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::utils::math::*;
use perception_eval::utils::point::{distance_points, distance_points_bev};
use std::f64::consts::PI;

const VECS: [V3; 8] = [
    [1.0, 0.0, 0.0],
    [0.0, 1.0, 0.0],
    [0.0, 0.0, 1.0],
    [3.0, -5.0, 7.5],
    [0.0, 0.0, 0.0],
    [-1234.5, 0.25, 88.0],
    [1e-3, 2e-3, -5e-3],
    [350000.0, -120000.0, 40.0],
];

fn mat(q: &Q) -> geom::M3 {
    let m = quaternion2rotation(q);
    [0, 1, 2].map(|i| [0, 1, 2].map(|j| m[(i, j)]))
}
fn size3(v: &V3) -> f64 {
    1.0 + v.iter().map(|x| x.abs()).fold(0.0, f64::max)
}

/// Every unit quaternion of the bound: lattice directions, the two finite groups, rotations about 13 axes, euler grid.
pub fn quaternions(r: i32, step: usize) -> Vec<Q> {
    let mut v = geom::lattice(r);
    v.extend(geom::octahedral());
    v.extend(geom::icosahedral());
    for a in -1..=1i32 {
        for b in -1..=1i32 {
            for c in -1..=1i32 {
                if (a, b, c) == (0, 0, 0) {
                    continue;
                }
                for d in (0..720).step_by(step) {
                    v.push(geom::axis_angle(
                        [a as f64, b as f64, c as f64],
                        (d as f64 - 360.0).to_radians(),
                    ));
                }
            }
        }
    }
    // very small and very large turns, nearly but not quite half and quarter turns
    for ax in [
        [0.0, 0.0, 1.0],
        [0.0, 1.0, 0.0],
        [1.0, 0.0, 0.0],
        [0.3, -0.4, 0.5],
    ] {
        for base in [0.0, PI / 2.0, PI, -PI / 2.0, -PI, 2.0 * PI] {
            for e in [1e-3, 1e-6, 1e-9, 1e-12, 1e-15] {
                v.push(geom::axis_angle(ax, base + e));
                v.push(geom::axis_angle(ax, base - e));
            }
        }
    }
    v
}

fn small_set() -> Vec<Q> {
    let mut v = geom::octahedral();
    v.extend(geom::icosahedral());
    v.extend(geom::lattice(1));
    for d in [5.0, -37.0, 111.0, 179.5] {
        v.push(yaw(d));
    }
    v.push(geom::from_euler(0.3, -0.4, 2.0));
    v.push(geom::from_euler(-2.9, 1.5, -0.7));
    v
}

pub fn c09(tier: Tier) -> Vec<Space> {
    let qs = quaternions(tier.pick(5, 7), tier.pick(3, 2));
    let n = qs.len();
    let single = Space::new(
        "one rotation",
        &format!("{n} unit quaternions (lattice, octahedral and icosahedral groups, 26 axes x angles, near-degenerate turns) x 8 vectors"),
        move |ch| {
            let q = ch.pick(&qs);
            ch.note(|| format!("q = {q:?}"));
            let r = geom::matrix(&q);
            ch.steps(3);
            let m = mat(&q);
            ensure!(geom::close_m(&m, &r, 1e-12), "rotation matrix {m:?}, should be {r:?}");
            let det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
            ensure!((det - 1.0).abs() < 1e-12, "determinant {det}");
            let inv = inverse_quaternion(&q);
            ensure!(geom::same_rotation(&inv, &geom::conj(&q), 1e-12), "inverse {inv:?} of {q:?}");
            ensure!(geom::close_m(&mat(&inv), &geom::matrix(&geom::conj(&q)), 1e-12), "the matrix of the inverse is {:?}", mat(&inv));
            for v in VECS {
                let tol = 1e-12 * size3(&v);
                let want = geom::rot(&q, &v);
                let got = rotate(&v, &q);
                ensure!(geom::close3(&got, &want, tol), "{v:?} rotated is {got:?}, should be {want:?}");
                let back = rotate_inv(&got, &q);
                ensure!(geom::close3(&back, &v, 2.0 * tol), "{v:?} rotated and back is {back:?}");
                let inv = rotate_inv(&v, &q);
                let want = geom::rot(&geom::conj(&q), &v);
                ensure!(geom::close3(&inv, &want, tol), "{v:?} inverse-rotated is {inv:?}, should be {want:?}");
                ch.steps(3);
                for w in VECS {
                    let t = translate(&v, &w);
                    ensure!(geom::close3(&t, &geom::add(&v, &w), 0.0), "{v:?} translated by {w:?} is {t:?}");
                    let b = translate_inv(&t, &w);
                    ensure!(geom::close3(&b, &v, 1e-15 * (size3(&v) + size3(&w))), "translated by {w:?} and back: {b:?} for {v:?}");
                    ensure!(geom::close3(&translate_inv(&v, &w), &geom::sub(&v, &w), 0.0), "{v:?} inverse-translated by {w:?} is {:?}", translate_inv(&v, &w));
                }
            }
            ch.compared();
            ch.state(&q.map(f64::to_bits));
            ch.outcome(&m.map(|r| r.map(|x| (x * 1e6).round() as i64)));
            Ok(())
        },
    );
    let a = match tier {
        Tier::Quick => small_set(),
        Tier::Thorough => quaternions(2, 30),
    };
    let n = a.len();
    let b = a.clone();
    let two = Space::new(
        "two rotations",
        &format!("all {n} x {n} pairs of orientations and rotations"),
        move |ch| {
            let (q1, q2) = (ch.pick(&a), ch.pick(&b));
            ch.note(|| format!("q1 = {q1:?}, q2 = {q2:?}"));
            ch.steps(3);
            let got = rotate_q(&q1, &q2);
            let want = geom::mul(&q2, &q1);
            ensure!(
                geom::same_rotation(&got, &want, 1e-12),
                "{q1:?} rotated by {q2:?} is {got:?}, should be {want:?}"
            );
            let back = rotate_q_inv(&got, &q2);
            ensure!(
                geom::same_rotation(&back, &q1, 1e-12),
                "{q1:?} rotated by {q2:?} and back is {back:?}"
            );
            let inv = rotate_q_inv(&q1, &q2);
            let want = geom::mul(&geom::conj(&q2), &q1);
            ensure!(
                geom::same_rotation(&inv, &want, 1e-12),
                "{q1:?} inverse-rotated by {q2:?} is {inv:?}, should be {want:?}"
            );
            // as maps: first q1, then q2
            let v = VECS[3];
            let one = rotate(&v, &got);
            let two = rotate(&rotate(&v, &q1), &q2);
            ensure!(
                geom::close3(&one, &two, 1e-11),
                "{v:?}: by the product {one:?}, one after the other {two:?}"
            );
            ch.compared();
            ch.state(&(q1.map(f64::to_bits), q2.map(f64::to_bits)));
            ch.outcome(&got.map(|x| (x * 1e4).round() as i64));
            Ok(())
        },
    );
    let c = small_set();
    let scaled = Space::new(
        "any length",
        &format!("all {} x {} pairs of directions of quaternions x 9 x 9 lengths from 1e-3 to 1e3 (some close to 1): the inverse, the product, and the inverse product", c.len(), c.len()),
        move |ch| {
            let lens = [1.0, 0.999, 1.0 + 1e-6, 1.0 - 1e-9, 0.5, 2.0, 1e-3, 1e3, 1.3];
            let (q1, q2) = (ch.pick(&c), ch.pick(&c));
            let (n1, n2) = (ch.pick(&lens), ch.pick(&lens));
            let (q1, q2) = (q1.map(|x| x * n1), q2.map(|x| x * n2));
            ch.note(|| format!("q1 = {q1:?}, q2 = {q2:?}"));
            ch.steps(3);
            let sq = |q: &Q| q.iter().map(|x| x * x).sum::<f64>();
            let close = |a: &Q, b: &Q, tol: f64| (0..4).all(|i| (a[i] - b[i]).abs() <= tol);
            let inv = inverse_quaternion(&q1);
            let want = geom::conj(&q1).map(|x| x / sq(&q1));
            ensure!(close(&inv, &want, 1e-12 / n1) || close(&inv.map(|x| -x), &want, 1e-12 / n1), "the inverse of {q1:?} is {inv:?}, should be {want:?}");
            let got = rotate_q(&q1, &q2);
            let want = geom::mul(&q2, &q1);
            ensure!(close(&got, &want, 1e-12 * n1 * n2) || close(&got.map(|x| -x), &want, 1e-12 * n1 * n2), "{q1:?} rotated by {q2:?} is {got:?}, should be {want:?}");
            let back = rotate_q_inv(&got, &q2);
            ensure!(close(&back, &q1, 1e-12 * n1) || close(&back.map(|x| -x), &q1, 1e-12 * n1), "{q1:?} rotated by {q2:?} and back is {back:?}");
            let got = rotate_q_inv(&q1, &q2);
            let want = geom::mul(&geom::conj(&q2).map(|x| x / sq(&q2)), &q1);
            ensure!(close(&got, &want, 1e-12 * n1 / n2) || close(&got.map(|x| -x), &want, 1e-12 * n1 / n2), "{q1:?} inverse-rotated by {q2:?} is {got:?}, should be {want:?}");
            ch.compared();
            ch.state(&(q1.map(f64::to_bits), q2.map(f64::to_bits)));
            ch.outcome(&got.map(|x| (x * 1e4).round() as i64));
            Ok(())
        },
    );
    let depth = tier.pick(5, 6);
    let boxes = Space::new(
        "box motions",
        &format!("all sequences of up to {depth} operations (translate, translate_inv, rotate, rotate_inv, the two non-destructive translations) with 3 arguments each on 3 boxes"),
        move |ch| {
            let start = ch.choose(3);
            let mut p: V3 = [[0.0; 3], [10.0, -20.0, 1.5], [4000.0, 900.0, -7.0]][start];
            let mut q: Q = [[1.0, 0.0, 0.0, 0.0], yaw(33.0), geom::from_euler(0.2, -0.9, 2.5)][start];
            let mut b = NuScenesBox {
                position: p,
                orientation: q,
                size: [1.0, 2.0, 3.0],
                name: "car".into(),
                instance: tok(7),
                num_lidar_pts: 5,
                token: tok(9),
            };
            let ts: [V3; 3] = [[1.0, 2.0, 3.0], [-400.0, 0.5, 0.0], [0.0, 0.0, -2.0]];
            let rs: [Q; 3] = [yaw(90.0), geom::from_euler(1.0, 0.5, -2.0), [0.5, -0.5, 0.5, 0.5]];
            for _ in 0..depth {
                let op = ch.choose(6);
                if op == 5 {
                    break;
                }
                let a = ch.choose(3);
                ch.step();
                let scale = 1e-11 * (size3(&p) + 500.0);
                match op {
                    0 => {
                        b.translate(&ts[a]);
                        p = geom::add(&p, &ts[a]);
                    }
                    1 => {
                        b.translate_inv(&ts[a]);
                        p = geom::sub(&p, &ts[a]);
                    }
                    2 => {
                        b.rotate(&rs[a]);
                        p = geom::rot(&rs[a], &p);
                        q = geom::mul(&rs[a], &q);
                    }
                    3 => {
                        b.rotate_inv(&rs[a]);
                        let i = geom::conj(&rs[a]);
                        p = geom::rot(&i, &p);
                        q = geom::mul(&i, &q);
                    }
                    _ => {
                        let t = b.get_translate(&ts[a]);
                        ensure!(geom::close3(&t, &geom::add(&p, &ts[a]), scale), "get_translate gives {t:?}");
                        let t = b.get_translate_inv(&ts[a]);
                        ensure!(geom::close3(&t, &geom::sub(&p, &ts[a]), scale), "get_translate_inv gives {t:?}");
                    }
                }
                ch.note(|| format!("operation {op} argument {a}: position {:?} orientation {:?}, should be {p:?} {q:?}", b.position, b.orientation));
                ensure!(geom::close3(&b.position, &p, scale), "position {:?}, should be {p:?}", b.position);
                ensure!(geom::same_rotation(&b.orientation, &q, 1e-11), "orientation {:?}, should be {q:?}", b.orientation);
                ensure!(
                    b.size == [1.0, 2.0, 3.0] && b.name == "car" && b.instance == tok(7) && b.token == tok(9) && b.num_lidar_pts == 5,
                    "another field of the box changed: {b:?}"
                );
                ch.state(&(p.map(|x| (x * 1e6).round() as i64), q.map(|x| (x * 1e6).round() as i64)));
            }
            ch.compared();
            ch.outcome(&(p.map(|x| (x * 1e3).round() as i64), q.map(|x| (x * 1e3).round() as i64)));
            Ok(())
        },
    );
    vec![single, two, scaled, boxes]
}

// ---------------------------------------------------------------- C10

fn judge_angles(ch: &mut Ch, q: &Q) -> R {
    ch.steps(4);
    let [roll, pitch, yaw] = quaternion2euler(q);
    ch.note(|| format!("q = {q:?}: roll {roll} pitch {pitch} yaw {yaw}"));
    ensure!(
        roll.is_finite() && pitch.is_finite() && yaw.is_finite(),
        "{q:?}: roll {roll}, pitch {pitch}, yaw {yaw}"
    );
    let slack = 1e-12;
    ensure!(
        roll.abs() <= PI + slack && pitch.abs() <= PI / 2.0 + slack && yaw.abs() <= PI + slack,
        "{q:?}: roll {roll}, pitch {pitch}, yaw {yaw} out of range"
    );
    let m = geom::matrix(q);
    let s = -m[2][0]; // sine of the pitch
    ensure!(
        (pitch.sin() - s).abs() < 1e-9,
        "{q:?}: pitch {pitch}, its sine should be {s}"
    );
    if 1.0 - s.abs() > 1e-9 {
        // the angles are determined up to ~1e-16 / cos(pitch)
        let tol = 1e-12 / (1.0 - s * s).sqrt().min(1.0) + 1e-11;
        let back = geom::from_euler(roll, pitch, yaw);
        ensure!(
            geom::close_m(&geom::matrix(&back), &m, tol),
            "{q:?}: roll {roll}, pitch {pitch}, yaw {yaw} compose to {back:?}"
        );
    }
    let mut o = obj(0, [1.0, 2.0, 3.0]);
    o.orientation = *q;
    let hd = o.heading();
    ensure!(
        hd.is_finite() && hd.abs() <= PI + slack,
        "{q:?}: heading {hd}"
    );
    ensure!(
        geom::angle_diff(hd, yaw) < 1e-12,
        "{q:?}: heading {hd} but yaw {yaw}"
    );
    ensure!(
        o.euler().map(f64::to_bits) == [roll, pitch, yaw].map(f64::to_bits),
        "{q:?}: euler() {:?}",
        o.euler()
    );
    let rm = o.rotation_matrix();
    let rm = [0, 1, 2].map(|i| [0, 1, 2].map(|j| rm[(i, j)]));
    ensure!(
        geom::close_m(&rm, &m, 1e-12),
        "{q:?}: rotation_matrix() {rm:?}"
    );
    if 1.0 - s.abs() > 1e-9 {
        let tol = 1e-12 / (1.0 - s * s).sqrt() + 1e-11;
        ensure!(
            geom::angle_diff(hd, geom::heading(q)) < tol,
            "{q:?}: heading {hd}, the x axis points to {}",
            geom::heading(q)
        );
        let mut n = o.clone();
        n.orientation = q.map(|x| -x);
        ensure!(
            geom::angle_diff(n.heading(), hd) < tol,
            "heading {hd} of q, {} of -q",
            n.heading()
        );
    }
    ch.compared();
    ch.state(&q.map(f64::to_bits));
    ch.outcome(&[roll, pitch, yaw].map(|x| (x * 1e4).round() as i64));
    Ok(())
}

pub fn c10(tier: Tier) -> Vec<Space> {
    let qs = quaternions(tier.pick(6, 8), tier.pick(2, 1));
    let n = qs.len();
    let single = Space::new("quaternions", &format!("{n} unit quaternions"), move |ch| {
        let q = ch.pick(&qs);
        judge_angles(ch, &q)
    });
    let step = tier.pick(5, 3);
    let euler = Space::new(
        "angles",
        &format!("roll, yaw over the circle and pitch over +-90 degrees in steps of {step} degrees, both signs of the quaternion, 3 offsets"),
        move |ch| {
            let n = 360 / step;
            let off = ch.pick(&[0.0, 1e-7, 2.5]);
            let r = (ch.choose(n) * step) as f64 - 180.0 + off;
            let y = (ch.choose(n) * step) as f64 - 180.0 + off;
            let p = ((ch.choose(n / 2 + 1) * step) as f64 - 90.0 + off).min(90.0);
            let mut q = geom::from_euler(r.to_radians(), p.to_radians(), y.to_radians());
            if ch.flag() {
                q = q.map(|x| -x);
            }
            judge_angles(ch, &q)
        },
    );
    let near = Space::new(
        "near the poles",
        "pitch within 1e-3 .. 1e-15 of +-90 degrees x 24 rolls x 24 yaws",
        |ch| {
            let e = ch.pick(&[0.0, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10, 1e-12, 1e-15]);
            let p = if ch.flag() {
                PI / 2.0 - e
            } else {
                -PI / 2.0 + e
            };
            let r = (ch.choose(24) as f64 * 15.0 - 180.0).to_radians();
            let y = (ch.choose(24) as f64 * 15.0 - 180.0).to_radians();
            let q = geom::from_euler(r, p, y);
            judge_angles(ch, &q)
        },
    );
    let flat = Space::new(
        "headings",
        &format!(
            "level boxes: every heading in steps of {} degrees over two turns, both signs",
            tier.pick(0.05, 0.01)
        ),
        move |ch| {
            let st = tier.pick(0.05, 0.01);
            let n = (720.0 / st) as usize;
            let a = ch.choose(n) as f64 * st - 360.0;
            let mut q = yaw(a);
            if ch.flag() {
                q = q.map(|x| -x);
            }
            let mut o = obj(ch.choose(2), [0.0; 3]);
            o.orientation = q;
            let h = o.heading();
            ensure!(
                geom::angle_diff(h, a.to_radians()) < 1e-9,
                "heading {h} for a box turned by {a} degrees"
            );
            judge_angles(ch, &q)
        },
    );
    vec![single, euler, near, flat]
}

// ---------------------------------------------------------------- C11

fn judge_box(ch: &mut Ch, o: &DynamicObject) -> R {
    ch.steps(4);
    let scale = 1e-12 * (size3(&o.position) + size3(&o.size));
    let got = o.footprint();
    let want = geom::footprint(o);
    ch.note(|| format!("{}: footprint {got:?}, should be {want:?}", show(o)));
    ensure!(got.len() == 4, "{} corners", got.len());
    for i in 0..4 {
        ensure!(
            geom::close3(&got[i], &want[i], scale),
            "{}: the {} corner is {:?}, should be {:?}",
            show(o),
            ["front-left", "rear-left", "rear-right", "front-right"][i],
            got[i],
            want[i]
        );
    }
    let rel = |a: f64, b: f64| (a - b).abs() <= 1e-12 * (1.0 + b.abs());
    let a = o.size[0] * o.size[1];
    ensure!(rel(o.area(), a), "area {} of {:?}", o.area(), o.size);
    ensure!(
        rel(o.volume(), a * o.size[2]),
        "volume {} of {:?}",
        o.volume(),
        o.size
    );
    let z = [0.0; 3];
    ensure!(
        rel(o.distance(), geom::dist(&o.position, &z)),
        "distance {} of {:?}",
        o.distance(),
        o.position
    );
    ensure!(
        rel(o.distance_bev(), geom::dist2(&o.position, &z)),
        "bev distance {} of {:?}",
        o.distance_bev(),
        o.position
    );
    ch.compared();
    ch.state(&h(o));
    ch.outcome(&(
        want.map(|c| c.map(|x| (x * 1e3).round() as i64)),
        o.size[2].to_bits(),
    ));
    Ok(())
}

pub fn c11(tier: Tier) -> Vec<Space> {
    let mut qs = small_set();
    let st = tier.pick(3, 1);
    for d in (-360..360).step_by(st) {
        qs.push(yaw(d as f64));
    }
    if tier == Tier::Thorough {
        qs.extend(geom::lattice(3));
    }
    let n = qs.len();
    const SIZES: [V3; 7] = [
        [2.0, 4.0, 1.5],
        [4.0, 2.0, 1.0],
        [1.0, 1.0, 1.0],
        [0.6, 0.8, 1.75],
        [2.9, 12.5, 3.8],
        [0.0, 0.0, 0.0],
        [1e-3, 50.0, 0.0],
    ];
    const PLACES: [V3; 6] = [
        [0.0; 3],
        [10.0, 5.0, -1.0],
        [-3.5, 80.0, 2.0],
        [-200.0, -0.25, 0.0],
        [1.0, 1.0, 1.0],
        [654321.0, -98765.0, 321.0],
    ];
    let foot = Space::new(
        "boxes",
        &format!("{n} orientations x 7 sizes x 6 places"),
        move |ch| {
            let mut o = obj(ch.choose(1), ch.pick(&PLACES));
            o.orientation = ch.pick(&qs);
            o.size = ch.pick(&SIZES);
            judge_box(ch, &o)
        },
    );
    let b = tier.pick(3, 4);
    let attrs = Space::new(
        "attributes",
        &format!("boxes whose other attributes vary, up to {b} deviations, x 3 objects"),
        move |ch| {
            let mut o = obj(ch.choose(NL), [7.0, -3.0, 0.5]);
            o.orientation = yaw(ch.pick(&[40.0, -160.0, 95.0]));
            super::pairing::vary(ch, &mut o, true);
            if o.position[0].abs() > 1e100 {
                return Err(Stop::Skip);
            }
            judge_box(ch, &o)
        },
    )
    .budget(b);
    let g = tier.pick(9, 13);
    let dist = Space::new("distances", &format!("all pairs of points of a {g} x {g} x {g} grid of two scales, 3D and x-y distances, both directions"), move |ch| {
        let step = ch.pick(&[0.75, 40.0]);
        let c = |k: usize| (k as f64 - (g / 2) as f64) * step + 0.125;
        let mut pt = || -> V3 { [c(ch.choose(g)), c(ch.choose(g)), c(ch.choose(g))] };
        let (a, b) = (pt(), pt());
        let (d3, d2) = (geom::dist(&a, &b), geom::dist2(&a, &b));
        let o = obj(1, a);
        ch.steps(6);
        let rel = |x: f64, y: f64| (x - y).abs() <= 1e-12 * (1.0 + y.abs());
        ensure!(rel(distance_points(&a, &b), d3), "distance of {a:?} and {b:?}: {}", distance_points(&a, &b));
        ensure!(rel(distance_points_bev(&a, &b), d2), "bev distance of {a:?} and {b:?}: {}", distance_points_bev(&a, &b));
        ensure!(rel(distance_points(&b, &a), d3) && rel(distance_points_bev(&b, &a), d2), "the distances of {b:?} and {a:?} differ from those of {a:?} and {b:?}");
        ensure!(rel(o.distance_from(&b), d3), "distance_from {b:?} of an object at {a:?}: {}", o.distance_from(&b));
        ensure!(rel(o.distance_bev_from(&b), d2), "distance_bev_from {b:?} of an object at {a:?}: {}", o.distance_bev_from(&b));
        ch.compared();
        ch.state(&(a.map(f64::to_bits), b.map(f64::to_bits)));
        ch.outcome(&(d3.to_bits(), d2.to_bits()));
        Ok(())
    });
    vec![foot, attrs, dist]
}

fn tok(b: u8) -> LongToken {
    LongToken::try_from(format!("{b:02x}").repeat(16).as_str()).expect("token")
}
