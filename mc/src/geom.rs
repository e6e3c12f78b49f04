//! Independent geometry: quaternion algebra by the Hamilton product, boxes, convex clipping, reference distances.
use perception_eval::object::object3d::DynamicObject;

pub type V3 = [f64; 3];
pub type Q = [f64; 4];
pub type M3 = [[f64; 3]; 3];

/// a after b: R(mul(a, b)) = R(a) R(b).
pub fn mul(a: &Q, b: &Q) -> Q {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn conj(a: &Q) -> Q {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn norm(q: &Q) -> f64 {
    q.iter().map(|x| x * x).sum::<f64>().sqrt()
}
pub fn unit(q: &Q) -> Q {
    let n = norm(q);
    [q[0] / n, q[1] / n, q[2] / n, q[3] / n]
}
/// v rotated by q: q v q*.
pub fn rot(q: &Q, v: &V3) -> V3 {
    let p = mul(&mul(q, &[0.0, v[0], v[1], v[2]]), &conj(q));
    [p[1], p[2], p[3]]
}
pub fn matrix(q: &Q) -> M3 {
    let x = rot(q, &[1.0, 0.0, 0.0]);
    let y = rot(q, &[0.0, 1.0, 0.0]);
    let z = rot(q, &[0.0, 0.0, 1.0]);
    [[x[0], y[0], z[0]], [x[1], y[1], z[1]], [x[2], y[2], z[2]]]
}
pub fn add(a: &V3, b: &V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
pub fn close3(a: &V3, b: &V3, tol: f64) -> bool {
    (0..3).all(|i| close(a[i], b[i], tol))
}
pub fn close_m(a: &M3, b: &M3, tol: f64) -> bool {
    (0..3).all(|i| close3(&a[i], &b[i], tol))
}
/// Same rotation (q and -q are the same).
pub fn same_rotation(a: &Q, b: &Q, tol: f64) -> bool {
    (0..4).all(|i| close(a[i], b[i], tol)) || (0..4).all(|i| close(a[i], -b[i], tol))
}
pub fn axis_angle(axis: V3, rad: f64) -> Q {
    let n = (axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]).sqrt();
    let (s, c) = (rad * 0.5).sin_cos();
    [c, s * axis[0] / n, s * axis[1] / n, s * axis[2] / n]
}
/// Yaw about z, then pitch about y, then roll about x (intrinsic): R = Rz Ry Rx.
pub fn from_euler(roll: f64, pitch: f64, yaw: f64) -> Q {
    mul(
        &mul(
            &axis_angle([0.0, 0.0, 1.0], yaw),
            &axis_angle([0.0, 1.0, 0.0], pitch),
        ),
        &axis_angle([1.0, 0.0, 0.0], roll),
    )
}
pub fn dist(a: &V3, b: &V3) -> f64 {
    let d = sub(a, b);
    (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt()
}
pub fn dist2(a: &V3, b: &V3) -> f64 {
    let d = sub(a, b);
    (d[0] * d[0] + d[1] * d[1]).sqrt()
}

/// front-left, rear-left, rear-right, front-right; size = [width, length, height], length along the heading.
pub fn footprint(o: &DynamicObject) -> [V3; 4] {
    let (w, l) = (o.size[0] / 2.0, o.size[1] / 2.0);
    [[l, w, 0.0], [-l, w, 0.0], [-l, -w, 0.0], [l, -w, 0.0]]
        .map(|c| add(&o.position, &rot(&o.orientation, &c)))
}

type P = (f64, f64);
fn area(p: &[P]) -> f64 {
    let mut s = 0.0;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        s += a.0 * b.1 - a.1 * b.0;
    }
    s / 2.0
}
/// Area of the intersection of two convex polygons by half-plane clipping.
pub fn clip_area(a: &[P], b: &[P]) -> f64 {
    let orient = |p: &[P]| -> Vec<P> {
        if area(p) < 0.0 {
            p.iter().rev().copied().collect()
        } else {
            p.to_vec()
        }
    };
    let b = orient(b);
    let mut poly = orient(a);
    for i in 0..b.len() {
        let (p, q) = (b[i], b[(i + 1) % b.len()]);
        let side = |x: P| (q.0 - p.0) * (x.1 - p.1) - (q.1 - p.1) * (x.0 - p.0);
        let mut out: Vec<P> = vec![];
        for k in 0..poly.len() {
            let (u, v) = (poly[k], poly[(k + 1) % poly.len()]);
            let (su, sv) = (side(u), side(v));
            if su >= 0.0 {
                out.push(u);
            }
            if (su > 0.0 && sv < 0.0) || (su < 0.0 && sv > 0.0) {
                let t = su / (su - sv);
                out.push((u.0 + t * (v.0 - u.0), u.1 + t * (v.1 - u.1)));
            }
        }
        poly = out;
        if poly.is_empty() {
            return 0.0;
        }
    }
    area(&poly).abs()
}
fn planar(o: &DynamicObject) -> Vec<P> {
    footprint(o).iter().map(|c| (c[0], c[1])).collect()
}
pub fn intersection_area(a: &DynamicObject, b: &DynamicObject) -> f64 {
    // relative to one centre, so that far-away boxes lose no precision
    let c = a.position;
    let f = |o: &DynamicObject| -> Vec<P> {
        let mut o = o.clone();
        o.position = sub(&o.position, &c);
        planar(&o)
    };
    clip_area(&f(a), &f(b))
}
pub fn iou2d(a: &DynamicObject, b: &DynamicObject) -> f64 {
    let i = intersection_area(a, b);
    let u = a.size[0] * a.size[1] + b.size[0] * b.size[1] - i;
    if u <= 0.0 {
        0.0
    } else {
        i / u
    }
}
pub fn overlap_height(a: &DynamicObject, b: &DynamicObject) -> f64 {
    let lo = (a.position[2] - a.size[2] / 2.0).max(b.position[2] - b.size[2] / 2.0);
    let hi = (a.position[2] + a.size[2] / 2.0).min(b.position[2] + b.size[2] / 2.0);
    (hi - lo).max(0.0)
}
pub fn iou3d(a: &DynamicObject, b: &DynamicObject) -> f64 {
    let i = intersection_area(a, b) * overlap_height(a, b);
    let v = |o: &DynamicObject| o.size[0] * o.size[1] * o.size[2];
    let u = v(a) + v(b) - i;
    if u <= 0.0 {
        0.0
    } else {
        i / u
    }
}
pub fn center(a: &DynamicObject, b: &DynamicObject) -> f64 {
    dist(&a.position, &b.position)
}
/// (left, right) corners of the nearest side as seen from the origin; None if which corners they are is a tie.
pub fn nearest_side(o: &DynamicObject) -> Option<(V3, V3)> {
    let mut c: Vec<V3> = footprint(o).to_vec();
    let d = |p: &V3| p[0].hypot(p[1]);
    c.sort_by(|a, b| d(a).partial_cmp(&d(b)).unwrap());
    let eps = 1e-9 * (1.0 + d(&c[3]));
    if d(&c[2]) - d(&c[1]) < eps {
        return None;
    }
    // left of two points seen from the origin: the one further counter-clockwise
    let cross = c[0][0] * c[1][1] - c[0][1] * c[1][0];
    if cross.abs() < 1e-9 * (1.0 + d(&c[1]) * d(&c[1])) {
        return None;
    }
    Some(if cross > 0.0 {
        (c[1], c[0])
    } else {
        (c[0], c[1])
    })
}
/// Root mean square of the x-y distances of left and right corners of the nearest sides.
pub fn plane(a: &DynamicObject, b: &DynamicObject) -> Option<f64> {
    let (al, ar) = nearest_side(a)?;
    let (bl, br) = nearest_side(b)?;
    let (l, r) = (dist2(&al, &bl), dist2(&ar, &br));
    Some(((l * l + r * r) / 2.0).sqrt())
}
/// Angle of the rotated x axis in the plane.
pub fn heading(q: &Q) -> f64 {
    let x = rot(q, &[1.0, 0.0, 0.0]);
    x[1].atan2(x[0])
}
/// |angle| folded into [0, pi].
pub fn angle_diff(a: f64, b: f64) -> f64 {
    use std::f64::consts::PI;
    let mut d = (a - b).rem_euclid(2.0 * PI);
    if d > PI {
        d = 2.0 * PI - d;
    }
    d
}

/// The binary octahedral group (48 unit quaternions).
pub fn octahedral() -> Vec<Q> {
    let mut v: Vec<Q> = vec![];
    for i in 0..4 {
        for s in [1.0, -1.0] {
            let mut q = [0.0; 4];
            q[i] = s;
            v.push(q);
        }
    }
    for m in 0..16u32 {
        let s = |b: u32| if m >> b & 1 == 1 { -0.5 } else { 0.5 };
        v.push([s(0), s(1), s(2), s(3)]);
    }
    let h = std::f64::consts::FRAC_1_SQRT_2;
    for i in 0..4 {
        for j in i + 1..4 {
            for m in 0..4u32 {
                let mut q = [0.0; 4];
                q[i] = if m & 1 == 1 { -h } else { h };
                q[j] = if m & 2 == 2 { -h } else { h };
                v.push(q);
            }
        }
    }
    v
}
/// The binary icosahedral group (120 unit quaternions).
pub fn icosahedral() -> Vec<Q> {
    let mut v: Vec<Q> = octahedral().into_iter().take(24).collect();
    let phi = (1.0 + 5f64.sqrt()) / 2.0;
    let vals = [phi / 2.0, 0.5, 1.0 / (2.0 * phi), 0.0];
    // even permutations
    for p in 0..256usize {
        let idx = [p & 3, p >> 2 & 3, p >> 4 & 3, p >> 6 & 3];
        let mut seen = [false; 4];
        idx.iter().for_each(|i| seen[*i] = true);
        if seen != [true; 4] {
            continue;
        }
        let inv = (0..4)
            .flat_map(|i| (i + 1..4).map(move |j| (i, j)))
            .filter(|(i, j)| idx[*i] > idx[*j])
            .count();
        if inv % 2 == 1 {
            continue;
        }
        for m in 0..8u32 {
            let mut q = [0.0; 4];
            for k in 0..4 {
                let x = vals[idx[k]];
                let neg = idx[k] < 3 && m >> idx[k] & 1 == 1;
                q[k] = if neg { -x } else { x };
            }
            v.push(q);
        }
    }
    v
}
/// Normalised integer quaternions with entries in -r..=r.
pub fn lattice(r: i32) -> Vec<Q> {
    let mut v = vec![];
    for a in -r..=r {
        for b in -r..=r {
            for c in -r..=r {
                for d in -r..=r {
                    if (a, b, c, d) != (0, 0, 0, 0) {
                        v.push(unit(&[a as f64, b as f64, c as f64, d as f64]));
                    }
                }
            }
        }
    }
    v
}
