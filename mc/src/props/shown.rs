//! C35: equality and printed form of objects and frames.
use crate::engine::*;
use crate::ensure;
use crate::obj::*;
use perception_eval::dataset::FrameGroundTruth;
use perception_eval::object::object3d::DynamicObject;

const X: [f64; 30] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    0.1,
    -0.3,
    1.0 / 3.0,
    123.456789012345,
    89_571.25,
    -1e6,
    1e15,
    1e16,
    1e17,
    123_456_789_012_345_680.0,
    1e21,
    -1e22,
    1e-4,
    1e-5,
    1e-7,
    4.35e-10,
    5e-324,
    2.2250738585072014e-308,
    1.7976931348623157e308,
    f64::EPSILON,
    0.30000000000000004,
    9007199254740993.0,
    0.1 + 0.7,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::NAN,
];
const TIMES: [i64; 7] = [1_000_000, 1_000_001, 999_999, 0, -1, 1_532_402_927_647_951, 1_000_000 + 3_600_000_000];

/// One field of the object away from what it is; every field there is, and several values of each.
fn vary(ch: &mut Ch, o: &mut DynamicObject) {
    let mut num = |ch: &mut Ch, x: &mut f64| {
        let k = ch.deviate(X.len() + 3);
        match k {
            0 => {}
            1 => *x = f64::from_bits(x.to_bits() + 1),
            2 => *x = -*x,
            _ => *x = X[k - 3],
        }
    };
    o.position.iter_mut().for_each(|x| num(ch, x));
    o.orientation.iter_mut().for_each(|x| num(ch, x));
    o.size.iter_mut().for_each(|x| num(ch, x));
    match ch.deviate(6) {
        0 => {}
        1 => o.velocity = None,
        2 => o.velocity = Some([0.0; 3]),
        k => {
            let mut v = [1.5, -0.25, 0.0];
            v[k - 3] = X[ch.choose(X.len())];
            o.velocity = Some(v);
        }
    }
    num(ch, &mut o.confidence);
    o.timestamp = us(ch.dev(&TIMES));
    let f = ch.deviate(NF);
    if f > 0 {
        o.frame_id = frame(f);
    }
    let l = ch.deviate(NL);
    if l > 0 {
        o.label = label((label_index(&o.label) + l) % NL);
    }
    o.pointcloud_num = ch.dev(&[o.pointcloud_num, None, Some(0), Some(1), Some(usize::MAX)]);
    o.uuid = ch
        .dev(&[o.uuid.as_deref(), None, Some(""), Some("U"), Some("u "), Some("a\"b\\c"), Some("two\nlines: x"), Some("\u{e9}\u{4e2d}")])
        .map(String::from);
}
fn start(ch: &mut Ch) -> DynamicObject {
    let mut o = obj(ch.pick(&[0usize, 1, 7]), [12.5, -3.75, 0.5]);
    o.velocity = Some([1.5, -0.25, 0.0]);
    o.orientation = yaw(33.0);
    o.confidence = 0.625;
    o
}

fn line<'a>(text: &'a str, key: &str) -> Result<&'a str, Stop> {
    let mut all = text.lines().filter_map(|l| l.strip_prefix(key).and_then(|l| l.strip_prefix(": ")));
    match (all.next(), all.next()) {
        (Some(x), None) => Ok(x.trim()),
        _ => Err(Stop::Fail { key: String::new(), msg: format!("no single line {key:?} in {text:?}") }),
    }
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
/// "[1.0, 2.0]" shows these numbers, exactly.
fn list(text: &str, want: &[f64]) -> bool {
    let t = text.trim();
    let Some(t) = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')) else { return false };
    let got: Vec<_> = t.split(',').map(|x| x.trim().parse::<f64>()).collect();
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| matches!(g, Ok(g) if same(*g, *w)))
}
fn option(text: &str, want: &Option<[f64; 3]>) -> bool {
    match want {
        None => text == "None",
        Some(v) => text.strip_prefix("Some(").and_then(|t| t.strip_suffix(')')).is_some_and(|t| list(t, v)),
    }
}

fn printed(o: &DynamicObject) -> R {
    let (t, s) = (o.to_string(), o.state().to_string());
    for (what, t) in [("object", &t), ("state", &s)] {
        for (key, v) in [("position", &o.position[..]), ("orientation", &o.orientation[..]), ("size", &o.size[..])] {
            ensure!(list(line(t, key)?, v), "{what} with {key} {v:?} prints {t:?}");
        }
        ensure!(option(line(t, "velocity")?, &o.velocity), "{what} with velocity {:?} prints {t:?}", o.velocity);
    }
    let c = line(&t, "confidence")?.parse::<f64>();
    ensure!(matches!(c, Ok(c) if same(c, o.confidence)), "an object of confidence {:?} prints {t:?}", o.confidence);
    for (key, v) in [("frame_id", format!("{:?}", o.frame_id)), ("label", format!("{:?}", o.label)), ("uuid", format!("{:?}", o.uuid))] {
        ensure!(line(&t, key)? == v, "an object with {key} {v} prints {t:?}");
    }
    ensure!(o.label_name() == label_name(&o.label), "an object of label {:?} has label name {}", o.label, o.label_name());
    ensure!(format!("{}", o.label) == label_name(&o.label), "the label {:?} prints {}", o.label, o.label);
    Ok(())
}

fn equal(a: &DynamicObject, b: &DynamicObject) -> bool {
    a.timestamp == b.timestamp && a.frame_id == b.frame_id && a.position == b.position && a.orientation == b.orientation && label_index(&a.label) == label_index(&b.label)
}
fn states_equal(a: &DynamicObject, b: &DynamicObject) -> bool {
    a.position == b.position && a.orientation == b.orientation && a.size == b.size && a.velocity == b.velocity
}

pub fn c35(tier: Tier) -> Vec<Space> {
    vec![
        Space::new(
            "printed",
            &format!(
                "objects of 3 labels with at most N of their fields, every number taken on its own, at one of {} numbers, 7 times, 10 frames, 8 labels, 5 point counts, 8 identifiers: what the object and its state print reads back as their values",
                X.len() + 2
            ),
            |ch| {
                let mut o = start(ch);
                vary(ch, &mut o);
                ch.steps(2);
                printed(&o)?;
                ch.compared();
                ch.state(&full(&o));
                ch.outcome(&o.to_string());
                Ok(())
            },
        )
        .budget(tier.pick(2, 3)),
        Space::new(
            "equal",
            "two objects, at most N fields of the second otherwise than the first's: objects, their states and frames holding them are equal, both ways, exactly when the fields that count are",
            |ch| {
                let a = start(ch);
                let mut b = a.clone();
                vary(ch, &mut b);
                ch.steps(8);
                let (want, ws) = (equal(&a, &b), states_equal(&a, &b));
                for (x, y) in [(&a, &b), (&b, &a)] {
                    ensure!((x == y) == want && (x != y) != want, "{} and {}: equal {}, should be {want}", show(x), show(y), x == y);
                    ensure!((x.state() == y.state()) == ws, "the states of {} and {}: equal {}, should be {ws}", show(x), show(y), x.state() == y.state());
                }
                let own = !b.position.iter().chain(&b.orientation).any(|x| x.is_nan());
                ensure!((b == b.clone()) == own, "{} equals its copy: {}", show(&b), b == b.clone());
                let fa = FrameGroundTruth { timestamp: us(1_000_000), objects: vec![a.clone(), a.clone()] };
                let fb = FrameGroundTruth { timestamp: us(1_000_000), objects: vec![a.clone(), b.clone()] };
                ensure!((fa == fb) == want, "frames of {} and {}: equal {}, should be {want}", show(&a), show(&b), fa == fb);
                ensure!(full(&b) == full(&b.clone()), "a copy of {} differs", show(&b));
                ch.compared();
                ch.state(&full(&b));
                ch.outcome(&(want, ws));
                Ok(())
            },
        )
        .budget(tier.pick(2, 3)),
        Space::new(
            "frames",
            &format!("two frames of 0 to 3 objects out of 3, in any order, twins included, at any two of {} times: equal exactly when times and objects are, in order; printed with time and number of objects", TIMES.len()),
            |ch| {
                let mut pool = vec![obj(0, [1.0, 2.0, 3.0]), obj(1, [1.0, 2.0, 3.0]), obj(0, [4.0, 2.0, 3.0])];
                pool[1].confidence = 0.25;
                let mut make = |ch: &mut Ch| {
                    let n = ch.choose(4);
                    let idx: Vec<usize> = (0..n).map(|_| ch.choose(3)).collect();
                    let t = ch.pick(&TIMES);
                    let f = FrameGroundTruth { timestamp: us(t), objects: idx.iter().map(|i| pool[*i].clone()).collect() };
                    (idx, t, f)
                };
                let (i, t, a) = make(ch);
                let (j, u, b) = make(ch);
                ch.steps(3);
                let want = i == j && t == u;
                ensure!((a == b) == want && (b == a) == want, "frames of {i:?} at {t} and {j:?} at {u}: equal {}", a == b);
                let text = a.to_string();
                ensure!(
                    text.contains(&format!("{:?}", a.timestamp)) && text.trim().ends_with(&format!(": {}", i.len())),
                    "a frame of {} objects at {:?} prints {text:?}",
                    i.len(),
                    a.timestamp
                );
                ch.compared();
                ch.state(&(&i, t, &j, u));
                ch.outcome(&(want, text));
                Ok(())
            },
        ),
        Space::new(
            "long frames",
            "frames of 0 to 1030 objects (16 lengths), the second with one of them (first, middle, last, 8th, 16th, 32nd, 64th, 100th, 256th) otherwise in one field, removed, repeated or exchanged with its neighbour, or none: equality both ways, and what they print",
            |ch| {
                let n = ch.pick(&[0usize, 1, 2, 7, 8, 9, 15, 16, 17, 33, 65, 100, 129, 257, 513, 1030]);
                let i = ch.pick(&[0, n / 2, n.saturating_sub(1), 7, 15, 31, 63, 99, 255]);
                let how = ch.choose(8);
                if i >= n && how > 0 {
                    return Err(Stop::Skip);
                }
                let objects: Vec<_> = (0..n).map(|k| obj(k % 8, [k as f64, 2.0, 3.0])).collect();
                let a = FrameGroundTruth { timestamp: us(0), objects };
                let mut b = a.clone();
                let mut want = false;
                match how {
                    0 => want = true,
                    1 => b.objects[i].position[2] += 1e-9,
                    2 => b.objects[i].label = label(i % 8 + 1),
                    3 => {
                        b.objects.remove(i);
                    }
                    4 => b.objects.insert(i, a.objects[i].clone()),
                    5 => {
                        if n < 2 {
                            return Err(Stop::Skip);
                        }
                        b.objects.swap(i, if i + 1 < n { i + 1 } else { i - 1 });
                    }
                    6 => b.objects[i].timestamp = us(1),
                    _ => {
                        b.objects[i].confidence = 0.125;
                        b.objects[i].uuid = Some("another".into());
                        want = true;
                    }
                }
                ch.steps(3);
                ensure!((a == b) == want && (b == a) == want, "frames of {n} objects, change {how} at {i}: equal {} and {}", a == b, b == a);
                let text = b.to_string();
                ensure!(text.trim().ends_with(&format!(": {}", b.objects.len())), "a frame of {} objects prints {text:?}", b.objects.len());
                ch.compared();
                ch.state(&(n, i, how));
                ch.outcome(&(want, how));
                Ok(())
            },
        ),
    ]
}
