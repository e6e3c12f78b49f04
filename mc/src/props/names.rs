//! C24, C25: names of labels, tasks and frames; thresholds by label.
use crate::engine::*;
use crate::ensure;
use crate::obj::*;
use perception_eval::evaluation_task::{set_task, EvaluationTask};
use perception_eval::frame_id::FrameID;
use perception_eval::label::{convert_labels, Label, LabelConverter};
use perception_eval::threshold::{get_label_threshold, LabelThreshold};
use std::str::FromStr;

/// The documented names, by label.
pub const NAMES: &[(&str, usize)] = &[
    ("car", 0),
    ("vehicle.car", 0),
    ("vehicle.construction", 0),
    ("vehicle.emergency (ambulance & police)", 0),
    ("vehicle.police", 0),
    ("vehicle.fire", 0),
    ("vehicle.ambulance", 0),
    ("truck", 2),
    ("vehicle.truck", 2),
    ("trailer", 2),
    ("vehicle.trailer", 2),
    ("bus", 3),
    ("vehicle.bus", 3),
    ("vehicle.bus (bendy & rigid)", 3),
    ("vehicle.bus.rigid", 3),
    ("vehicle.bus.bendy", 3),
    ("bicycle", 4),
    ("vehicle.bicycle", 4),
    ("motorbike", 5),
    ("vehicle.motorcycle", 5),
    ("pedestrian", 1),
    ("pedestrian.adult", 1),
    ("pedestrian.child", 1),
    ("pedestrian.construction_worker", 1),
    ("pedestrian.personal_mobility", 1),
    ("pedestrian.police_officer", 1),
    ("pedestrian.stroller", 1),
    ("pedestrian.wheelchair", 1),
    ("human.pedestrian.adult", 1),
    ("human.pedestrian.child", 1),
    ("human.pedestrian.construction_worker", 1),
    ("human.pedestrian.personal_mobility", 1),
    ("human.pedestrian.police_officer", 1),
    ("human.pedestrian.stroller", 1),
    ("human.pedestrian.wheelchair", 1),
    ("animal", 6),
    ("unknown", 7),
    ("movable_object.barrier", 7),
    ("movable_object.debris", 7),
    ("movable_object.pushable_pullable", 7),
    ("movable_object.trafficcone", 7),
    ("movable_object.traffic_cone", 7),
    ("static_object.bicycle_rack", 7),
    ("static_object.bollard", 7),
];

/// The documented names and what a careless lookup might take for one of them.
pub fn derived_names() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (n, _) in NAMES {
        v.push(n.to_string());
        v.push(n.to_uppercase());
        v.push(
            n.split('.')
                .map(|w| w[..1].to_uppercase() + &w[1..])
                .collect::<Vec<_>>()
                .join("."),
        );
        for p in [
            "human.",
            "vehicle.",
            "pedestrian.",
            "movable_object.",
            "static_object.",
            " ",
            "x",
            ".",
            "autoware.",
        ] {
            v.push(format!("{p}{n}"));
        }
        for p in [".", " ", ".x", "s", "1", ".adult", "\n", "\u{0}"] {
            v.push(format!("{n}{p}"));
        }
        for w in n.split('.') {
            v.push(w.to_string());
        }
        if let Some((a, b)) = n.split_once('.') {
            v.push(b.to_string());
            v.push(format!("{a}_{b}"));
            v.push(format!("{a} {b}"));
            v.push(format!("{a}..{b}"));
        }
        v.push(n[1..].to_string());
        v.push(n[..n.len() - 1].to_string());
        v.push(n.replace('_', ""));
        v.push(n.replace('_', " "));
    }
    v.sort();
    v.dedup();
    v
}

/// The label of a name (ASCII names only).
pub fn reference_label(name: &str) -> Label {
    NAMES
        .iter()
        .find(|n| n.0.eq_ignore_ascii_case(name))
        .map(|n| label(n.1))
        .unwrap_or(Label::Unknown)
}

const ALPHABET: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._- ()&/\\'\"\t\n\0\u{e9}\u{df}\u{3b1}\u{8eca}";

pub fn edits(s: &str, alphabet: &[char]) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let put = |v: Vec<char>, out: &mut Vec<String>| out.push(v.into_iter().collect());
    for i in 0..=c.len() {
        for &a in alphabet {
            let mut v = c.clone();
            v.insert(i, a);
            put(v, &mut out);
        }
        if i < c.len() {
            let mut v = c.clone();
            v.remove(i);
            put(v, &mut out);
            for &a in alphabet {
                if a != c[i] {
                    let mut v = c.clone();
                    v[i] = a;
                    put(v, &mut out);
                }
            }
        }
        if i + 1 < c.len() {
            let mut v = c.clone();
            v.swap(i, i + 1);
            put(v, &mut out);
        }
    }
    out
}

fn alphabet() -> Vec<char> {
    ALPHABET.chars().collect()
}

/// Judges one name.
fn judge_label(conv: &LabelConverter, name: &str) -> R {
    let want = reference_label(name);
    let got = conv.convert(name);
    ensure!(
        got == want,
        "the name {name:?} converts to {got:?}, not to {want:?}"
    );
    Ok(())
}

fn converter() -> Result<LabelConverter<'static>, Stop> {
    match LabelConverter::new("autoware") {
        Ok(c) => Ok(c),
        Err(e) => fail(format!("the naming convention autoware is refused: {e}")),
    }
}

pub fn c24(tier: Tier) -> Vec<Space> {
    vec![
        Space::new(
            "letter-cases",
            &format!("each of the 44 documented names, in lower case, upper case, Title Case, aLtErNaTiNg, and with the case of up to {} letters of these changed", tier.pick(2, 3)),
            |ch| {
                let name = ch.pick(NAMES).0;
                let base = ch.choose(4);
                let mut s = String::new();
                let mut start = true;
                for (i, c) in name.chars().enumerate() {
                    let mut upper = match base {
                        0 => false,
                        1 => true,
                        2 => start,
                        _ => i % 2 == 1,
                    };
                    start = !c.is_ascii_alphabetic();
                    if c.is_ascii_alphabetic() {
                        upper ^= ch.deviate(2) == 1;
                    }
                    s.push(if upper { c.to_ascii_uppercase() } else { c });
                }
                let conv = converter()?;
                judge_label(&conv, &s)?;
                ch.step();
                ch.note(|| format!("convert({s:?})"));
                ch.compared();
                ch.state(&s);
                ch.outcome(&format!("{}", reference_label(&s)));
                Ok(())
            },
        )
        .budget(tier.pick(2, 3)),
        Space::new(
            "neighbours",
            &format!("all texts within {} of a documented name over letters of both cases, digits, punctuation, white space, NUL and non-ASCII letters, and the text padded or joined with another name", tier.pick("edit distance 1", "edit distance 1, and 2 for names of up to 12 letters")),
            {
                let cache: Vec<(String, Vec<String>)> = NAMES
                    .iter()
                    .flat_map(|n| [n.0.to_string(), n.0.to_uppercase()])
                    .map(|n| {
                        let es = edits(&n, &alphabet());
                        (n, es)
                    })
                    .collect();
                move |ch: &mut Ch| {
                let (name, es) = &cache[ch.choose(cache.len())];
                let alpha = alphabet();
                let conv = converter()?;
                let kind = ch.choose(3);
                match kind {
                    0 => {
                        let e = es[ch.choose(es.len())].clone();
                        ch.note(|| format!("convert({e:?})"));
                        judge_label(&conv, &e)?;
                        ch.step();
                        if tier == Tier::Thorough && name.len() <= 12 {
                            for e2 in edits(&e, &alpha) {
                                judge_label(&conv, &e2)?;
                                ch.step();
                            }
                        }
                        ch.state(&e);
                    }
                    1 => {
                        let other = ch.pick(NAMES).0;
                        let sep = ch.pick(&["", ".", " ", ",", "_", "/"]);
                        let j = format!("{name}{sep}{other}");
                        ch.note(|| format!("convert({j:?})"));
                        judge_label(&conv, &j)?;
                        ch.step();
                        ch.state(&j);
                    }
                    _ => {
                        // every prefix, suffix and dotted part
                        let c: Vec<char> = name.chars().collect();
                        let a = ch.choose(c.len() + 1);
                        let b = a + ch.choose(c.len() - a + 1);
                        let part: String = c[a..b].iter().collect();
                        ch.note(|| format!("convert({part:?})"));
                        judge_label(&conv, &part)?;
                        ch.step();
                        ch.state(&part);
                    }
                }
                ch.compared();
                Ok(())
            }},
        ),
        Space::new("short-texts", &format!("all texts of up to {} characters over the same characters", tier.pick(3, 4)), move |ch| {
            let alpha = alphabet();
            let n = ch.choose(tier.pick(3, 4) + 1);
            let conv = converter()?;
            let mut s = String::new();
            for _ in 0..n.min(2) {
                s.push(ch.pick(&alpha));
            }
            ch.note(|| format!("convert({s:?} followed by {} more)", n - n.min(2)));
            fn rec(s: &mut String, n: usize, alpha: &[char], conv: &LabelConverter, count: &mut u64) -> R {
                if n == 0 {
                    *count += 1;
                    return judge_label(conv, s);
                }
                for &a in alpha {
                    s.push(a);
                    rec(s, n - 1, alpha, conv, count)?;
                    s.pop();
                }
                Ok(())
            }
            let mut count = 0;
            let st = s.clone();
            rec(&mut s, n - n.min(2), &alpha, &conv, &mut count)?;
            ch.steps(count);
            ch.compared();
            ch.state(&(st, n));
            Ok(())
        }),
        Space::new("lists", &format!("convert_labels on all lists of up to {} names out of all documented names, an unknown one and an empty one, with repetitions", tier.pick(3, 4)), move |ch| {
            let mut names: Vec<&str> = NAMES.iter().map(|n| n.0).collect();
            names.extend(["", "hovercraft", "Vehicle.Car", "PEDESTRIAN"]);
            let n = ch.choose(tier.pick(3, 4) + 1);
            let conv = converter()?;
            let list: Vec<&str> = (0..n).map(|_| ch.pick(&names)).collect();
            ch.note(|| format!("convert_labels({list:?})"));
            let want: Vec<Label> = list.iter().map(|n| reference_label(n)).collect();
            match convert_labels(&list, &conv) {
                Ok(got) => ensure!(got == want, "{list:?} converts to {got:?}, not to {want:?}"),
                Err(e) => return fail(format!("{list:?} is refused: {e}")),
            }
            ch.step();
            ch.compared();
            ch.state(&list);
            ch.outcome(&format!("{want:?}"));
            Ok(())
        }),
        Space::new("long-lists", "convert_labels on lists of 0..=300 names, cycling through all documented names in three strides", |ch| {
            let n = ch.choose(301);
            let stride = ch.pick(&[1usize, 5, 43]);
            let conv = converter()?;
            let list: Vec<&str> = (0..n).map(|i| NAMES[i * stride % NAMES.len()].0).collect();
            ch.note(|| format!("convert_labels on {n} names, stride {stride}"));
            let want: Vec<Label> = list.iter().map(|n| reference_label(n)).collect();
            match convert_labels(&list, &conv) {
                Ok(got) => ensure!(got == want, "{n} names with stride {stride} convert to {got:?}, not to {want:?}"),
                Err(e) => return fail(format!("{n} names are refused: {e}")),
            }
            ch.step();
            ch.compared();
            ch.state(&(n, stride));
            Ok(())
        }),
        Space::new("conventions", "LabelConverter::new on all texts within edit distance 2 of autoware (case variants left out), all texts of up to 3 characters, and other conventions", |ch| {
            let alpha = alphabet();
            let mut first = edits("autoware", &alpha);
            first.extend(["nuscenes", "t4", "awml", "coco", "", "tier4", "none", "autoware.auto", "autoware_universe", "merge"].map(String::from));
            let f = ch.pick(&first);
            ch.note(|| format!("LabelConverter::new within one edit of {f:?}"));
            let judge = |p: &str| -> R {
                if p != "autoware" && p.to_lowercase() == "autoware" {
                    return Ok(());
                }
                let got = LabelConverter::new(p).is_ok();
                ensure!(got == (p == "autoware"), "the naming convention {p:?} is {}", if got { "accepted" } else { "refused" });
                Ok(())
            };
            judge(&f)?;
            let es = edits(&f, &alpha);
            for e in &es {
                judge(e)?;
            }
            ch.steps(1 + es.len() as u64);
            ch.compared();
            ch.state(&f);
            Ok(())
        }),
        Space::new(
            "thresholds",
            &format!("get_label_threshold and LabelThreshold for every label, all target lists of up to {} labels (repetitions included), thresholds of distinct values, as f64, i64, bool and &str, in lists as long or longer", tier.pick(5, 6)),
            move |ch| {
                let n = ch.choose(tier.pick(5, 6) + 1);
                let extra = ch.choose(2);
                let targets: Vec<Label> = (0..n).map(|_| label(ch.choose(8))).collect();
                let fs: Vec<f64> = (0..n + extra).map(|i| [0.5, -3.0, f64::INFINITY, 0.0, 1e300, 7.25, 2.0][i]).collect();
                let is: Vec<i64> = (0..n + extra).map(|i| [5, -1, i64::MAX, 0, i64::MIN, 8, 2][i]).collect();
                let ss: Vec<&str> = (0..n + extra).map(|i| ["a", "", "b", "c", "d", "e", "f"][i]).collect();
                let bs: Vec<bool> = (0..n + extra).map(|i| i % 2 == 0).collect();
                ch.note(|| format!("targets {targets:?}, thresholds {fs:?}"));
                for l in (0..8).map(label) {
                    let at = targets.iter().position(|t| *t == l);
                    macro_rules! same {
                        ($v:expr) => {
                            let want = at.map(|i| $v[i]);
                            let got = get_label_threshold(&l, &targets, &$v);
                            ensure!(got == want, "{l:?} in {targets:?} with {:?}: {got:?}, not {want:?}", $v);
                            let got = LabelThreshold::new(&l, &targets).get_threshold(&$v);
                            ensure!(got == want, "LabelThreshold of {l:?} in {targets:?} with {:?}: {got:?}, not {want:?}", $v);
                            ch.steps(2);
                        };
                    }
                    same!(fs);
                    same!(is);
                    same!(ss);
                    same!(bs);
                }
                ch.compared();
                ch.state(&format!("{targets:?}{extra}"));
                Ok(())
            },
        ),
    ]
}

const TASKS: &[(&str, &str, EvaluationTask)] = &[
    ("Detection", "detection", EvaluationTask::Detection),
    ("Tracking", "tracking", EvaluationTask::Tracking),
    ("Prediction", "prediction", EvaluationTask::Prediction),
];
const FRAMES: &[(&str, &str, FrameID)] = &[
    ("BaseLink", "base_link", FrameID::BaseLink),
    ("Map", "map", FrameID::Map),
    ("CamBack", "cam_back", FrameID::CamBack),
    ("CamBackLeft", "cam_back_left", FrameID::CamBackLeft),
    ("CamBackRight", "cam_back_right", FrameID::CamBackRight),
    ("CamFront", "cam_front", FrameID::CamFront),
    ("CamFrontLeft", "cam_front_left", FrameID::CamFrontLeft),
    ("CamFrontRight", "cam_front_right", FrameID::CamFrontRight),
    (
        "CamTrafficLightNear",
        "cam_traffic_light_near",
        FrameID::CamTrafficLightNear,
    ),
    (
        "CamTrafficLightFar",
        "cam_traffic_light_far",
        FrameID::CamTrafficLightFar,
    ),
];

/// Judges one text as a task name and as a frame name.
fn judge_name(s: &str) -> R {
    let task = TASKS
        .iter()
        .find(|t| t.0 == s || t.1 == s)
        .map(|t| t.2.clone());
    let frame = FRAMES
        .iter()
        .find(|t| t.0 == s || t.1 == s)
        .map(|t| t.2.clone());
    let got = EvaluationTask::from_str(s).ok();
    ensure!(
        got == task,
        "the text {s:?} parses as the task {got:?}, not as {task:?}"
    );
    let got = set_task(s).ok();
    ensure!(got == task, "set_task({s:?}) gives {got:?}, not {task:?}");
    let got = FrameID::from_str(s).ok();
    ensure!(
        got == frame,
        "the text {s:?} parses as the frame {got:?}, not as {frame:?}"
    );
    Ok(())
}

fn spellings() -> Vec<String> {
    TASKS
        .iter()
        .map(|t| (t.0, t.1))
        .chain(FRAMES.iter().map(|t| (t.0, t.1)))
        .flat_map(|(a, b)| [a.to_string(), b.to_string()])
        .collect()
}

pub fn c25(tier: Tier) -> Vec<Space> {
    vec![
        Space::new("values", "every task and frame value, alone and in pairs: printing, parsing what is printed, distinctness, 3D or 2D", |ch| {
            if ch.flag() {
                let a = ch.pick(TASKS);
                let b = ch.pick(TASKS);
                ch.note(|| format!("{} and {}", a.0, b.0));
                let p = a.2.to_string();
                ensure!(p == a.0, "the task {:?} prints as {p:?}, not {:?}", a.2, a.0);
                ensure!(format!("{}", a.2) == p, "to_string and format disagree");
                let back = EvaluationTask::from_str(&p).ok();
                ensure!(back == Some(a.2.clone()), "the task {:?} prints as {p:?}, which parses as {back:?}", a.2);
                ensure!((a.2.to_string() == b.2.to_string()) == (a.0 == b.0), "{} and {} print alike", a.0, b.0);
                ensure!((a.2 == b.2) == (a.0 == b.0), "{} and {} compare wrongly", a.0, b.0);
                ensure!(a.2.is_3d() != a.2.is_2d(), "{} is 3D: {}, is 2D: {}", a.0, a.2.is_3d(), a.2.is_2d());
                ch.outcome(&p);
            } else {
                let a = ch.pick(FRAMES);
                let b = ch.pick(FRAMES);
                ch.note(|| format!("{} and {}", a.0, b.0));
                let p = a.2.to_string();
                ensure!(p == a.0, "the frame {:?} prints as {p:?}, not {:?}", a.2, a.0);
                let back = FrameID::from_str(&p).ok();
                ensure!(back == Some(a.2.clone()), "the frame {:?} prints as {p:?}, which parses as {back:?}", a.2);
                ensure!((a.2.to_string() == b.2.to_string()) == (a.0 == b.0), "{} and {} print alike", a.0, b.0);
                ensure!((a.2 == b.2) == (a.0 == b.0), "{} and {} compare wrongly", a.0, b.0);
                ch.outcome(&p);
            }
            ch.steps(4);
            ch.compared();
            ch.state(&ch.trace.clone());
            Ok(())
        }),
        Space::new("edits", "all texts within edit distance 2 (insert, delete, substitute, transpose) of a valid spelling over letters of both cases, digits, punctuation, white space, NUL and non-ASCII letters", |ch| {
            let s = ch.pick(&spellings());
            let alpha = alphabet();
            judge_name(&s)?;
            let es = edits(&s, &alpha);
            let e = es[ch.choose(es.len())].clone();
            ch.note(|| format!("{e:?} and all texts one edit from it"));
            judge_name(&e)?;
            let es = edits(&e, &alpha);
            for t in &es {
                judge_name(t)?;
            }
            ch.steps(es.len() as u64 + 2);
            ch.compared();
            ch.state(&e);
            Ok(())
        }),
        Space::new("short-texts", &format!("all texts of up to {} characters over the same characters", tier.pick(3, 4)), move |ch| {
            let alpha = alphabet();
            let n = ch.choose(tier.pick(3, 4) + 1);
            let mut s = String::new();
            for _ in 0..n.min(2) {
                s.push(ch.pick(&alpha));
            }
            ch.note(|| format!("{s:?} followed by {} more", n - n.min(2)));
            fn rec(s: &mut String, n: usize, alpha: &[char], count: &mut u64) -> R {
                if n == 0 {
                    *count += 1;
                    return judge_name(s);
                }
                for &a in alpha {
                    s.push(a);
                    rec(s, n - 1, alpha, count)?;
                    s.pop();
                }
                Ok(())
            }
            let mut count = 0;
            let st = s.clone();
            rec(&mut s, n - n.min(2), &alpha, &mut count)?;
            ch.steps(count);
            ch.compared();
            ch.state(&(st, n));
            Ok(())
        }),
        Space::new("letter-cases", &format!("every valid spelling with the case of its letters changed: {}", tier.pick("up to 4 letters", "all of the 2^n ways")), move |ch| {
            let s: Vec<char> = ch.pick(&spellings()).chars().collect();
            let flip = |c: char| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
            // the first letters are chosen here, all ways of the others follow in a loop
            let letters: Vec<usize> = (0..s.len()).filter(|i| s[*i].is_ascii_alphabetic()).collect();
            let head = letters.len().min(6);
            let mut t = s.clone();
            let mut k = 0;
            for &i in &letters[..head] {
                if ch.flag() {
                    t[i] = flip(t[i]);
                    k += 1;
                }
            }
            ch.note(|| format!("{:?} and all cases of the letters after the first {head}", t.iter().collect::<String>()));
            let rest = &letters[head..];
            let mut count = 0;
            for m in 0u32..1 << rest.len() {
                if tier == Tier::Quick && m.count_ones() + k > 4 {
                    continue;
                }
                let mut u = t.clone();
                for (j, &i) in rest.iter().enumerate() {
                    if m >> j & 1 == 1 {
                        u[i] = flip(u[i]);
                    }
                }
                judge_name(&u.into_iter().collect::<String>())?;
                count += 1;
            }
            ch.steps(count);
            ch.compared();
            ch.state(&t);
            Ok(())
        }),
        Space::new(
            "words",
            &format!("all texts of up to {} of the 15 words the names are made of, each in lower, Title or UPPER case, joined by nothing, underscore, hyphen, blank, dot or slash", tier.pick(3, 4)),
            move |ch| {
                let words = ["cam", "back", "left", "right", "front", "traffic", "light", "near", "far", "base", "link", "map", "detection", "tracking", "prediction"];
                let styled: Vec<String> = words
                    .iter()
                    .flat_map(|w| {
                        let mut t = w.to_string();
                        t[..1].make_ascii_uppercase();
                        [w.to_string(), t, w.to_uppercase()]
                    })
                    .collect();
                let seps = ["", "_", "-", " ", ".", "/"];
                let n = 1 + ch.choose(tier.pick(3, 4));
                let mut s = ch.pick(&styled);
                let mut count = 0;
                if n >= 2 {
                    s.push_str(ch.pick(&seps));
                    s.push_str(&ch.pick(&styled));
                }
                ch.note(|| format!("{s:?} followed by {} more words", n - n.min(2)));
                fn rec(s: &str, n: usize, seps: &[&str], styled: &[String], count: &mut u64) -> R {
                    if n == 0 {
                        *count += 1;
                        return judge_name(s);
                    }
                    for p in seps {
                        for w in styled {
                            rec(&format!("{s}{p}{w}"), n - 1, seps, styled, count)?;
                        }
                    }
                    Ok(())
                }
                let limited: Vec<String> = if n == 4 { styled.iter().filter(|w| w.chars().nth(1).unwrap().is_lowercase()).cloned().collect() } else { styled.clone() };
                let ls: Vec<&str> = if n == 4 { vec!["", "_"] } else { seps.to_vec() };
                rec(&s, n - n.min(2), &ls, &limited, &mut count)?;
                ch.steps(count);
                ch.compared();
                ch.state(&(s, n));
                Ok(())
            },
        ),
    ]
}
