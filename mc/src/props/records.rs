//! C21: records, timestamps and tokens survive a round trip.
use crate::ds::CHANNELS;
use crate::engine::*;
use crate::ensure;
use crate::obj::us;
use perception_eval::dataset::nuscenes::schema::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::fmt::Debug;

/// Text of a token out of a small set, and as the library holds it.
fn token(i: usize) -> String {
    [
        "00000000000000000000000000000000",
        "ffffffffffffffffffffffffffffffff",
        "0123456789abcdef0f1e2d3c4b5a6978",
        "80000000000000000000000000000001",
    ][i]
        .into()
}
fn long(s: &str) -> LongToken {
    LongToken::try_from(s).ok().expect("token")
}

const STRINGS: &[&str] = &[
    "",
    "a",
    "car",
    "with \"quotes\" and \\ and /",
    "line\nbreak\ttab\u{0}",
    "\u{70b9}\u{1f697}\u{e9}",
    " blanks ",
    " ",
    "\t\n",
    "\u{3000}",
    "\u{feff}x",
    "e\u{301} Stra\u{df}e",
    "/abs/../x//y/",
    "null",
    "12",
    "{\"a\": [1]}",
    "0",
    "1",
    "-",
    "none",
    "None",
    "false",
    "nan",
    "[]",
    "\"\"",
    "unknown",
    "00000000000000000000000000000000",
    "a\r\nb",
    "\u{1}\u{1f}\u{7f}\u{80}\u{2028}\u{fffd}\u{10ffff}",
    "%41+&lt;",
];
/// Numbers that both the writer and the reader of JSON treat exactly.
const FLOATS: &[f64] = &[
    0.0,
    1.0,
    -1.0,
    0.5,
    0.1,
    -373.256,
    1130.419,
    1e15,
    -2.5e-10,
    123456789.125,
    1e22,
    5e-5,
];
const TIMES: &[i64] = &[
    0,
    1,
    -1,
    999_999,
    1_000_000,
    1_532_402_927_647_951,
    1_532_402_927_647_952,
    -62_135_596_800_000_000,
    253_402_300_799_999_999,
    9_007_199_254_740_993,
    4_102_444_800_000_001,
    -1_000_001,
];
const COUNTS: &[u64] = &[
    0,
    1,
    7,
    255,
    65536,
    u32::MAX as u64,
    (1 << 53) + 1,
    u64::MAX,
];

#[derive(Clone)]
enum F {
    Tok,
    OptTok,
    Toks,
    Str,
    /// Text that is empty when there is none.
    OptStr,
    Count,
    Vec3,
    Vec4,
    Time,
    Bool,
    Date,
    Intrinsic,
    Enum(Vec<(&'static str, &'static str)>),
}

/// Values of a field as (written, as written back by the library). The first is the default.
fn values(f: &F) -> Vec<(Value, Value)> {
    let same = |v: Value| (v.clone(), v);
    match f {
        F::Tok => {
            let mut v: Vec<_> = (0..4).map(|i| same(json!(token((i + 2) % 4)))).collect();
            v.push((json!(token(2).to_uppercase()), json!(token(2))));
            v
        }
        F::OptTok => {
            let mut v = vec![same(json!(""))];
            v.extend((0..4).map(|i| same(json!(token(i)))));
            v.push((
                json!("AbCdEf000000000000000000000000Aa"),
                json!("abcdef000000000000000000000000aa"),
            ));
            v
        }
        F::Toks => vec![
            same(json!([])),
            same(json!([token(2)])),
            same(json!([token(3), token(1), token(0)])),
            same(json!([token(1), token(1)])),
        ],
        F::Str | F::OptStr => STRINGS.iter().map(|s| same(json!(s))).collect(),
        F::Count => COUNTS.iter().map(|s| same(json!(s))).collect(),
        F::Vec3 | F::Vec4 => {
            let n = if matches!(f, F::Vec3) { 3 } else { 4 };
            let mut v: Vec<_> = vec![same(json!((0..n)
                .map(|i| i as f64 + 0.25)
                .collect::<Vec<_>>()))];
            for i in 0..n {
                for x in FLOATS {
                    let mut a: Vec<f64> = (0..n).map(|i| i as f64 + 0.25).collect();
                    a[i] = *x;
                    v.push(same(json!(a)));
                }
            }
            // whole numbers written without a point
            v.push((
                json!((1..=n as i64).collect::<Vec<_>>()),
                json!((1..=n).map(|i| i as f64).collect::<Vec<_>>()),
            ));
            v
        }
        F::Time => TIMES.iter().map(|t| same(json!(t))).collect(),
        F::Bool => vec![same(json!(false)), same(json!(true))],
        F::Date => vec![
            same(json!("2018-07-24")),
            same(Value::Null),
            same(json!("0001-01-01")),
            same(json!("9999-12-31")),
            same(json!("2020-02-29")),
            same(json!("1970-01-01")),
        ],
        F::Intrinsic => {
            let mut v = vec![
                same(json!([])),
                same(json!([
                    [1266.25, 0.0, 816.5],
                    [0.0, 1266.25, 491.5],
                    [0.0, 0.0, 1.0]
                ])),
            ];
            for i in 0..9 {
                let mut m = [[0.0; 3]; 3];
                m[i / 3][i % 3] = 2.5;
                v.push(same(json!(m)));
            }
            v.push(same(json!([
                [0.0, 0.0, 0.0],
                [0.0, 0.0, 0.0],
                [0.0, 0.0, 0.0]
            ])));
            v
        }
        F::Enum(names) => names.iter().map(|(a, b)| (json!(a), json!(b))).collect(),
    }
}

fn en(xs: &[&'static str]) -> F {
    F::Enum(xs.iter().map(|x| (*x, *x)).collect())
}

fn schema(t: &str) -> Vec<(&'static str, F)> {
    use F::*;
    match t {
        "attribute" | "category" => vec![("token", Tok), ("name", Str), ("description", Str)],
        "calibrated_sensor" => {
            vec![
                ("token", Tok),
                ("sensor_token", Tok),
                ("rotation", Vec4),
                ("translation", Vec3),
                ("camera_intrinsic", Intrinsic),
            ]
        }
        "ego_pose" => vec![
            ("token", Tok),
            ("timestamp", Time),
            ("rotation", Vec4),
            ("translation", Vec3),
        ],
        "instance" => vec![
            ("token", Tok),
            ("nbr_annotations", Count),
            ("category_token", Tok),
            ("first_annotation_token", Tok),
            ("last_annotation_token", Tok),
        ],
        "log" => vec![
            ("token", Tok),
            ("date_captured", Date),
            ("location", Str),
            ("vehicle", Str),
            ("logfile", OptStr),
        ],
        "map" => vec![
            ("token", Tok),
            ("log_tokens", Toks),
            ("filename", Str),
            ("category", Str),
        ],
        "sample" => vec![
            ("token", Tok),
            ("next", OptTok),
            ("prev", OptTok),
            ("scene_token", Tok),
            ("timestamp", Time),
        ],
        "sample_annotation" => vec![
            ("token", Tok),
            ("num_lidar_pts", Count),
            ("num_radar_pts", Count),
            ("size", Vec3),
            ("rotation", Vec4),
            ("translation", Vec3),
            ("sample_token", Tok),
            ("instance_token", Tok),
            ("attribute_tokens", Toks),
            ("visibility_token", OptStr),
            ("prev", OptTok),
            ("next", OptTok),
        ],
        "sample_data" => vec![
            ("token", Tok),
            (
                "fileformat",
                Enum(vec![
                    ("bin", "bin"),
                    ("pcd", "bin"),
                    ("jpeg", "jpeg"),
                    ("jpg", "jpeg"),
                    ("png", "png"),
                ]),
            ),
            ("is_key_frame", Bool),
            ("filename", Str),
            ("timestamp", Time),
            ("sample_token", Tok),
            ("ego_pose_token", Tok),
            ("calibrated_sensor_token", Tok),
            ("prev", OptTok),
            ("next", OptTok),
        ],
        "scene" => vec![
            ("token", Tok),
            ("name", Str),
            ("description", Str),
            ("log_token", Tok),
            ("nbr_samples", Count),
            ("first_sample_token", Tok),
            ("last_sample_token", Tok),
        ],
        "sensor" => vec![
            ("token", Tok),
            ("modality", en(&["camera", "lidar", "radar"])),
            (
                "channel",
                Enum(
                    CHANNELS
                        .iter()
                        .map(|c| {
                            (
                                *c,
                                if *c == "LIDAR_CONCAT" {
                                    "LIDAR_TOP"
                                } else {
                                    *c
                                },
                            )
                        })
                        .collect(),
                ),
            ),
        ],
        "visibility" => vec![
            ("token", Str),
            (
                "level",
                Enum(vec![
                    ("v0-40", "v0-40"),
                    ("none", "v0-40"),
                    ("v40-60", "v40-60"),
                    ("partial", "v40-60"),
                    ("v60-80", "v60-80"),
                    ("most", "v60-80"),
                    ("v80-100", "v80-100"),
                    ("full", "v80-100"),
                ]),
            ),
            ("description", Str),
        ],
        _ => unreachable!(),
    }
}

/// Reads a row in three ways, writes it back, reads that again. Returns what it wrote and how it prints.
fn trip<T: Serialize + DeserializeOwned + Debug + Clone>(
    text: &str,
    check: impl Fn(&T) -> Result<(), String>,
) -> Result<Value, String> {
    let a: T = serde_json::from_str(text).map_err(|e| format!("refused: {e}"))?;
    let b: T = serde_json::from_reader(text.as_bytes())
        .map_err(|e| format!("refused from a reader: {e}"))?;
    let c: T = serde_json::from_value(serde_json::from_str::<Value>(text).unwrap())
        .map_err(|e| format!("refused as a value: {e}"))?;
    let shown = format!("{a:?}");
    for x in [&b, &c] {
        if format!("{x:?}") != shown {
            return Err(format!("read as {shown} and as {x:?}"));
        }
    }
    check(&a)?;
    let out = serde_json::to_string(&a).map_err(|e| format!("cannot be written: {e}"))?;
    let back: T = serde_json::from_str(&out)
        .map_err(|e| format!("what was written, {out}, is refused: {e}"))?;
    if format!("{back:?}") != shown {
        return Err(format!("{shown} comes back as {back:?} (written {out})"));
    }
    check(&back)?;
    let v = serde_json::to_value(&a).map_err(|e| format!("cannot be written: {e}"))?;
    let again: T = serde_json::from_value(v.clone())
        .map_err(|e| format!("what was written as a value, {v}, is refused: {e}"))?;
    if format!("{again:?}") != shown {
        return Err(format!("{shown} comes back as {again:?} (through a value)"));
    }
    if serde_json::from_str::<Value>(&out).unwrap() != v {
        return Err(format!("written as {out} and as {v}"));
    }
    Ok(v)
}

fn st<'a>(r: &'a Map<String, Value>, f: &str) -> &'a str {
    r[f].as_str().unwrap()
}
fn eq<T: PartialEq + Debug>(f: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{f} is read as {got:?}, should be {want:?}"))
    }
}
fn nums<const N: usize>(r: &Map<String, Value>, f: &str) -> [f64; N] {
    let a = r[f].as_array().unwrap();
    std::array::from_fn(|i| a[i].as_f64().unwrap())
}
fn ot(r: &Map<String, Value>, f: &str) -> Option<LongToken> {
    match st(r, f) {
        "" => None,
        s => Some(long(s)),
    }
}
fn os(r: &Map<String, Value>, f: &str) -> Option<String> {
    match st(r, f) {
        "" => None,
        s => Some(s.to_string()),
    }
}
fn list(r: &Map<String, Value>, f: &str) -> Vec<LongToken> {
    r[f].as_array()
        .unwrap()
        .iter()
        .map(|t| long(t.as_str().unwrap()))
        .collect()
}
fn n(r: &Map<String, Value>, f: &str) -> usize {
    r[f].as_u64().unwrap() as usize
}
fn time(r: &Map<String, Value>, f: &str) -> chrono::NaiveDateTime {
    us(r[f].as_i64().unwrap())
}

fn record(table: &str, r: &Map<String, Value>, text: &str) -> Result<Value, String> {
    let tok = |f: &str| long(st(r, f));
    let s = |f: &str| st(r, f).to_string();
    match table {
        "attribute" => trip(text, |x: &Attribute| {
            eq("token", &x.token, &tok("token"))?;
            eq("name", &x.name, &s("name"))?;
            eq("description", &x.description, &s("description"))
        }),
        "category" => trip(text, |x: &Category| {
            eq("token", &x.token, &tok("token"))?;
            eq("name", &x.name, &s("name"))?;
            eq("description", &x.description, &s("description"))
        }),
        "calibrated_sensor" => trip(text, |x: &CalibratedSensor| {
            eq("token", &x.token, &tok("token"))?;
            eq("sensor_token", &x.sensor_token, &tok("sensor_token"))?;
            eq("rotation", x.rotation, nums(r, "rotation"))?;
            eq("translation", x.translation, nums(r, "translation"))?;
            let m = r["camera_intrinsic"].as_array().unwrap();
            let want: Option<[[f64; 3]; 3]> = if m.is_empty() {
                None
            } else {
                Some(std::array::from_fn(|i| {
                    std::array::from_fn(|j| m[i][j].as_f64().unwrap())
                }))
            };
            eq("camera_intrinsic", x.camera_intrinsic, want)
        }),
        "ego_pose" => trip(text, |x: &EgoPose| {
            eq("token", &x.token, &tok("token"))?;
            eq("timestamp", x.timestamp, time(r, "timestamp"))?;
            eq("rotation", x.rotation, nums(r, "rotation"))?;
            eq("translation", x.translation, nums(r, "translation"))
        }),
        "instance" => trip(text, |x: &Instance| {
            eq("token", &x.token, &tok("token"))?;
            eq(
                "nbr_annotations",
                x.nbr_annotations,
                n(r, "nbr_annotations"),
            )?;
            eq("category_token", &x.category_token, &tok("category_token"))?;
            eq(
                "first_annotation_token",
                &x.first_annotation_token,
                &tok("first_annotation_token"),
            )?;
            eq(
                "last_annotation_token",
                &x.last_annotation_token,
                &tok("last_annotation_token"),
            )
        }),
        "log" => trip(text, |x: &Log| {
            eq("token", &x.token, &tok("token"))?;
            eq(
                "date_captured",
                x.date_captured.map(|d| d.to_string()),
                r["date_captured"].as_str().map(|d| d.to_string()),
            )?;
            eq("location", &x.location, &s("location"))?;
            eq("vehicle", &x.vehicle, &s("vehicle"))?;
            eq(
                "logfile",
                x.logfile.clone(),
                os(r, "logfile").map(Into::into),
            )
        }),
        "map" => trip(
            text,
            |x: &perception_eval::dataset::nuscenes::schema::Map| {
                eq("token", x.token.to_string(), st(r, "token").to_lowercase())?;
                eq("log_tokens", x.log_tokens.clone(), list(r, "log_tokens"))?;
                eq("filename", x.filename.clone(), s("filename").into())?;
                eq("category", &x.category, &s("category"))
            },
        ),
        "sample" => trip(text, |x: &Sample| {
            eq("token", &x.token, &tok("token"))?;
            eq("next", x.next.clone(), ot(r, "next"))?;
            eq("prev", x.prev.clone(), ot(r, "prev"))?;
            eq("scene_token", &x.scene_token, &tok("scene_token"))?;
            eq("timestamp", x.timestamp, time(r, "timestamp"))
        }),
        "sample_annotation" => trip(text, |x: &SampleAnnotation| {
            eq("token", &x.token, &tok("token"))?;
            eq("num_lidar_pts", x.num_lidar_pts, n(r, "num_lidar_pts"))?;
            eq("num_radar_pts", x.num_radar_pts, n(r, "num_radar_pts"))?;
            eq("size", x.size, nums(r, "size"))?;
            eq("rotation", x.rotation, nums(r, "rotation"))?;
            eq("translation", x.translation, nums(r, "translation"))?;
            eq("sample_token", &x.sample_token, &tok("sample_token"))?;
            eq("instance_token", &x.instance_token, &tok("instance_token"))?;
            eq(
                "attribute_tokens",
                x.attribute_tokens.clone(),
                list(r, "attribute_tokens"),
            )?;
            eq(
                "visibility_token",
                x.visibility_token.clone(),
                os(r, "visibility_token"),
            )?;
            eq("prev", x.prev.clone(), ot(r, "prev"))?;
            eq("next", x.next.clone(), ot(r, "next"))
        }),
        "sample_data" => trip(text, |x: &SampleData| {
            eq("token", &x.token, &tok("token"))?;
            let want = match st(r, "fileformat") {
                "bin" | "pcd" => FileFormat::Bin,
                "png" => FileFormat::Png,
                _ => FileFormat::Jpeg,
            };
            eq("fileformat", &x.fileformat, &want)?;
            eq("is_key_frame", x.is_key_frame, r["is_key_frame"] == true)?;
            eq("filename", x.filename.clone(), s("filename").into())?;
            eq("timestamp", x.timestamp, time(r, "timestamp"))?;
            eq("sample_token", &x.sample_token, &tok("sample_token"))?;
            eq("ego_pose_token", &x.ego_pose_token, &tok("ego_pose_token"))?;
            eq(
                "calibrated_sensor_token",
                &x.calibrated_sensor_token,
                &tok("calibrated_sensor_token"),
            )?;
            eq("prev", x.prev.clone(), ot(r, "prev"))?;
            eq("next", x.next.clone(), ot(r, "next"))
        }),
        "scene" => trip(text, |x: &Scene| {
            eq("token", &x.token, &tok("token"))?;
            eq("name", &x.name, &s("name"))?;
            eq("description", &x.description, &s("description"))?;
            eq("log_token", &x.log_token, &tok("log_token"))?;
            eq("nbr_samples", x.nbr_samples, n(r, "nbr_samples"))?;
            eq(
                "first_sample_token",
                &x.first_sample_token,
                &tok("first_sample_token"),
            )?;
            eq(
                "last_sample_token",
                &x.last_sample_token,
                &tok("last_sample_token"),
            )
        }),
        "sensor" => trip(text, |x: &Sensor| {
            eq("token", &x.token, &tok("token"))?;
            let m = match st(r, "modality") {
                "camera" => Modality::Camera,
                "lidar" => Modality::Lidar,
                _ => Modality::Radar,
            };
            eq("modality", &x.modality, &m)?;
            // CAM_BACK_LEFT is CamBackLeft
            let c: String = st(r, "channel")
                .split('_')
                .map(|w| format!("{}{}", &w[..1], w[1..].to_lowercase()))
                .collect();
            let c = if c == "LidarConcat" {
                "LidarTop".to_string()
            } else {
                c
            };
            eq("channel", format!("{:?}", x.channel), c)
        }),
        "visibility" => trip(text, |x: &Visibility| {
            eq("token", &x.token, &s("token"))?;
            let l = match st(r, "level") {
                "v0-40" | "none" => "None",
                "v40-60" | "partial" => "Partial",
                "v60-80" | "most" => "Most",
                _ => "Full",
            };
            eq("level", format!("{:?}", x.level), l.to_string())?;
            eq("description", &x.description, &s("description"))
        }),
        _ => unreachable!(),
    }
}

fn tokens_space(ch: &mut Ch) -> R {
    // a valid token of either case with one change
    let base: Vec<char> = ch
        .pick(&[
            "0123456789abcdef0f1e2d3c4b5a6978",
            "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",
            "aAbBcCdDeEfF00112233445566778899",
        ])
        .chars()
        .collect();
    let mut t = base.clone();
    let how = ch.choose(5);
    let at = ch.choose(32);
    match how {
        // a character replaced by every ASCII character, and some wider ones
        0 => {
            let k = ch.choose(128 + 4);
            t[at] = if k < 128 {
                k as u8 as char
            } else {
                ['\u{e9}', '\u{0660}', '\u{ff10}', '\u{1f697}'][k - 128]
            };
        }
        // characters removed from here, 1 to 4
        1 => {
            let k = 1 + ch.choose(4);
            for _ in 0..k.min(t.len() - at) {
                t.remove(at);
            }
        }
        // characters inserted here
        2 => {
            let k = 1 + ch.choose(4);
            let c = ch.pick(&['0', 'a', ' ', 'g', '-']);
            for _ in 0..k {
                t.insert(at, c);
            }
        }
        // only a prefix, or the token twice
        3 => {
            t.truncate(at);
        }
        _ => {
            let mut u = t.clone();
            u.truncate(at);
            t.extend(u);
        }
    }
    let text: String = t.iter().collect();
    let want = text.len() == 32 && text.bytes().all(|b| b.is_ascii_hexdigit());
    ch.note(|| format!("{text:?} is {} token", if want { "a" } else { "no" }));
    let js = serde_json::to_string(&text).unwrap();
    let lower = text.to_lowercase();
    ch.steps(6);
    for (what, got) in [
        (
            "long token",
            LongToken::try_from(text.as_str())
                .map(|t| t.to_string())
                .map_err(|e| e.to_string()),
        ),
        (
            "short token",
            ShortToken::try_from(text.as_str())
                .map(|t| t.to_string())
                .map_err(|e| e.to_string()),
        ),
        (
            "long token in JSON",
            serde_json::from_str::<LongToken>(&js)
                .map(|t| t.to_string())
                .map_err(|e| e.to_string()),
        ),
        (
            "short token in JSON",
            serde_json::from_str::<ShortToken>(&js)
                .map(|t| t.to_string())
                .map_err(|e| e.to_string()),
        ),
        (
            "long token from a reader",
            serde_json::from_reader::<_, LongToken>(js.as_bytes())
                .map(|t| t.to_string())
                .map_err(|e| e.to_string()),
        ),
    ] {
        match got {
            Ok(t) => ensure!(
                want && t == lower,
                "{what}: {text:?} is read as {t}, should be {}",
                if want { &lower } else { "refused" }
            ),
            Err(e) => ensure!(!want, "{what}: {text:?} is refused: {e}"),
        }
    }
    // as an optional link: also none if empty
    let row = format!("{{\"token\": \"{}\", \"next\": {js}, \"prev\": \"\", \"scene_token\": \"{}\", \"timestamp\": 5}}", token(1), token(2));
    match serde_json::from_str::<Sample>(&row) {
        Ok(s) => ensure!(
            (want && s.next.as_ref().map(|t| t.to_string()) == Some(lower.clone()))
                || (text.is_empty() && s.next.is_none()),
            "link {text:?} is read as {:?}",
            s.next.map(|t| t.to_string())
        ),
        Err(e) => ensure!(!want && !text.is_empty(), "link {text:?} is refused: {e}"),
    }
    ch.compared();
    ch.state(&text);
    ch.outcome(&want);
    Ok(())
}

/// The two-hex-digits-per-byte form is unambiguous: distinct tokens print differently and compare differently.
fn token_bytes(ch: &mut Ch) -> R {
    let at = ch.choose(16);
    let a = ch.choose(256) as u8;
    let b = ch.choose(4);
    let mut x = [0x5au8; 16];
    x[at] = a;
    let mut y = x;
    match b {
        0 => {}
        1 => y[at] ^= 1,
        2 => y[at] ^= 0x80,
        _ => y[(at + 1) % 16] ^= 0x10,
    }
    let hex = |z: &[u8; 16]| z.iter().map(|b| format!("{b:02x}")).collect::<String>();
    let (p, q) = (long(&hex(&x)), long(&hex(&y)));
    ch.steps(2);
    ensure!(
        p.to_string() == hex(&x) && q.to_string() == hex(&y),
        "{} prints as {p}, {} as {q}",
        hex(&x),
        hex(&y)
    );
    ensure!((p == q) == (x == y), "{p} and {q} compare {}", p == q);
    let w = serde_json::to_string(&p).unwrap();
    ensure!(
        w == format!("\"{}\"", hex(&x)),
        "{} is written as {w}",
        hex(&x)
    );
    ch.compared();
    ch.state(&(x, y));
    ch.outcome(&(x == y));
    Ok(())
}

fn times_space(tier: Tier) -> Space {
    Space::new(
        "timestamps",
        "whole microseconds: m * 10^k + d for m in 0, 1, 4, 9, 15324029, k in 0..12 (at most 9.2*10^17), d in -3..3 (thorough -40..40), both signs, and every microsecond of 2^k +- 2 for k in 0..59; read from text and value in 3 record types, written and read back",
        move |ch| {
            let d = tier.pick(3i64, 40);
            let t = if ch.flag() {
                let m = ch.pick(&[0i64, 1, 4, 9, 15_324_029]);
                let k = ch.choose(13) as u32;
                let d = ch.choose(2 * d as usize + 1) as i64 - d;
                (m as i128 * 10i128.pow(k) + d as i128) as i64
            } else {
                let k = ch.choose(60);
                (1i64 << k) + ch.choose(5) as i64 - 2
            };
            let t = if ch.flag() { -t } else { t };
            // the years that chrono can hold
            if t.abs() > 8_000_000_000_000_000_000 {
                return Err(Stop::Skip);
            }
            let want = us(t);
            ch.note(|| format!("{t} us is {want}"));
            let l = token(2);
            let pose = format!("{{\"token\": \"{l}\", \"timestamp\": {t}, \"rotation\": [1,0,0,0], \"translation\": [0,0,0]}}");
            let sample = format!("{{\"token\": \"{l}\", \"timestamp\": {t}, \"prev\": \"\", \"next\": \"\", \"scene_token\": \"{l}\"}}");
            ch.steps(4);
            let a = serde_json::from_str::<EgoPose>(&pose).map(|p| p.timestamp).map_err(|e| e.to_string());
            let b = serde_json::from_reader::<_, Sample>(sample.as_bytes()).map(|p| p.timestamp).map_err(|e| e.to_string());
            ensure!(a == Ok(want), "{t} us is read as {a:?}, should be {want}");
            ensure!(b == Ok(want), "{t} us is read as {b:?} from a reader, should be {want}");
            let s: Sample = serde_json::from_str(&sample).unwrap();
            let out = serde_json::to_string(&s).map_err(|e| e.to_string());
            let back = out.clone().and_then(|o| serde_json::from_str::<Sample>(&o).map(|s| s.timestamp).map_err(|e| e.to_string()));
            ensure!(back == Ok(want), "{t} us is written as {out:?} and comes back as {back:?}");
            let v = serde_json::to_value(&s).unwrap();
            let back = serde_json::from_value::<Sample>(v.clone()).map(|s| s.timestamp).map_err(|e| e.to_string());
            ensure!(back == Ok(want), "{t} us is written as {v} and comes back as {back:?}");
            ch.compared();
            ch.state(&t);
            ch.outcome(&(t.rem_euclid(1_000_000) == 0, t < 0));
            Ok(())
        },
    )
}

fn floats_space(tier: Tier) -> Space {
    Space::new(
        "floats",
        "numbers of up to 17 digits: k / 7, k / 3 * 10^e, sqrt(k), e in -12..12, k in 1..60 (thorough 600), both signs, as a coordinate of a record: written and read back",
        move |ch| {
            let k = 1 + ch.choose(tier.pick(60, 600));
            let x = match ch.choose(3) {
                0 => k as f64 / 7.0,
                1 => k as f64 / 3.0 * 10f64.powi(ch.choose(25) as i32 - 12),
                _ => (k as f64).sqrt(),
            };
            let x = if ch.flag() { -x } else { x };
            let pose = EgoPose { token: long(&token(2)), timestamp: us(1), rotation: [1.0, 0.0, 0.0, x], translation: [x, 0.0, -x] };
            ch.step();
            let out = serde_json::to_string(&pose).unwrap();
            let back: EgoPose = serde_json::from_str(&out).map_err(|e| Stop::Fail { key: String::new(), msg: format!("{out} is refused: {e}") })?;
            ch.note(|| format!("{x} is written as {out}, comes back as {}", back.translation[0]));
            for (g, w) in [(back.rotation[3], x), (back.translation[0], x), (back.translation[2], -x)] {
                let off = (g.to_bits() as i64 - w.to_bits() as i64).abs();
                // the finding is serde_json's own reading of numbers: a plain number comes back the same way
                let plain: f64 = serde_json::from_str(&serde_json::to_string(&w).unwrap()).unwrap();
                if off != 0 && off <= 4 && g.to_bits() == plain.to_bits() {
                    return fail_key("json-float-last-digit", format!("{w:e} is written and read back as {g:e}, {off} units in the last place off"));
                }
                ensure!(off == 0, "{w:e} comes back as {g:e}");
            }
            ch.compared();
            ch.state(&x.to_bits());
            ch.outcome(&k);
            Ok(())
        },
    )
}

pub fn c21(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(
        Space::new(
            "records",
            "records of all 13 tables: every field over a set of values (tokens, empty links, 30 texts, 12 numbers per coordinate, 12 times, 8 counts up to 2^64-1, dates, intrinsics, every name of every enumeration), at most 2 (thorough 3) fields away from their default at a time; fields in 3 orders, with and without unknown fields; read from text, reader and value, checked field by field, written, compared with the canonical form, read back",
            move |ch| {
                let table = ch.pick(&crate::ds::TABLES);
                let fields = schema(table);
                let order = ch.choose(3);
                let extra = ch.flag();
                let mut row: Vec<(&str, Value, Value)> = vec![];
                for (f, ty) in &fields {
                    let vals = values(ty);
                    let k = ch.deviate(vals.len());
                    row.push((f, vals[k].0.clone(), vals[k].1.clone()));
                }
                let written: Map<String, Value> = row.iter().map(|(f, v, _)| (f.to_string(), v.clone())).collect();
                let canonical: Map<String, Value> = row.iter().map(|(f, _, v)| (f.to_string(), v.clone())).collect();
                match order {
                    0 => {}
                    1 => row.reverse(),
                    _ => {
                        let m = row.len() / 2;
                        row.rotate_left(m)
                    }
                }
                let mut parts: Vec<String> = row.iter().map(|(f, v, _)| format!("\"{f}\": {v}")).collect();
                if extra {
                    parts.insert(1, "\"category_name\": \"x\"".into());
                    parts.push("\"height\": {\"a\": [1, null]}".into());
                }
                let text = format!("{{{}}}", parts.join(", "));
                ch.steps(6);
                ch.note(|| format!("{table}: {text}"));
                match record(table, &written, &text) {
                    Err(e) => return fail(format!("{table} {text}: {e}")),
                    Ok(out) => {
                        let want = Value::Object(canonical);
                        ensure!(same(&out, &want), "{table} {text} is written as {out}, should be {want}");
                    }
                }
                ch.compared();
                ch.state(&text);
                ch.outcome(&table);
                Ok(())
            },
        )
        .budget(tier.pick(2, 3)),
    );
    v.push(Space::new(
        "characters",
        "each text field of each table holding each character up to U+02FF alone, doubled and between letters (thorough: up to U+FFFF), raw and escaped",
        move |ch| {
            let fields: Vec<(&str, Vec<(&'static str, F)>, usize)> = crate::ds::TABLES
                .iter()
                .flat_map(|t| {
                    let f = schema(t);
                    (0..f.len())
                        .filter(|i| matches!(f[*i].1, F::Str | F::OptStr))
                        .map(|i| (*t, schema(t), i))
                        .collect::<Vec<_>>()
                })
                .collect();
            let (table, fields, at) = &fields[ch.choose(fields.len())];
            let page = ch.choose(tier.pick(3, 256));
            for c in (page * 256..page * 256 + 256).filter_map(|c| char::from_u32(c as u32)) {
                for form in 0..3 {
                    let text = match form {
                        0 => format!("{c}"),
                        1 => format!("{c}{c}"),
                        _ => format!("a{c}b"),
                    };
                    let mut row = Map::new();
                    for (i, (f, ty)) in fields.iter().enumerate() {
                        let v = if i == *at { json!(text) } else { values(ty)[0].0.clone() };
                        row.insert(f.to_string(), v);
                    }
                    let mut json = Value::Object(row.clone()).to_string();
                    if form == 1 {
                        let raw = serde_json::to_string(&text).unwrap();
                        let esc: String = text.encode_utf16().map(|u| format!("\\u{u:04X}")).collect();
                        json = json.replace(&format!(":{raw}"), &format!(":\"{esc}\""));
                    }
                    ch.steps(6);
                    match record(table, &row, &json) {
                        Err(e) => return fail(format!("{table} {json}: {e}")),
                        Ok(out) => {
                            ensure!(same(&out, &Value::Object(row.clone())), "{table} {json} is written as {out}");
                        }
                    }
                    ch.compared();
                }
            }
            ch.state(&(*table, *at, page));
            ch.outcome(table);
            Ok(())
        },
    ));
    v.push(Space::new(
        "token-text",
        "texts one change away from a token (of 3): each character replaced by each ASCII character and 4 wide ones, 1 to 4 characters removed or inserted anywhere, every prefix, the token with every prefix of itself appended; as long and short token, in JSON, as a link of a record",
        tokens_space,
    ));
    v.push(Space::new(
        "token-bytes",
        "every value of every byte, against an equal token and 3 that differ in one bit",
        token_bytes,
    ));
    v.push(times_space(tier));
    v.push(floats_space(tier));
    v
}

/// The same JSON, numbers compared by value.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (
            x.as_i64().or(x.as_u64().map(|u| u as i64)),
            y.as_i64().or(y.as_u64().map(|u| u as i64)),
        ) {
            (Some(p), Some(q)) if x.is_u64() == y.is_u64() => p == q,
            _ => x.as_f64() == y.as_f64(),
        },
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| same(p, q)))
        }
        _ => a == b,
    }
}
