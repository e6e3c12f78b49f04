//! C34: one record of a loaded dataset, asked for by its token.
use super::frames::plain;
use crate::ds::*;
use crate::engine::*;
use crate::ensure;
use crate::scratch;
use perception_eval::dataset::nuscenes::schema::LongToken;
use perception_eval::dataset::nuscenes::NuScenes;
use serde_json::json;
use std::io::Read;
use std::path::{Path, PathBuf};

fn lt(s: &str) -> LongToken {
    LongToken::try_from(s).ok().expect("token")
}
fn load(d: &Ds, dir: &PathBuf) -> Result<NuScenes, Stop> {
    d.write(dir);
    NuScenes::load(VERSION, dir).map_err(|e| Stop::Fail {
        key: String::new(),
        msg: format!("the dataset does not load: {e}"),
    })
}
/// Equal but for the last digit, as the JSON reader leaves it.
fn near(x: &[f64], y: &[f64]) -> bool {
    x.iter()
        .zip(y)
        .all(|(p, q)| (p - q).abs() <= 4e-16 * p.abs())
}

/// Every annotation's box; every sensor record's path and boxes.
fn judge(ch: &mut Ch, d: &Ds, dir: &PathBuf) -> R {
    let n = load(d, dir)?;
    for a in d.rows("sample_annotation") {
        ch.step();
        let t = st(a, "token");
        match n.get_box(&lt(t)) {
            Ok(b) => ensure!(
                b.token.to_string() == t
                    && b.instance.to_string() == st(a, "instance_token")
                    && b.name
                        == st(d.get("category", &d.get("instance", &a["instance_token"])["category_token"]), "name")
                    && near(&b.position, &vec3(&a["translation"]))
                    && near(&b.orientation, &quat(&a["rotation"]))
                    && near(&b.size, &vec3(&a["size"]))
                    && b.num_lidar_pts as u64 == a["num_lidar_pts"].as_u64().unwrap(),
                "the box of annotation {a} (category {}) is {b:?}",
                d.get("category", &d.get("instance", &a["instance_token"])["category_token"])
            ),
            Err(e) => return fail(format!("no box of annotation {t}: {e}")),
        }
    }
    for r in d.rows("sample_data") {
        ch.steps(4);
        let t = lt(st(r, "token"));
        let want = dir.join(st(r, "filename"));
        let mut paths = vec![n.get_sample_data_path(&t).map_err(|e| e.to_string())];
        let mut counts = vec![n.get_boxes(&t).map(|b| b.len()).map_err(|e| e.to_string())];
        for flag in [false, true] {
            match n.get_sample_data(&t, &flag) {
                Ok((p, b)) => {
                    paths.push(Ok(p));
                    counts.push(Ok(b.len()));
                    // whose boxes they are
                    let mut got: Vec<String> = b.iter().map(|b| b.token.to_string()).collect();
                    let mut own: Vec<String> = d
                        .rows("sample_annotation")
                        .iter()
                        .filter(|a| a["sample_token"] == r["sample_token"])
                        .map(|a| st(a, "token").into())
                        .collect();
                    got.sort();
                    own.sort();
                    ensure!(
                        got == own,
                        "boxes with sensor record {t}: {got:?}, should be {own:?}"
                    );
                }
                Err(e) => return fail(format!("no boxes with sensor record {t}: {e}")),
            }
        }
        for p in paths {
            ensure!(
                p.as_ref().map(|p| p.as_path()) == Ok(want.as_path()),
                "the path of sensor record {t} is {p:?}, should be {want:?}"
            );
        }
        ensure!(
            counts.windows(2).all(|w| w[0] == w[1]),
            "sensor record {t}: numbers of boxes {counts:?}"
        );
    }
    ch.compared();
    ch.state(
        &d.tables
            .values()
            .map(|t| serde_json::to_string(t).unwrap())
            .collect::<Vec<_>>(),
    );
    ch.outcome(&d.tables.values().map(|t| t.len()).collect::<Vec<_>>());
    Ok(())
}

/// What the opened file holds: its bytes, or none where it cannot be opened.
fn content(f: std::io::Result<std::fs::File>) -> Option<Vec<u8>> {
    let mut v = vec![];
    f.ok()?.read_to_end(&mut v).ok()?;
    Some(v)
}

pub fn c34(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(
        Space::new(
            "records",
            "2 scenes of 2 samples with 4 instances and 7 annotations: places, headings, sizes, point counts, categories, instances and samples of annotations away from the default or equal to another annotation's, file names of sensor records, further records that are no key frames; at most 2 (thorough 3) deviations, 4 row orders, linked or not",
            move |ch| {
                let mut s = plain(2, 2);
                s.categories = vec!["car".into(), "human.pedestrian.adult".into(), "vehicle.bus".into(), "animal".into()];
                s.order = ch.choose(4);
                s.linked_data = ch.flag();
                s.salt = ch.pick(&[21u64, 22]);
                for sc in 0..2 {
                    for k in 0..2 {
                        let t = s.scenes[sc][k].t;
                        match ch.deviate(5) {
                            0 => {}
                            1 => s.scenes[sc][k].data.push(Data { key: false, file: format!("samples/CAM/{t}.jpg"), ..data(1, t - 30_000) }),
                            2 => s.scenes[sc][k].data.insert(0, Data { key: false, ..data(0, t - 50_000) }),
                            3 => s.scenes[sc][k].data[0].key = false,
                            _ => s.scenes[sc][k].data.push(Data { key: false, ..data(0, t + 50_000) }),
                        }
                        s.scenes[sc][k].data[0].file = ch.dev(&["a/b.pcd.bin", "plain", "./x//y.bin", "ein Bild.png", "a/../c.bin", "d/\u{e9}\u{4e2d}.pcd", "a/b/c/d/e/f/g.bin", "no.such/..bin", "samples/LIDAR_TOP/1.bin", "sweeps/LIDAR_TOP/1.bin", "SAMPLES/1.BIN", " x "]).into();
                    }
                }
                s.instances = vec![
                    Inst { scene: 0, category: 0, anns: vec![ann(0, 0), ann(1, 0)] },
                    Inst { scene: 0, category: 1, anns: vec![ann(1, 1)] },
                    Inst { scene: 1, category: 2, anns: vec![ann(0, 2), ann(1, 2)] },
                    Inst { scene: 1, category: 3, anns: vec![ann(0, 3), ann(1, 3)] },
                ];
                let twin = s.instances[0].anns[0].clone();
                for i in s.instances.iter_mut() {
                    let c = ch.deviate(4);
                    i.category = (i.category + c) % 4;
                    for a in i.anns.iter_mut() {
                        match ch.deviate(15) {
                            0 => {}
                            1 => a.pos = twin.pos,
                            2 => a.q = twin.q,
                            3 => a.size = twin.size,
                            4 => *a = Ann { sample: a.sample, ..twin.clone() },
                            5 => a.pts = 0,
                            6 => a.pts = u32::MAX as usize + 5,
                            7 => a.pos = [-1e6, 89571.25, 1e-7],
                            8 => a.q = [2.0, 0.0, 0.0, 1.0],
                            9 => a.q = [0.0; 4],
                            10 => a.size = [0.0; 3],
                            11 => a.size = [1e-4, 30.0, 0.0],
                            12 => a.sample = 1 - a.sample,
                            13 => a.pts = usize::MAX / 2,
                            _ => a.q = [-0.5, 0.5, -0.5, 0.5],
                        }
                    }
                }
                for i in 0..4 {
                    let c = ch.dev(&["", " car ", "CAR", "car", "V\u{e9}hicule. X", "vehicle.bus (bendy & rigid)", "no\nline", "\t"]);
                    if !c.is_empty() {
                        s.categories[i] = c.into();
                    }
                }
                let mut d = s.build();
                let radar = ch.dev(&[3u64, 0, 1, 5_000_000_000]);
                let vis = ch.deviate(3);
                for a in d.tables.get_mut("sample_annotation").unwrap() {
                    a["num_radar_pts"] = json!(radar);
                    match vis {
                        0 => {}
                        1 => a["visibility_token"] = json!(""),
                        _ => a["attribute_tokens"] = json!([]),
                    }
                }
                let dir = scratch::worker("c34", ch.worker);
                judge(ch, &d, &dir)
            },
        )
        .budget(tier.pick(2, 3)),
    );
    v.push(Space::new(
        "sweeps",
        "one scene of 3 samples with 2 objects: one sensor record at any sample, key frame or not, 60 ms before, at or after the sample's time or a microsecond before or after, linked to other records or not; an annotation of any of the 3 samples with 0, 1 or 7 LiDAR points and 0 or 3 radar points, with or without visibility, attributes and size: whose boxes come with the record",
        move |ch| {
            let mut s = plain(1, 3);
            s.salt = 41;
            s.linked_data = ch.flag();
            let at = ch.choose(3);
            let t = s.scenes[0][at].t + ch.pick(&[-60_000i64, -1, 0, 1, 60_000]);
            let (key, sensor) = (ch.flag(), ch.choose(2));
            s.scenes[0][at].data.push(Data { key, file: "sweeps/x.bin".into(), ..data(sensor, t) });
            let k = ch.choose(3);
            s.instances = vec![
                Inst { scene: 0, category: 0, anns: (0..3).map(|k| ann(k, 0)).collect() },
                Inst { scene: 0, category: 1, anns: (0..3).map(|k| ann(k, 1)).collect() },
            ];
            let a = &mut s.instances[0].anns[k];
            a.pts = ch.pick(&[0, 1, 7]);
            if ch.flag() {
                a.vis = None;
            }
            if ch.flag() {
                a.attrs = vec![];
            }
            if ch.flag() {
                a.size = [0.0; 3];
            }
            let pts = a.pts;
            let radar = ch.pick(&[0u64, 3]);
            let mut d = s.build();
            for a in d.tables.get_mut("sample_annotation").unwrap() {
                if a["num_lidar_pts"] == json!(pts) {
                    a["num_radar_pts"] = json!(radar);
                }
            }
            let dir = scratch::worker("c34", ch.worker);
            judge(ch, &d, &dir)
        },
    ));
    v.push(Space::new(
        "large",
        "1, 2, 17 or 40 samples x 1, 3 or 12 (thorough 40) instances in all or in every third sample, 3 salts of tokens, 4 row orders",
        move |ch| {
            let n = ch.pick(&[1usize, 2, 17, 40]);
            let m = ch.pick(&tier.pick(vec![1usize, 3, 12], vec![1, 3, 12, 40]));
            let mut s = plain(1, n);
            s.salt = ch.pick(&[5u64, 6, 7]);
            s.order = ch.choose(4);
            let third = ch.flag();
            for i in 0..m {
                let anns: Vec<Ann> = (0..n).filter(|k| !third || k % 3 == i % 3).map(|k| ann(k, i)).collect();
                if !anns.is_empty() {
                    s.instances.push(Inst { scene: 0, category: i % 2, anns });
                }
            }
            let dir = scratch::worker("c34", ch.worker);
            judge(ch, &s.build(), &dir)
        },
    ));
    v.push(Space::new("big", "every dataset of one large dimension (300 or 1030 samples of a scene, 270 scenes, 300 or 1030 objects in a sample, 80 samples with 20 objects each, 300 sensor records of a sample, 300 sensors, 300 categories, 300 further records of other tables), rows in 4 orders", |ch| {
        let (what, d) = big(ch.choose(BIG), ch.choose(4));
        ch.note(|| what.into());
        let dir = scratch::worker("c34", ch.worker);
        judge(ch, &d, &dir)
    }));
    v.push(Space::new(
        "tokens",
        "every token of every table, and every token one bit away from one of these, asked for as annotation and as sensor record: an answer for those the table holds, an error for all others",
        move |ch| {
            let mut s = base();
            s.salt = 31;
            s.scenes[0][1].data.push(Data { key: false, ..data(1, T0 + 400_000) });
            let d = s.build();
            let dir = scratch::worker("c34t", ch.worker);
            let t = ch.pick(&TABLES);
            if t == "visibility" || t == "map" {
                return Err(Stop::Skip); // no long tokens
            }
            let i = ch.choose(d.rows(t).len());
            let tk = st(&d.rows(t)[i], "token").to_string();
            let n = load(&d, &dir)?;
            for bit in 0..=128 {
                let mut x = tk.clone().into_bytes();
                if bit > 0 {
                    let p = (bit - 1) / 4;
                    let h = (x[p] as char).to_digit(16).unwrap() ^ (1 << ((bit - 1) % 4));
                    x[p] = char::from_digit(h, 16).unwrap() as u8;
                }
                let x = String::from_utf8(x).unwrap();
                let key = lt(&x);
                ch.steps(5);
                let got = guarded(|| {
                    [
                        n.get_box(&key).is_ok(),
                        n.get_boxes(&key).is_ok(),
                        n.get_sample_data_path(&key).is_ok(),
                        n.get_sample_data(&key, &false).is_ok(),
                        n.get_sample_data(&key, &true).is_ok(),
                    ]
                });
                let (a, r) = (d.find("sample_annotation", &x).is_some(), d.find("sample_data", &x).is_some());
                ensure!(
                    got == Ok([a, r, r, r, r]),
                    "token {x} ({t} {i}, bit {bit}; annotation {a}, sensor record {r}): box, boxes, path, data in the vehicle and the sensor frame answer {got:?}"
                );
            }
            ch.compared();
            ch.state(&tk);
            ch.outcome(&t);
            Ok(())
        },
    ));
    v.push(Space::new(
        "logs and files",
        "2 logs, each with one of 7 log file names or none, present, absent or a directory; a map naming any of 7 lists of the logs; a sensor record with one of 4 file names, present or absent: other files of like names or none: the logs of the map, what opens and what it holds",
        move |ch| {
            let mut s = plain(1, 1);
            s.order = ch.choose(2);
            let file = ch.pick(&["lidar/a.bin", "b", "deep/er/c d.jpg", "x/../e.bin"]);
            s.scenes[0][0].data[0].file = file.into();
            let mut d = s.build();
            let dir = scratch::fresh("c34l");
            let names = ["", "a.log", "logs/b.log", "logs/./c", "l\u{f6}g", "logs/deep/d.txt", "logs/../e", "x y.log"];
            let mut want: Vec<Option<Option<Vec<u8>>>> = vec![];
            let mut tokens = vec![];
            let put = |rel: &str, state: usize, body: &str| -> Option<Vec<u8>> {
                let p = dir.join(rel);
                match state {
                    0 => {
                        // parts like "logs/.." need the directory
                        let mut at = dir.clone();
                        for c in Path::new(rel).parent().unwrap().components() {
                            at.push(c);
                            std::fs::create_dir_all(&at).expect("scratch");
                        }
                        std::fs::write(p, body).expect("scratch");
                        Some(body.as_bytes().to_vec())
                    }
                    1 => None,
                    _ => {
                        std::fs::create_dir_all(p).expect("scratch");
                        None
                    }
                }
            };
            let mut shape = vec![];
            let mut used = vec![];
            for i in 0..2 {
                let k = ch.choose(names.len());
                let state = if k == 0 { 0 } else { ch.choose(3) };
                if k > 0 && used.contains(&k) {
                    scratch::remove(&dir);
                    return Err(Stop::Skip);
                }
                used.push(k);
                shape.push((k, state));
                let tk = s.tk("log", i);
                d.tables.get_mut("log").unwrap().iter_mut().find(|r| st(r, "token") == tk).unwrap()["logfile"] = json!(names[k]);
                tokens.push(tk);
                want.push(if k == 0 { None } else { Some(put(names[k], state, &format!("log {i} of {k}"))) });
            }
            // files that are none of those named
            let decoys = ch.flag();
            let mut decoy = |rel: &str| {
                let p = dir.join(rel);
                if decoys && !p.exists() {
                    std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
                    std::fs::write(p, format!("not it: {rel}")).expect("scratch");
                }
            };
            for (k, state) in &shape {
                let rel = names[*k];
                if *k > 0 && *state > 0 {
                    let name = Path::new(rel).file_name().unwrap().to_str().unwrap();
                    if *state == 2 {
                        decoy(&format!("{rel}/output.log"));
                        decoy(&format!("{rel}/{name}"));
                    }
                    let own = |p: &str| names.iter().any(|n| *n == p);
                    for p in [name.to_string(), format!("logs/{name}"), format!("{VERSION}/{name}"), format!("{rel}.gz"), format!("{rel}.log"), format!("log/{name}")] {
                        if !own(&p) && !["logs/c", "e"].contains(&p.as_str()) {
                            decoy(&p);
                        }
                    }
                }
            }
            for p in ["a.bin", "samples/a.bin", "samples/lidar/a.bin", "lidar/a", "lidar/a.pcd", "lidar/a.bin.gz", "b.bin", "c d.jpg", "deep/er/c d.png", "deep/er/c d", "c_d.jpg", "x/e.bin", "x/e"] {
                decoy(p);
            }
            let there = ch.flag();
            let raw = if there { put(file, 0, "sensor bytes") } else { None };
            let lists: [&[usize]; 7] = [&[0, 1], &[1, 0], &[0], &[1], &[], &[0, 0], &[1, 0, 1]];
            let l = ch.pick(&lists);
            d.tables.get_mut("map").unwrap()[0]["log_tokens"] = json!(l.iter().map(|i| tokens[*i].clone()).collect::<Vec<_>>());
            let n = load(&d, &dir);
            let r = (|| {
                let n = n?;
                ch.note(|| format!("logs {shape:?}, map {l:?}, {file} {there}"));
                let opened = |f: std::io::Result<Option<std::fs::File>>| match f {
                    Ok(None) => None,
                    Ok(Some(f)) => Some(content(Ok(f))),
                    Err(_) => Some(None),
                };
                ch.steps(4);
                let mut seen = 0;
                for g in n.log_iter() {
                    let i = tokens.iter().position(|t| *t == g.token.to_string()).expect("log");
                    let got = opened(g.open());
                    ensure!(got == want[i], "log {i} ({:?}) opens as {got:?}, should be {:?}", names[shape[i].0], want[i]);
                    seen += 1;
                }
                ensure!(seen == 2, "{seen} logs of 2");
                let maps: Vec<_> = n.map_iter().collect();
                ensure!(maps.len() == 1, "{} maps of 1", maps.len());
                let got: Vec<String> = maps[0].log_iter().map(|g| g.token.to_string()).collect();
                let should: Vec<String> = l.iter().map(|i| tokens[*i].clone()).collect();
                ensure!(got == should, "the logs of the map are {got:?}, should be {should:?}");
                for (g, i) in maps[0].log_iter().zip(l.iter()) {
                    let got = opened(g.open());
                    ensure!(got == want[*i], "log {i} of the map opens as {got:?}, should be {:?}", want[*i]);
                }
                let rec = n.sample_data_iter().next().expect("record");
                let got = content(rec.open());
                ensure!(got == raw, "{file} opens as {got:?}, should be {raw:?}");
                let got = rec.load_raw().ok();
                ensure!(got == raw, "{file} read as {got:?}, should be {raw:?}");
                Ok(())
            })();
            scratch::remove(&dir);
            r?;
            ch.compared();
            ch.state(&(&shape, there, file, l));
            ch.outcome(&(shape[0].1, shape[1].1, there, l.len()));
            Ok(())
        },
    ));
    v.push(Space::new(
        "contents",
        &format!(
            "a sensor record's file of {} lengths from 0 to {}, of one repeated byte (each of the 256) or of counting bytes, beginning with one of 6 marks or none, ending with one of 4 or none: opened and read raw it gives these bytes",
            SIZES.len(),
            tier.pick("over 16 MiB", "over 128 MiB")
        ),
        move |ch| {
            let mut size = ch.pick(&SIZES);
            if size > 1 << 24 {
                size = tier.pick(size, size * 8 + 1);
            }
            let small = size <= 4096;
            let fill = if small { ch.choose(257) } else { ch.pick(&[256, 0]) };
            let mark: &[u8] = if fill == 256 { ch.pick(&[&b""[..], b"\xef\xbb\xbf", b"\xff\xfe", b"\x1f\x8b", b"\n", b"#", b"\0\0"]) } else { b"" };
            let end: &[u8] = if fill == 256 { ch.pick(&[&b""[..], b"\n", b"\r\n", b"\0", b"\x1a"]) } else { b"" };
            let mut body: Vec<u8> = mark.to_vec();
            body.extend((0..size).map(|i| if fill == 256 { (i * 7 + i / 251) as u8 } else { fill as u8 }));
            body.extend(end);
            let mut s = plain(1, 1);
            s.scenes[0][0].data[0].file = "lidar/a.bin".into();
            let dir = scratch::worker("c34c", ch.worker);
            let n = load(&s.build(), &dir)?;
            std::fs::create_dir_all(dir.join("lidar")).expect("scratch");
            std::fs::write(dir.join("lidar/a.bin"), &body).expect("scratch");
            ch.steps(2);
            let rec = n.sample_data_iter().next().expect("record");
            for (how, got) in [("opened", content(rec.open())), ("read raw", rec.load_raw().ok())] {
                let Some(got) = got else {
                    return fail(format!("a file of {} bytes cannot be {how}", body.len()));
                };
                if got != body {
                    let at = got.iter().zip(&body).position(|(a, b)| a != b).unwrap_or(got.len().min(body.len()));
                    return fail(format!("{how}, a file of {} bytes gives {} bytes, different from place {at}", body.len(), got.len()));
                }
            }
            ch.compared();
            ch.state(&(size, fill, mark, end));
            ch.outcome(&body.len());
            Ok(())
        },
    ));
    v
}

const SIZES: [usize; 23] = [
    0, 1, 2, 3, 4, 5, 19, 20, 21, 511, 512, 1024, 4095, 4096, 8191, 8192, 8193, 65_535, 65_536, 65_537, 1 << 20,
    (1 << 20) + 3, (1 << 24) + 5,
];
