//! C18, C19: the frames and boxes loaded from a dataset.
use super::names::reference_label;
use crate::ds::*;
use crate::engine::*;
use crate::ensure;
use crate::geom::{self, Q, V3};
use crate::obj::*;
use crate::scratch;
use perception_eval::dataset::nuscenes::schema::LongToken;
use perception_eval::dataset::nuscenes::NuScenes;
use perception_eval::dataset::{load_dataset, FrameGroundTruth};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use serde_json::{json, Value};

pub const TASKS: [EvaluationTask; 3] = [
    EvaluationTask::Detection,
    EvaluationTask::Tracking,
    EvaluationTask::Prediction,
];

/// What a frame should hold for an annotation; the poses it may have (one per LiDAR record at the sample's time).
struct Want<'a> {
    ann: &'a Value,
    label: perception_eval::label::Label,
    poses: Vec<(V3, Q)>,
}

pub fn to_frame(p: &V3, r: &Q, t: &V3, q: &Q) -> (V3, Q) {
    (
        geom::rot(&geom::conj(q), &geom::sub(p, t)),
        geom::mul(&geom::conj(q), r),
    )
}

fn lidar_records<'a>(d: &'a Ds, sample: &Value) -> Vec<&'a Value> {
    d.rows("sample_data")
        .iter()
        .filter(|r| {
            r["sample_token"] == sample["token"]
                && r["timestamp"] == sample["timestamp"]
                && d.get(
                    "sensor",
                    &d.get("calibrated_sensor", &r["calibrated_sensor_token"])["sensor_token"],
                )["modality"]
                    == "lidar"
        })
        .collect()
}

fn wants<'a>(d: &'a Ds, sample: &Value) -> Vec<Want<'a>> {
    let recs = lidar_records(d, sample);
    d.rows("sample_annotation")
        .iter()
        .filter(|a| a["sample_token"] == sample["token"])
        .map(|a| {
            let cat = d.get(
                "category",
                &d.get("instance", &a["instance_token"])["category_token"],
            );
            let (p, r) = (vec3(&a["translation"]), quat(&a["rotation"]));
            let poses = recs
                .iter()
                .map(|s| {
                    let e = d.get("ego_pose", &s["ego_pose_token"]);
                    to_frame(&p, &r, &vec3(&e["translation"]), &quat(&e["rotation"]))
                })
                .collect();
            Want {
                ann: a,
                label: reference_label(st(cat, "name")),
                poses,
            }
        })
        .collect()
}

fn scale(p: &V3) -> f64 {
    1.0 + p.iter().map(|x| x.abs()).fold(0.0, f64::max)
}

fn pose_ok(pos: &V3, q: &Q, w: &Want, span: f64) -> bool {
    w.poses
        .iter()
        .any(|(p, r)| geom::close3(pos, p, 1e-12 * span) && geom::same_rotation(q, r, 1e-12))
}

/// Judges one frame against one sample. `pose`: whether the poses are judged too.
fn frame_ok(
    d: &Ds,
    f: &FrameGroundTruth,
    s: &Value,
    fid: &FrameID,
    pose: bool,
) -> Result<(), String> {
    let t = us(s["timestamp"].as_i64().unwrap());
    if f.timestamp != t {
        return Err(format!(
            "the frame's timestamp is {}, should be {t}",
            f.timestamp
        ));
    }
    if lidar_records(d, s).is_empty() {
        return Ok(());
    }
    let mut ws = wants(d, s);
    if ws.len() != f.objects.len() {
        return Err(format!(
            "the frame at {t} has {} objects, should have {}: {}",
            f.objects.len(),
            ws.len(),
            shorts(&f.objects)
        ));
    }
    let span = d
        .rows("ego_pose")
        .iter()
        .map(|e| scale(&vec3(&e["translation"])))
        .fold(1.0, f64::max);
    for o in &f.objects {
        let fits = |w: &Want| -> Result<(), String> {
            let a = w.ann;
            let size = vec3(&a["size"]);
            let bad = |what: &str, got: String, want: String| {
                Err(format!("{what} is {got}, should be {want}"))
            };
            if o.uuid.as_deref() != a["instance_token"].as_str() {
                return bad(
                    "instance ID",
                    format!("{:?}", o.uuid),
                    a["instance_token"].to_string(),
                );
            }
            if o.size != size {
                return bad("size", format!("{:?}", o.size), format!("{size:?}"));
            }
            if o.pointcloud_num != a["num_lidar_pts"].as_u64().map(|n| n as usize) {
                return bad(
                    "point count",
                    format!("{:?}", o.pointcloud_num),
                    a["num_lidar_pts"].to_string(),
                );
            }
            if o.label != w.label {
                return bad("label", format!("{:?}", o.label), format!("{:?}", w.label));
            }
            if o.confidence != 1.0 {
                return bad("confidence", o.confidence.to_string(), "1".into());
            }
            if o.frame_id != *fid {
                return bad("frame", o.frame_id.to_string(), fid.to_string());
            }
            if o.timestamp != t {
                return bad("timestamp", o.timestamp.to_string(), t.to_string());
            }
            if pose && !pose_ok(&o.position, &o.orientation, w, span) {
                return bad(
                    "pose",
                    format!("{:?} {:?}", o.position, o.orientation),
                    format!("{:?}", w.poses),
                );
            }
            Ok(())
        };
        match ws.iter().position(|w| fits(w).is_ok()) {
            Some(i) => {
                ws.remove(i);
            }
            None => {
                let same = ws
                    .iter()
                    .find(|w| o.uuid.as_deref() == w.ann["instance_token"].as_str());
                return Err(match same {
                    Some(w) => format!(
                        "frame at {t}, object {}: {}",
                        short(o),
                        fits(w).unwrap_err()
                    ),
                    None => format!(
                        "frame at {t}: {} is no (further) annotation of it",
                        short(o)
                    ),
                });
            }
        }
    }
    Ok(())
}

/// Judges all frames of a dataset.
pub fn frames_ok(
    d: &Ds,
    frames: &[FrameGroundTruth],
    fid: &FrameID,
    pose: bool,
) -> Result<(), String> {
    let mut samples: Vec<&Value> = d.rows("sample").iter().collect();
    samples.sort_by_key(|s| s["timestamp"].as_i64());
    if frames.len() != samples.len() {
        return Err(format!(
            "{} frames for {} samples",
            frames.len(),
            samples.len()
        ));
    }
    for w in frames.windows(2) {
        if w[0].timestamp > w[1].timestamp {
            return Err(format!(
                "frame {} comes before {}",
                w[0].timestamp, w[1].timestamp
            ));
        }
    }
    // samples of the same time may come in any order
    for f in frames {
        let t = f.timestamp;
        let mut last = format!("no sample has the time {t} of the frame");
        let mut hit = None;
        for (i, s) in samples.iter().enumerate() {
            if us(s["timestamp"].as_i64().unwrap()) == t {
                match frame_ok(d, f, s, fid, pose) {
                    Ok(()) => {
                        hit = Some(i);
                        break;
                    }
                    Err(e) => last = e,
                }
            }
        }
        match hit {
            Some(i) => {
                samples.remove(i);
            }
            None => return Err(last),
        }
    }
    Ok(())
}

fn judge(ch: &mut Ch, d: &Ds, fid: FrameID, task: EvaluationTask, pose: bool) -> R {
    let dir = scratch::worker("frames", ch.worker);
    d.write(&dir);
    ch.step();
    let got = load_dataset(VERSION, &dir, &task, &fid).map_err(|e| e.to_string());
    ch.note(|| {
        format!(
            "{}; times of samples {:?}",
            d.shape(),
            d.rows("sample")
                .iter()
                .map(|s| s["timestamp"].as_i64().unwrap())
                .collect::<Vec<_>>()
        )
    });
    let frames = match got {
        Ok(f) => f,
        Err(e) => return fail(format!("the dataset does not load: {e}")),
    };
    for f in &frames {
        ch.note(|| format!("frame {}: {}", f.timestamp, shorts(&f.objects)));
    }
    if let Err(e) = frames_ok(d, &frames, &fid, pose) {
        return fail(e);
    }
    ch.compared();
    ch.state(&(
        d.tables.values().map(|t| t.len()).collect::<Vec<_>>(),
        frames
            .iter()
            .map(|f| (f.timestamp, hl(&f.objects)))
            .collect::<Vec<_>>(),
    ));
    ch.outcome(&frames.iter().map(|f| f.objects.len()).collect::<Vec<_>>());
    Ok(())
}

pub fn plain(n_scenes: usize, n: usize) -> Spec {
    let mut s = base();
    s.scenes = (0..n_scenes)
        .map(|sc| {
            (0..n)
                .map(|k| {
                    let t = T0 + 1_000_000 * sc as i64 + 100_000 * k as i64;
                    SampleSpec {
                        t,
                        data: vec![data(0, t)],
                    }
                })
                .collect()
        })
        .collect();
    s.instances.clear();
    s
}

pub fn c18(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(Space::new(
        "timeline",
        "1 to 3 scenes of 1 to 3 samples (thorough: 4 in all, quick: 3), their times in every order (also against the order of the chains), 0, 1 us, 50 ms or 1 s apart, each sample with every subset of 2 instances of its scene annotated, rows in 2 orders",
        move |ch| {
            let total = 1 + ch.choose(tier.pick(3, 4));
            // composition of the samples into scenes
            let mut scenes: Vec<usize> = vec![1];
            for _ in 1..total {
                if ch.flag() {
                    scenes.push(1);
                } else {
                    *scenes.last_mut().unwrap() += 1;
                }
            }
            let perm = ch.permutation(total);
            let gap = ch.pick(&[0i64, 1, 50_000, 1_000_000]);
            let mut s = plain(1, 1);
            s.order = 3 * ch.choose(2);
            s.scenes.clear();
            let mut k = 0;
            for (sc, n) in scenes.iter().enumerate() {
                let mut smp = vec![];
                let mut anns = [vec![], vec![]];
                for j in 0..*n {
                    let t = T0 + gap * perm[k] as i64;
                    smp.push(SampleSpec { t, data: vec![data(0, t)] });
                    let m = ch.choose(4);
                    for (i, a) in anns.iter_mut().enumerate() {
                        if m >> i & 1 == 1 {
                            a.push(ann(j, 2 * sc + i));
                        }
                    }
                    k += 1;
                }
                s.scenes.push(smp);
                for (i, a) in anns.into_iter().enumerate() {
                    if !a.is_empty() {
                        s.instances.push(Inst { scene: sc, category: i, anns: a });
                    }
                }
            }
            judge(ch, &s.build(), FrameID::BaseLink, EvaluationTask::Detection, false)
        },
    ));
    v.push(Space::new(
        "sensor-records",
        "2 samples with LiDAR data at their own time and every subset of 7 further records (camera, radar or a second LiDAR at that time, LiDAR 1 us and 50 ms away, camera 30 ms before, an unrelated LiDAR sweep), at 3 places among them, key frames or not, linked or not, rows in 4 orders, two salts of tokens",
        move |ch| {
            let mut s = plain(1, 2);
            s.sensors = vec![
                lidar(),
                camera(),
                radar(),
                Sensor { channel: "LIDAR_CONCAT", modality: "lidar", t: [0.0; 3], q: [1.0, 0.0, 0.0, 0.0] },
            ];
            s.salt = ch.pick(&[1u64, 2]);
            s.order = ch.choose(4);
            s.linked_data = ch.flag();
            let subset = ch.choose(1 << 7);
            let place = ch.choose(3);
            let key = ch.flag();
            for k in 0..2 {
                let t = s.scenes[0][k].t;
                let extra: [Data; 7] = [
                    data(1, t),
                    data(2, t),
                    Data { ego_t: [1.0, 2.0, 0.0], ..data(3, t) },
                    data(0, t + 1),
                    data(0, t - 50_000),
                    data(1, t - 30_000),
                    Data { key: false, ..data(3, t + 51_000) },
                ];
                let mut list: Vec<Data> = (0..7).filter(|i| subset >> i & 1 == 1).map(|i| extra[i].clone()).collect();
                let at = [0, list.len() / 2, list.len()][place];
                list.insert(at, Data { key, ..data(0, t) });
                s.scenes[0][k].data = list;
            }
            s.instances = vec![
                Inst { scene: 0, category: 0, anns: vec![ann(0, 0), ann(1, 0)] },
                Inst { scene: 0, category: 1, anns: vec![ann(0, 1)] },
            ];
            judge(ch, &s.build(), FrameID::BaseLink, EvaluationTask::Detection, false)
        },
    ));
    v.push(Space::new(
        "record fields",
        "3 samples whose LiDAR record has one of 5 channels, 9 file names (of other sensors, without extension, in no or other folders), 4 formats, 3 widths and heights, ego-pose times of 3 kinds, key frame or not, linked or not; a camera with a LiDAR-like channel and file at that time, or at the second sample instead of a LiDAR",
        |ch| {
            let mut s = plain(1, 3);
            let channel = ch.pick(&["LIDAR_TOP", "LIDAR_CONCAT", "RADAR_FRONT", "CAM_FRONT", "CAM_TRAFFIC_LIGHT_FAR"]);
            s.sensors = vec![
                Sensor { channel, ..lidar() },
                Sensor { channel: if channel == "LIDAR_TOP" { "LIDAR_CONCAT" } else { "LIDAR_TOP" }, ..camera() },
            ];
            let file = ch.pick(&[
                "data/LIDAR_TOP/a.pcd.bin",
                "samples/RADAR_FRONT/a.pcd",
                "samples/CAM_FRONT/a.jpg",
                "sweeps/LIDAR_TOP/a.pcd.bin",
                "camera/lidar",
                "a",
                "/abs/a.bin",
                "../LIDAR/a b.PCD",
                "",
            ]);
            let format = ch.pick(&["pcd", "bin", "png", "jpg"]);
            let size = ch.pick(&[(0u64, 0u64), (900, 1600), (1, 0)]);
            let ego = ch.choose(3);
            let key = ch.flag();
            s.linked_data = ch.flag();
            let cam = ch.choose(3);
            for k in 0..3 {
                let t = s.scenes[0][k].t;
                let lid = Data { key, file: file.into(), format, ..data(0, t) };
                let c = Data { file: format!("data/LIDAR_TOP/{k}.pcd.bin"), ..data(1, t) };
                s.scenes[0][k].data = match cam {
                    0 => vec![lid],
                    1 => vec![c, lid],
                    _ => {
                        if k == 1 {
                            vec![c]
                        } else {
                            vec![lid]
                        }
                    }
                };
            }
            s.instances = vec![
                Inst { scene: 0, category: 0, anns: vec![ann(0, 0), ann(1, 0), ann(2, 0)] },
                Inst { scene: 0, category: 1, anns: vec![ann(1, 1)] },
            ];
            let mut ds = s.build();
            for r in ds.tables.get_mut("sample_data").unwrap() {
                r["height"] = json!(size.0);
                r["width"] = json!(size.1);
            }
            if ego > 0 {
                for r in ds.tables.get_mut("ego_pose").unwrap() {
                    r["timestamp"] = if ego == 1 { json!(0) } else { json!(r["timestamp"].as_i64().unwrap() + 20_000) };
                }
            }
            judge(ch, &ds, FrameID::BaseLink, EvaluationTask::Detection, false)
        },
    ));
    v.push(
        Space::new(
            "attributes",
            "1 or 2 samples, 2 instances: categories (12 names), sizes, point counts (0, 1, 5, 10^6, u32 and u64 limits), attributes, visibility, frame (all 10), task, two annotations of one instance in one sample, a sample without LiDAR at its time; at most 2 (thorough 3) away from the default",
            move |ch| {
                let mut s = plain(1, 2);
                let names = [
                    "car",
                    "pedestrian.adult",
                    "vehicle.bus.rigid",
                    "TRUCK",
                    "vehicle.bicycle",
                    "vehicle.motorcycle",
                    "animal",
                    "movable_object.barrier",
                    "a thing never heard of",
                    "",
                    "vehicle.emergency (ambulance & police)",
                    "Human.Pedestrian.Wheelchair",
                ];
                s.categories = vec![names[0].into(), names[1].into()];
                s.instances = vec![
                    Inst { scene: 0, category: 0, anns: vec![ann(0, 0), ann(1, 0)] },
                    Inst { scene: 0, category: 1, anns: vec![ann(0, 1)] },
                ];
                for c in s.categories.iter_mut() {
                    let k = ch.deviate(names.len());
                    if k > 0 {
                        *c = names[k].into();
                    }
                }
                for i in 0..2 {
                    for a in s.instances[i].anns.iter_mut() {
                        a.size = ch.dev(&[a.size, [4.5, 1.75, 1.5], [1.75, 4.5, 1.5], [0.5, 0.5, 0.5], [0.0, 1.0, 2.0], [1.0, 2.0, 4.0]]);
                        a.pts = ch.dev(&[a.pts, 0, 1, 5, 1_000_000, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX]);
                        a.attrs = ch.dev(&[a.attrs.clone(), vec![], vec![0, 1, 2], vec![1, 1]]);
                        a.vis = ch.dev(&[a.vis, None, Some(0), Some(3)]);
                    }
                }
                let fid = frame(ch.deviate(NF));
                let task = TASKS[ch.deviate(3)].clone();
                if ch.deviate(2) == 1 {
                    s.instances[1].category = 0;
                }
                match ch.deviate(4) {
                    0 => {}
                    1 => s.instances[0].anns[1] = Ann { sample: 0, ..ann(0, 9) },
                    2 => s.scenes[0][1].data = vec![data(0, T0 + 100_001)],
                    _ => s.scenes[0][0].data = vec![data(1, T0)],
                }
                judge(ch, &s.build(), fid, task, false)
            },
        )
        .budget(tier.pick(3, 4)),
    );
    v.push(Space::new(
        "twins",
        "one sample with 3 annotations, the second and third each differing from the first in any subset of place, heading, size, point count, category and instance (equal otherwise), rows in 2 orders",
        move |ch| {
            let mut s = plain(1, 2);
            s.order = 3 * ch.choose(2);
            let first = ann(0, 0);
            let mut insts = vec![Inst { scene: 0, category: 0, anns: vec![first.clone()] }];
            for k in 1..3 {
                let m = ch.choose(64);
                let mut a = first.clone();
                let o = ann(0, k);
                if m & 1 != 0 {
                    a.pos = o.pos;
                }
                if m & 2 != 0 {
                    a.q = o.q;
                }
                if m & 4 != 0 {
                    a.size = o.size;
                }
                if m & 8 != 0 {
                    a.pts = o.pts;
                }
                // bit 4: another category (then another instance, too); bit 5: another instance
                match (m & 16 != 0, m & 32 != 0) {
                    (false, false) => insts[0].anns.push(a),
                    (false, true) => insts.push(Inst { scene: 0, category: 0, anns: vec![a] }),
                    (true, false) => insts.push(Inst { scene: 0, category: 1, anns: vec![a] }),
                    (true, true) => return Err(Stop::Skip),
                }
            }
            s.instances = insts;
            judge(ch, &s.build(), FrameID::BaseLink, EvaluationTask::Detection, false)
        },
    ));
    let names = super::names::derived_names();
    let chunk = 24;
    v.push(Space::new(
        "category names",
        &format!("one sample with one annotation of each of {chunk} categories, over {} names: every documented one, with 9 prefixes, 8 suffixes, 3 letter cases, its parts alone, and cut by a character; rows in 2 orders", names.len()),
        move |ch| {
            let n = names.len().div_ceil(chunk);
            let at = ch.choose(n) * chunk;
            let mut s = plain(1, 1);
            s.order = [0, 2][ch.choose(2)];
            s.categories = names[at..(at + chunk).min(names.len())].to_vec();
            for i in 0..s.categories.len() {
                s.instances.push(Inst { scene: 0, category: i, anns: vec![ann(0, i)] });
            }
            judge(ch, &s.build(), FrameID::BaseLink, EvaluationTask::Detection, false)
        },
    ));
    v.push(Space::new(
        "large",
        "every number of annotations per sample and of samples out of 0/1, 2, 7, 16, 17, 33, 64, 65 (thorough: 257), 3 salts of tokens, 4 row orders",
        move |ch| {
            let mut counts = vec![1usize, 2, 7, 16, 17, 33, 64, 65];
            if tier == Tier::Thorough {
                counts.push(257);
            }
            let n = ch.pick(&counts);
            counts[0] = 0;
            let m = ch.pick(&counts);
            if n * m > tier.pick(600, 5000) {
                return Err(Stop::Skip);
            }
            let mut s = plain(1, n);
            s.salt = ch.pick(&[3u64, 4, 5]);
            s.order = ch.choose(4);
            for i in 0..m {
                s.instances.push(Inst { scene: 0, category: i % 2, anns: (0..n).map(|k| Ann { pts: i * 1000 + k, ..ann(k, i) }).collect() });
            }
            judge(ch, &s.build(), FrameID::BaseLink, EvaluationTask::Detection, false)
        },
    ));
    v.push(Space::new(
        "times",
        "2 samples at every pair of 13 times (0, 1 us, around whole ms and s, around 2^31 and 2^32 s, today to the us, 2^53 us), LiDAR at exactly those times and 1 us beside",
        move |ch| {
            let ts = [
                0i64,
                1,
                999,
                1000,
                999_999,
                1_000_000,
                1_000_001,
                2_147_483_647_999_999,
                2_147_483_648_000_000,
                4_294_967_296_000_001,
                T0,
                T0 + 1,
                9_007_199_254_740_991 - 1_000_000_000_000_000,
            ];
            let (a, b) = (ch.pick(&ts), ch.pick(&ts));
            let beside = ch.flag();
            let mut s = plain(1, 2);
            for (k, t) in [a, b].into_iter().enumerate() {
                let mut dd = vec![data(0, t)];
                if beside {
                    dd.insert(0, data(0, t + 1));
                }
                s.scenes[0][k] = SampleSpec { t, data: dd };
            }
            s.instances = vec![Inst { scene: 0, category: 0, anns: vec![ann(0, 0), ann(1, 0)] }, Inst { scene: 0, category: 1, anns: vec![ann(1, 1)] }];
            judge(ch, &s.build(), FrameID::BaseLink, EvaluationTask::Detection, false)
        },
    ));
    v.push(Space::new("big", "every dataset of one large dimension (300 or 1030 samples of a scene, 270 scenes, 300 or 1030 objects in a sample, 80 samples with 20 objects each, 300 sensor records of a sample, 300 sensors, 300 categories, 300 further records of other tables), rows in 4 orders", |ch| {
        let (what, d) = big(ch.choose(BIG), ch.choose(4));
        ch.note(|| what.into());
        judge(ch, &d, FrameID::BaseLink, EvaluationTask::Detection, false)
    }));
    v.push(Space::new(
        "reloads",
        "histories of 3 loads from a directory whose tables are rewritten in between, only those that changed: every sequence of three of the 32 datasets made of two versions each of the annotations, the categories, the samples' times, the sensor records and the ego poses (the texts of both versions equally long); the second load from this directory or another one",
        move |ch| {
            let other = ch.flag();
            let home = scratch::fresh("reload");
            let away = scratch::fresh("reload");
            for k in [&home, &away] {
                std::fs::create_dir_all(k.join(VERSION)).expect("scratch");
            }
            let mut done = [None, None];
            let r = (0..3).try_for_each(|k| {
                let m = ch.choose(32);
                let d = versions(m);
                let at = (other && k == 1) as usize;
                let dir = [&home, &away][at];
                let before: Option<Ds> = done[at].replace(d.clone());
                for t in TABLES {
                    if before.as_ref().map(|b| b.rows(t)) != Some(d.rows(t)) {
                        std::fs::write(table_path(dir, t), d.text(t)).expect("scratch");
                    }
                }
                ch.step();
                ch.note(|| format!("load {k}: versions {m:05b} from {}", if at == 1 { "another directory" } else { "the directory" }));
                match load_dataset(VERSION, dir, &EvaluationTask::Detection, &FrameID::BaseLink) {
                    Err(e) => fail(format!("load {k} (versions {m:05b}): the dataset does not load: {e}")),
                    Ok(f) => {
                        ch.state(&(m, f.iter().map(|f| (f.timestamp, hl(&f.objects))).collect::<Vec<_>>()));
                        ch.outcome(&f.iter().map(|f| f.objects.len()).collect::<Vec<_>>());
                        frames_ok(&d, &f, &FrameID::BaseLink, true).or_else(|e| fail(format!("load {k} (versions {m:05b}): {e}")))
                    }
                }
            });
            scratch::remove(&home);
            scratch::remove(&away);
            r?;
            ch.compared();
            Ok(())
        },
    ));
    v
}

/// One of 32 datasets: bit k of `m` gives the version of the annotations, the categories, the samples' times, the
/// sensor records and the ego poses.
fn versions(m: usize) -> Ds {
    let on = |k: usize| m >> k & 1 == 1;
    let mut s = plain(1, 2);
    s.sensors = vec![lidar(), camera()];
    s.categories = vec![["bus", "car"][on(1) as usize].into(), "pedestrian".into()];
    let mut a = ann(0, 0);
    a.pts = 7;
    if on(0) {
        a.pts = 8;
        a.pos[0] += 1.0;
    }
    s.instances = vec![
        Inst { scene: 0, category: 0, anns: vec![a, ann(1, 0)] },
        Inst { scene: 0, category: 1, anns: vec![ann(1, 1)] },
    ];
    for k in 0..2 {
        let t = s.scenes[0][k].t + if on(2) && k == 1 { 10_000 } else { 0 };
        let sensor = (on(3) && k == 0) as usize;
        let mut r = data(sensor, t);
        if on(4) {
            r.ego_t[1] += 2.0;
        }
        s.scenes[0][k] = SampleSpec { t, data: vec![r] };
    }
    s.build()
}

// ------------------------------------------------------------------------------------------------ C19

fn orientations(tier: Tier) -> Vec<Q> {
    let s = std::f64::consts::FRAC_1_SQRT_2;
    let mut v: Vec<Q> = vec![
        [1.0, 0.0, 0.0, 0.0],
        yaw(30.0),
        yaw(-145.0),
        [0.0, 0.0, 0.0, 1.0],
        [s, 0.0, 0.0, s],
        [0.5, -0.5, 0.5, -0.5],
        geom::from_euler(0.1, -0.2, 2.5),
        [-0.8, 0.0, 0.0, 0.6],
        geom::from_euler(3.0, 1.2, -1.0),
        geom::from_euler(3e-4, -7e-4, 0.8),
        yaw(0.006),
        geom::from_euler(-2e-6, 5e-7, -2.0),
        geom::from_euler(5e-5, -8e-5, 0.0),
    ];
    if tier == Tier::Thorough {
        v.extend([
            [0.0, 1.0, 0.0, 0.0],
            [s, s, 0.0, 0.0],
            [s, 0.0, -s, 0.0],
            [0.5, 0.5, 0.5, 0.5],
            geom::from_euler(-0.02, 0.01, -3.1),
            yaw(179.999),
            yaw(1e-6),
            geom::from_euler(0.0, std::f64::consts::FRAC_PI_2 - 1e-5, 0.4),
            [-1.0, 0.0, 0.0, 0.0],
        ]);
    }
    v
}
fn places() -> Vec<V3> {
    vec![
        [0.0; 3],
        [411.3, 1180.9, 0.5],
        [-3.0, 20.0, -1.0],
        [1.0e5, -2.0e5, 30.0],
        [0.0, 0.0, 7.0],
    ]
}

fn boxes_judge(ch: &mut Ch, d: &Ds) -> R {
    let dir = scratch::worker("boxes", ch.worker);
    d.write(&dir);
    let nusc = match NuScenes::load(VERSION, &dir) {
        Ok(n) => n,
        Err(e) => return fail(format!("the dataset does not load: {e}")),
    };
    let mut seen = vec![];
    for r in d.rows("sample_data") {
        let tk = LongToken::try_from(st(r, "token")).ok().unwrap();
        let sample = d.get("sample", &r["sample_token"]);
        let e = d.get("ego_pose", &r["ego_pose_token"]);
        let c = d.get("calibrated_sensor", &r["calibrated_sensor_token"]);
        let (et, eq) = (vec3(&e["translation"]), quat(&e["rotation"]));
        let (ct, cq) = (vec3(&c["translation"]), quat(&c["rotation"]));
        let span = scale(&et) + scale(&ct);
        // mode 0: global boxes; 1: vehicle frame; 2: sensor frame
        for mode in 0..3 {
            ch.step();
            let got = match mode {
                0 => nusc.get_boxes(&tk),
                1 => nusc.get_sample_data(&tk, &false).map(|x| x.1),
                _ => nusc.get_sample_data(&tk, &true).map(|x| x.1),
            };
            let got = match got {
                Ok(g) => g,
                Err(e) => return fail(format!("boxes of {}: {e}", st(r, "token"))),
            };
            let mut anns: Vec<&Value> = d
                .rows("sample_annotation")
                .iter()
                .filter(|a| a["sample_token"] == sample["token"])
                .collect();
            ensure!(
                got.len() == anns.len(),
                "mode {mode}: {} boxes for {} annotations",
                got.len(),
                anns.len()
            );
            for b in &got {
                let Some(i) = anns
                    .iter()
                    .position(|a| st(a, "token") == b.token.to_string())
                else {
                    return fail(format!(
                        "mode {mode}: box of {} is no (further) annotation of the sample",
                        b.token
                    ));
                };
                let a = anns.remove(i);
                let inst = d.get("instance", &a["instance_token"]);
                ensure!(
                    b.instance.to_string() == st(a, "instance_token")
                        && b.size == vec3(&a["size"])
                        && b.num_lidar_pts as u64 == a["num_lidar_pts"].as_u64().unwrap()
                        && b.name == st(d.get("category", &inst["category_token"]), "name"),
                    "box {b:?} does not show annotation {a}"
                );
                let (p, q) = (vec3(&a["translation"]), quat(&a["rotation"]));
                let mut want = (p, q);
                if mode >= 1 {
                    want = to_frame(&want.0, &want.1, &et, &eq);
                }
                if mode == 2 {
                    want = to_frame(&want.0, &want.1, &ct, &cq);
                }
                ensure!(
                    geom::close3(&b.position, &want.0, 1e-12 * (span + scale(&p))) && geom::same_rotation(&b.orientation, &want.1, 1e-12),
                    "{} frame of {}: the box of annotation {} is at {:?} {:?}, should be at {:?} {:?} (ego {et:?} {eq:?}, sensor {ct:?} {cq:?})",
                    ["global", "vehicle", "sensor"][mode],
                    r["filename"],
                    a["token"],
                    b.position,
                    b.orientation,
                    want.0,
                    want.1
                );
                seen.push((
                    b.position.map(|x| x.to_bits()),
                    b.orientation.map(|x| x.to_bits()),
                ));
            }
        }
    }
    ch.compared();
    ch.state(&seen);
    ch.outcome(&seen.len());
    Ok(())
}

pub fn c19(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let qs = orientations(tier);
    let q1 = qs.clone();
    v.push(Space::new(
        "frames",
        "loaded frames: ego orientation x ego place x annotation orientation x annotation place, each from a set of orientations (13, thorough 22: level, turned by 0.006 degrees, tilted by 5e-7 to 3 rad, half turns, negated) and 5 places up to 2*10^5 m; each of the 10 frames requested (base_link and map for every task); a second sample and a second object with other poses beside",
        move |ch| {
            let (eq, et) = (ch.pick(&q1), ch.pick(&places()));
            let (aq, ap) = (ch.pick(&q1), ch.pick(&places()));
            let mut s = plain(1, 2);
            s.scenes[0][0].data[0].ego_q = eq;
            s.scenes[0][0].data[0].ego_t = et;
            let mut a = ann(0, 0);
            a.q = aq;
            a.pos = ap;
            s.instances = vec![
                Inst { scene: 0, category: 0, anns: vec![a, ann(1, 0)] },
                Inst { scene: 0, category: 1, anns: vec![ann(0, 1), ann(1, 1)] },
            ];
            let (f, task) = (ch.choose(NF), TASKS[ch.choose(3)].clone());
            if f > 1 && task != EvaluationTask::Detection {
                return Err(Stop::Skip);
            }
            ch.note(|| format!("ego {et:?} {eq:?}, annotation {ap:?} {aq:?}, frame {}, {task}", frame(f)));
            judge(ch, &s.build(), frame(f), task, true)
        },
    ));
    let q2 = qs.clone();
    v.push(Space::new(
        "boxes",
        "boxes requested from every sensor record in the global, vehicle and sensor frame: ego orientation x calibration orientation x ego place x calibration place (same sets), 2 samples, LiDAR and camera records each with their own ego pose, 3 annotations",
        move |ch| {
            let (eq, et) = (ch.pick(&q2), ch.pick(&places()));
            let (cq, ct) = (ch.pick(&q2), ch.pick(&places()));
            let mut s = plain(1, 2);
            s.sensors[0].q = cq;
            s.sensors[0].t = ct;
            s.scenes[0][0].data[0].ego_q = eq;
            s.scenes[0][0].data[0].ego_t = et;
            s.scenes[0][0].data.push(Data { key: false, ..data(1, T0 - 20_000) });
            s.scenes[0][1].data.push(Data { key: false, ..data(0, T0 + 120_000) });
            s.instances = vec![
                Inst { scene: 0, category: 0, anns: vec![ann(0, 0), ann(1, 0)] },
                Inst { scene: 0, category: 1, anns: vec![ann(0, 1)] },
            ];
            ch.note(|| format!("ego {et:?} {eq:?}, sensor {ct:?} {cq:?}"));
            boxes_judge(ch, &s.build())
        },
    ));
    v.push(Space::new(
        "several-records",
        "loaded frames with 2 or 3 LiDAR records for a sample (at its time, 1 us and 50 ms away) and a camera record at its time, each with its own ego pose, in every order, rows in 4 orders, shared or separate ego poses, 2 salts of tokens, base_link or map requested",
        move |ch| {
            let mut s = plain(1, 2);
            s.order = ch.choose(4);
            s.salt = ch.pick(&[1u64, 9]);
            let shared = ch.flag();
            let n = 2 + ch.choose(3);
            let perm = ch.permutation(n);
            for k in 0..2 {
                let t = s.scenes[0][k].t;
                let all = [
                    data(0, t),
                    Data { ego_t: [7.0, -30.0, 2.0], ego_q: geom::from_euler(0.3, 0.2, 1.0), key: false, ..data(0, t - 50_000) },
                    Data { ego_t: [100.0, -3.0, 2.0], ego_q: geom::from_euler(-0.3, 0.2, 2.0), ..data(1, t) },
                    Data { ego_t: [-7.0, 30.0, 5.0], ego_q: yaw(77.0), key: false, ..data(0, t + 1) },
                ];
                s.scenes[0][k].data = perm.iter().map(|i| all[*i].clone()).collect();
            }
            s.instances = vec![
                Inst { scene: 0, category: 0, anns: vec![ann(0, 0), ann(1, 0)] },
                Inst { scene: 0, category: 1, anns: vec![ann(0, 1), ann(1, 1)] },
            ];
            let mut d = s.build();
            if shared {
                // nothing but the LiDAR record's own pose may be used, wherever that record of poses stands
                let e = d.rows("ego_pose")[0].clone();
                let mut extra = e.clone();
                extra["token"] = serde_json::json!(tok(3, "extra", 0));
                extra["translation"] = serde_json::json!([0.0, 0.0, 0.0]);
                d.tables.get_mut("ego_pose").unwrap().insert(0, extra);
            }
            let f = frame(ch.choose(2));
            judge(ch, &d, f, EvaluationTask::Detection, true)
        },
    ));
    v.push(Space::new("big", "every dataset of one large dimension (300 or 1030 samples of a scene, 270 scenes, 300 or 1030 objects in a sample, 80 samples with 20 objects each, 300 sensor records of a sample, 300 sensors, 300 categories, 300 further records of other tables), rows in 4 orders: loaded frames, and boxes of every sensor record where there are at most 4 samples or 100 objects", |ch| {
        let k = ch.choose(BIG);
        let (what, d) = big(k, ch.choose(4));
        ch.note(|| what.into());
        judge(ch, &d, FrameID::BaseLink, EvaluationTask::Detection, true)?;
        if ![1, 4].contains(&k) {
            boxes_judge(ch, &d)?;
        }
        Ok(())
    }));
    v
}
