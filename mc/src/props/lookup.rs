//! C16: ground truth for a time.
use crate::engine::*;
use crate::ensure;
use crate::model::Params;
use crate::obj::*;
use chrono::{Duration, NaiveDateTime};
use perception_eval::dataset::{get_current_frame, FrameGroundTruth};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::manager::PerceptionEvaluationManager;

const MS: i64 = 1_000_000;

fn frame_at(t: NaiveDateTime, k: usize) -> FrameGroundTruth {
    let mut o = obj(k, [k as f64, -1.0, 0.5]);
    o.uuid = Some(format!("f{k}"));
    o.pointcloud_num = Some(k);
    o.timestamp = t;
    let mut objects = vec![o.clone()];
    if k % 3 == 1 {
        o.position[0] += 5.0;
        objects.push(o.clone());
    }
    if k % 4 == 3 {
        // the same object twice, and once more apart from its twin
        objects.push(objects[0].clone());
        o.uuid = None;
        objects.push(o);
        objects.push(objects[0].clone());
    }
    if k % 5 == 2 {
        objects.clear();
    }
    FrameGroundTruth {
        timestamp: t,
        objects,
    }
}

fn judge(ch: &mut Ch, frames: &[FrameGroundTruth], t: NaiveDateTime, manager: bool) -> R {
    // |difference| in nanoseconds, in 128 bits
    let ns = |x: NaiveDateTime| {
        x.and_utc().timestamp() as i128 * 1_000_000_000
            + x.and_utc().timestamp_subsec_nanos() as i128
    };
    let mut want: Option<usize> = None;
    for (i, f) in frames.iter().enumerate() {
        let d = (ns(f.timestamp) - ns(t)).abs();
        if d < 75 * MS as i128 && want.map_or(true, |w| d < (ns(frames[w].timestamp) - ns(t)).abs())
        {
            want = Some(i);
        }
    }
    ch.step();
    let got = if manager {
        let cfg = Params::new(&[0]).config(EvaluationTask::Detection);
        let m = PerceptionEvaluationManager {
            config: &cfg,
            frame_ground_truths: frames.to_vec(),
            frame_results: vec![],
        };
        let r = m.get_frame_ground_truth(&t);
        ensure!(
            m.frame_ground_truths.len() == frames.len() && m.frame_results.is_empty(),
            "the lookup changed the manager"
        );
        r
    } else {
        get_current_frame(frames, &t)
    };
    ch.note(|| {
        format!(
            "time {t}, frames at {:?} -> {:?}, should be index {want:?}",
            frames
                .iter()
                .map(|f| format!("{}", f.timestamp))
                .collect::<Vec<_>>(),
            got.as_ref().map(|f| format!("{f}"))
        )
    });
    match (&got, want) {
        (None, None) => {}
        (Some(g), Some(w)) => {
            ensure!(
                g.timestamp == frames[w].timestamp && same_list(&g.objects, &frames[w].objects),
                "at {t}: the frame at {} with objects {}, should be that at {} (position {w}) with {}",
                g.timestamp,
                shorts(&g.objects),
                frames[w].timestamp,
                shorts(&frames[w].objects)
            );
        }
        (Some(g), None) => {
            return fail(format!(
                "at {t}: the frame at {}, but none is within 75 ms",
                g.timestamp
            ))
        }
        (None, Some(w)) => {
            return fail(format!(
                "at {t}: nothing, but the frame at {} is within 75 ms",
                frames[w].timestamp
            ))
        }
    }
    ch.compared();
    let v: Vec<NaiveDateTime> = frames.iter().map(|f| f.timestamp).collect();
    ch.state(&(v, t, manager));
    ch.outcome(&want);
    Ok(())
}

pub fn c16(tier: Tier) -> Vec<Space> {
    // differences in nanoseconds
    let offs: Vec<i64> = {
        let p = [
            1,
            400_000,
            500_000,
            999_999,
            MS,
            37 * MS,
            37 * MS + 1000,
            74 * MS,
            74 * MS + 1,
            75 * MS - 1000,
            75 * MS - 1,
            75 * MS,
            75 * MS + 1,
            75 * MS + 1000,
            76 * MS,
            1000 * MS,
            86_400_000 * MS,
        ];
        let mut v = vec![0];
        v.extend(p.iter().flat_map(|x| [*x, -*x]));
        v
    };
    let times: Vec<NaiveDateTime> = vec![
        us(1_000_000),
        us(1_681_234_567_890_123),
        us(0),
        us(-1),
        us(999_999),
        us(1_500),
        us(1_532_402_927_647_951) + Duration::nanoseconds(777),
    ];
    let n = tier.pick(4, 5);
    let no = offs.len();
    let (o1, t1) = (offs.clone(), times.clone());
    let o3 = tier.pick(
        vec![
            0,
            1,
            -1,
            500_000,
            -500_000,
            74 * MS,
            -74 * MS - 500_000,
            75 * MS - 1,
            -75 * MS,
            75 * MS + 1,
            -1000 * MS,
        ],
        offs.clone().into_iter().step_by(2).collect(),
    );
    let small = Space::new(
        "short lists",
        &format!("{} query times x every list of up to 2 frames at {no} differences (to the nanosecond, around 0, 0.5, 1, 37, 74, 75, 76 ms, 1 s, 1 day), directly and through the manager", t1.len()),
        move |ch| {
            let t = ch.pick(&t1);
            let k = ch.choose(3);
            let frames: Vec<FrameGroundTruth> = (0..k).map(|i| frame_at(t + Duration::nanoseconds(ch.pick(&o1)), i)).collect();
            let m = ch.flag();
            judge(ch, &frames, t, m)
        },
    );
    let t2 = times.clone();
    let lists = Space::new(
        "lists",
        &format!(
            "3 query times x every list of {n} frames over {} differences",
            o3.len()
        ),
        move |ch| {
            let t = ch.pick(&t2[..3]);
            let frames: Vec<FrameGroundTruth> = (0..n)
                .map(|i| frame_at(t + Duration::nanoseconds(ch.pick(&o3)), i))
                .collect();
            judge(ch, &frames, t, false)
        },
    );
    let ns = tier.pick(
        vec![5usize, 10, 40, 200, 5000],
        vec![5, 6, 7, 10, 16, 17, 33, 40, 100, 200, 1000, 5000, 66_000],
    );
    let long = Space::new(
        "sequences",
        &format!("recordings of {ns:?} frames at 10 Hz, 20 Hz, 1 kHz or 100 us, in order, reversed or interleaved, queried at, between, before and after frames"),
        move |ch| {
            let n = ch.pick(&ns);
            let dt = ch.pick(&[100_000, 50_000, 1_000, 100, 150_000, 149_999]);
            let base = us(1_681_234_567_890_123);
            let mut frames: Vec<FrameGroundTruth> = (0..n).map(|k| frame_at(base + Duration::microseconds(dt * k as i64), k)).collect();
            match ch.choose(4) {
                0 => {}
                1 => frames.reverse(),
                2 => frames.rotate_left(n / 3),
                _ => {
                    let (a, b): (Vec<_>, Vec<_>) = frames.into_iter().enumerate().partition(|(i, _)| i % 2 == 0);
                    frames = a.into_iter().chain(b).map(|x| x.1).collect();
                }
            }
            let at = ch.pick(&[0usize, 1, n / 2, n - 1]) as i64;
            let d = ch.pick(&[0, 1, -1, dt / 2, dt / 2 + 1, dt / 2 - 1, -dt / 2, 74_999, 75_000, -74_999, -75_000, 200, -3_000]);
            judge(ch, &frames, base + Duration::microseconds(dt * at + d), false)
        },
    );
    let ties = Space::new("ties", "lists of 2..4 frames all equally far before or after the time, each frame different: the first is returned", |ch| {
        let t = us(1_681_234_567_890_123);
        let d = ch.pick(&[0i64, 1, 1000, 74_999_999, 40 * MS + 1, 75 * MS]);
        let n = 2 + ch.choose(3);
        let mut frames: Vec<FrameGroundTruth> = vec![];
        for i in 0..n {
            let s = if ch.flag() { d } else { -d };
            let k = [0, 3, 6, 9][i]; // frames with objects
            frames.push(frame_at(t + Duration::nanoseconds(s), k));
        }
        let far = ch.choose(3);
        if far > 0 {
            let f = frame_at(t + Duration::nanoseconds(if far == 1 { d + 1 } else { -d - 1 }), 12);
            let at = ch.choose(n + 1);
            frames.insert(at, f);
        }
        judge(ch, &frames, t, false)
    });
    let ends = Space::new("ends of time", "frames and queries at the first and last representable times, at the epoch and in 1900 / 2262 / 9999", |ch| {
        let d = |y: i32| chrono::NaiveDate::from_ymd_opt(y, 6, 1).unwrap().and_hms_micro_opt(1, 2, 3, 456_789).unwrap();
        let ts = [NaiveDateTime::MIN, NaiveDateTime::MAX, us(0), d(1900), d(2023), d(2262), d(9999), d(-5000)];
        let t = ch.pick(&ts);
        let n = ch.choose(3);
        let frames: Vec<FrameGroundTruth> = (0..n).map(|k| frame_at(ch.pick(&ts), k)).collect();
        judge(ch, &frames, t, false)
    });
    vec![small, lists, long, ties, ends]
}
