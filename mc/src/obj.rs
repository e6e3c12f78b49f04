//! Objects, labels and frames of the scenarios, and full (field by field, bit by bit) comparison of objects.
use crate::engine::hash;
use chrono::{DateTime, NaiveDateTime};
use perception_eval::frame_id::FrameID;
use perception_eval::label::Label;
use perception_eval::object::object3d::DynamicObject;

pub const NL: usize = 8;
pub fn label(i: usize) -> Label {
    [
        Label::Car,
        Label::Pedestrian,
        Label::Truck,
        Label::Bus,
        Label::Bicycle,
        Label::Motorbike,
        Label::Animal,
        Label::Unknown,
    ][i % NL]
        .clone()
}
/// A configuration name of the label.
pub fn label_cfg(i: usize) -> &'static str {
    [
        "car",
        "pedestrian",
        "truck",
        "bus",
        "bicycle",
        "motorbike",
        "animal",
        "unknown",
    ][i % NL]
}
pub fn label_name(l: &Label) -> &'static str {
    match l {
        Label::Car => "Car",
        Label::Pedestrian => "Pedestrian",
        Label::Truck => "Truck",
        Label::Bus => "Bus",
        Label::Bicycle => "Bicycle",
        Label::Motorbike => "Motorbike",
        Label::Animal => "Animal",
        Label::Unknown => "Unknown",
    }
}
pub fn label_index(l: &Label) -> usize {
    (0..NL).find(|i| label(*i) == *l).unwrap()
}

pub const NF: usize = 10;
pub fn frame(i: usize) -> FrameID {
    [
        FrameID::BaseLink,
        FrameID::Map,
        FrameID::CamBack,
        FrameID::CamBackLeft,
        FrameID::CamBackRight,
        FrameID::CamFront,
        FrameID::CamFrontLeft,
        FrameID::CamFrontRight,
        FrameID::CamTrafficLightNear,
        FrameID::CamTrafficLightFar,
    ][i % NF]
        .clone()
}

pub fn us(t: i64) -> NaiveDateTime {
    DateTime::from_timestamp_micros(t)
        .expect("timestamp")
        .naive_utc()
}

pub fn yaw(deg: f64) -> [f64; 4] {
    let h = deg.to_radians() * 0.5;
    [h.cos(), 0.0, 0.0, h.sin()]
}

/// Default object: a 2 x 4 x 1.5 box at the given place, heading along x.
pub fn obj(l: usize, pos: [f64; 3]) -> DynamicObject {
    DynamicObject {
        timestamp: us(1_000_000),
        frame_id: FrameID::BaseLink,
        position: pos,
        orientation: [1.0, 0.0, 0.0, 0.0],
        size: [2.0, 4.0, 1.5],
        velocity: None,
        confidence: 0.5,
        label: label(l),
        pointcloud_num: Some(10),
        uuid: Some("u".into()),
    }
}

fn b3(x: &[f64; 3]) -> [u64; 3] {
    [x[0].to_bits(), x[1].to_bits(), x[2].to_bits()]
}
fn b4(x: &[f64; 4]) -> [u64; 4] {
    [
        x[0].to_bits(),
        x[1].to_bits(),
        x[2].to_bits(),
        x[3].to_bits(),
    ]
}

/// All fields of an object, bit for bit.
pub type Full = (
    i64,
    u32,
    String,
    [u64; 3],
    [u64; 4],
    [u64; 3],
    Option<[u64; 3]>,
    u64,
    String,
    Option<usize>,
    Option<String>,
);
pub fn full(o: &DynamicObject) -> Full {
    let t = o.timestamp.and_utc();
    (
        t.timestamp(),
        t.timestamp_subsec_nanos(),
        format!("{:?}", o.frame_id),
        b3(&o.position),
        b4(&o.orientation),
        b3(&o.size),
        o.velocity.as_ref().map(b3),
        o.confidence.to_bits(),
        label_name(&o.label).to_string(),
        o.pointcloud_num,
        o.uuid.clone(),
    )
}
pub fn same(a: &DynamicObject, b: &DynamicObject) -> bool {
    a.timestamp == b.timestamp
        && a.frame_id == b.frame_id
        && b3(&a.position) == b3(&b.position)
        && b4(&a.orientation) == b4(&b.orientation)
        && b3(&a.size) == b3(&b.size)
        && a.velocity.as_ref().map(b3) == b.velocity.as_ref().map(b3)
        && a.confidence.to_bits() == b.confidence.to_bits()
        && a.label == b.label
        && a.pointcloud_num == b.pointcloud_num
        && a.uuid == b.uuid
}
pub fn same_list(a: &[DynamicObject], b: &[DynamicObject]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}
pub fn h(o: &DynamicObject) -> u64 {
    hash(&full(o))
}
pub fn hl(os: &[DynamicObject]) -> u64 {
    let v: Vec<u64> = os.iter().map(h).collect();
    hash(&v)
}

pub fn show(o: &DynamicObject) -> String {
    format!(
        "{}@({},{},{}) q={:?} size={:?} conf={} pts={:?} uuid={:?} frame={:?} v={:?} t={}",
        label_name(&o.label),
        o.position[0],
        o.position[1],
        o.position[2],
        o.orientation,
        o.size,
        o.confidence,
        o.pointcloud_num,
        o.uuid,
        o.frame_id,
        o.velocity,
        o.timestamp
    )
}
pub fn short(o: &DynamicObject) -> String {
    format!(
        "{}@({},{},{})c{}{}",
        label_name(&o.label),
        o.position[0],
        o.position[1],
        o.position[2],
        o.confidence,
        o.uuid.as_ref().map(|u| format!("#{u}")).unwrap_or_default()
    )
}
pub fn shorts(os: &[DynamicObject]) -> String {
    format!("[{}]", os.iter().map(short).collect::<Vec<_>>().join(", "))
}
