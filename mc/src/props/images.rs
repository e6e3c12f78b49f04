//! C30: camera images.
use super::frames::plain;
use super::system::png_bytes;
use crate::ds::*;
use crate::engine::*;
use crate::ensure;
use crate::scratch;
use perception_eval::dataset::nuscenes::{LoadedSampleData, NuScenes};

/// A picture as rows of red, green, blue, opacity of 16 bits.
#[derive(Clone, PartialEq, Debug)]
struct Picture {
    w: u32,
    h: u32,
    px: Vec<u16>,
}
/// The kinds of PNG: bits per sample, PNG colour kind, samples per pixel.
const KINDS: [(u8, u8, usize); 8] = [(8, 0, 1), (8, 2, 3), (8, 4, 2), (8, 6, 4), (16, 0, 1), (16, 2, 3), (16, 4, 2), (16, 6, 4)];

/// A PNG file and the picture in it; `value` gives sample `s` of the pixel at (x, y).
fn png(w: u32, h: u32, kind: usize, value: &dyn Fn(u32, u32, usize) -> u16) -> (Vec<u8>, Picture) {
    let (depth, colour, n) = KINDS[kind];
    let mut rows = vec![];
    let mut px = vec![];
    for y in 0..h {
        let mut row = vec![];
        for x in 0..w {
            let v: Vec<u16> = (0..n).map(|s| value(x, y, s)).map(|v| if depth == 8 { v & 0xff } else { v }).collect();
            for s in &v {
                if depth == 8 {
                    row.push(*s as u8);
                } else {
                    row.extend(s.to_be_bytes());
                }
            }
            let wide: Vec<u16> = v.iter().map(|s| if depth == 8 { s * 257 } else { *s }).collect();
            px.extend(match n {
                1 => [wide[0], wide[0], wide[0], 0xffff],
                2 => [wide[0], wide[0], wide[0], wide[1]],
                3 => [wide[0], wide[1], wide[2], 0xffff],
                _ => [wide[0], wide[1], wide[2], wide[3]],
            });
        }
        rows.push(row);
    }
    (png_bytes(w, &rows, depth, colour), Picture { w, h, px })
}

/// A baseline grey JPEG whose blocks of 8 x 8 pixels each have one brightness.
fn jpeg(w: u32, h: u32, value: &dyn Fn(u32, u32) -> u8) -> (Vec<u8>, Picture) {
    let mut out = vec![0xff, 0xd8];
    let mut seg = |m: u8, body: &[u8]| {
        out.extend([0xff, m]);
        out.extend((body.len() as u16 + 2).to_be_bytes());
        out.extend(body);
    };
    seg(0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
    let mut q = vec![0u8];
    q.extend([8u8; 64]);
    seg(0xdb, &q);
    let (wb, hb) = ((w as u16).to_be_bytes(), (h as u16).to_be_bytes());
    seg(0xc0, &[8, hb[0], hb[1], wb[0], wb[1], 1, 1, 0x11, 0]);
    // brightness differences: 12 categories of 4 bits each; rest: only the end of a block
    let mut dc = vec![0u8, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    dc.extend(0..12u8);
    seg(0xc4, &dc);
    let mut ac = vec![0x10u8, 1];
    ac.extend([0u8; 15]);
    ac.push(0);
    seg(0xc4, &ac);
    seg(0xda, &[1, 1, 0, 0, 63, 0]);
    let mut bits: Vec<u8> = vec![];
    let mut last = 0i32;
    for by in 0..h.div_ceil(8) {
        for bx in 0..w.div_ceil(8) {
            let v = value(bx, by) as i32 - 128;
            let d = v - last;
            last = v;
            let cat = 32 - d.unsigned_abs().leading_zeros();
            bits.extend((0..4).rev().map(|i| (cat >> i & 1) as u8));
            let code = if d < 0 { d - 1 } else { d };
            bits.extend((0..cat).rev().map(|i| (code >> i & 1) as u8));
            bits.push(0);
        }
    }
    while bits.len() % 8 != 0 {
        bits.push(1);
    }
    for c in bits.chunks(8) {
        let b = c.iter().fold(0u8, |a, x| a << 1 | x);
        out.push(b);
        if b == 0xff {
            out.push(0);
        }
    }
    out.extend([0xff, 0xd9]);
    let mut px = vec![];
    for y in 0..h {
        for x in 0..w {
            let v = value(x / 8, y / 8) as u16 * 257;
            px.extend([v, v, v, 0xffff]);
        }
    }
    (out, Picture { w, h, px })
}

enum Want {
    /// The picture, with samples off by at most so much.
    Exactly(Picture, u16),
    Refused,
    /// Refused, or this picture, but nothing else.
    RefusedOr(Picture),
    /// Anything but a panic.
    Anything,
}

fn image(ch: &mut Ch, bytes: Option<&[u8]>, rel: &str, format: &'static str, want: Want, what: impl Fn() -> String) -> R {
    let mut s = plain(1, 1);
    s.sensors.push(crate::ds::camera());
    let mut d = crate::ds::data(1, s.scenes[0][0].t);
    d.file = rel.into();
    d.format = format;
    s.scenes[0][0].data.push(d);
    let ds = s.build();
    let dir = scratch::worker("image", ch.worker);
    ds.write(&dir);
    let path = dir.join(rel);
    std::fs::create_dir_all(path.parent().unwrap()).expect("scratch");
    match bytes {
        Some(b) => std::fs::write(&path, b).expect("scratch"),
        None => {
            let _ = std::fs::remove_file(&path);
        }
    }
    let n = match NuScenes::load(VERSION, &dir) {
        Ok(n) => n,
        Err(e) => return fail(format!("the dataset does not load: {e}")),
    };
    let Some(rec) = n.sample_data_iter().find(|r| r.filename.to_str() == Some(rel)) else {
        return fail(format!("no record of {rel}"));
    };
    ch.steps(2);
    let raw = guarded(|| rec.load_raw().map_err(|e| e.to_string()));
    let got = guarded(|| rec.load().map_err(|e| e.to_string()));
    let got = match got {
        Ok(Ok(LoadedSampleData::Image(i))) => Ok(Ok(Picture { w: i.width(), h: i.height(), px: i.to_rgba16().into_raw() })),
        Ok(Ok(_)) => return fail(format!("{}: loads as a point cloud", what())),
        Ok(Err(e)) => Ok(Err(e)),
        Err(p) => Err(p),
    };
    let shown = match &got {
        Ok(Ok(p)) => format!("{} x {}", p.w, p.h),
        Ok(Err(e)) => format!("error {e}"),
        Err(p) => p.clone(),
    };
    ch.note(|| format!("{}: {shown}", what()));
    match bytes {
        Some(b) => ensure!(matches!(&raw, Ok(Ok(r)) if r == b), "{}: the raw bytes are not those of the file", what()),
        None => ensure!(matches!(&raw, Ok(Err(_))), "{}: raw bytes of a missing file: {raw:?}", what()),
    }
    ensure!(got.is_ok(), "{}: {shown}", what());
    let got = got.unwrap();
    let same = |p: &Picture, tol: u16| -> Result<(), String> {
        let Ok(g) = &got else {
            return Err(shown.clone());
        };
        if (g.w, g.h) != (p.w, p.h) {
            return Err(format!("{} x {} instead of {} x {}", g.w, g.h, p.w, p.h));
        }
        match (0..p.px.len()).find(|i| g.px[*i].abs_diff(p.px[*i]) > tol) {
            Some(i) => Err(format!(
                "sample {} of the pixel ({}, {}) is {} instead of {} (of 65535)",
                i % 4,
                i / 4 % p.w as usize,
                i / 4 / p.w as usize,
                g.px[i],
                p.px[i]
            )),
            None => Ok(()),
        }
    };
    match &want {
        Want::Exactly(p, tol) => {
            if let Err(e) = same(p, *tol) {
                return fail(format!("{}: {e}", what()));
            }
        }
        Want::Refused => ensure!(got.is_err(), "{}: accepted as a picture of {shown}", what()),
        Want::RefusedOr(p) => {
            if got.is_ok() {
                if let Err(e) = same(p, 0) {
                    return fail(format!("{}: accepted as another picture: {e}", what()));
                }
            }
        }
        Want::Anything => {}
    }
    ch.compared();
    ch.state(&(what(), bytes.map(|b| hash(&b))));
    ch.outcome(&shown);
    Ok(())
}

/// Where the image data of a PNG of `png_bytes` ends.
fn data_end(b: &[u8]) -> usize {
    b.len() - 12
}

pub fn c30(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let sizes: Vec<u32> = tier.pick(vec![1, 2, 3, 7, 8, 9, 17], vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64]);
    let s1 = sizes.clone();
    v.push(Space::new(
        "png",
        &format!("widths and heights out of {sizes:?}, 8 kinds of pixels (grey or colour, with or without opacity, 8 or 16 bits), 4 patterns; jpeg, jpg or png as format of the record does not matter: 1 format each, 3 file names"),
        move |ch| {
            let w = ch.pick(&s1);
            let h = ch.pick(&s1);
            let kind = ch.choose(KINDS.len());
            let pattern = ch.choose(4);
            let name = ch.pick(&["data/CAM_FRONT/x.png", "CAM_BACK/n015-2018-07-24-11-22-45+0800__CAM_BACK__15.png", "samples/a b/\u{753b}.x.png"]);
            let (b, p) = png(w, h, kind, &|x, y, s| match pattern {
                0 => (hash(&(x, y, s)) & 0xffff) as u16,
                1 => 0,
                2 => 0xffff,
                _ => (x * 257 + y * 4096 + s as u32 * 31) as u16,
            });
            image(ch, Some(&b), name, "png", Want::Exactly(p, 0), || format!("a PNG of {w} x {h}, kind {:?}, pattern {pattern}, as {name}", KINDS[kind]))
        },
    ));
    let s2 = sizes.clone();
    v.push(Space::new(
        "jpeg",
        "the same sizes, grey JPEG with every block of 8 x 8 at one brightness, 6 patterns, the record naming jpg or jpeg, 3 file names",
        move |ch| {
            let w = ch.pick(&s2);
            let h = ch.pick(&s2);
            let pattern = ch.choose(6);
            let format = ch.pick(&["jpg", "jpeg"]);
            let name = ch.pick(&["data/CAM_FRONT/x.jpg", "CAM_BACK/n015-2018-07-24-11-22-45+0800__CAM_BACK__15.jpeg", "samples/a b/\u{753b}.x.jpg"]);
            let (b, p) = jpeg(w, h, &|x, y| match pattern {
                0 => (hash(&(x, y)) & 0xff) as u8,
                1 => 0,
                2 => 255,
                3 => 128,
                4 => ((x + y) % 2 * 255) as u8,
                _ => (x * 40 + y * 100) as u8,
            });
            image(ch, Some(&b), name, format, Want::Exactly(p, 2 * 257), || format!("a JPEG of {w} x {h}, pattern {pattern}, as {name} ({format})"))
        },
    ));
    let long: Vec<u32> = tier.pick(
        vec![100, 255, 256, 257, 640, 1024, 1025, 1600, 1920, 2049, 4096, 4097, 8193, 16385, 40000, 65500],
        vec![100, 127, 128, 255, 256, 257, 511, 513, 640, 900, 1024, 1025, 1600, 1920, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8193, 16384, 16385, 32769, 40000, 65500],
    );
    v.push(Space::new(
        "large",
        &format!("pictures of a width or height out of {long:?} with the other side 1, 2 or 9; JPEG, grey PNG and PNG with opacity; and 1600 x 900, 1920 x 1080, 2880 x 1860 and 5000 x 700"),
        move |ch| {
            let form = ch.choose(3);
            let k = ch.choose(long.len() + 4);
            let (w, h) = if k < long.len() {
                let other = ch.pick(&[1u32, 2, 9]);
                if ch.flag() { (long[k], other) } else { (other, long[k]) }
            } else {
                [(1600, 900), (1920, 1080), (2880, 1860), (5000, 700)][k - long.len()]
            };
            if form == 0 {
                let (b, p) = jpeg(w, h, &|x, y| (hash(&(x, y)) & 0xff) as u8);
                return image(ch, Some(&b), "data/CAM_FRONT/x.jpg", "jpg", Want::Exactly(p, 2 * 257), || format!("a JPEG of {w} x {h}"));
            }
            let (b, p) = png(w, h, [0, 3][form - 1], &|x, y, s| (x.wrapping_mul(31) ^ y.wrapping_mul(17) ^ s as u32 * 5) as u16);
            image(ch, Some(&b), "data/CAM_FRONT/x.png", "png", Want::Exactly(p, 0), || format!("a PNG of {w} x {h}, kind {:?}", KINDS[[0, 3][form - 1]]))
        },
    ));
    v.push(Space::new(
        "values",
        "PNG of 2 x 2 pixels, every kind: one sample of one pixel at each of 256 values (16 bits: 256 values of the upper or lower byte); JPEG of one block at every brightness 0 to 255",
        move |ch| {
            let k = ch.choose(KINDS.len() + 1);
            let x = ch.choose(256);
            if k == KINDS.len() {
                let (b, p) = jpeg(8, 8, &|_, _| x as u8);
                return image(ch, Some(&b), "data/CAM_FRONT/x.jpg", "jpg", Want::Exactly(p, 2 * 257), || format!("a JPEG of brightness {x}"));
            }
            let at = ch.choose(4 * KINDS[k].2);
            let low = KINDS[k].0 == 8 || ch.flag();
            let (b, p) = png(2, 2, k, &|i, j, s| if ((j * 2 + i) as usize * KINDS[k].2 + s) == at { if low { x as u16 } else { (x as u16) << 8 | 0x12 } } else { 0x4321 });
            image(ch, Some(&b), "data/CAM_FRONT/x.png", "png", Want::Exactly(p, 0), || format!("a PNG of kind {:?} with sample {at} at {x}", KINDS[k]))
        },
    ));
    let repl: Vec<u8> = tier.pick(vec![0, 1, 0x80, 0xff], vec![0, 1, 2, 4, 8, 16, 32, 64, 0x80, 0xff, b'I', b'a', 0x7f]);
    v.push(Space::new(
        "damaged",
        "2 PNG and 2 JPEG files: cut at every byte, each byte replaced by each of a set of values or its lowest or highest bit changed, removed, doubled; text, nothing, a point cloud or the other kind of picture in place of the picture; no file",
        move |ch| {
            let kind = ch.choose(4);
            let (b, p) = match kind {
                0 => png(3, 2, 0, &|x, y, _| (x * 50 + y * 9) as u16),
                1 => png(4, 4, 3, &|x, y, s| (hash(&(x, y, s)) & 0xff) as u16),
                2 => jpeg(8, 8, &|_, _| 77),
                _ => jpeg(24, 17, &|x, y| (x * 90 + y * 20) as u8),
            };
            let is_png = kind < 2;
            let (name, format) = if is_png { ("data/CAM_FRONT/x.png", "png") } else { ("data/CAM_FRONT/x.jpg", "jpg") };
            let how = ch.choose(3);
            match how {
                0 => {
                    let n = ch.choose(b.len() + 1);
                    let want = if n == b.len() {
                        Want::Exactly(p, if is_png { 0 } else { 2 * 257 })
                    } else if is_png && n < data_end(&b) {
                        // the check values of the picture are the last of its data
                        if n < data_end(&b) - 12 { Want::Refused } else { Want::RefusedOr(p) }
                    } else if is_png {
                        Want::RefusedOr(p)
                    } else if n < 160 {
                        Want::Refused
                    } else {
                        Want::Anything
                    };
                    image(ch, Some(&b[..n]), name, format, want, || format!("{name} cut after {n} of {} bytes", b.len()))
                }
                1 => {
                    let i = ch.choose(b.len());
                    let k = ch.choose(repl.len() + 4);
                    let mut x = b.clone();
                    match k {
                        k if k < repl.len() => x[i] = repl[k],
                        k if k == repl.len() => x[i] ^= 1,
                        k if k == repl.len() + 1 => x[i] ^= 0x80,
                        k if k == repl.len() + 2 => {
                            x.remove(i);
                        }
                        _ => x.insert(i, b[i]),
                    }
                    if x == b {
                        return Err(Stop::Skip);
                    }
                    // a change that makes the picture huge is only a matter of memory
                    let want = if is_png { Want::RefusedOr(p) } else { Want::Anything };
                    image(ch, Some(&x), name, format, want, || format!("{name}, byte {i} changed in way {k}"))
                }
                _ => {
                    let other: Option<Vec<u8>> = match ch.choose(5) {
                        0 => None,
                        1 => Some(vec![]),
                        2 => Some(b"not a picture, but text\n".to_vec()),
                        3 => Some((0..200u8).collect()),
                        _ => Some(vec![0; 4000]),
                    };
                    image(ch, other.as_deref(), name, format, Want::Refused, || format!("{name} with {:?} other bytes", other.as_ref().map(|o| o.len())))
                }
            }
        },
    ));
    v.push(Space::new(
        "other directories",
        "binary records (as bin or pcd) of 0 to 3 points in 14 directories that are none of LiDAR's, at 2 depths: refused",
        move |ch| {
            let dir = ch.pick(&[
                "RADAR_FRONT", "RADAR_BACK_LEFT", "CAM_FRONT", "LIDAR", "Lidar", "lidar_top", "LIDAR_TOPX", "LIDAR_CONCAT2", "LIDAR_TO", "lidars", "pointcloud",
                "LIDAR TOP", "\u{70b9}", "lidar.bin",
            ]);
            let format = ch.pick(&["bin", "pcd"]);
            let deep = ch.flag();
            let n = ch.choose(4);
            let rel = format!("{}{dir}/x.bin", if deep { "lidar/" } else { "" });
            let b = vec![9u8; 20 * n];
            let f: &'static str = format;
            image(ch, Some(&b), &rel, f, Want::Refused, || format!("{n} points in {rel} ({f})"))
        },
    ));
    v
}
