//! The properties: for each, the spaces explored and the judge.
use crate::engine::*;

mod bytoken;
mod corrupt;
mod frames;
mod images;
mod lookup;
mod matching;
mod math;
pub mod names;
mod navigate;
mod pairing;
mod pipeline;
mod records;
mod scenario;
mod score;
mod shown;
mod system;
mod total;
mod verdict;

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
    "C29", "C30", "C31", "C32", "C33", "C34", "C35",
];

pub fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    Some(match id {
        "C01" => pairing::c01(tier),
        "C02" => pairing::c02(tier),
        "C03" => verdict::c03(tier),
        "C04" => verdict::c04(tier),
        "C05" => score::c05(tier),
        "C06" => score::c06(tier),
        "C07" => score::c07(tier),
        "C08" => score::c08(tier),
        "C09" => math::c09(tier),
        "C10" => math::c10(tier),
        "C11" => math::c11(tier),
        "C12" => matching::c12(tier),
        "C13" => matching::c13(tier),
        "C14" => matching::c14(tier),
        "C15" => matching::c15(tier),
        "C16" => lookup::c16(tier),
        "C17" => corrupt::c17(tier),
        "C18" => frames::c18(tier),
        "C19" => frames::c19(tier),
        "C20" => navigate::c20(tier),
        "C26" => navigate::c26(tier),
        "C22" => scenario::c22(tier),
        "C23" => scenario::c23(tier),
        "C27" => pipeline::c27(tier),
        "C28" => pipeline::c28(tier),
        "C24" => names::c24(tier),
        "C25" => names::c25(tier),
        "C21" => records::c21(tier),
        "C34" => bytoken::c34(tier),
        "C35" => shown::c35(tier),
        "C29" => system::c29(tier),
        "C30" => images::c30(tier),
        "C33" => total::c33(tier),
        "C31" => system::c31(tier),
        "C32" => system::c32(tier),
        _ => return None,
    })
}

pub fn level(_id: &str) -> &'static str {
    "model_checking"
}

pub fn assumptions(_id: &str) -> Vec<String> {
    vec![]
}

pub fn child(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("log") => scenario::log_child(&args[1..]),
        Some("messages") => scenario::messages_child(&args[1..]),
        Some("histories") => system::histories_child(&args[1..]),
        Some("dump") => pipeline::dump_child(&args[1..]),
        _ => 2,
    }
}
