//! Reader of the printed score report.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Block {
    /// CenterDistance, PlaneDistance, ...
    pub mode: String,
    /// mAP -> value
    pub means: BTreeMap<String, f64>,
    pub labels: Vec<String>,
    pub thresholds: Vec<f64>,
    /// AP -> one value per label column
    pub rows: BTreeMap<String, Vec<f64>>,
}

impl Block {
    pub fn get(&self, row: &str, col: usize) -> Option<f64> {
        self.rows.get(row).and_then(|r| r.get(col)).copied()
    }
    pub fn columns(&self, label: &str) -> Vec<usize> {
        (0..self.labels.len())
            .filter(|i| self.labels[*i] == label)
            .collect()
    }
}

pub fn parse(text: &str) -> Result<Vec<Block>, String> {
    let mut blocks: Vec<Block> = vec![];
    for line in text.lines() {
        let t = line.trim();
        if t.is_empty() {
            continue;
        }
        if let Some(m) = t.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
            blocks.push(Block {
                mode: m.trim().to_string(),
                ..Default::default()
            });
            continue;
        }
        let Some(b) = blocks.last_mut() else {
            return Err(format!("text before the first block: {t:?}"));
        };
        if t.starts_with('|') {
            let mut cells: Vec<&str> = t.split('|').map(|c| c.trim()).collect();
            cells.remove(0);
            if cells.last() == Some(&"") {
                cells.pop();
            }
            if cells.is_empty() {
                continue;
            }
            let head = cells.remove(0).to_string();
            if head == "Label" {
                for c in cells {
                    let (name, rest) = c.split_once('(').ok_or(format!("label cell {c:?}"))?;
                    b.labels.push(name.trim().to_string());
                    let thr = rest.trim_end_matches(')').trim();
                    b.thresholds
                        .push(thr.parse().map_err(|_| format!("threshold {thr:?}"))?);
                }
            } else {
                let v = cells
                    .iter()
                    .map(|c| {
                        c.parse::<f64>()
                            .map_err(|_| format!("value {c:?} in row {head}"))
                    })
                    .collect::<Result<Vec<_>, _>>()?;
                if b.rows.insert(head.clone(), v).is_some() {
                    return Err(format!("row {head} printed twice"));
                }
            }
        } else if t.contains(':') {
            let mut it = t.split_whitespace();
            while let Some(k) = it.next() {
                let k = k.trim_end_matches(':');
                let v = it.next().ok_or("mean without value")?;
                b.means
                    .insert(k.to_string(), v.parse().map_err(|_| format!("mean {v:?}"))?);
            }
        } else {
            return Err(format!("unexpected line {t:?}"));
        }
    }
    for b in &blocks {
        for r in b.rows.values() {
            if r.len() != b.labels.len() {
                return Err(format!(
                    "row length {} for {} labels",
                    r.len(),
                    b.labels.len()
                ));
            }
        }
    }
    Ok(blocks)
}

/// The two criteria every detection score reports.
pub fn detection(text: &str) -> Result<[Block; 2], String> {
    let bs = parse(text)?;
    let find = |m: &str| -> Result<Block, String> {
        let v: Vec<&Block> = bs.iter().filter(|b| b.mode == m).collect();
        match v.as_slice() {
            [b] if b.rows.contains_key("AP") && b.rows.contains_key("APH") => Ok((*b).clone()),
            [_] => Err(format!("block {m} lacks AP or APH")),
            _ => Err(format!("{} blocks {m}", v.len())),
        }
    };
    Ok([find("CenterDistance")?, find("PlaneDistance")?])
}
