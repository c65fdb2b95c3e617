//! Evidence files, replay files and the verdict lines.

use serde_json::json;
use std::collections::BTreeMap;
use std::path::Path;

pub struct Failure {
    pub message: String,
    /// machine-readable case, for replay
    pub case: String,
    pub readable: String,
}

#[derive(Default)]
pub struct Evidence {
    pub evaluations: usize,
    pub cases: usize,
    pub distinct_nontrivial: usize,
    pub rule: String,
    pub labels: BTreeMap<String, usize>,
    pub extra: BTreeMap<String, serde_json::Value>,
    samples: BTreeMap<usize, String>,
    pub assumptions: Vec<String>,
}

impl Evidence {
    pub fn sample(&mut self, at: usize, s: String) {
        self.samples.entry(at).or_insert(s);
        while self.samples.len() > 12 {
            let k = *self.samples.keys().next_back().unwrap();
            self.samples.remove(&k);
        }
    }
    pub fn write(&self, root: &Path, id: &str, tier: &str, seed: u64, wall: f64, violations: usize) {
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct_nontrivial));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.samples.values().collect::<Vec<_>>()));
        cov.insert("generated_programs".into(), json!(self.cases));
        cov.insert("classification".into(), json!(self.labels));
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        let v = json!({
            "property": id,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": violations,
        });
        let dir = root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&v).unwrap() + "\n");
    }
}
