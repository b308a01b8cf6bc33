//! Reports, known findings and evidence.
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Report {
    pub id: String,
    /// rule instances examined: rule -> number
    pub rules: BTreeMap<String, u64>,
    pub analysed: Vec<String>,
    pub viol: Vec<(String, String)>,
    pub floors: Vec<(String, u64, u64)>,
    pub notes: Vec<String>,
    pub what: String,
    pub trusted: Vec<String>,
    pub level: String,
    pub counts: BTreeMap<String, u64>,
}
impl Report {
    pub fn new(id: &str) -> Self { Report { id: id.into(), level: "other".into(), ..Default::default() } }
    pub fn ok(&mut self, rule: &str) { *self.rules.entry(rule.into()).or_default() += 1 }
    pub fn add(&mut self, rule: &str, n: u64) { *self.rules.entry(rule.into()).or_default() += n }
    /// an obligation: counted, and reported when it fails
    pub fn must(&mut self, rule: &str, holds: bool, key: impl FnOnce() -> String, what: impl FnOnce() -> String) {
        self.ok(rule);
        if !holds { let k = format!("{rule}:{}", key()); if !self.viol.iter().any(|v| v.0 == k) { self.viol.push((k, what())) } }
    }
    pub fn floor(&mut self, what: &str, n: u64, min: u64) {
        self.floors.push((what.into(), n, min));
        if n < min { self.viol.push((format!("anchor:{what}"), format!("only {n} instances of `{what}` found, at least {min} expected: the analysed construct is gone"))) }
    }
    pub fn note_count(&mut self, w: &str, n: u64) { *self.counts.entry(w.into()).or_default() += n }
    pub fn counted(&self, w: &str) -> u64 { self.counts.get(w).copied().unwrap_or(0) }
    pub fn fun(&mut self, name: &str) { if !self.analysed.iter().any(|x| x == name) { self.analysed.push(name.into()) } }
    pub fn finish(self, tier: &str, verif: &str, secs: f64) -> i32 {
        let known: Value = std::fs::read(format!("{verif}/known_findings.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({}));
        let empty = vec![];
        let list = known["findings"].as_array().unwrap_or(&empty);
        let mut new = vec![];
        let mut kf = vec![];
        for (k, w) in &self.viol {
            if let Some(e) = list.iter().find(|e| e["property"] == self.id.as_str() && e["key"] == k.as_str()) { kf.push((k.clone(), e["what"].as_str().unwrap_or(w).to_string())) } else { new.push((k.clone(), w.clone())) }
        }
        for (k, w) in &kf { println!("KNOWN-FINDING: property={} {w} [{k}]", self.id) }
        let n: u64 = self.rules.values().sum();
        for (r, c) in &self.rules { println!("{}: {c} x {r}", self.id) }
        for s in &self.notes { println!("{}: note: {s}", self.id) }
        println!("{}: {} functions analysed, {n} obligations, {} violated, {} known", self.id, self.analysed.len(), new.len(), kf.len());
        let replay = format!("{verif}/evidence/{}.violation.txt", self.id);
        let _ = std::fs::remove_file(&replay);
        let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
        if !new.is_empty() {
            let mut s = String::new();
            for (k, w) in &new { s.push_str(&format!("{k}\n    {w}\n")) }
            let _ = std::fs::write(&replay, &s);
            for (k, w) in &new { println!("  {k}: {w}") }
        }
        let mut cov = json!({
            "explanation": self.what,
            "rules": self.rules,
            "functions": self.analysed,
            "floors": self.floors.iter().map(|(w, n, m)| json!({"what": w, "found": n, "required": m})).collect::<Vec<_>>(),
            "obligations": n,
            "discharged": n.saturating_sub((new.len() + kf.len()) as u64),
            "known_findings": kf.iter().map(|k| k.0.clone()).collect::<Vec<_>>(),
            "violations": new.iter().map(|k| json!({"key": k.0, "what": k.1})).collect::<Vec<_>>(),
            "notes": self.notes,
            "counts": self.counts,
        });
        cov["trusted_base"] = json!(self.trusted);
        cov["checker_cmd"] = json!(format!("./check.sh {} {tier}", self.id));
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = json!({"property": self.id, "tier": tier, "seed": seed, "level": self.level, "coverage": cov, "wall_s": secs});
        let _ = std::fs::write(format!("{verif}/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap() + "\n");
        if new.is_empty() { 0 } else { println!("VIOLATION property={} replay={replay}", self.id); 1 }
    }
}
