//! A run is an explicit list of steps (workload operations, schedule decisions and faults). The
//! generator draws it from the seed; execution is a pure function of it and the code; minimisation
//! deletes and shrinks steps; a replay file holds it.
use serde::{Deserialize, Serialize};

fn ser_hex<S: serde::Serializer>(v: &[Vec<u8>], s: S) -> Result<S::Ok, S::Error> {
    s.collect_seq(v.iter().map(|b| b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))
}
fn de_hex<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<Vec<u8>>, D::Error> {
    let v: Vec<String> = Deserialize::deserialize(d)?;
    v.into_iter()
        .map(|s| {
            (0..s.len() / 2)
                .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
                .collect()
        })
        .collect()
}

/// `k` names the step, `a` are numeric arguments, `d` byte-string arguments. Steps whose name starts
/// with '!' configure the run and are never deleted by the minimiser.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub k: String,
    #[serde(default)]
    pub a: Vec<u64>,
    #[serde(default, serialize_with = "ser_hex", deserialize_with = "de_hex")]
    pub d: Vec<Vec<u8>>,
}
impl Step {
    pub fn new(k: &str, a: &[u64]) -> Self {
        Step { k: k.to_string(), a: a.to_vec(), d: vec![] }
    }
    pub fn with(k: &str, a: &[u64], d: Vec<Vec<u8>>) -> Self {
        Step { k: k.to_string(), a: a.to_vec(), d }
    }
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn usz(&self, i: usize) -> usize {
        self.arg(i) as usize
    }
    pub fn data(&self, i: usize) -> &[u8] {
        self.d.get(i).map(|v| &v[..]).unwrap_or(&[])
    }
    /// Byte argument forced to a length (the minimiser may have shortened it).
    pub fn fixed(&self, i: usize, n: usize) -> Vec<u8> {
        let mut v = self.data(i).to_vec();
        v.resize(n, 0);
        v
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trace {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub class: String,
    pub message: String,
    pub steps: Vec<Step>,
}
