//! Discrete-event network between nodes: messages with loss, duplication, delay, reordering, damage,
//! partitions; nodes that crash and restart; at-least-once retransmission until acknowledged. All
//! faults are explicit steps of the trace; they stop at `heal_at`, after which everything must be
//! delivered within a bound.
use crate::ctx::{Ctx, Res};
use crate::rng::{mix64, Rng};
use crate::trace::Step;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Ev {
    Msg { from: usize, to: usize, id: u64, attempt: u64, bytes: Vec<u8>, damaged: bool },
    Timer { node: usize, tag: u64 },
    Crash { node: usize },
    Restart { node: usize },
}
#[derive(Clone, Debug)]
enum Q {
    Deliver { from: usize, to: usize, id: u64, attempt: u64, bytes: Vec<u8>, damaged: bool },
    Ack { id: u64 },
    Retry { id: u64, attempt: u64 },
    Timer { node: usize, tag: u64 },
    Crash { node: usize, down: u64 },
    Restart { node: usize },
}
struct Out {
    from: usize,
    to: usize,
    bytes: Vec<u8>,
}
pub const RTO: u64 = 200;
/// Messages must be through this long after the last fault.
pub const BOUND: u64 = 60 * RTO;

pub struct Net {
    pub now: u64,
    pub heal_at: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Q>,
    out: BTreeMap<u64, Out>,
    done: BTreeSet<u64>,
    acks_sent: BTreeMap<u64, u64>,
    pub down: Vec<bool>,
    drop: BTreeSet<(u64, u64)>,
    ackdrop: BTreeSet<(u64, u64)>,
    dup: BTreeMap<(u64, u64), u64>,
    delay: BTreeMap<(u64, u64), u64>,
    mutate: BTreeMap<(u64, u64), Vec<(u64, u64, u64)>>,
    parts: Vec<(u64, u64, usize, usize)>,
    /// other payloads in flight, for splicing
    seen: Vec<Vec<u8>>,
}
pub const FAULTS: [&str; 9] =
    ["f.drop", "f.ackdrop", "f.dup", "f.delay", "f.damage", "f.part", "f.crash", "f.dup2", "f.delay2"];

/// Damages a frame. Returns a copy, possibly equal to the input.
pub fn damage(b: &[u8], kind: u64, pos: u64, val: u64, other: Option<&[u8]>) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    let p = if n > 0 { (pos % n as u64) as usize } else { 0 };
    match kind % 8 {
        0 if n > 0 => v[p] ^= 1 << (val % 8),
        1 if n > 0 => v[p] ^= (val as u8).max(1),
        2 => v.truncate(p),
        3 => v.extend((0..1 + val % 40).map(|i| mix64(val ^ i) as u8)),
        4 if n > 0 => {
            let e = std::cmp::min(n, p + 1 + (val % 32) as usize);
            for x in &mut v[p..e] {
                *x = 0;
            }
        }
        5 if n > 1 => {
            let q = (val % n as u64) as usize;
            v.swap(p, q)
        }
        6 => {
            if let Some(o) = other {
                let e = std::cmp::min(n, o.len());
                if p < e {
                    v[p..e].copy_from_slice(&o[p..e]);
                }
            }
        }
        7 if n > 0 => {
            v[p] ^= 0x80;
            let q = (val % n as u64) as usize;
            v[q] ^= 0x80;
        }
        _ => {}
    }
    v
}

impl Net {
    pub fn new(steps: &[Step], nodes: usize) -> Net {
        let mut n = Net {
            now: 0,
            heal_at: 0,
            seq: 0,
            q: BTreeMap::new(),
            out: BTreeMap::new(),
            done: BTreeSet::new(),
            acks_sent: BTreeMap::new(),
            down: vec![false; nodes],
            drop: BTreeSet::new(),
            ackdrop: BTreeSet::new(),
            dup: BTreeMap::new(),
            delay: BTreeMap::new(),
            mutate: BTreeMap::new(),
            parts: vec![],
            seen: vec![],
        };
        for s in steps {
            let key = (s.arg(0), s.arg(1));
            match &s.k[..] {
                "f.drop" => {
                    n.drop.insert(key);
                }
                "f.ackdrop" => {
                    n.ackdrop.insert(key);
                }
                "f.dup" => {
                    n.dup.insert(key, s.arg(2) % 2000);
                }
                "f.delay" => {
                    n.delay.insert(key, s.arg(2) % 5000);
                }
                "f.damage" => n.mutate.entry(key).or_default().push((s.arg(2), s.arg(3), s.arg(4))),
                "f.part" => {
                    let t0 = s.arg(0) % 100_000;
                    let t1 = t0 + s.arg(1) % 10_000;
                    n.parts.push((t0, t1, s.usz(2) % nodes, s.usz(3) % nodes));
                    n.heal_at = n.heal_at.max(t1);
                }
                "f.crash" => {
                    let t = s.arg(0) % 100_000;
                    let down = 1 + s.arg(1) % 5_000;
                    n.heal_at = n.heal_at.max(t + down);
                    n.push(t, Q::Crash { node: s.usz(2) % nodes, down });
                }
                _ => {}
            }
        }
        n
    }
    fn push(&mut self, t: u64, q: Q) {
        self.seq += 1;
        self.q.insert((t, self.seq), q);
    }
    pub fn timer(&mut self, at: u64, node: usize, tag: u64) {
        let at = at.max(self.now);
        self.push(at, Q::Timer { node, tag });
    }
    /// At-least-once send: retransmitted until acknowledged. Ids are unique per message.
    pub fn post(&mut self, from: usize, to: usize, id: u64, bytes: Vec<u8>, ctx: &mut Ctx) {
        if self.done.contains(&id) {
            return;
        }
        self.seen.push(bytes.clone());
        self.out.insert(id, Out { from, to, bytes });
        self.transmit(id, 0, ctx);
    }
    /// Fire-and-forget send.
    pub fn send(&mut self, from: usize, to: usize, id: u64, bytes: Vec<u8>, ctx: &mut Ctx) {
        self.seen.push(bytes.clone());
        self.emit(from, to, id, 0, bytes, ctx);
    }
    fn transmit(&mut self, id: u64, attempt: u64, ctx: &mut Ctx) {
        let (from, to, bytes) = match self.out.get(&id) {
            Some(o) => (o.from, o.to, o.bytes.clone()),
            None => return,
        };
        if attempt > 0 {
            ctx.count("net.retransmissions");
        }
        if !self.down[from] {
            self.emit(from, to, id, attempt, bytes, ctx);
        }
        let t = self.now + RTO;
        self.push(t, Q::Retry { id, attempt: attempt + 1 });
    }
    fn partitioned(&self, a: usize, b: usize) -> bool {
        self.parts.iter().any(|&(t0, t1, x, y)| {
            self.now >= t0 && self.now < t1 && ((x == a && y == b) || (x == b && y == a) || (x == y && (a == x || b == x)))
        })
    }
    fn emit(&mut self, from: usize, to: usize, id: u64, attempt: u64, bytes: Vec<u8>, ctx: &mut Ctx) {
        ctx.count("net.sent");
        let key = (id, attempt);
        if self.partitioned(from, to) {
            ctx.fault("partition_loss");
            return;
        }
        if self.drop.contains(&key) {
            ctx.fault("message_loss");
            return;
        }
        let base = 5 + mix64(id ^ (attempt << 32)) % 40;
        let mut t = self.now + base;
        if let Some(d) = self.delay.get(&key) {
            ctx.fault("message_delay");
            t += d;
        }
        let mut frame = bytes.clone();
        if let Some(ms) = self.mutate.get(&key) {
            for &(k, p, v) in ms {
                let o = if self.seen.is_empty() { None } else { Some(&self.seen[(v % self.seen.len() as u64) as usize][..]) };
                frame = damage(&frame, k, p, v, o);
            }
        }
        let damaged = frame != bytes;
        if damaged {
            ctx.fault("message_damage");
        }
        if let Some(d) = self.dup.get(&key).copied() {
            ctx.fault("message_duplication");
            let t2 = self.now + base + d;
            self.push(t2, Q::Deliver { from, to, id, attempt, bytes: frame.clone(), damaged });
        }
        self.push(t, Q::Deliver { from, to, id, attempt, bytes: frame, damaged });
    }
    /// The receiver acknowledges; the acknowledgement may be lost too.
    pub fn ack(&mut self, id: u64, ctx: &mut Ctx) {
        let (from, to) = match self.out.get(&id) {
            Some(o) => (o.from, o.to),
            None => return,
        };
        let k = self.acks_sent.entry(id).or_insert(0);
        let n = *k;
        *k += 1;
        if self.ackdrop.contains(&(id, n)) || self.partitioned(from, to) {
            ctx.fault("ack_loss");
            return;
        }
        let t = self.now + 5 + mix64(id ^ (n << 20) ^ 77) % 20;
        self.push(t, Q::Ack { id });
    }
    pub fn pending(&self) -> usize {
        self.out.len()
    }
    /// Next event for the application; None when nothing is left to happen.
    pub fn next(&mut self, ctx: &mut Ctx) -> Res<Option<Ev>> {
        loop {
            let (&(t, s), _) = match self.q.iter().next() {
                Some(x) => x,
                None => return Ok(None),
            };
            let q = self.q.remove(&(t, s)).unwrap();
            self.now = t;
            ctx.sim_ms = ctx.sim_ms.max(t);
            if !self.out.is_empty() && t > self.heal_at + BOUND + 20_000 {
                return ctx.fail(
                    "no-progress",
                    format!("messages {:?} still undelivered {} ms after the last fault", self.out.keys().collect::<Vec<_>>(), t - self.heal_at),
                );
            }
            match q {
                Q::Deliver { from, to, id, attempt, bytes, damaged } => {
                    if self.down[to] {
                        ctx.fault("lost_at_crashed_node");
                        continue;
                    }
                    ctx.count("net.delivered");
                    return Ok(Some(Ev::Msg { from, to, id, attempt, bytes, damaged }));
                }
                Q::Ack { id } => {
                    if let Some(o) = self.out.get(&id) {
                        if self.down[o.from] {
                            continue;
                        }
                        self.out.remove(&id);
                        self.done.insert(id);
                    }
                }
                Q::Retry { id, attempt } => {
                    if self.out.contains_key(&id) {
                        self.transmit(id, attempt, ctx);
                    }
                }
                Q::Timer { node, tag } => return Ok(Some(Ev::Timer { node, tag })),
                Q::Crash { node, down } => {
                    if self.down[node] {
                        continue;
                    }
                    self.down[node] = true;
                    ctx.fault("crash");
                    let t = self.now + down;
                    self.push(t, Q::Restart { node });
                    return Ok(Some(Ev::Crash { node }));
                }
                Q::Restart { node } => {
                    self.down[node] = false;
                    ctx.fault("restart");
                    return Ok(Some(Ev::Restart { node }));
                }
            }
        }
    }
}
/// Draws fault steps for messages with the given ids. Faults stop after a few attempts and a bounded time.
pub fn gen_faults(r: &mut Rng, steps: &mut Vec<Step>, ids: &[u64], nodes: usize, horizon: u64, damage_ok: bool, crash_ok: bool) {
    if ids.is_empty() || r.chance(1, 8) {
        return; // fault-free configuration
    }
    // swarm: each run enables a random subset of the kinds, at a random rate
    let mask = r.next();
    let rate = 1 + r.below(6);
    for &id in ids {
        for attempt in 0..3u64 {
            if !r.chance(rate, 12) {
                continue;
            }
            match r.below(5) {
                0 if mask & 1 != 0 => steps.push(Step::new("f.drop", &[id, attempt])),
                1 if mask & 2 != 0 => steps.push(Step::new("f.dup", &[id, attempt, r.below(1500)])),
                2 if mask & 4 != 0 => steps.push(Step::new("f.delay", &[id, attempt, r.below(3000)])),
                3 if mask & 8 != 0 => steps.push(Step::new("f.ackdrop", &[id, attempt])),
                4 if damage_ok && mask & 16 != 0 => {
                    steps.push(Step::new("f.damage", &[id, attempt, r.below(8), r.next() >> 20, r.next() >> 20]))
                }
                _ => {}
            }
        }
    }
    if mask & 32 != 0 && nodes > 1 {
        for _ in 0..r.below(3) {
            steps.push(Step::new(
                "f.part",
                &[r.below(horizon.max(1)), 50 + r.below(2000), r.below(nodes as u64), r.below(nodes as u64)],
            ));
        }
    }
    if crash_ok && mask & 64 != 0 {
        for _ in 0..1 + r.below(2) {
            steps.push(Step::new("f.crash", &[r.below(horizon.max(1)), 20 + r.below(1500), r.below(nodes as u64)]));
        }
    }
}
