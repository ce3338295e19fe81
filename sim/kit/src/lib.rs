//! The simulator: seeded randomness, traces, discrete-event network, thread scheduler, coverage and
//! step counting, fault seams, and the runner that executes, minimises, replays and reports.
pub mod cov;
pub mod ctx;
pub mod net;
pub mod refm;
pub mod rng;
pub mod runner;
pub mod sched;
pub mod seams;
pub mod trace;

pub use ctx::{guard, Ctx, Res, Viol};
pub use rng::Rng;
pub use trace::{Step, Trace};

/// One simulated property: a seeded generator of scenarios and a deterministic executor.
pub struct Prop {
    pub id: &'static str,
    /// runs per tier
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// basic-block budget of one run; exceeding it is a liveness violation
    pub step_budget: u64,
    /// one run in so many is repeated in one process (0: none, the property does so by itself)
    pub again: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub gen: fn(&mut Rng, thorough: bool) -> Vec<Step>,
    pub exec: fn(&[Step], &mut Ctx) -> Res<()>,
}
