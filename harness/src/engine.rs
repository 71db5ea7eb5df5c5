//! Choice-sequence property-testing engine.
//!
//! A case is a pure function of two streams of small integers ("choices"):
//! stream 0 decides the program, stream 1 everything the environment decides
//! (schedule, stale loads, spurious failures, time). When exploring, choices
//! come from a PRNG seeded by (seed, suite, case index) and are recorded; when
//! replaying or shrinking they come from a recorded pair of vectors (missing
//! choices are 0, too large ones are clamped), so every recorded pair is a
//! complete, deterministic reproduction.

use std::cell::UnsafeCell;

pub const PROG: usize = 0;
pub const ENV: usize = 1;

#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
pub struct Choices {
    pub s: [Vec<u32>; 2],
}

#[derive(Clone, Copy)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E3779B97F4A7C15)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a.wrapping_mul(0xD6E8FEB86659FD93) ^ b.rotate_left(29));
    r.next();
    r.next() ^ b
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Src {
    rng: Rng,
    replay: bool,
    inp: Choices,
    pos: [usize; 2],
    pub rec: Choices,
}

struct Global<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Global<T> {}
static SRC: Global<Src> = Global(UnsafeCell::new(None));

pub fn src() -> &'static mut Src {
    unsafe {
        (*SRC.0.get()).get_or_insert_with(|| Src {
            rng: Rng::new(0),
            replay: false,
            inp: Choices::default(),
            pos: [0; 2],
            rec: Choices::default(),
        })
    }
}

impl Src {
    pub fn start_random(&mut self, seed: u64) {
        self.rng = Rng::new(seed);
        self.replay = false;
        self.pos = [0; 2];
        self.rec.s[0].clear();
        self.rec.s[1].clear();
    }
    pub fn start_replay(&mut self, c: &Choices) {
        self.replay = true;
        self.inp = c.clone();
        self.pos = [0; 2];
        self.rec.s[0].clear();
        self.rec.s[1].clear();
    }
    /// A value in `0..n`.
    #[inline]
    pub fn draw(&mut self, stream: usize, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = if self.replay {
            let p = self.pos[stream];
            self.pos[stream] = p + 1;
            let v = self.inp.s[stream].get(p).copied().unwrap_or(0);
            v.min(n - 1)
        } else {
            ((self.rng.next() >> 32) * n as u64 >> 32) as u32
        };
        if self.rec.s[stream].len() < 200_000 {
            self.rec.s[stream].push(v);
        }
        v
    }
}

#[inline]
pub fn gen(n: u32) -> u32 {
    src().draw(PROG, n)
}
/// true with probability num/den; shrinks towards false.
#[inline]
pub fn chance(num: u32, den: u32) -> bool {
    src().draw(PROG, den) >= den - num
}
/// Index into `w`, chosen by weight; shrinks towards index 0.
pub fn weighted(w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    let mut x = gen(total);
    for (i, &k) in w.iter().enumerate() {
        if x < k {
            return i;
        }
        x -= k;
    }
    0
}
#[inline]
pub fn env(n: u32) -> u32 {
    src().draw(ENV, n)
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Failure {
    pub kind: &'static str,
    pub msg: String,
}

/// Result of one executed case.
#[derive(Default, Clone)]
pub struct Report {
    pub failure: Option<Failure>,
    /// non-trivial by the suite's rule
    pub nontrivial: bool,
    /// hash identifying the case (program and observed behaviour)
    pub sig: u64,
    /// human-readable description (filled only when asked for)
    pub desc: String,
    /// class labels, for the distribution
    pub labels: Vec<&'static str>,
}

pub type CaseFn = fn(describe: bool) -> Report;

pub fn run_replay(f: CaseFn, c: &Choices, describe: bool) -> (Report, Choices) {
    src().start_replay(c);
    let r = f(describe);
    let mut rec = src().rec.clone();
    // drop trailing zeros: they are implied
    for s in rec.s.iter_mut() {
        while s.last() == Some(&0) {
            s.pop();
        }
    }
    (r, rec)
}

/// Shrinks `c` while `f` keeps failing with the same kind.
pub fn shrink(f: CaseFn, kind: &str, c: Choices, budget: std::time::Duration) -> (Choices, Report) {
    let deadline = std::time::Instant::now() + budget;
    let mut runs = 0u32;
    let mut best = c;
    let mut attempt = |cand: &Choices, best: &mut Choices| -> bool {
        runs += 1;
        let (r, rec) = run_replay(f, cand, false);
        match r.failure {
            Some(ref fl) if fl.kind == kind => {
                let size = |c: &Choices| {
                    (
                        c.s[0].len() + c.s[1].len(),
                        c.s[0].iter().chain(c.s[1].iter()).map(|&x| x as u64).sum::<u64>(),
                    )
                };
                if size(&rec) < size(best) {
                    *best = rec;
                    true
                } else {
                    false
                }
            }
            _ => false,
        }
    };
    let mut improved = true;
    while improved && std::time::Instant::now() < deadline {
        improved = false;
        for st in [ENV, PROG] {
            // truncate
            let mut len = best.s[st].len();
            while len > 0 {
                let mut cand = best.clone();
                cand.s[st].truncate(len / 2);
                if attempt(&cand, &mut best) {
                    improved = true;
                    len = best.s[st].len();
                } else {
                    break;
                }
            }
            // delete / zero chunks
            for mode in 0..2 {
                let mut chunk = (best.s[st].len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.s[st].len() {
                        if std::time::Instant::now() > deadline {
                            break;
                        }
                        let end = (i + chunk).min(best.s[st].len());
                        let mut cand = best.clone();
                        if mode == 0 {
                            cand.s[st].drain(i..end);
                        } else {
                            if cand.s[st][i..end].iter().all(|&x| x == 0) {
                                i = end;
                                continue;
                            }
                            cand.s[st][i..end].iter_mut().for_each(|x| *x = 0);
                        }
                        if attempt(&cand, &mut best) {
                            improved = true;
                        } else {
                            i = end;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                }
            }
            // lower single values
            let mut i = 0;
            while i < best.s[st].len() {
                if std::time::Instant::now() > deadline {
                    break;
                }
                let v = best.s[st][i];
                for cand_v in [v / 2, v.saturating_sub(1)] {
                    if cand_v < v && i < best.s[st].len() {
                        let mut cand = best.clone();
                        cand.s[st][i] = cand_v;
                        if attempt(&cand, &mut best) {
                            improved = true;
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
    }
    let (r, _) = run_replay(f, &best, true);
    (best, r)
}
