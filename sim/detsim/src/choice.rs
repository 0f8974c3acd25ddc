//! Choice streams: every decision of a run (workload, schedule, fault) is drawn from a named stream.
//! In random mode a stream is a PRNG seeded from (run seed, stream); every drawn value is recorded.
//! In replay mode the recorded values are returned (0 once the record is exhausted), so a run is a
//! pure function of its choice file, and a smaller file is a simpler run.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Stream {
    Work = 0,
    Sched = 1,
    Fault = 2,
    Os = 3,
}
pub const NSTREAMS: usize = 4;
pub const STREAM_NAMES: [&str; NSTREAMS] = ["work", "sched", "fault", "os"];

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut next = || {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        Rng { s: [next(), next(), next(), next()] }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

#[derive(Clone, Default, Serialize, Deserialize, PartialEq, Debug)]
pub struct Record {
    pub streams: Vec<Vec<u64>>,
}
impl Record {
    pub fn total(&self) -> usize {
        self.streams.iter().map(|s| s.len()).sum()
    }
}

pub struct Choices {
    rng: Option<Vec<Rng>>,
    replay: Record,
    pos: [usize; NSTREAMS],
    pub log: Record,
    pub record_limit: usize,
}
impl Choices {
    pub fn random(seed: u64) -> Self {
        let rng = (0..NSTREAMS).map(|i| Rng::new(seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(i as u64 * 7919 + 1))).collect();
        Self { rng: Some(rng), replay: Record::default(), pos: [0; NSTREAMS], log: Record { streams: vec![vec![]; NSTREAMS] }, record_limit: 4_000_000 }
    }
    pub fn replay(mut r: Record) -> Self {
        r.streams.resize(NSTREAMS, vec![]);
        Self { rng: None, replay: r, pos: [0; NSTREAMS], log: Record { streams: vec![vec![]; NSTREAMS] }, record_limit: 4_000_000 }
    }
    pub fn is_random(&self) -> bool {
        self.rng.is_some()
    }
    /// Draw a value below `n`. `pick` maps a raw random number to the value in random mode (so that
    /// distributions can be skewed); 0 must be the simplest value.
    pub fn draw(&mut self, s: Stream, n: u64, pick: impl FnOnce(&mut Rng) -> u64) -> u64 {
        debug_assert!(n > 0);
        let i = s as usize;
        let v = match &mut self.rng {
            Some(r) => pick(&mut r[i]).min(n - 1),
            None => {
                let p = self.pos[i];
                self.pos[i] += 1;
                let v = self.replay.streams[i].get(p).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
        };
        if self.log.streams[i].len() < self.record_limit {
            self.log.streams[i].push(v);
        }
        v
    }
    pub fn below(&mut self, s: Stream, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.draw(s, n, |r| r.next() % n)
    }
    /// true with probability num/den; false is the simple value.
    pub fn chance(&mut self, s: Stream, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.draw(s, 2, |r| (r.next() % den < num) as u64) == 1
    }
}
