//! Choice source: all randomness of the engine. Tapes of choices are drawn from proptest
//! strategies by one seeded TestRunner per check, so that a run is a pure function of the seed and
//! the code. A Src interprets one tape.

use proptest::prelude::*;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

pub struct Src {
    tape: Vec<u32>,
    pos: usize,
    zeros: bool,
}

impl Src {
    pub fn new(tape: Vec<u32>) -> Src {
        Src { tape, pos: 0, zeros: false }
    }
    /// All choices after the end of the tape are 0.
    pub fn zeros(tape: Vec<u32>) -> Src {
        Src { tape, pos: 0, zeros: true }
    }
    /// How much of the tape was read
    pub fn used(&self) -> usize {
        self.pos.min(self.tape.len())
    }
    fn raw(&mut self) -> u32 {
        let v = self.tape.get(self.pos).copied();
        self.pos += 1;
        match v {
            Some(v) => v,
            None if self.zeros => 0,
            None => {
                // The tape ran out: continue with a fixed function of its content, so that long
                // generations do not degenerate to constant choices.
                let last = self.tape.len().max(1);
                let a = self.tape.get(self.pos % last).copied().unwrap_or(0);
                let mut x = a ^ (self.pos as u32).wrapping_mul(0x9E37_79B9);
                x ^= x >> 15;
                x = x.wrapping_mul(0x85EB_CA6B);
                x ^= x >> 13;
                x
            }
        }
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// Draws tapes from proptest.
pub struct Gen {
    runner: TestRunner,
}

impl Gen {
    pub fn new(seed: u64, stream: &str) -> Gen {
        let mut bytes = [0u8; 32];
        bytes[..8].copy_from_slice(&seed.to_le_bytes());
        for (i, b) in stream.bytes().enumerate() {
            bytes[8 + i % 24] ^= b.wrapping_add(i as u8);
        }
        let config = Config {
            failure_persistence: None,
            ..Config::default()
        };
        Gen {
            runner: TestRunner::new_with_rng(
                config,
                TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
            ),
        }
    }

    pub fn tape(&mut self, len: usize) -> Vec<u32> {
        let strategy = proptest::collection::vec(any::<u32>(), len..=len);
        strategy.new_tree(&mut self.runner).unwrap().current()
    }
    pub fn src(&mut self, len: usize) -> Src {
        Src::new(self.tape(len))
    }
}
