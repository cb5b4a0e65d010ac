//! Coverage-guided search: keeps the choices of cases that did something new
//! in the code under test, and varies them.
use crate::cov::{self, Coverage};
use crate::engine::mix;

struct Entry {
    choices: Vec<u64>,
    index: u64,
}

pub struct Guide {
    state: u64,
    cov: Coverage,
    corpus: Vec<Entry>,
    size: usize,
}

const MAX_CHOICES: usize = 20_000;
const MAX_CORPUS: usize = 4_000_000;

impl Guide {
    pub fn new(seed: u64) -> Guide {
        Guide {
            state: seed,
            cov: Coverage::new(),
            corpus: Vec::new(),
            size: 0,
        }
    }

    pub fn useful(&self) -> bool {
        cov::available() && !self.corpus.is_empty()
    }

    pub fn features(&self) -> usize {
        self.cov.features
    }

    /// Takes note of the case that was just run.
    pub fn learn(&mut self, choices: &[u64], index: u64) {
        if self.cov.add() > 0
            && !choices.is_empty()
            && choices.len() <= MAX_CHOICES
            && self.size + choices.len() <= MAX_CORPUS
        {
            self.size += choices.len();
            self.corpus.push(Entry {
                choices: choices.to_vec(),
                index,
            });
        }
    }

    fn rnd(&mut self, n: usize) -> usize {
        self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        ((u128::from(mix(self.state)) * n as u128) >> 64) as usize
    }

    fn any(&mut self) -> usize {
        let n = self.corpus.len();
        // Newer ones, which were harder to come by, more often.
        match self.rnd(3) {
            0 => self.rnd(n),
            1 => n - 1 - self.rnd(n.div_ceil(4)),
            _ => n - 1 - self.rnd(n.min(24)),
        }
    }

    /// The choices to try next.
    pub fn next(&mut self) -> (Vec<u64>, u64) {
        let mut at = self.any();
        // Rather a small one.
        for _ in 0..self.rnd(3) {
            let other = self.any();
            if self.corpus[other].choices.len() < self.corpus[at].choices.len()
            {
                at = other;
            }
        }
        let index = self.corpus[at].index;
        let mut c = self.corpus[at].choices.clone();
        let n = 1 + self.rnd(4) + if self.rnd(4) == 0 { self.rnd(12) } else { 0 };
        for _ in 0..n {
            self.mutate(&mut c);
            c.truncate(MAX_CHOICES);
        }
        // What follows the end of the choices is simple, or random.
        if self.rnd(2) == 0 {
            for _ in 0..64 {
                let v = self.value();
                c.push(v);
            }
        }
        (c, index)
    }

    fn value(&mut self) -> u64 {
        match self.rnd(5) {
            0 => self.rnd(3) as u64,
            1 => self.rnd(16) as u64,
            2 => self.rnd(300) as u64,
            _ => {
                self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                mix(self.state) >> 1
            }
        }
    }

    fn span(&mut self, len: usize) -> (usize, usize) {
        let i = self.rnd(len + 1);
        let most = (len - i).min(*[2, 6, 20, 100].get(self.rnd(4)).unwrap());
        (i, i + self.rnd(most + 1))
    }

    fn mutate(&mut self, c: &mut Vec<u64>) {
        let len = c.len();
        match self.rnd(9) {
            // Another value.
            0..=2 if len > 0 => {
                let i = self.rnd(len);
                c[i] = match self.rnd(4) {
                    0 => c[i].wrapping_add(1),
                    1 => c[i].saturating_sub(1),
                    _ => self.value(),
                };
            }
            // Leave some out.
            3 => {
                let (i, j) = self.span(len);
                c.drain(i..j);
            }
            // Put some in.
            4 => {
                let i = self.rnd(len + 1);
                let n = 1 + self.rnd(8);
                let vs: Vec<u64> = (0..n).map(|_| self.value()).collect();
                c.splice(i..i, vs);
            }
            // Repeat some.
            5 => {
                let (i, j) = self.span(len);
                let part = c[i..j].to_vec();
                let times = *[1, 1, 2, 4, 8, 16].get(self.rnd(6)).unwrap();
                for _ in 0..times {
                    c.splice(j..j, part.iter().copied());
                }
            }
            // Copy some over elsewhere.
            6 => {
                let (i, j) = self.span(len);
                let part = c[i..j].to_vec();
                let k = self.rnd(len + 1);
                if self.rnd(2) == 0 {
                    c.splice(k..k, part);
                } else {
                    let e = (k + part.len()).min(len);
                    c.splice(k..e, part);
                }
            }
            // Take some from another case.
            7 => {
                let o = self.any();
                let (i, j) = self.span(self.corpus[o].choices.len());
                let part = self.corpus[o].choices[i..j].to_vec();
                let k = self.rnd(len + 1);
                c.splice(k..k, part);
            }
            // Go on like another case.
            _ => {
                let o = self.any();
                let m = self.corpus[o].choices.len();
                let i = self.rnd(len + 1);
                let j = if self.rnd(2) == 0 { i.min(m) } else { self.rnd(m + 1) };
                c.truncate(i);
                c.extend_from_slice(&self.corpus[o].choices[j..]);
            }
        }
    }
}
