//! The single source of nondeterminism of a simulated run: a recorded sequence of choices.
//! Index 0 of every choice is meant to be the simplest one (no fault, first runnable, ...).

use std::cell::RefCell;
use std::rc::Rc;

pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// A plain order-sensitive hash of integers.
pub fn hash(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def1u64;
    for p in parts {
        h = mix64(h ^ mix64(*p));
    }
    h
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = mix64(bytes.len() as u64 ^ 0xabcdef);
    for c in bytes.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix64(h ^ u64::from_le_bytes(b));
    }
    h
}

#[derive(Debug)]
struct Inner {
    seed: u64,
    ctr: u64,
    salt_ctr: u64,
    replay: Option<Vec<u32>>,
    rec: Vec<u32>,
    bounds: Vec<u32>,
}

#[derive(Debug, Clone)]
pub struct Chooser(Rc<RefCell<Inner>>);

impl Chooser {
    pub fn new(seed: u64) -> Self {
        Self(Rc::new(RefCell::new(Inner {
            seed,
            ctr: 0,
            salt_ctr: 0,
            replay: None,
            rec: Vec::new(),
            bounds: Vec::new(),
        })))
    }

    pub fn replay(seed: u64, choices: Vec<u32>) -> Self {
        let c = Self::new(seed);
        c.0.borrow_mut().replay = Some(choices);
        c
    }

    pub fn recorded(&self) -> Vec<u32> {
        self.0.borrow().rec.clone()
    }

    pub fn count(&self) -> usize {
        self.0.borrow().rec.len()
    }

    fn next(&self, n: u32, gen: impl FnOnce(u64) -> u32) -> u32 {
        let mut s = self.0.borrow_mut();
        let i = s.ctr as usize;
        s.ctr += 1;
        let r = match &s.replay {
            Some(v) => v.get(i).copied().unwrap_or(0).min(n.saturating_sub(1)),
            None => gen(hash(&[s.seed, s.ctr])),
        };
        s.rec.push(r);
        s.bounds.push(n);
        r
    }

    /// Uniform index in `0..n`. `n == 0` is a harness bug; `n == 1` draws nothing.
    pub fn pick(&self, n: usize) -> usize {
        assert!(n > 0, "pick from nothing");
        if n == 1 {
            return 0;
        }
        self.next(n as u32, |r| (r % n as u64) as u32) as usize
    }

    /// `true` with the probability `permille / 1000`.
    pub fn chance(&self, permille: u32) -> bool {
        if permille == 0 {
            return false;
        }
        self.next(2, |r| ((r % 1000) < permille as u64) as u32) == 1
    }

    /// Weighted index.
    pub fn weighted(&self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        assert!(total > 0, "no positive weight");
        if weights.iter().filter(|w| **w > 0).count() == 1 {
            return weights.iter().position(|w| *w > 0).unwrap();
        }
        let i = self.next(weights.len() as u32, |r| {
            let mut x = r % total;
            for (i, w) in weights.iter().enumerate() {
                if x < *w as u64 {
                    return i as u32;
                }
                x -= *w as u64;
            }
            unreachable!()
        }) as usize;
        // In a replay the recorded index may point at a choice that is not available any more.
        if weights[i] == 0 {
            weights.iter().position(|w| *w > 0).unwrap()
        } else {
            i
        }
    }

    /// A value derived from the seed which is not subject to minimisation.
    pub fn salt(&self) -> u64 {
        let mut s = self.0.borrow_mut();
        s.salt_ctr += 1;
        hash(&[s.seed, 0x5a17, s.salt_ctr])
    }

    pub fn seed(&self) -> u64 {
        self.0.borrow().seed
    }

    pub fn subset<T: Clone>(&self, items: &[T], permille: u32) -> Vec<T> {
        items.iter().filter(|_| self.chance(permille)).cloned().collect()
    }
}
