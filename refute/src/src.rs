//! A source of choices: random, replayed, or enumerated depth first.
use std::sync::OnceLock;

pub struct Dict { pub ints: Vec<u64>, pub strs: Vec<Vec<u8>> }
pub static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict { DICT.get_or_init(|| Dict { ints: vec![], strs: vec![] }) }

enum Mode { Random(u64), Replay(usize), Dfs(usize) }

pub struct Src {
    mode: Mode,
    /// what was chosen, and out of how many
    pub log: Vec<(u64, u64)>,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub trivial: bool,
}

impl Src {
    pub fn random(seed: u64) -> Src { Src { mode: Mode::Random(seed ^ 0x9e3779b97f4a7c15), log: vec![], verbose: false, notes: vec![], trivial: false } }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(0), log: choices.into_iter().map(|c| (c, 0)).collect(), verbose: false, notes: vec![], trivial: false }
    }
    pub fn dfs(prefix: Vec<(u64, u64)>) -> Src { Src { mode: Mode::Dfs(0), log: prefix, verbose: false, notes: vec![], trivial: false } }
    pub fn enumerating(&self) -> bool { matches!(self.mode, Mode::Dfs(_)) }
    /// The next prefix in depth-first order, or None when all were visited.
    pub fn next_prefix(mut log: Vec<(u64, u64)>) -> Option<Vec<(u64, u64)>> {
        while let Some((c, n)) = log.pop() {
            if c + 1 < n { log.push((c + 1, n)); return Some(log); }
        }
        None
    }
    fn next(&mut self) -> u64 {
        if let Mode::Random(s) = &mut self.mode {
            *s = s.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = *s;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            return z ^ (z >> 31);
        }
        0
    }
    /// A number below n.
    pub fn below(&mut self, n: u64) -> u64 {
        match &mut self.mode {
            Mode::Random(_) => {
                let c = if n == 0 { self.next() } else { self.next() % n };
                self.log.push((c, n));
                c
            }
            Mode::Replay(i) => {
                let c = if *i < self.log.len() { self.log[*i].0 } else { self.log.push((0, n)); 0 };
                let c = if n == 0 { c } else { c % n };
                self.log[*i] = (c, n);
                *i += 1;
                c
            }
            Mode::Dfs(i) => {
                if *i == self.log.len() { self.log.push((0, n)); }
                let c = self.log[*i].0;
                *i += 1;
                c
            }
        }
    }
    /// What was drawn so far, cut to what was really used.
    pub fn used(&self) -> Vec<u64> {
        let n = match self.mode { Mode::Replay(i) | Mode::Dfs(i) => i, _ => self.log.len() };
        self.log[..n].iter().map(|x| x.0).collect()
    }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == n - 1 }
    pub fn pick<T: Clone>(&mut self, s: &[T]) -> T { s[self.below(s.len() as u64) as usize].clone() }
    pub fn u8(&mut self) -> u8 { self.below(256) as u8 }
    /// A number of at most `bits` bits, with a taste for the special ones.
    pub fn int(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let v = match self.below(8) {
            0 => self.below(4),
            1 => self.below(300),
            2 | 3 => { // near a power of two
                let p = self.below(bits as u64 + 1);
                let b = if p >= 64 { 0 } else { 1u64 << p };
                b.wrapping_add(self.below(7)).wrapping_sub(3)
            }
            4 | 5 => { // near a number of the source
                let d = dict();
                if d.ints.is_empty() { self.below(256) } else {
                    let k = self.below(d.ints.len() as u64) as usize;
                    let x = d.ints[k].wrapping_add(self.below(5)).wrapping_sub(2);
                    if self.one_in(8) { x.wrapping_neg() } else { x }
                }
            }
            6 => { let w = self.below(bits as u64) + 1; self.below(0) >> (64 - w) }
            _ => self.below(0),
        };
        v & mask
    }
    /// A length up to max: mostly small, now and then near a special number.
    pub fn len(&mut self, max: usize) -> usize {
        let v = match self.below(12) {
            0..=4 => self.below(5) as usize,
            5..=8 => self.below(24) as usize,
            9 => self.below(max.min(400) as u64 + 1) as usize,
            10 => { let p = self.below(17); ((1usize << p) + self.below(5) as usize).saturating_sub(2) }
            _ => {
                let d = dict();
                if d.ints.is_empty() { 1 } else {
                    let k = self.below(d.ints.len() as u64) as usize;
                    (d.ints[k] as usize).wrapping_add(self.below(3) as usize).wrapping_sub(1)
                }
            }
        };
        if v > max { v % (max + 1) } else { v }
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let kind = self.below(8);
        if kind == 7 && !dict().strs.is_empty() {
            let k = self.below(dict().strs.len() as u64) as usize;
            let mut v = dict().strs[k].clone();
            v.truncate(max);
            return v;
        }
        let n = self.len(max);
        match kind {
            0 => { let b = self.u8(); vec![b; n] }
            1 => (0..n).map(|_| self.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xff, 0xfe, b'a', b'z'])).collect(),
            2 | 3 => (0..n).map(|_| 32 + self.below(95) as u8).collect(),
            _ => { if n > 64 { let mut r = self.below(0) | 1; (0..n).map(|_| { r ^= r << 13; r ^= r >> 7; r ^= r << 17; r as u8 }).collect() } else { (0..n).map(|_| self.u8()).collect() } }
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) { if self.verbose { let s = f(); self.notes.push(s); } }
}
