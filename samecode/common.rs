// Included in the drivers: a source of inputs and a running hash of what came out.
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn int(&mut self) -> u64 { let b = self.below(65); if b == 0 { 0 } else { (self.next() >> (64 - b)).wrapping_add(self.below(3)).wrapping_sub(1) } }
    fn bytes(&mut self, n: u64) -> Vec<u8> { let n = self.below(n + 1); (0..n).map(|_| self.next() as u8).collect() }
    fn text(&mut self, n: u64) -> Vec<u8> { let n = self.below(n + 1); (0..n).map(|_| b"etaoin shrdlu0123:/.XZ~\x00\xff"[self.below(25) as usize]).collect() }
}
struct Out { h: u64, n: u64, kinds: [u64; 8] }
impl Out {
    fn put(&mut self, b: &[u8]) { self.num(b.len() as u64); for x in b { self.h = (self.h ^ *x as u64).wrapping_mul(0x100000001b3); } }
    fn num(&mut self, v: u64) { self.h = (self.h ^ v).wrapping_mul(0x100000001b3).rotate_left(9); self.n += 1; }
    fn kind(&mut self, k: u64) { self.num(k); self.kinds[(k % 8) as usize] += 1; }
    fn end(self, name: &str) { println!("{} {:016x} {} values, results {:?}", name, self.h, self.n, self.kinds); }
}
fn out() -> Out { Out { h: 0xcbf29ce484222325, n: 0, kinds: [0; 8] } }
fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
fn guard(o: &mut Out, f: impl FnOnce(&mut Out)) {
    let mut x = out();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { f(&mut x); }));
    o.num(x.h);
    o.n += x.n;
    for i in 0..8 { o.kinds[i] += x.kinds[i]; }
    if r.is_err() { o.kind(7); }
}
