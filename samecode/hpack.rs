fn dec_kind<T>(r: &Result<T, DecoderError>) -> u64 {
    match r {
        Ok(_) => 0, Err(DecoderError::InvalidIndex) => 1, Err(DecoderError::InvalidInput) => 2, Err(DecoderError::IntegerUnderflow) => 3,
        Err(DecoderError::IntegerOverflow) => 4, Err(DecoderError::InvalidMaxDynamicSize) => 5, Err(_) => 6,
    }
}
fn hpack() {
    let mut r = Rng(13);
    let mut o = out();
    for k in 0..1500u64 {
        guard(&mut o, |o| {
            let m = [0u64, 40, 100, 300, 4096, 70000][r.below(6) as usize] as u32;
            let (mut e, mut d) = (Encoder::with_dynamic_size(m), Decoder::with_dynamic_size(m));
            if k % 7 == 0 { e = Encoder::default(); d = Decoder::default(); d.set_max_dynamic_size(m); }
            let mut wire = vec![];
            let mut rest = vec![];
            let mut got = vec![];
            for _ in 0..r.below(30) {
                let f = r.below(32) as u8;
                let i = if r.below(5) == 0 { r.int() as u32 } else { r.below(75) as u32 };
                let x = match r.below(6) {
                    0 => e.encode(i, &mut wire),
                    1 => e.encode((i, r.text(20), f), &mut wire),
                    2 => e.update_max_dynamic_size(if r.below(3) == 0 { r.int() as u32 & 0xffff } else { r.below(m as u64 + 2) as u32 }, &mut wire),
                    3 => e.encode((b":path".to_vec(), r.text(8), f), &mut wire),
                    4 => e.encode((r.bytes(3), r.bytes(200), f), &mut wire),
                    _ => e.encode((r.text(1), r.text(1), f | 0x10), &mut wire),
                };
                o.kind(if x.is_ok() { 0 } else { 1 });
                o.num(e.max_dynamic_size() as u64);
                if r.below(4) == 0 {
                    o.put(&wire);
                    if r.below(6) == 0 && !wire.is_empty() { let n = r.below(wire.len() as u64) as usize; wire[n] = r.next() as u8; }
                    if r.below(6) == 0 && !wire.is_empty() { let n = r.below(wire.len() as u64) as usize; wire.truncate(n); }
                    rest.append(&mut wire);
                    let n0 = got.len();
                    let x = if r.below(3) == 0 { let mut one = Vec::with_capacity(1); let x = d.decode_exact(&mut rest, &mut one); got.append(&mut one); x } else { d.decode(&mut rest, &mut got) };
                    o.kind(dec_kind(&x));
                    o.num(x.unwrap_or(7777) as u64);
                    o.put(&rest);
                    for (a, b, c) in &got[n0..] { o.put(a); o.put(b); o.num(*c as u64); }
                    o.num(d.max_dynamic_size() as u64);
                    if r.below(3) == 0 { rest.clear(); }
                }
            }
        });
    }
    o.end("hpack");
    let mut o = out();
    for _ in 0..200 {
        guard(&mut o, |o| {
            let mut t = Table::with_dynamic_size(r.below(400) as u32);
            for _ in 0..r.below(20) {
                if r.below(4) == 0 { t.update_max_dynamic_size(r.below(500) as u32); } else { t.insert(r.text(2), r.text(40)); }
                for v in [t.len() as u64, t.dynamic_len() as u64, t.dynamic_size() as u64, t.max_dynamic_size() as u64] { o.num(v); }
                for i in 0..80 { match t.get(i) { None => o.num(0), Some((a, b)) => { o.put(a); o.put(b); } } }
                let (a, b) = (r.text(2), r.text(1));
                match t.find(&a, &b) { None => o.kind(0), Some((i, f)) => { o.kind(1 + f as u64); o.num(i as u64); } }
                match t.find(b":method", if r.below(2) == 0 { b"GET" } else { b"PUT" }) { None => o.kind(0), Some((i, f)) => { o.kind(1 + f as u64); o.num(i as u64); } }
                let mut it = t.iter();
                while let Some((a, b)) = it.next() { o.put(a); o.put(b); }
            }
        });
    }
    o.end("table");
}
