const SPEEDS: [DecoderSpeed; 5] = [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits];
fn huffman() {
    let mut r = Rng(11);
    let mut o = out();
    for _ in 0..3000 {
        let s = if r.below(2) == 0 { r.bytes(60) } else { r.text(90) };
        guard(&mut o, |o| {
            let mut d = vec![1];
            o.kind(match encode(&s, &mut d) { Ok(_) => 0, Err(_) => 1 });
            o.put(&d);
            let sp = SPEEDS[(s.len() % 5) as usize];
            let mut e = d[1..].to_vec();
            if s.len() % 3 == 0 { e.push(s.len() as u8); }
            if s.len() % 4 == 1 { let n = e.len(); e[n / 2] ^= 0x10; }
            let mut b = vec![9];
            o.kind(match decode(&e, &mut b, sp) { Ok(_) => 0, Err(_) => 1 });
            o.put(&b);
            let mut b = vec![];
            o.kind(match decode(&s, &mut b, sp) { Ok(_) => 0, Err(_) => 1 });
            o.put(&b);
        });
    }
    for sp in SPEEDS { o.num(sp as u64); }
    for sp in DecoderSpeed::known() { o.num(sp as u64); }
    o.end("huffman");
}
