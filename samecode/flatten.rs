fn flatten_parse() {
    let mut r = Rng(12);
    let mut o = out();
    for k in 0..400u64 {
        // a prefix-free code, made by splitting codes
        let mut codes: Vec<(u8, u32)> = vec![(1, 0), (1, 1)];
        for _ in 0..r.below(40) {
            let i = r.below(codes.len() as u64) as usize;
            let (n, c) = codes[i];
            if n < 25 { codes[i] = (n + 1, c << 1); codes.push((n + 1, c << 1 | 1)); }
        }
        if k % 5 == 0 { codes.pop(); }
        let mut text = String::new();
        for (n, c) in &codes {
            let bits: String = (0..*n).map(|i| if c >> (n - 1 - i) & 1 == 1 { '1' } else { '0' }).collect();
            let mut f = String::new();
            for (i, x) in bits.chars().enumerate() { if i % 8 == 0 { f.push('|'); } f.push(x); }
            text += &format!("    ( {:3})  {:<33}     {:>8x}  [{:2}]\n", 7, f, c, n);
        }
        guard(&mut o, |o| {
            let t = flattener::flatten(&codes, SPEEDS[(k % 5) as usize]);
            o.kind(t.len() as u64 % 7);
            for row in &t { for e in row { o.num(e.0.map_or(999, |x| x as u64)); o.num(e.1.map_or(99999, |x| x as u64)); o.num(e.2 as u64); } }
        });
        guard(&mut o, |o| { for (n, c) in parser::parse(&text) { o.num(n as u64); o.num(c as u64); } o.kind(0); });
    }
    o.end("flatten");
}
