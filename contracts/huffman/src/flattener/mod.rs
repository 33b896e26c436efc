/*@@ use crate::fspec::*; broadcast use {lemma_shl32, lemma_shr32, axiom_cloned_entry}; @@*/
use crate::DecoderSpeed;

pub fn flatten(
    codings: &[(u8, u32)],
    speed: DecoderSpeed,
) -> Vec<Vec<(Option<u8>, Option<u16>, u8)>>
    /*@ requires coding_all(codings@)
        ensures shaped(codings@, (speed as usize) as int, ret@), ret@.len() <= 256 ==> flat_ok(codings@, (speed as usize) as int, ret@) @*/
{
    let speed = speed as usize;
    let blank_transition = generate_blank_transition(speed);

    let mut table: Vec<Vec<(Option<u8>, Option<u16>, u8)>> = Vec::new();
    table.push(blank_transition.clone());
    /*@ let ghost cs = codings@; let ghost s = speed as int;
    let ghost mut paths = seq![Seq::<bool>::empty()];
    proof { lemma_good_start(cs, s, table@); } @*/

    for (ascii, coding) in codings.iter().enumerate()
        /*@ invariant coding_all(cs), s == speed, 1 <= s <= 5, blank(s, blank_transition@), shaped(cs, s, table@),
            table@.len() <= 256 ==> good(cs, s, ascii as int, 0, 0, table@, paths) @*/
    {
        /*@ let ghost n = ascii as int; let ghost c = *coding; let ghost lo = clo(c.0 as int, s); let ghost nk = nkeys(c.0 as int, s);
        proof { assert(coding_ok(cs[n])); lemma_chunks(c.0 as int, s); lemma_pow2i(lo); } @*/
        let leftover = (coding.0 as f32 / speed as f32).ceil() as usize * speed - coding.0 as usize;
        let mut id = 0;

        for (path_index, keys) in generate_coding_paths(coding, speed).iter().enumerate()
            /*@ invariant coding_all(cs), s == speed, 1 <= s <= 5, blank(s, blank_transition@), shaped(cs, s, table@), n == ascii, 0 <= n < cs.len(), cs[n] == c, coding_ok(c),
                lo == clo(c.0 as int, s), nk == nkeys(c.0 as int, s), leftover == lo, 0 <= lo < s, nk >= 1, id < table@.len(),
                path_index == 0 ==> id == 0,
                table@.len() <= 256 && path_index == 0 ==> good(cs, s, n, 0, 0, table@, paths),
                table@.len() <= 256 && path_index > 0 ==> good(cs, s, n, nk, path_index as int, table@, paths) && paths[id as int] == cb(c).take((nk - 1) * s) @*/
        {
            /*@ proof { assert(variant_ok(keys@, c, s, path_index as int)); } @*/

            if path_index == 0 {
                /*@ proof { if table@.len() <= 256 { lemma_first_row(cs, s, n, table@, paths); } } @*/
                for key_index in 0..keys.len() - 1
                    /*@ invariant coding_all(cs), s == speed, 1 <= s <= 5, blank(s, blank_transition@), shaped(cs, s, table@), 0 <= n < cs.len(), cs[n] == c, coding_ok(c),
                        nk == nkeys(c.0 as int, s), nk >= 1, variant_ok(keys@, c, s, 0), id < table@.len(),
                        table@.len() <= 256 ==> table@.len() == paths.len(),
                        table@.len() <= 256 ==> good(cs, s, n, key_index + 1, 0, table@, paths) && paths[id as int] == cb(c).take(key_index * s) @*/
                {
                    /*@ let ghost t0 = table@; let ghost id0 = id as int; let ghost k0 = keys@[key_index as int] as int; let ghost e0 = at(t0, id0, k0);
                    proof {
                        assert(key_is(k0, s, padded(c, s, 0), key_index as int));
                        if t0.len() <= 256 { lemma_step(c, s, 0, key_index as int, paths[id0], k0); }
                        assert(t0[id0]@.len() == pow2i(s));
                    } @*/
                    let key = keys[key_index];
                    let target = &table[id][key];

                    let next_id = if let Some(next_id) = target.0 {
                        next_id
                    } else {
                        table.push(blank_transition.clone());

                        let next_id = (table.len() - 1) as u8;
                        let transitions = table.get_mut(id).unwrap();
                        let target = transitions.get_mut(key).unwrap();
                        target.0 = Some(next_id);

                        next_id
                    };

                    id = next_id as usize;
                    /*@ proof {
                        if e0.0 is Some { if t0.len() <= 256 { lemma_good_follow(cs, s, n, key_index + 1, t0, paths, id0, k0); } }
                        else {
                            let t1 = t0.push(table@.last()); let e1 = at(table@, id0, k0);
                            assert(t1.take(t0.len() as int) =~= t0);
                            lemma_shaped_push(cs, s, t0, t1);
                            lemma_shaped_set(cs, s, t1, table@, id0, k0, e1);
                            if table@.len() <= 256 { lemma_good_row(cs, s, n, key_index + 1, t0, paths, id0, k0, t1, table@); }
                            paths = paths.push(cb(c).take((key_index + 1) * s));
                        }
                    } @*/
                }
            }

            /*@ let ghost t0 = table@; let ghost k0 = keys@.last() as int; let ghost e0 = at(t0, id as int, k0);
            proof {
                assert(key_is(k0, s, padded(c, s, path_index as int), nk - 1));
                assert(t0[id as int]@.len() == pow2i(s));
                if t0.len() <= 256 { lemma_step(c, s, path_index as int, nk - 1, paths[id as int], k0); }
            } @*/
            let key = keys.last().unwrap();
            let transitions = table.get_mut(id).unwrap();
            let target = transitions.get_mut(*key).unwrap();
            target.1 = Some(ascii as u16);
            target.2 = leftover as u8;
            /*@ proof {
                lemma_shaped_set(cs, s, t0, table@, id as int, k0, (e0.0, Some(ascii as u16), leftover as u8));
                if t0.len() <= 256 { lemma_good_sym(cs, s, n, path_index as int, t0, paths, id as int, k0, table@); }
            } @*/
        }
        /*@ proof { if table@.len() <= 256 { lemma_good_done(cs, s, n, table@, paths); } } @*/
    }

    table
}

fn generate_blank_transition(speed: usize) -> Vec<(Option<u8>, Option<u16>, u8)>
    /*@ requires 1 <= speed <= 5
        ensures blank(speed as int, ret@) @*/
{
    /*@ proof { lemma_pow_two(speed as int); lemma_shl_pow(speed); } @*/
    let mut transition = Vec::new();

    for _ in /*@ it_: @*/ 0..2u32.pow(speed as u32)
        /*@ invariant it_.seq().len() == pow2i(speed as int), i_ == it_.index@, transition@.len() == i_, forall|k: int| 0 <= k < transition@.len() ==> #[trigger] transition@[k] == (None::<u8>, None::<u16>, 0u8) @*/
    {
        transition.push((None, None, 0));
    }

    transition
}

fn generate_coding_paths(coding: &(u8, u32), speed: usize) -> Vec<Vec<usize>>
    /*@ requires coding_ok(*coding), 1 <= speed <= 5
        ensures ret@.len() == pow2i(clo(coding.0 as int, speed as int)), forall|v: int| 0 <= v < ret@.len() ==> variant_ok((#[trigger] ret@[v])@, *coding, speed as int, v) @*/
{
    /*@ proof {
        lemma_chunks(coding.0 as int, speed as int); lemma_pow_two(speed as int); lemma_pow_two(clo(coding.0 as int, speed as int));
        lemma_pow2i_add(coding.0 as int, clo(coding.0 as int, speed as int)); lemma_pow2i_mono(coding.0 as int + clo(coding.0 as int, speed as int), 32); lemma_pow2i_small();
        assert(coding.1 as int * pow2i(clo(coding.0 as int, speed as int)) < pow2i(coding.0 as int) * pow2i(clo(coding.0 as int, speed as int))) by (nonlinear_arith) requires (coding.1 as int) < pow2i(coding.0 as int), pow2i(clo(coding.0 as int, speed as int)) > 0;
    } @*/
    let mut bits: u32 = 0;
    let chunks_len = (coding.0 as f32 / speed as f32).ceil() as usize;
    let chunk_max = 2u32.pow(speed as u32) as usize - 1;
    let leftover = chunks_len * speed - coding.0 as usize;
    bits |= coding.1;
    /*@ proof { let c1 = coding.1; assert(0u32 | c1 == c1) by (bit_vector); } @*/
    bits <<= leftover;
    /*@ let ghost p = bits as int;
    assert(p == coding.1 as int * pow2i(leftover as int)); @*/

    let mut chunks = vec![];
    for i in 0..chunks_len
        /*@ invariant coding_ok(*coding), 1 <= speed <= 5, chunks_len as int == nkeys(coding.0 as int, speed as int), chunk_max as int == pow2i(speed as int) - 1,
            bits as int == coding.1 as int * pow2i(clo(coding.0 as int, speed as int)), chunks_len * speed <= 32,
            chunks@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] chunks@[j]) as int == nth_key(*coding, speed as int, 0, j) @*/
    {
        /*@ let ghost sh = speed as int * (chunks_len - 1 - i);
        assert(0 <= sh && sh == (chunks_len - i - 1) * speed && sh < 32) by (nonlinear_arith) requires sh == speed as int * (chunks_len - 1 - i), 0 <= i < chunks_len, 1 <= speed, chunks_len * speed <= 32;
        proof { lemma_low((bits >> ((chunks_len - i - 1) * speed)) as usize, speed as int, chunk_max); } @*/
        let mut chunk = (bits >> (chunks_len - i - 1) * speed) as usize;
        chunk &= chunk_max;
        chunks.push(chunk as usize);
    }

    let mut variants: Vec<Vec<usize>> = vec![];
    let chunk_last = chunks.pop().unwrap();
    /*@ let ghost c0 = chunks@; @*/
    let variants_len = 2u32.pow(leftover as u32) as usize;
    for i in 0..variants_len
        /*@ invariant coding_ok(*coding), 1 <= speed <= 5, variants_len as int == pow2i(clo(coding.0 as int, speed as int)),
            c0 == chunks@, c0.len() == nkeys(coding.0 as int, speed as int) - 1, forall|j: int| 0 <= j < c0.len() ==> (#[trigger] c0[j]) as int == nth_key(*coding, speed as int, 0, j),
            chunk_last as int == nth_key(*coding, speed as int, 0, nkeys(coding.0 as int, speed as int) - 1),
            variants@.len() == i, forall|v: int| 0 <= v < i ==> variant_ok((#[trigger] variants@[v])@, *coding, speed as int, v) @*/
    {
        /*@ proof {
            lemma_chunks(coding.0 as int, speed as int); lemma_last_key(*coding, speed as int, i as int); lemma_nth_key(*coding, speed as int, i as int, nkeys(coding.0 as int, speed as int) - 1); lemma_pow_two(speed as int);
            assert forall|j: int| 0 <= j < c0.len() implies key_is((#[trigger] c0[j]) as int, speed as int, padded(*coding, speed as int, i as int), j) by { lemma_same_key(*coding, speed as int, i as int, j); lemma_nth_key(*coding, speed as int, i as int, j); }
        } @*/
        let mut chunks = chunks.clone();
        chunks.push(chunk_last + i);
        variants.push(chunks);
    }

    variants
}
