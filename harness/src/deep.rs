//! A great many sessions, of which those are kept in which something looks
//! wrong (see `Sift`), for TLC to judge them.

use std::sync::OnceLock;
use std::time::{Duration, Instant};

use super::*;

pub fn deep(d: &mut Driver, prop: &str, seed: u64, time: Duration) {
    let end = Instant::now() + time;
    let mut h = 0u64;
    for b in prop.bytes() {
        h = h.wrapping_mul(131).wrapping_add(b as u64);
    }
    let mut r = Rng::new(seed.wrapping_mul(7919) ^ (h << 24) ^ 0x51F7);
    let mut round = 0;
    while Instant::now() < end && !d.enough() {
        some(d, prop, &mut r, round);
        round += 1;
    }
}

/// A bit of what's worth trying for a property.
fn some(d: &mut Driver, prop: &str, r: &mut Rng, round: usize) {
    let both: &[u8] = &[1, 2];
    // What's common to most.
    match round % 10 {
        0..=2 => return wild(d, r, prop),
        3 => return exhaust(d, r, prop),
        _ => {},
    }
    if round % 100 == 77 && matches!(prop, "C03" | "C04" | "C05" | "C06" | "C19" | "C23") {
        let n = *r.pick(&[20, 60, 110, 270, 550, 1100, 2100]);
        return trimmed(d, r, &[n]);
    }
    // What takes long.
    if round % 400 == 399 {
        let algo = 1 + r.below(2) as u8;
        return match prop {
            "C01" | "C02" | "C03" | "C05" | "C19" | "C24" => fuzzy_huge(d, r, &[algo], Ops::Both, 1),
            "C07" => fuzzy_huge(d, r, &[1], Ops::Both, 1),
            "C08" => fuzzy_huge(d, r, &[2], Ops::Both, 1),
            "C09" => terms_huge(d, r, &[Kind::Exact], Ops::Both),
            "C10" => terms_huge(d, r, &KINDS[2..], Ops::Both),
            "C13" => many_words(d, r, 2, Ops::Ranges, false),
            "C14" => literal_large(d, r, 1),
            "C20" => empties_large(d, r),
            "C06" => worn_out(d, r),
            _ => many_words(d, r, 2, Ops::Ranges, true),
        };
    }
    let k = r.below(8);
    match prop {
        "C01" | "C02" | "C07" | "C08" => {
            let algos: &[u8] = match prop {
                "C07" => &[1],
                "C08" => &[2],
                _ => both,
            };
            let ops = if prop == "C02" { Ops::Ranges } else { Ops::Mixed(3) };
            match k {
                0 => fuzzy_long(d, r, algos, ops),
                1 | 2 => fuzzy_sizes(d, r, 4, algos, ops),
                3 => many_occurrences(d, r, 1, algos, &[Kind::Fuzzy], ops),
                _ => fuzzy_random(d, r, 10, algos, ops),
            }
        },
        "C03" => match k {
            0 | 1 => at_large(d, r, 1, Large::Letters),
            2 => many_ranges(d, r, 2),
            3 => fuzzy_sizes(d, r, 4, both, Ops::Ranges),
            4 => nested(d, r, 4),
            5 => many_occurrences(d, r, 1, both, &KINDS, Ops::Ranges),
            _ => multi_random(d, r, 10, Multi::Ranges),
        },
        "C04" => match k {
            0 => drop(at_large(d, r, 1, Large::Buffers)),
            1 => nested(d, r, 4),
            _ => shared_buffer(d, r, 10),
        },
        "C05" => match k {
            0 => at_large(d, r, 1, Large::Both),
            1 => fuzzy_sizes(d, r, 4, both, Ops::Both),
            2 | 3 => fuzzy_random(d, r, 6, both, Ops::Both),
            4 => terms_random(d, r, 6, &KINDS, Ops::Both),
            _ => multi_random(d, r, 8, Multi::Both),
        },
        "C06" => match k {
            0 => hunt::in_place(d, r, 6),
            _ => reuse(d, r, 4),
        },
        "C09" | "C10" => {
            let kinds = if prop == "C09" { &KINDS[1..2] } else { &KINDS[2..] };
            match k {
                0 => many_spaces(d, r, kinds, &[false], 1),
                2 => hunt::mutants(d, r, 4, kinds),
                1 => many_occurrences(d, r, 1, both, kinds, Ops::Mixed(3)),
                _ => terms_random(d, r, 10, kinds, Ops::Mixed(3)),
            }
        },
        "C11" => match k {
            0 => at_large(d, r, 1, Large::Composed(Ops::Ranges)),
            1 => many_spaces(d, r, &KINDS[1..], &[false, true], 1),
            _ => negations(d, r, 8),
        },
        "C12" => match k {
            0 => at_large(d, r, 1, Large::Composed(Ops::Dist)),
            1 => multi_random(d, r, 6, Multi::Compose(true)),
            _ => multi_random(d, r, 8, Multi::Compose(false)),
        },
        "C13" => match k {
            0 => many_spaces(d, r, &KINDS, &[false, true], 1),
            1 => many_words(d, r, 1, Ops::Ranges, false),
            _ => syntax_random(d, r, 16),
        },
        "C14" => literal_random(d, r, 8),
        "C15" => match k {
            0 => at_large(d, r, 1, Large::Letters),
            _ => letters_random(d, r, 10),
        },
        "C16" => match k {
            0 => at_large(d, r, 1, Large::Letters),
            _ => normalization_random(d, r, 10),
        },
        "C17" => match k {
            0 => at_large(d, r, 1, Large::Letters),
            _ => bonuses_random(d, r, 10),
        },
        "C18" => ordering(d, r, 2),
        "C19" => match k {
            0 => fuzzy_long(d, r, both, Ops::Both),
            1 => many_spaces(d, r, &KINDS, &[false, true], 1),
            2 => at_large(d, r, 1, Large::Both),
            3 => reuse(d, r, 2),
            _ => robustness(d, r, 1),
        },
        "C20" => empties(d, r, 10),
        "C21" => representation(d, r, 10),
        "C22" => match k {
            0 => at_large(d, r, 1, Large::Composed(Ops::Ranges)),
            1 | 2 => many_ranges(d, r, 2),
            3 | 4 => nested(d, r, 6),
            _ => multi_random(d, r, 6, Multi::Compose(true)),
        },
        "C23" => settings(d, r, 8),
        "C24" => match k {
            0 => at_large(d, r, 1, Large::Metrics),
            _ => both_metrics(d, r, 8),
        },
        _ => reuse(d, r, 4),
    }
}

/// Letters with two cases, and those in or about the table of normalization.
fn letters() -> &'static [char] {
    static L: OnceLock<Vec<char>> = OnceLock::new();
    L.get_or_init(|| {
        let cased = |c: &char| c.to_lowercase().next() != Some(*c) || c.to_uppercase().next() != Some(*c);
        let mut v: Vec<char> = (128u32..0x20000).filter_map(char::from_u32).filter(cased).collect();
        v.extend((0xB0u32..0x380).chain(0x1CF8..0x1F07).chain(0x2065..0x2190).filter_map(char::from_u32));
        v
    })
}

/// An alphabet of anything.
fn wild_alphabet(r: &mut Rng) -> Str {
    match r.below(8) {
        0 => {
            // Letters from anywhere, and what they could be taken for.
            let mut a = vec![];
            for _ in 0..r.range(1, 4) {
                let c = *r.pick(letters());
                a.push(c);
                if r.chance(1, 2) {
                    a.extend(c.to_lowercase());
                    a.extend(c.to_uppercase());
                }
                if r.chance(1, 4) {
                    a.extend(char::from_u32(c as u32 ^ 1));
                    a.extend(char::from_u32(c as u32 & 0x7f));
                    a.extend(char::from_u32(c as u32 ^ 1 << r.below(21)));
                    a.extend(char::from_u32(c as u32 & 0xff | (r.below(0x1100) as u32) << 8));
                }
            }
            a.push(*r.pick(&['a', 'e', 'O', 's', 'i', 'K']));
            a
        },
        1 => (0..r.range(2, 5)).map(|_| odd(r, true)).collect(),
        2 => (0..r.range(2, 5)).map(|_| odd(r, false)).collect(),
        3 => chars("ab \\|!'^$"),
        4 => vec!['a', *r.pick(&['b', 'A', 'á', '_', ' ', '/'])],
        _ => {
            let uni = r.chance(1, 2);
            alphabet(r, uni)
        },
    }
}

struct Ask {
    raw: bool,
    text: String,
}

fn wild_query(r: &mut Rng, alpha: &[char], cands: &mut Vec<String>) -> Ask {
    let noise: Str = if r.chance(1, 2) { alpha.to_vec() } else { alpha.iter().copied().chain(chars("x_ /é")).collect() };
    let long = r.chance(1, 12);
    match r.below(6) {
        0 | 1 => {
            let m = *r.pick(if long { &[8, 17, 33, 64, 65, 66, 130] } else { &[1, 1, 2, 2, 3, 3, 4, 5, 7] });
            let q = string(r, alpha, m, m);
            for _ in 0..3 {
                let c = if r.chance(1, 5) {
                    let n = if r.chance(1, 4) { r.range(m, 40 * m + 40) } else { *r.pick(SIZES) };
                    sized(r, &noise, &q, n.max(m))
                } else {
                    candidate(r, &q, &noise, 12 + 2 * m)
                };
                cands.push(s(&c));
            }
            let raw = !writable(&q) || r.chance(1, 2);
            let text = if raw { s(&q) } else { write_term(&Term { kind: Kind::Fuzzy, inv: false, text: q }) };
            Ask { raw, text }
        },
        2 => {
            let t = any_term(r, alpha, 1);
            for _ in 0..3 {
                cands.push(s(&term_candidate(r, t.kind, &t.text, &noise)));
            }
            Ask { raw: false, text: write_term(&t) }
        },
        3 | 4 => {
            let conds = multi_conds(r, alpha);
            for _ in 0..3 {
                cands.push(s(&multi_candidate(r, &conds, &noise)));
            }
            Ask { raw: false, text: write_query(r, &conds) }
        },
        _ => {
            let q = anything(r, long);
            let v = readings(r, &q);
            cands.push(r.pick(&v).clone());
            cands.push(anything(r, long));
            Ask { raw: r.chance(1, 3), text: q }
        },
    }
}

fn spoiled(r: &mut Rng, c: &str, alpha: &[char]) -> String {
    let mut v = chars(c);
    let n = v.len();
    match r.below(6) {
        0 if n > 0 => drop(v.remove(r.below(n))),
        1 if n > 0 => v[r.below(n)] = *r.pick(alpha),
        2 => v.insert(r.below(n + 1), *r.pick(alpha)),
        3 => v = case_flip(r, &v),
        4 if n > 0 => v.truncate(r.below(n)),
        _ => v.reverse(),
    }
    s(&v)
}

/// A history of anything that can be done.
fn wild(d: &mut Driver, r: &mut Rng, prop: &str) {
    let alpha = wild_alphabet(r);
    let mut cands = vec![];
    let asks: Vec<Ask> = (0..r.range(1, 4)).map(|_| wild_query(r, &alpha, &mut cands)).collect();
    let algos: &[u8] = match prop {
        "C07" => &[1],
        "C08" => &[2],
        _ => &[1, 2],
    };
    for sl in 0..3 {
        d.cfg(sl, any_cfg(r, algos));
    }
    let parse = |d: &mut Driver, p: usize, a: &Ask| {
        if a.raw {
            d.parse_raw(p, &a.text);
        } else {
            d.parse(p, &a.text);
        }
    };
    parse(d, 0, &asks[0]);
    // As most of what is done is asking, when there is little else to it.
    let busy = r.below(3);
    let steps = r.range(8, 40);
    let (mut sl, mut p, mut c) = (0, 0, cands[0].clone());
    for _ in 0..steps {
        if r.below(6) <= busy {
            match r.below(14) {
                0 => d.cfg(r.below(3), any_cfg(r, algos)),
                1 => d.new_inst(r.below(3), *r.pick(algos)),
                2 | 3 => d.clone_inst(r.below(3), r.below(3)),
                4 => d.set_case(sl, r.below(3) as u8),
                5 => d.set_norm(sl, r.chance(1, 2)),
                6 => d.set_scheme(sl, r.below(3) as u8),
                7 => d.new_parser(p),
                8 => d.clone_parser(p),
                9 => {
                    let n = r.below(4);
                    d.set_buf((0..n).map(|_| { let a = r.below(20); a..a + r.below(9) }).collect());
                },
                10 => d.show(sl),
                11 => {
                    let k = d.pool.len();
                    d.compare(r.below(k), r.below(k));
                },
                _ => {
                    p = r.below(2);
                    parse(d, p, r.pick(&asks));
                },
            }
            continue;
        }
        match r.below(8) {
            0 => sl = r.below(3),
            1 => p = r.below(2),
            2..=4 => c = r.pick(&cands).clone(),
            5 => c = spoiled(r, &c, &alpha),
            _ => {},
        }
        match r.below(5) {
            0 | 1 => drop(d.dist(sl, p, &c)),
            2 if d.buf.len() < 60 => drop(d.ranges(sl, p, &c)),
            _ => drop(d.cleared(sl, p, &c)),
        }
    }
    d.end();
}

/// Everything of a small size, about a query of a few characters.
fn exhaust(d: &mut Driver, r: &mut Rng, prop: &str) {
    let mut alpha = wild_alphabet(r);
    alpha.truncate(r.range(2, 4));
    alpha.sort();
    alpha.dedup();
    let n = *[0, 9, 9, 6, 5].get(alpha.len()).unwrap_or(&5);
    let algos: &[u8] = match prop {
        "C07" => &[1],
        "C08" => &[2],
        _ => &[1, 2],
    };
    let mut cands = vec![];
    let a = match r.below(3) {
        0 => {
            let m = r.range(1, 5);
            Ask { raw: true, text: s(&string(r, &alpha, m, m)) }
        },
        _ => wild_query(r, &alpha, &mut cands),
    };
    let cfg = any_cfg(r, algos);
    let all = all_strings(&alpha, n);
    for part in all.chunks(60) {
        d.cfg(0, cfg);
        if a.raw {
            d.parse_raw(0, &a.text);
        } else {
            d.parse(0, &a.text);
        }
        for c in part {
            let c = s(c);
            if r.chance(1, 2) {
                d.dist(0, 0, &c);
            } else {
                d.cleared(0, 0, &c);
            }
        }
        d.end();
    }
}

/// As `worn`, by any number of uses.
fn worn_out(d: &mut Driver, r: &mut Rng) {
    let n = if r.chance(1, 3) { r.range(65_000, 66_600) } else { r.range(100, 2000) };
    let cfg = any_cfg(r, &[1, 2]);
    let alpha = wild_alphabet(r);
    let mut cands = vec![];
    let asks: Vec<Ask> = (0..3).map(|_| wild_query(r, &alpha, &mut cands)).collect();
    d.cfg(0, cfg);
    for i in 0..4 {
        for a in &asks {
            if a.raw {
                d.parse_raw(0, &a.text);
            } else {
                d.parse(0, &a.text);
            }
            let c = r.pick(&cands).clone();
            d.cleared(0, 0, &c);
            if i % 2 == 0 && c.len() < 80 {
                d.dist_many(0, 0, &c, n / 3);
            }
        }
    }
    d.end();
}
