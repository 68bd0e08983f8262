//! The workloads: for every property, which calls are made on the real code.

use std::sync::OnceLock;
use crate::driver::*;
use crate::gen::*;

#[path = "deep.rs"]
mod deep;
pub use deep::deep;

#[path = "far.rs"]
mod far;
use far::{far, far_apart, Far};

#[path = "hunt.rs"]
mod hunt;
use hunt::hunting;

pub fn run(d: &mut Driver, prop: &str, seed: u64, thorough: bool) {
    let mut h = 0u64;
    for b in prop.bytes() {
        h = h.wrapping_mul(131).wrapping_add(b as u64);
    }
    let mut r = Rng::new(seed ^ (h << 20));
    let r = &mut r;
    let k = if thorough { 8 } else { 1 };
    match prop {
        "C01" => {
            fuzzy_small(d, &[1, 2], thorough, Ops::Mixed(6));
            fuzzy_random(d, r, 2600 * k, &[1, 2], Ops::Mixed(6));
            fuzzy_sizes(d, r, 60 * k, &[1, 2], Ops::Mixed(6));
            fuzzy_huge(d, r, &[1, 2], Ops::Mixed(6), k);
            every_length(d, r, &[1, 2], &[Kind::Fuzzy], 300, Ops::Mixed(6));
            many_occurrences(d, r, 12 * k, &[1, 2], &[Kind::Fuzzy], Ops::Mixed(6));
            hunt_about(d, &[0, 1, 2, 3, 4, 25, 26, 27], false);
            far(d, r, 16 * k, &[1, 2], &[Kind::Fuzzy], Far::Term);
            long_terms(d, r, &[1, 2], &[Kind::Fuzzy], Ops::Mixed(6), false, true);
            specials(d, r, &[1, 2], Ops::Mixed(6), 5);
            hunt_lookups(d, r, 60 * k, &[Kind::Fuzzy]);
            hunt_neighbours(d, false);
            hunting(d, prop, |d| hunt::mutants(d, r, 900 * k, &[Kind::Fuzzy]));
            hunting(d, prop, |d| hunt::in_place(d, r, 600 * k));
            for algo in [1, 2] {
                hunting(d, prop, |d| hunt::lasting(d, r, 80_000 * k, algo));
            }
        },
        "C02" => {
            fuzzy_small(d, &[1, 2], thorough, Ops::Ranges);
            fuzzy_random(d, r, 2200 * k, &[1, 2], Ops::Ranges);
            fuzzy_sizes(d, r, 60 * k, &[1, 2], Ops::Ranges);
            fuzzy_huge(d, r, &[1, 2], Ops::Ranges, k);
            every_length(d, r, &[1, 2], &[Kind::Fuzzy], 300, Ops::Ranges);
            many_occurrences(d, r, 12 * k, &[1, 2], &[Kind::Fuzzy], Ops::Ranges);
            hunt_about(d, &[0, 1, 2, 3, 4], false);
            far(d, r, 16 * k, &[1, 2], &[Kind::Fuzzy], Far::Term);
            long_terms(d, r, &[1, 2], &[Kind::Fuzzy], Ops::Ranges, false, false);
            specials(d, r, &[1, 2], Ops::Ranges, 5);
            hunting(d, prop, |d| hunt::widths(d, r, 600 * k, &[Kind::Fuzzy]));
        },
        "C03" => {
            multi_random(d, r, 2600 * k, Multi::Ranges);
            at_large(d, r, 9 * k, Large::Letters);
            many_ranges(d, r, 60 * k);
            fuzzy_random(d, r, 500 * k, &[1, 2], Ops::Ranges);
            fuzzy_sizes(d, r, 30 * k, &[1, 2], Ops::Ranges);
            fuzzy_huge(d, r, &[1, 2], Ops::Ranges, k);
            terms_huge(d, r, &KINDS[1..], Ops::Ranges);
            every_length(d, r, &[1, 2], &KINDS, 200, Ops::Ranges);
            many_occurrences(d, r, 4 * k, &[1, 2], &KINDS, Ops::Ranges);
            hunt_about(d, &[0, 2, 3, 5, 7, 9, 11, 16], false);
            far(d, r, 16 * k, &[1, 2], &KINDS, Far::Composed);
            specials(d, r, &[1, 2], Ops::Ranges, 5);
            hunting(d, prop, |d| hunt::widths(d, r, 600 * k, &KINDS));
        },
        "C04" => {
            shared_buffer(d, r, 2000 * k);
            at_large(d, r, 12 * k, Large::Buffers);
            every_length(d, r, &[1, 2], &KINDS, 100, Ops::Both);
            far(d, r, 16 * k, &[1, 2], &KINDS, Far::Both);
            specials(d, r, &[1, 2], Ops::Both, 3);
        },
        "C05" => {
            fuzzy_random(d, r, 1100 * k, &[1, 2], Ops::Both);
            multi_random(d, r, 1100 * k, Multi::Both);
            terms_random(d, r, 800 * k, &KINDS, Ops::Both);
            at_large(d, r, 9 * k, Large::Both);
            fuzzy_sizes(d, r, 30 * k, &[1, 2], Ops::Both);
            every_length(d, r, &[1, 2], &KINDS, 200, Ops::Both);
            many_occurrences(d, r, 6 * k, &[1, 2], &KINDS, Ops::Both);
            hunt_about(d, &[0, 2, 3, 5, 6, 7, 9, 11, 16], true);
            fuzzy_huge(d, r, &[1, 2], Ops::Both, k);
            terms_huge(d, r, &KINDS[1..], Ops::Both);
            far(d, r, 16 * k, &[1, 2], &KINDS, Far::Both);
            long_terms(d, r, &[1, 2], &KINDS, Ops::Both, false, false);
            specials(d, r, &[1, 2], Ops::Both, 5);
            hunting(d, prop, |d| hunt::widths(d, r, 600 * k, &KINDS));
            hunting(d, prop, |d| hunt::in_place(d, r, 800 * k));
            for algo in [1, 2] {
                hunting(d, prop, |d| hunt::lasting(d, r, 80_000 * k, algo));
            }
        },
        "C06" => {
            reuse(d, r, 700 * k);
            worn(d, r, k);
            trimmed(d, r, &[40, 110, 300, 550, 1100, 1100, 2100, 4200, 11_000]);
            far(d, r, 16 * k, &[1, 2], &KINDS, Far::Again);
            hunting(d, prop, |d| hunt::tagged(d, r, 1500 * k));
            hunting(d, prop, |d| hunt::outnumbered(d, r, usize::MAX));
            hunting(d, prop, |d| hunt::in_place(d, r, 1500 * k));
            hunting(d, prop, |d| hunt::lineage(d, r, 300));
            for algo in [1, 2, 1, 2] {
                hunting(d, prop, |d| hunt::lasting(d, r, 300_000 * k.min(3), algo));
            }
        },
        "C07" => {
            fuzzy_small(d, &[1], thorough, Ops::Mixed(2));
            fuzzy_random(d, r, 3200 * k, &[1], Ops::Mixed(2));
            fuzzy_sizes(d, r, 50 * k, &[1], Ops::Mixed(2));
            fuzzy_huge(d, r, &[1], Ops::Mixed(2), k);
            every_length(d, r, &[1], &[Kind::Fuzzy], 300, Ops::Mixed(2));
            many_occurrences(d, r, 16 * k, &[1], &[Kind::Fuzzy], Ops::Mixed(2));
            hunt_about(d, &[0, 1, 2, 3, 4], true);
            far(d, r, 24 * k, &[1], &[Kind::Fuzzy], Far::Term);
            long_terms(d, r, &[1], &[Kind::Fuzzy], Ops::Mixed(2), false, true);
            hunting(d, prop, |d| hunt::widths(d, r, 600 * k, &[Kind::Fuzzy]));
            hunting(d, prop, |d| hunt::lasting(d, r, 120_000 * k, 1));
        },
        "C08" => {
            fuzzy_small(d, &[2], thorough, Ops::Mixed(2));
            fuzzy_random(d, r, 3200 * k, &[2], Ops::Mixed(2));
            fuzzy_sizes(d, r, 50 * k, &[2], Ops::Mixed(2));
            fuzzy_huge(d, r, &[2], Ops::Mixed(2), k);
            every_length(d, r, &[2], &[Kind::Fuzzy], 300, Ops::Mixed(2));
            many_occurrences(d, r, 16 * k, &[2], &[Kind::Fuzzy], Ops::Mixed(2));
            hunt_about(d, &[0, 1, 2, 3, 4], true);
            far(d, r, 24 * k, &[2], &[Kind::Fuzzy], Far::Term);
            long_terms(d, r, &[2], &[Kind::Fuzzy], Ops::Mixed(2), false, true);
            hunting(d, prop, |d| hunt::widths(d, r, 600 * k, &[Kind::Fuzzy]));
            hunting(d, prop, |d| hunt::lasting(d, r, 120_000 * k, 2));
        },
        "C09" => {
            terms_small(d, &[Kind::Exact], false);
            terms_random(d, r, 3500 * k, &[Kind::Exact], Ops::Mixed(2));
            terms_huge(d, r, &[Kind::Exact], Ops::Mixed(2));
            every_length(d, r, &[1, 2], &[Kind::Exact], 300, Ops::Mixed(2));
            many_occurrences(d, r, 16 * k, &[1, 2], &[Kind::Exact], Ops::Mixed(2));
            hunt_about(d, &[5, 6], false);
            far(d, r, 24 * k, &[1, 2], &[Kind::Exact], Far::Term);
            long_terms(d, r, &[1, 2], &[Kind::Exact], Ops::Mixed(2), false, true);
            specials(d, r, &[1, 2], Ops::Mixed(2), 5);
            hunt_lookups(d, r, 60 * k, &[Kind::Exact]);
            hunting(d, prop, |d| hunt::mutants(d, r, 900 * k, &[Kind::Exact]));
            hunting(d, prop, |d| hunt::widths(d, r, 600 * k, &[Kind::Exact]));
        },
        "C10" => {
            terms_small(d, &[Kind::Prefix, Kind::Suffix, Kind::Equal], true);
            terms_random(d, r, 3500 * k, &[Kind::Prefix, Kind::Suffix, Kind::Equal], Ops::Mixed(2));
            terms_huge(d, r, &[Kind::Prefix, Kind::Suffix, Kind::Equal], Ops::Mixed(2));
            many_spaces(d, r, &[Kind::Prefix, Kind::Suffix, Kind::Equal], &[false], 12 * k);
            every_length(d, r, &[1, 2], &KINDS[2..], 300, Ops::Mixed(2));
            many_occurrences(d, r, 6 * k, &[1, 2], &KINDS[2..], Ops::Mixed(2));
            hunt_about(d, &[7, 8, 9, 10, 11, 12], false);
            far(d, r, 24 * k, &[1, 2], &KINDS[2..], Far::Term);
            long_terms(d, r, &[1, 2], &KINDS[2..], Ops::Mixed(2), false, true);
            specials(d, r, &[1, 2], Ops::Mixed(2), 5);
            hunt_lookups(d, r, 60 * k, &KINDS[2..]);
            hunting(d, prop, |d| hunt::mutants(d, r, 900 * k, &KINDS[2..]));
            hunting(d, prop, |d| hunt::widths(d, r, 600 * k, &KINDS[2..]));
        },
        "C11" => {
            negations(d, r, 1500 * k);
            at_large(d, r, 12 * k, Large::Composed(Ops::Ranges));
            many_spaces(d, r, &KINDS[1..], &[false, true], 4 * k);
            hunt_about(d, &[13, 14, 15], false);
            far(d, r, 16 * k, &[1, 2], &KINDS[1..], Far::Negated);
            specials(d, r, &[1, 2], Ops::Ranges, 5);
        },
        "C12" => {
            multi_random(d, r, 1600 * k, Multi::Compose(false));
            multi_random(d, r, 400 * k, Multi::Compose(true));
            many_words(d, r, 24 * k, Ops::Dist, true);
            many_words(d, r, 4 * k, Ops::Ranges, true);
            at_large(d, r, 9 * k, Large::Composed(Ops::Dist));
            at_large(d, r, 3 * k, Large::Composed(Ops::Ranges));
            hunt_about(d, &[16, 17, 18, 24], false);
            far(d, r, 16 * k, &[1, 2], &KINDS, Far::Composed);
            hunting(d, prop, |d| hunt::in_place(d, r, 600 * k));
            for algo in [1, 2] {
                hunting(d, prop, |d| hunt::lasting(d, r, 80_000 * k, algo));
            }
        },
        "C13" => {
            syntax(d, r, 9000 * k, thorough);
            many_words(d, r, 30 * k, Ops::Ranges, false);
            hunt_about(d, &[6, 8, 10, 12, 14, 17, 18, 19, 20, 21, 22, 23, 24, 28, 29], false);
            many_spaces(d, r, &KINDS, &[false, true], 2 * k);
            specials(d, r, &[1, 2], Ops::Mixed(4), 8);
            hunting(d, prop, |d| hunt::in_place(d, r, 600 * k));
        },
        "C14" => {
            literal(d, r, 2500 * k);
            literal_large(d, r, 3 * k);
            hunt_about(d, &[3, 4, 25, 26, 27], false);
        },
        "C15" => {
            letters(d, r, 2000 * k, thorough);
            at_large(d, r, 12 * k, Large::Letters);
            hunt_lookups(d, r, 60 * k, &KINDS);
            hunt_neighbours(d, false);
            long_words(d, r, 150 * k);
            hunting(d, prop, |d| hunt::mutants(d, r, 900 * k, &KINDS));
            hunting(d, prop, |d| hunt::tagged(d, r, 700 * k));
            hunting(d, prop, |d| hunt::in_place(d, r, 600 * k));
        },
        "C16" => {
            normalization(d, r, 1200 * k, thorough);
            at_large(d, r, 12 * k, Large::Letters);
            hunt_lookups(d, r, 60 * k, &KINDS);
            hunt_neighbours(d, true);
            hunting(d, prop, |d| hunt::mutants(d, r, 900 * k, &KINDS));
            hunting(d, prop, |d| hunt::tagged(d, r, 700 * k));
            hunting(d, prop, |d| hunt::in_place(d, r, 600 * k));
        },
        "C17" => {
            bonuses(d, r, 900 * k, thorough);
            at_large(d, r, 12 * k, Large::Letters);
            hunting(d, prop, |d| hunt::tagged(d, r, 700 * k));
            hunting(d, prop, |d| hunt::in_place(d, r, 600 * k));
        },
        "C18" => {
            ordering(d, r, 250 * k);
            far_apart(d, r, k.min(3));
        },
        "C19" => {
            shapes(d);
            robustness(d, r, 60 * k);
            worn(d, r, 1);
            trimmed(d, r, &[40, 110, 300, 550, 1100, 1100, 2100, 4200, 11_000]);
            many_words(d, r, 12 * k, Ops::Both, false);
            many_spaces(d, r, &KINDS, &[false, true], 2 * k);
            fuzzy_huge(d, r, &[1, 2], Ops::Both, k);
            terms_huge(d, r, &KINDS[1..], Ops::Both);
            far(d, r, 24 * k, &[1, 2], &KINDS, Far::Composed);
            long_terms(d, r, &[1, 2], &KINDS, Ops::Both, false, true);
            specials(d, r, &[1, 2], Ops::Both, 5);
            for algo in [1, 2] {
                hunting(d, prop, |d| hunt::lasting(d, r, 80_000 * k, algo));
            }
        },
        "C20" => {
            empties(d, r, 2500 * k);
            empties_large(d, r);
            hunt_about(d, &[28, 29], false);
        },
        "C21" => {
            representation(d, r, 3000 * k);
            hunt_about(d, &[0, 2, 5, 7, 9, 13, 16], true);
            far(d, r, 16 * k, &[1, 2], &KINDS, Far::Swapped);
            hunting(d, prop, |d| hunt::in_place(d, r, 800 * k));
        },
        "C22" => {
            nested(d, r, 900 * k);
            many_ranges(d, r, 60 * k);
            multi_random(d, r, 1300 * k, Multi::Compose(true));
            at_large(d, r, 9 * k, Large::Composed(Ops::Ranges));
            many_words(d, r, 24 * k, Ops::Ranges, true);
            far(d, r, 16 * k, &[1, 2], &KINDS, Far::Composed);
            hunting(d, prop, |d| hunt::widths(d, r, 600 * k, &KINDS));
            for algo in [1, 2] {
                hunting(d, prop, |d| hunt::lasting(d, r, 80_000 * k, algo));
            }
        },
        "C23" => {
            settings(d, r, 1800 * k);
            hunting(d, prop, |d| hunt::counted(d, r, usize::MAX));
            hunting(d, prop, |d| hunt::lineage(d, r, 300));
            hunting(d, prop, |d| hunt::in_place(d, r, 600 * k));
            hunting(d, prop, |d| hunt::outnumbered(d, r, usize::MAX));
        },
        "C24" => {
            both_metrics(d, r, 1700 * k);
            at_large(d, r, 12 * k, Large::Metrics);
            hunt_about(d, &[0, 1, 2, 3, 5, 6, 7, 9, 11, 13, 16], true);
            far(d, r, 16 * k, &[1], &KINDS, Far::Metrics);
            long_terms(d, r, &[1], &KINDS, Ops::Mixed(3), true, true);
            specials(d, r, &[1], Ops::Mixed(4), 4);
            hunting(d, prop, |d| hunt::in_place(d, r, 600 * k));
        },
        "C25" => {
            threads(d, r, 24 * k);
            hunt::large_threads(d, r, 24 * k);
        },
        _ => panic!("unknown property {prop}"),
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Ops {
    Dist,
    Ranges,
    Both,
    /// One or the other: distances so many times out of 8.
    Mixed(usize),
}

fn call(d: &mut Driver, sl: usize, p: usize, c: &str, ops: Ops, flip: bool) {
    match ops {
        Ops::Dist => drop(d.dist(sl, p, c)),
        Ops::Mixed(n) => drop(d.ask(sl, p, c, n)),
        Ops::Ranges => drop(d.xranges(sl, p, c)),
        Ops::Both => {
            if flip {
                d.xranges(sl, p, c);
                d.dist(sl, p, c);
            } else {
                d.dist(sl, p, c);
                d.xranges(sl, p, c);
            }
        },
    }
}

fn any_cfg(r: &mut Rng, algos: &[u8]) -> Cfg {
    let algo = *r.pick(algos);
    if r.chance(1, 4) {
        return Cfg::default_of(algo);
    }
    Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 }
}

/// Parses a text as a single fuzzy term, one way or another.
fn parse_fuzzy(d: &mut Driver, r: &mut Rng, p: usize, text: &[char]) {
    if writable(text) && r.chance(1, 2) {
        d.parse(p, &write_term(&Term { kind: Kind::Fuzzy, inv: false, text: text.to_vec() }));
    } else {
        d.parse_raw(p, &s(text));
    }
}

fn chars(t: &str) -> Str {
    t.chars().collect()
}

/// Every candidate and every term of a small size.
fn fuzzy_small(d: &mut Driver, algos: &[u8], thorough: bool, ops: Ops) {
    let spaces: &[(&str, &str, usize, Cfg)] = &[
        ("ab", "ab_", 5, Cfg { algo: 0, case: 0, norm: false, scheme: 0 }),
        ("ab", "aBb", 5, Cfg { algo: 0, case: 2, norm: false, scheme: 0 }),
        ("aB", "aAbB", 4, Cfg { algo: 0, case: 0, norm: false, scheme: 2 }),
        ("a1", "a1/", 5, Cfg { algo: 0, case: 1, norm: false, scheme: 1 }),
        ("ab", "aéb", 5, Cfg { algo: 0, case: 0, norm: false, scheme: 0 }),
        ("ae", "aé E", 4, Cfg { algo: 0, case: 0, norm: true, scheme: 0 }),
        ("ab", "ab", 8, Cfg { algo: 0, case: 0, norm: false, scheme: 0 }),
        // Two bytes in one case, three in the other.
        ("\u{2c65}\u{23a}", "\u{2c65}\u{23a}a", 4, Cfg { algo: 0, case: 2, norm: false, scheme: 0 }),
        ("\u{2c65}a", "\u{2c65}\u{23a}A", 3, Cfg { algo: 0, case: 0, norm: true, scheme: 0 }),
        ("ks", "\u{212a}k\u{17f}", 4, Cfg { algo: 0, case: 0, norm: false, scheme: 0 }),
    ];
    for &algo in algos {
        for (qa, ca, n, cfg) in spaces {
            let n = if thorough { n + 1 } else { *n };
            let qs = all_strings(&chars(qa), 3);
            let cs = all_strings(&chars(ca), n);
            let cfg = Cfg { algo, ..*cfg };
            for q in qs.iter().filter(|q| !q.is_empty()) {
                for chunk in cs.chunks(80) {
                    d.cfg(0, cfg);
                    d.parse_raw(0, &s(q));
                    for (i, c) in chunk.iter().enumerate() {
                        call(d, 0, 0, &s(c), ops, i % 2 == 0);
                    }
                    d.end();
                }
            }
        }
    }
}

fn fuzzy_random(d: &mut Driver, r: &mut Rng, n: usize, algos: &[u8], ops: Ops) {
    for _ in 0..n {
        let uni = r.chance(2, 5);
        let alpha = alphabet(r, uni);
        let hi = if r.chance(1, 10) { 14 } else { 5 };
        let q = string(r, &alpha, 1, hi);
        d.cfg(0, any_cfg(r, algos));
        parse_fuzzy(d, r, 0, &q);
        for i in 0..20 {
            let hi = if r.chance(1, 6) { 60 } else { 18 };
            let c = candidate(r, &q, &alpha, hi);
            call(d, 0, 0, &s(&c), ops, i % 2 == 0);
        }
        d.end();
    }
}

/// Lengths around the initial sizes of the scratch buffers and beyond.
const SIZES: &[usize] = &[2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 85, 86, 127, 128, 129, 130, 200, 255, 256, 257, 300];

fn sized(r: &mut Rng, alpha: &[char], q: &[char], n: usize) -> Str {
    let mut c = string(r, alpha, n, n);
    // Make sure the term matches, most of the time.
    if r.chance(5, 6) && q.len() <= n {
        let mut at: Vec<usize> = match r.below(4) {
            0 => (0..q.len()).collect(),
            1 => (n - q.len()..n).collect(),
            2 => {
                // First character at the start, the others at the end.
                let mut v: Vec<usize> = (n - q.len()..n).collect();
                v[0] = 0;
                v
            },
            _ => {
                let mut v: Vec<usize> = vec![];
                while v.len() < q.len() {
                    let x = r.below(n);
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                v
            },
        };
        at.sort();
        for (i, &x) in at.iter().enumerate() {
            c[x] = q[i];
        }
    }
    c
}

fn fuzzy_sizes(d: &mut Driver, r: &mut Rng, n: usize, algos: &[u8], ops: Ops) {
    for _ in 0..n {
        let uni = r.chance(1, 2);
        let mut alpha = alphabet(r, uni);
        if r.chance(1, 2) {
            // Mostly noise, so that gaps are long.
            let noise = *r.pick(&['_', 'z', 'ß', ' ', '9']);
            let m = alpha.len() * r.range(1, 20);
            alpha.extend(std::iter::repeat(noise).take(m));
        }
        let m = *r.pick(&[1, 2, 2, 3, 3, 4, 5, 8, 16, 33, 64, 65]);
        let q = string(r, &alpha, m, m);
        d.cfg(0, any_cfg(r, algos));
        parse_fuzzy(d, r, 0, &q);
        let budget = 5000usize;
        for i in 0..6 {
            let mut n = *r.pick(SIZES);
            if n * m > budget {
                n = *r.pick(&[m, m + 1, 2 * m, 128.max(m)]);
            }
            let c = sized(r, &alpha, &q, n);
            call(d, 0, 0, &s(&c), ops, i % 2 == 0);
        }
        d.end();
    }
    if n >= 10 {
        fuzzy_long(d, r, algos, ops);
    }
}

/// Very long terms.
fn fuzzy_long(d: &mut Driver, r: &mut Rng, algos: &[u8], ops: Ops) {
    for &m in &[127, 128, 129, 150] {
        for &algo in algos {
            let alpha = ['a', 'b', '_'];
            let q = string(r, &alpha, m, m);
            d.cfg(0, Cfg::default_of(algo));
            d.parse_raw(0, &s(&q));
            let mut c = q.clone();
            call(d, 0, 0, &s(&c), ops, true);
            c.insert(m / 2, 'é');
            call(d, 0, 0, &s(&c), ops, true);
            c.remove(0);
            call(d, 0, 0, &s(&c), ops, true);
            d.end();
        }
    }
}

/// Runs of consecutive matches, scores and candidates too large for a byte or
/// two to count them.
fn fuzzy_huge(d: &mut Driver, r: &mut Rng, algos: &[u8], ops: Ops, n: usize) {
    for _ in 0..n {
        for &algo in algos {
            // Runs of more than 255 characters, alone or after a shorter one.
            let m = r.range(250, 300);
            d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
            let q: Str = match r.below(3) {
                0 => vec!['a'; m],
                1 => (0..m).map(|i| if i % 2 == 0 { 'a' } else { 'b' }).collect(),
                _ => string(r, &['a', 'b', '1'], m, m),
            };
            d.parse_raw(0, &s(&q));
            call(d, 0, 0, &s(&q), ops, true);
            let mut c = q.clone();
            c.insert(0, *r.pick(&['/', 'x', ' ', 'é']));
            call(d, 0, 0, &s(&c), ops, false);
            c.push('a');
            call(d, 0, 0, &s(&c), ops, false);
            let at = r.below(c.len());
            c.insert(at, *r.pick(&['_', 'A', 'a', '中']));
            call(d, 0, 0, &s(&c), ops, true);
            d.end();
            // Scores of more than 65535.
            let m = r.range(2600, 2900);
            d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
            let q = string(r, &['a', 'b'], m, m);
            d.parse_raw(0, &s(&q));
            let mut c = q.clone();
            call(d, 0, 0, &s(&c), ops, true);
            c.insert(r.below(m), '-');
            call(d, 0, 0, &s(&c), ops, false);
            d.end();
            // Candidates of more than 65535 bytes, or characters.
            for k in 0..3 {
                d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
                let q: Str = chars(*r.pick(&["ab", "a", "ba", "aba"]));
                d.parse_raw(0, &s(&q));
                let n = r.range(65540, 67000);
                let mut c = vec![*r.pick(&['_', 'x', ' ']); n];
                if k == 1 {
                    c = vec!['é'; n / 2];
                    c.extend(vec!['x'; n / 2 + 1]);
                }
                c.extend(chars(*r.pick(&["a_b_a", "abab", "xa/b", "a", "b/ab_/aba"])));
                if k == 2 {
                    // From one end to the other.
                    c[0] = 'a';
                    if r.chance(1, 2) {
                        c.extend(chars("b_é_"));
                    }
                }
                call(d, 0, 0, &s(&c), ops, true);
                d.end();
            }
            // Matches at both ends of long candidates, the better one at any.
            for _ in 0..3 {
                d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
                let q = string(r, &['a', 'b'], 2, 3);
                d.parse_raw(0, &s(&q));
                let n = *r.pick(&[33_000, 44_000, 52_000, 66_000]);
                let alpha = chars("ab_/A");
                let mut c = string(r, &alpha, 6, 12);
                c.extend(vec![*r.pick(&['_', 'x', 'é']); n]);
                c.extend(string(r, &alpha, 6, 12));
                call(d, 0, 0, &s(&c), ops, true);
                d.end();
            }
            for (m, n) in [(40, 1700), (20, 5500), (3, 44_000), (10, 11_000), (350, 360)] {
                d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
                let q = string(r, &['a', 'b', 'c'], m, m);
                d.parse_raw(0, &s(&q));
                let alpha = chars("abcabc_/A");
                let c = sized(r, &alpha, &q, n);
                call(d, 0, 0, &s(&c), ops, true);
                d.end();
            }
        }
    }
}

/// The same for the other kinds of terms.
fn terms_huge(d: &mut Driver, r: &mut Rng, kinds: &[Kind], ops: Ops) {
    for (i, &kind) in kinds.iter().enumerate() {
        for k in 0..3 {
            let algo = 1 + ((i + k) % 2) as u8;
            d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
            let text: Str = if k == 2 { string(r, &['a', 'b'], 2700, 2900) } else { chars("ab") };
            d.parse(0, &write_term(&Term { kind, inv: false, text: text.clone() }));
            let n = r.range(65540, 67000);
            let pad: Str = match (k, kind) {
                (2, _) => vec!['é'; 3],
                (_, Kind::Exact) if k == 0 => vec!['x'; n],
                (_, Kind::Exact) => [vec!['é'; n / 2], vec!['b'; n / 2]].concat(),
                _ => vec![' '; n],
            };
            let before = !matches!(kind, Kind::Suffix) || r.chance(1, 2);
            let after = kind == Kind::Suffix || r.chance(1, 2);
            let mut c: Str = vec![];
            if before {
                c.extend(&pad);
            }
            c.extend(&text);
            if kind == Kind::Exact {
                c.extend(chars("/ab"));
            }
            if after && (kind != Kind::Exact || k == 2) {
                c.extend(&pad);
            }
            call(d, 0, 0, &s(&c), ops, true);
            d.end();
        }
    }
}

/// Lengths around what one or two bytes can count.
const COUNTS: &[usize] = &[63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 520];

/// Terms with many spaces at their ends, and candidates with about as many.
fn many_spaces(d: &mut Driver, r: &mut Rng, kinds: &[Kind], invs: &[bool], n: usize) {
    for _ in 0..n {
        for &kind in kinds {
            let algo = 1 + r.below(2) as u8;
            let m = *r.pick(COUNTS);
            let (b, a) = match (kind, r.below(3)) {
                (Kind::Prefix, _) => (m, 0),
                (Kind::Suffix, _) => (0, m),
                (_, 0) => (m, 0),
                (_, 1) => (0, m),
                _ => (m, *r.pick(COUNTS)),
            };
            let spaces = |n: usize| vec![' '; n];
            let word: Str = chars(*r.pick(&["a", "ab", "é"]));
            let text = [spaces(b), word.clone(), spaces(a)].concat();
            d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
            for &inv in invs {
                d.parse(0, &write_term(&Term { kind, inv, text: text.clone() }));
                let mut near = vec![(b, a), (b + 1, a + 1), (b + 256, a + 256), (0, 0)];
                near.push((b.saturating_sub(1), a));
                near.push((b, a.saturating_sub(1)));
                near.push((b % 256, a % 256));
                for (x, y) in near {
                    let c = [spaces(x), word.clone(), spaces(y)].concat();
                    d.xranges(0, 0, &s(&c));
                }
            }
            d.end();
        }
    }
}

/// Queries of many words: conditions, alternatives, words without a text.
/// Whether the first ones, the last ones or some in the middle decide.
fn many_words(d: &mut Driver, r: &mut Rng, n: usize, ops: Ops, alone: bool) {
    for i in 0..n {
        let m = *r.pick(COUNTS);
        let algo = 1 + (i % 2) as u8;
        d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
        let common = *r.pick(&["a", "'a", "!z", "^a", "a$"]);
        let rare = *r.pick(&["b", "'b", "!x", "cb", "'c", "c$"]);
        let cands = ["a", "ab", "abca", "xa", "acbxa", "", "b", "aqbc"];
        if alone {
            for t in [common, rare, "!q"] {
                d.parse(0, t);
                for c in cands {
                    call(d, 0, 0, c, ops, false);
                }
            }
        }
        for sep in [" ", " | ", " ! ", " | ! | "] {
            // One of them differs from the others.
            let any = r.below(m);
            let at = *r.pick(&[0, m / 2, m - 1, m - 2, 255.min(m - 1), 256.min(m - 1), any]);
            let mut words = vec![common; m];
            words[at] = rare;
            if r.chance(1, 2) {
                words.push("!q");
            }
            let q = words.join(sep);
            d.parse(0, &q);
            for c in cands {
                call(d, 0, 0, c, ops, r.chance(1, 2));
            }
        }
        // As many different terms, each at its own place of the candidate.
        let k = 12.min(m);
        let letters: Str = "abcdefghijkl".chars().collect();
        let words: Vec<String> = (0..m).map(|j| format!("{}{}", ["", "'"][r.below(2)], letters[(j * 7 + i) % k])).collect();
        if alone {
            for t in letters.iter().flat_map(|l| [format!("{l}"), format!("'{l}")]) {
                d.parse(0, &t);
                call(d, 0, 0, "abcdefghijkl", ops, true);
            }
        }
        d.parse(0, &words.join(" "));
        call(d, 0, 0, "abcdefghijkl", ops, true);
        call(d, 0, 0, "l-k_jihéG Fedcba", ops, true);
        d.end();
        // One word, with many escaped spaces or many markers.
        d.cfg(0, Cfg { algo, case: 0, norm: false, scheme: r.below(3) as u8 });
        let (q, c): (String, String) = match r.below(4) {
            0 => ("a\\ ".repeat(m), "a ".repeat(m)),
            1 => (format!("{}a", "!".repeat(m)), format!("{}a", "!".repeat(m - 1))),
            2 => (format!("'a{}", "$".repeat(m)), format!("xa{}", "$".repeat(m - 1))),
            _ => (format!("^a{}b", "\\".repeat(m)), format!("a{}b", "\\".repeat(m))),
        };
        d.parse(0, &q);
        call(d, 0, 0, &c, ops, true);
        call(d, 0, 0, &c[1..], ops, true);
        call(d, 0, 0, &c[..c.len() - 1], ops, true);
        call(d, 0, 0, &format!(" {c} "), ops, true);
        d.end();
    }
}

/// Single terms of the given kinds, everything of a small size.
fn terms_small(d: &mut Driver, kinds: &[Kind], spaces: bool) {
    let sets: &[(&str, &str, usize)] = if spaces {
        &[("a ", "ab ", 5), ("a ", "a é", 5), ("ab", "aB ", 4)]
    } else {
        &[("ab", "ab_", 6), ("ab", "aB/", 5), ("ab", "aéb", 5), ("a1", "a1A", 5), ("ab", "ab", 8)]
    };
    for algo in [1, 2] {
        for kind in kinds {
            for (si, (qa, ca, n)) in sets.iter().enumerate() {
                // The kinds below fuzzy are shared by the two metrics.
                if algo == 1 && si > 0 {
                    continue;
                }
                let qs = all_strings(&chars(qa), 3);
                let cs = all_strings(&chars(ca), *n);
                for q in qs.iter().filter(|q| writable(q)) {
                    for chunk in cs.chunks(80) {
                        let scheme = (si % 3) as u8;
                        d.cfg(0, Cfg { algo, case: if si == 1 { 2 } else { 0 }, norm: false, scheme });
                        d.parse(0, &write_term(&Term { kind: *kind, inv: false, text: q.clone() }));
                        for c in chunk {
                            d.ask(0, 0, &s(c), 1);
                        }
                        d.end();
                    }
                }
            }
        }
    }
}

fn terms_random(d: &mut Driver, r: &mut Rng, n: usize, kinds: &[Kind], ops: Ops) {
    for _ in 0..n {
        let uni = r.chance(2, 5);
        let mut alpha = alphabet(r, uni);
        if r.chance(1, 3) {
            alpha.push(' ');
        }
        let text = term_text(r, &alpha, 4);
        let kind = *r.pick(kinds);
        d.cfg(0, any_cfg(r, &[1, 2]));
        let inv = ops == Ops::Both && r.chance(1, 5);
        d.parse(0, &write_term(&Term { kind, inv, text: text.clone() }));
        for i in 0..20 {
            let c = term_candidate(r, kind, &text, &alpha);
            call(d, 0, 0, &s(&c), ops, i % 2 == 0);
        }
        d.end();
    }
}

/// A candidate a term of the given kind and text may well match, or nearly.
fn term_candidate(r: &mut Rng, kind: Kind, text: &[char], alpha: &[char]) -> Str {
    let mut c = short_candidate(r, kind, text, alpha);
    maybe_stutter(r, &mut c);
    maybe_pad(r, &mut c);
    c
}

fn short_candidate(r: &mut Rng, kind: Kind, text: &[char], alpha: &[char]) -> Str {
    if r.chance(1, 6) {
        return candidate(r, text, alpha, 20);
    }
    let copy = |r: &mut Rng| -> Str {
        let mut t = if r.chance(1, 4) { case_flip(r, text) } else { disguise(r, text) };
        if r.chance(1, 5) {
            // Partial or spoiled.
            let i = r.below(t.len());
            match r.below(3) {
                0 => t.truncate(i),
                1 => t[i] = *r.pick(alpha),
                _ => drop(t.remove(i)),
            }
        }
        t
    };
    let mut c = vec![];
    let sp = |r: &mut Rng, c: &mut Str| {
        if r.chance(1, 3) {
            let n = r.range(1, 3);
            c.extend(std::iter::repeat(' ').take(n));
        }
    };
    match kind {
        Kind::Fuzzy => return candidate(r, text, alpha, 20),
        Kind::Exact => {
            let n = r.range(1, 4);
            for _ in 0..n {
                let noise = string(r, alpha, 0, 3);
                c.extend(noise);
                let t = copy(r);
                c.extend(t);
                if r.chance(1, 3) {
                    // Overlapping occurrences.
                    let i = r.below(text.len());
                    c.extend(&text[i..]);
                }
            }
            let noise = string(r, alpha, 0, 3);
            c.extend(noise);
        },
        Kind::Prefix => {
            sp(r, &mut c);
            let t = copy(r);
            c.extend(t);
            let noise = string(r, alpha, 0, 5);
            c.extend(noise);
        },
        Kind::Suffix => {
            let noise = string(r, alpha, 0, 5);
            c.extend(noise);
            let t = copy(r);
            c.extend(t);
            sp(r, &mut c);
        },
        Kind::Equal => {
            sp(r, &mut c);
            let t = copy(r);
            c.extend(t);
            if r.chance(1, 6) {
                c.push(*r.pick(alpha));
            }
            sp(r, &mut c);
        },
    }
    c
}

fn any_term(r: &mut Rng, alpha: &[char], inv_num: usize) -> Term {
    let hi = *r.pick(&[1, 1, 1, 1, 3, 3, 3, 7]);
    Term { kind: *r.pick(&KINDS), inv: r.chance(inv_num, 6), text: term_text(r, alpha, hi) }
}

fn write_query(r: &mut Rng, conds: &[Vec<Term>]) -> String {
    let mut o = String::new();
    for (i, c) in conds.iter().enumerate() {
        if i > 0 {
            o.push_str(if r.chance(1, 6) { "  " } else { " " });
        }
        for (j, t) in c.iter().enumerate() {
            if j > 0 {
                o.push_str(" | ");
            }
            o.push_str(&write_term(t));
        }
    }
    o
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Multi {
    Ranges,
    Both,
    /// Each term on its own first, then the whole query; with ranges or not.
    Compose(bool),
}

fn multi_conds(r: &mut Rng, alpha: &[char]) -> Vec<Vec<Term>> {
    let nc = *r.pick(&[1, 2, 2, 2, 3, 3, 4]);
    let inv = r.below(3);
    let mut conds: Vec<Vec<Term>> = (0..nc)
        .map(|_| {
            let na = *r.pick(&[1, 1, 1, 2, 3]);
            (0..na).map(|_| any_term(r, alpha, inv)).collect()
        })
        .collect();
    if r.chance(1, 4) {
        // Something asked for again, as it is or about the same.
        let mut again = r.pick(&conds).clone();
        let i = r.below(again.len());
        match r.below(6) {
            0 => again[i].kind = *r.pick(&KINDS),
            1 => again[i].text = case_flip(r, &again[i].text.clone()),
            2 => again = vec![again[i].clone()],
            3 => again.rotate_left(i),
            _ => {},
        }
        if r.chance(1, 3) {
            let j = r.below(conds.len());
            conds[j].extend(again);
        } else {
            conds.insert(r.below(conds.len() + 1), again);
        }
    }
    conds
}

fn multi_candidate(r: &mut Rng, conds: &[Vec<Term>], alpha: &[char]) -> Str {
    let mut c = vec![];
    if r.chance(1, 8) {
        return string(r, alpha, 0, 10);
    }
    if r.chance(1, 5) {
        c.push(' ');
    }
    let mut order: Vec<usize> = (0..conds.len()).collect();
    if r.chance(1, 2) {
        for i in (1..order.len()).rev() {
            let j = r.below(i + 1);
            order.swap(i, j);
        }
    }
    for i in order {
        let t = r.pick(&conds[i]).clone();
        if t.inv && r.chance(3, 4) {
            continue;
        }
        let noise = string(r, alpha, 0, 2);
        c.extend(noise);
        let mut e = if t.kind == Kind::Fuzzy { embed(r, &t.text, alpha, 12) } else { disguise(r, &t.text) };
        if t.kind == Kind::Fuzzy && e.len() > 1 && r.chance(1, 12) {
            // A gap which outweighs the match.
            let at = r.range(1, e.len() - 1);
            let n = r.range(25, 90);
            let noise = *r.pick(&['_', 'z', '9', 'ß']);
            e.splice(at..at, std::iter::repeat(noise).take(n));
        }
        // Let the matches of the terms overlap.
        let cut = if r.chance(1, 3) && !c.is_empty() { r.below(c.len().min(3)) } else { 0 };
        c.truncate(c.len() - cut);
        c.extend(e);
    }
    let noise = string(r, alpha, 0, 3);
    c.extend(noise);
    maybe_stutter(r, &mut c);
    maybe_pad(r, &mut c);
    c
}

fn multi_random(d: &mut Driver, r: &mut Rng, n: usize, mode: Multi) {
    for _ in 0..n {
        let uni = r.chance(2, 5);
        let mut alpha = alphabet(r, uni);
        if r.chance(1, 2) {
            alpha.retain(|&c| c != ' ');
            alpha.push('a');
            alpha.push('b');
        }
        let conds = multi_conds(r, &alpha);
        let text = write_query(r, &conds);
        let nc = if matches!(mode, Multi::Compose(_)) { 6 } else { 14 };
        let cands: Vec<String> = (0..nc).map(|_| s(&multi_candidate(r, &conds, &alpha))).collect();
        d.cfg(0, any_cfg(r, &[1, 2]));
        match mode {
            Multi::Ranges | Multi::Both => {
                d.parse(0, &text);
                for (i, c) in cands.iter().enumerate() {
                    call(d, 0, 0, c, if mode == Multi::Both { Ops::Both } else { Ops::Ranges }, i % 2 == 0);
                }
            },
            Multi::Compose(ranges) => {
                let ops = if ranges { Ops::Ranges } else { Ops::Dist };
                for t in conds.iter().flatten() {
                    d.parse(1, &write_term(t));
                    for c in &cands {
                        call(d, 0, 1, c, ops, true);
                    }
                }
                d.parse(0, &text);
                for c in &cands {
                    call(d, 0, 0, c, ops, true);
                }
            },
        }
        d.end();
    }
}

/// Candidates too long for a byte or two to count their characters, of which
/// the last one is much longer than the others.
fn large_candidates(r: &mut Rng, conds: &[Vec<Term>], alpha: &[char], huge: bool) -> Vec<String> {
    let mut v = vec![];
    for i in 0..4 {
        let mut c = vec![];
        // Mostly such that all the conditions are satisfied.
        for cond in conds {
            if let Some(t) = cond.iter().find(|t| !t.inv) {
                let noise = string(r, alpha, 0, 2);
                c.extend(noise);
                c.extend(disguise(r, &t.text));
            }
        }
        if r.chance(1, 4) {
            c = multi_candidate(r, conds, alpha);
        }
        let n = if i < 3 { *r.pick(&[250, 256, 300, 520, 1030, 2100]) } else { r.range(65500, 66600) };
        if i < 3 || huge {
            pad(r, &mut c, n);
            if r.chance(1, 3) {
                pad(r, &mut c, 3);
            }
            v.push(s(&c));
        }
    }
    v
}

/// Everything on long candidates: terms alone, negated, composed, by both
/// metrics, with and without ranges, on buffers with a lot in them.
fn at_large(d: &mut Driver, r: &mut Rng, n: usize, with: Large) {
    for i in 0..n {
        let uni = r.chance(2, 5);
        let mut alpha = alphabet(r, uni);
        alpha.retain(|&c| c != ' ');
        alpha.push('a');
        let mut conds = multi_conds(r, &alpha);
        conds.truncate(3);
        if with == Large::Letters {
            // As the cases and the classes of their letters decide.
            for t in conds.iter_mut().flatten() {
                t.text = case_flip(r, &t.text);
                if !writable(&t.text) {
                    t.text = vec!['A'];
                }
            }
        }
        let cands = large_candidates(r, &conds, &alpha, i % 3 == 0);
        let cfg = any_cfg(r, &[1, 2]);
        d.cfg(0, cfg);
        d.cfg(1, Cfg { algo: 3 - cfg.algo, ..cfg });
        let text = write_query(r, &conds);
        match with {
            Large::Buffers => {
                let k = if i == 0 { 66_000 } else { *r.pick(&[255, 256, 300, 1030]) };
                d.set_buf((0..k).map(|x| if i % 2 == 0 { 2 * x..2 * x + 1 } else { k - x..k - x + 3 }).collect());
                d.parse(0, &text);
                for c in cands.iter().filter(|c| k < 60_000 || c.len() < 1000) {
                    d.ranges(0, 0, c);
                    d.ranges(1, 0, c);
                    d.dist(0, 0, c);
                }
            },
            Large::Composed(ops) => {
                for t in conds.iter().flatten() {
                    for inv in [false, true] {
                        if inv && !t.inv {
                            continue;
                        }
                        d.parse(1, &write_term(&Term { inv, ..t.clone() }));
                        for c in &cands {
                            call(d, 0, 1, c, ops, false);
                        }
                    }
                }
                d.parse(0, &text);
                for c in &cands {
                    call(d, 0, 0, c, ops, false);
                }
            },
            Large::Metrics => {
                d.parse(0, &text);
                for c in &cands {
                    d.xranges(0, 0, c);
                    d.xranges(1, 0, c);
                }
            },
            Large::Both | Large::Letters => {
                d.parse(0, &text);
                for c in &cands {
                    call(d, 0, 0, c, if with == Large::Both { Ops::Both } else { Ops::Mixed(4) }, i % 2 == 0);
                }
            },
        }
        d.end();
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Large {
    Both,
    Letters,
    Buffers,
    Metrics,
    Composed(Ops),
}

/// Queries whose terms match stretches of one candidate in every relative
/// position: nested, overlapping, touching, apart, in any order.
fn nested(d: &mut Driver, r: &mut Rng, n: usize) {
    for _ in 0..n {
        let len = r.range(3, 11);
        // All characters different, so that each term matches at one place.
        let base: Str = if r.chance(1, 3) {
            r.pick(&["aéc中eßgñi😀kl", "😀bé中ef𐐀hißkl", "a😀𐐨d中fgh€jk"]).chars().take(len).collect()
        } else {
            "abcdefghijkl".chars().take(len).collect()
        };
        let nt = r.range(2, 6);
        let mut terms = vec![];
        for _ in 0..nt {
            let a = r.below(len);
            let b = if r.chance(1, 3) { a + 1 } else { r.range(a + 1, len) };
            let exact = r.chance(1, 2);
            let mut text = base[a..b].to_vec();
            let mut kind = Kind::Exact;
            if !exact {
                // A fuzzy term matching several separate stretches.
                kind = Kind::Fuzzy;
                text = (0..len).filter(|_| r.chance(1, 2)).map(|i| base[i]).collect();
                if text.is_empty() {
                    text = vec![base[a]];
                }
            }
            terms.push(Term { kind, inv: false, text });
        }
        let c = s(&base);
        d.cfg(0, any_cfg(r, &[1, 2]));
        for t in &terms {
            d.parse(1, &write_term(t));
            d.xranges(0, 1, &c);
        }
        for _ in 0..4 {
            for i in (1..terms.len()).rev() {
                let j = r.below(i + 1);
                terms.swap(i, j);
            }
            let k = r.range(2, terms.len());
            let q = terms[..k].iter().map(write_term).collect::<Vec<_>>().join(" ");
            d.parse(0, &q);
            d.xranges(0, 0, &c);
        }
        d.end();
    }
}

/// As `nested`, with as many ranges as there are characters asked for.
fn many_ranges(d: &mut Driver, r: &mut Rng, n: usize) {
    for i in 0..n {
        let k = r.range(20, 150);
        // Every character is different, and none of them next to another.
        let from = *r.pick(&['\u{4e00}', '\u{400}', '\u{4e00}']) as u32;
        let letters: Str = (0..k as u32).filter_map(|x| char::from_u32(from + x)).collect();
        let sep = *r.pick(&["x", "-", "é", "x-"]);
        let base: Str = letters.iter().flat_map(|&c| [vec![c], chars(sep)].concat()).collect();
        let step = r.range(1, 3);
        let many: Str = letters.iter().copied().step_by(step).collect();
        let mut terms = vec![Term { kind: Kind::Fuzzy, inv: false, text: many }];
        for _ in 0..r.range(1, 4) {
            let a = r.below(base.len());
            let b = (a + *r.pick(&[1, 1, 2, 3, 5, 20, 60])).min(base.len());
            let (kind, text) = match r.below(6) {
                0 => (Kind::Prefix, base[..b.min(6)].to_vec()),
                1 => (Kind::Suffix, base[a.max(base.len() - 6)..].to_vec()),
                2 => (Kind::Fuzzy, letters[..].iter().copied().filter(|_| r.chance(1, 3)).chain([letters[k - 1]]).collect()),
                _ => (Kind::Exact, base[a..b].to_vec()),
            };
            terms.push(Term { kind, inv: false, text });
        }
        let c = s(&base);
        d.cfg(0, Cfg { algo: 1 + (i % 2) as u8, case: 1, norm: false, scheme: r.below(3) as u8 });
        for t in &terms {
            d.parse(1, &write_term(t));
            d.xranges(0, 1, &c);
        }
        for j in 0..2 {
            if j == 1 {
                terms.rotate_left(1);
            }
            let q = terms.iter().map(write_term).collect::<Vec<_>>().join(" ");
            d.parse(0, &q);
            d.xranges(0, 0, &c);
        }
        d.end();
    }
}

fn shared_buffer(d: &mut Driver, r: &mut Rng, n: usize) {
    for _ in 0..n {
        let uni = r.chance(2, 5);
        let alpha = alphabet(r, uni);
        d.cfg(0, any_cfg(r, &[1, 2]));
        d.cfg(1, any_cfg(r, &[1, 2]));
        let k = r.below(5);
        let b = (0..k)
            .map(|_| {
                let a = r.below(12);
                let e = a + r.below(6);
                a..e
            })
            .collect();
        d.set_buf(b);
        for _ in 0..4 {
            let single = r.chance(1, 3);
            let conds = if single { vec![vec![any_term(r, &alpha, 1)]] } else { multi_conds(r, &alpha) };
            let text = write_query(r, &conds);
            d.parse(0, &text);
            for _ in 0..4 {
                let c = multi_candidate(r, &conds, &alpha);
                let sl = r.below(2);
                d.ranges(sl, 0, &s(&c));
            }
        }
        d.end();
    }
}

/// The same calls on fresh, reused and cloned instances, in any order.
fn reuse(d: &mut Driver, r: &mut Rng, n: usize) {
    for round in 0..n {
        let uni = r.chance(1, 2);
        let big = round % 4 == 0;
        let alpha = alphabet(r, uni);
        let mut items: Vec<(bool, String, String)> = vec![];
        let k = r.range(3, 6);
        for i in 0..k {
            let long = big && (i == 0 || r.chance(1, 3));
            let n = if long { *r.pick(&[64, 65, 90, 127, 128, 129, 150, 256, 257]) } else { r.range(0, 16) };
            match r.below(3) {
                0 => {
                    let conds = multi_conds(r, &alpha);
                    let mut c = multi_candidate(r, &conds, &alpha);
                    if long {
                        let extra = string(r, &alpha, n, n);
                        c.extend(extra);
                    }
                    items.push((true, write_query(r, &conds), s(&c)));
                },
                _ => {
                    let m = if long && r.chance(1, 4) { r.range(9, 40) } else { r.range(1, 4) };
                    let q = string(r, &alpha, m, m);
                    let c = if long || r.chance(1, 3) { sized(r, &alpha, &q, n.max(1)) } else { candidate(r, &q, &alpha, 16) };
                    items.push((false, s(&q), s(&c)));
                },
            }
        }
        let cfg = any_cfg(r, &[1, 2]);
        let base = |d: &mut Driver, sl: usize, p: usize, it: &(bool, String, String), how: usize| {
            if it.0 {
                d.parse(p, &it.1);
            } else {
                d.parse_raw(p, &it.1);
            }
            if how == 0 {
                d.dist(sl, p, &it.2);
            } else {
                d.xranges(sl, p, &it.2);
            }
        };
        // Reused first, or fresh first.
        d.cfg(1, cfg);
        d.cfg(2, any_cfg(r, &[1, 2]));
        let fresh_first = r.chance(1, 2);
        if fresh_first {
            for it in &items {
                d.cfg(0, cfg);
                d.new_parser(0);
                base(d, 0, 0, it, 1);
                base(d, 0, 0, it, 0);
            }
        }
        let steps = 3 * items.len();
        for i in 0..steps {
            let it = r.pick(&items).clone();
            let how = r.below(2);
            match r.below(8) {
                0 => {
                    d.clone_inst(3, 1);
                    base(d, 3, 1, &it, how);
                },
                1 => {
                    // Detour through other settings and back.
                    let v = r.below(3) as u8;
                    d.set_case(1, v);
                    base(d, 1, 1, &it, how);
                    d.set_case(1, cfg.case);
                },
                2 => {
                    let v = r.below(3) as u8;
                    d.set_scheme(1, v);
                    base(d, 1, 1, &it, how);
                    d.set_scheme(1, cfg.scheme);
                },
                3 => {
                    d.set_norm(1, !cfg.norm);
                    base(d, 1, 1, &it, how);
                    d.set_norm(1, cfg.norm);
                },
                4 => {
                    d.clone_parser(1);
                    base(d, 2, 1, &it, how);
                },
                _ => base(d, 1, 1, &it, how),
            }
            if i % 5 == 4 && r.chance(1, 2) {
                d.clone_inst(1, 1);
            }
        }
        if !fresh_first {
            for it in &items {
                d.cfg(0, cfg);
                d.new_parser(0);
                base(d, 0, 0, it, 0);
                base(d, 0, 0, it, 1);
            }
        }
        d.end();
    }
}

const WORN: &[usize] = &[126, 127, 128, 253, 254, 255, 256, 257, 65532, 65533, 65534, 65535, 65536, 65537];

/// Instances and parsers used so many times that what counts the uses in a
/// byte or two starts over.
fn worn(d: &mut Driver, r: &mut Rng, k: usize) {
    for _ in 0..k {
        for algo in [1, 2] {
            for n in WORN.iter().flat_map(|&n| vec![n; if n > 60_000 { 3 } else { 2 }]) {
                let cfg = Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 };
                // The same places, but worth something else.
                let m = r.range(2, 4);
                let len = r.range(12, 40);
                let noise = ['_', 'x', '/', ' ', '中', 'X', ','];
                let mut q = string(r, &['a', 'b', 'c'], m, m);
                let mut c1 = sized(r, &noise, &q, len);
                while !c1.contains(&q[0]) {
                    q = string(r, &['a', 'b', 'c'], m, m);
                    c1 = sized(r, &noise, &q, len);
                }
                let twin = |r: &mut Rng| -> Str {
                    c1.iter()
                        .map(|&c| {
                            let mut x = c;
                            while x == c && !q.contains(&c) {
                                x = *r.pick(&noise);
                            }
                            x
                        })
                        .collect()
                };
                let (c2, c3) = (twin(r), twin(r));
                let all = [c1.clone(), c2, c3].map(|c| s(&c));
                let fill = *r.pick(&[("ab", "ab"), ("ab", "éab"), ("a", "ba"), ("ab", "b"), ("'b", "ab"), ("zz", "_z_z")]);
                d.cfg(0, cfg);
                d.parse_raw(0, &s(&q));
                for c in &all {
                    d.new_inst(0, algo);
                    d.cfg(0, cfg);
                    d.xranges(0, 0, c);
                }
                d.cfg(1, cfg);
                for i in 0..6 {
                    let (fq, fc) = if i % 2 == 0 { ("ab", "ab") } else { fill };
                    d.parse_raw(0, &s(&q));
                    d.xranges(1, 0, &all[i % 3]);
                    d.parse(0, fq);
                    d.dist_many(1, 0, fc, n);
                    d.parse_raw(0, &s(&q));
                    d.xranges(1, 0, &all[(i + 1) % 3]);
                }
                d.parse_many(1, "a | 'b c", n);
                d.parse(1, "x");
                d.parse(1, "a | 'b c");
                d.xranges(1, 1, &all[0]);
                d.new_parser(1);
                d.parse(1, "a | 'b c");
                d.xranges(1, 1, &all[0]);
                d.end();
            }
        }
    }
}

/// An instance which needed a lot of memory once, and then little of it many times
/// in a row, so that it could have let go of it.
fn trimmed(d: &mut Driver, r: &mut Rng, times: &[usize]) {
    for &n in times {
        for algo in [1, 2] {
            let cfg = Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 };
            let unit = *r.pick(&["é", "_", "中", "-é"]);
            let much = Grown {
                ext: r.chance(1, 2),
                query: [s(&chars(*r.pick(&["ab", "abc"]))), String::new(), String::new(), String::new(), String::new()],
                cand: ["b".into(), unit.into(), "abc".into()],
            };
            let units = *r.pick(&[1200, 3000, 5000, 9000, 40_000, 150_000]);
            let long = *r.pick(&[60, 129, 200, 257, 300, 513]);
            // Less than an eighth, or than a sixty-fourth.
            let len = if r.chance(1, 2) { long } else { long.min(units / 70) };
            let noise = ['_', 'é', '/', '中', 'x'];
            let q = string(r, &['a', 'b'], 2, 3);
            let fill = s(&sized(r, &noise, &q, len.max(8)));
            let other = s(&sized(r, &noise, &q, 2 * long));
            // What's compared with.
            for sl in [1, 0] {
                d.new_inst(sl, algo);
                d.cfg(sl, cfg);
                d.parse_raw(0, &s(&q));
                d.cleared(sl, 0, &fill);
                d.new_inst(sl, algo);
                d.cfg(sl, cfg);
                d.cleared(sl, 0, &other);
                d.grown(sl, &much, (110, units), r.chance(1, 2));
                if sl == 0 {
                    d.dist_many(sl, 0, &fill, n);
                    d.cleared(sl, 0, &fill);
                    d.cleared(sl, 0, &other);
                    d.grown(sl, &much, (110, units), r.chance(1, 2));
                    d.dist_many(sl, 0, &other, n);
                    d.dist_many(sl, 0, &fill, n / 2);
                    d.cleared(sl, 0, &other);
                }
            }
            // So with a parser.
            d.parse(0, &"a | ".repeat(units.min(3000) / 8));
            d.parse_many(0, "'b c", n);
            d.parse_many(0, &"b ".repeat(70), n / 4);
            d.cleared(0, 0, "cb");
            d.parse(0, &"c | ".repeat(long));
            d.cleared(0, 0, "cb");
            d.end();
        }
    }
}

fn negations(d: &mut Driver, r: &mut Rng, n: usize) {
    for _ in 0..n {
        let uni = r.chance(2, 5);
        let mut alpha = alphabet(r, uni);
        if r.chance(1, 4) {
            alpha.push(' ');
        }
        let kind = *r.pick(&KINDS);
        let text = term_text(r, &alpha, 3);
        let pos = Term { kind, inv: false, text: text.clone() };
        let neg = Term { kind, inv: true, text: text.clone() };
        d.cfg(0, any_cfg(r, &[1, 2]));
        let cands: Vec<String> =
            (0..8).map(|_| s(&term_candidate(r, kind, &text, &alpha))).collect();
        let other = any_term(r, &alpha, 1);
        d.parse(0, &write_term(&pos));
        for c in &cands {
            d.xranges(0, 0, c);
        }
        d.parse(0, &write_term(&other));
        for c in &cands {
            d.xranges(0, 0, c);
        }
        d.parse(1, &write_term(&neg));
        for c in &cands {
            d.xranges(0, 1, c);
        }
        // Within a larger query.
        let (a, b) = (write_term(&neg), write_term(&other));
        let q = match r.below(4) {
            0 => format!("{a} {b}"),
            1 => format!("{b} {a}"),
            2 => format!("{a} | {b}"),
            _ => format!("{b} | {a}"),
        };
        d.parse(0, &q);
        for c in &cands {
            d.xranges(0, 0, c);
        }
        d.end();
    }
}

/// Candidates about which different readings of a query disagree.
fn readings(r: &mut Rng, q: &str) -> Vec<String> {
    let plain: String = q.chars().filter(|c| !matches!(c, '!' | '\'' | '^' | '$' | '|' | '\\')).collect();
    let nosp: String = plain.chars().filter(|&c| c != ' ').collect();
    let unesc = q.replace("\\ ", " ");
    let mut v = vec![q.to_string(), plain.clone(), unesc, String::new()];
    let words: Vec<String> = q.split(' ').map(|w| w.chars().filter(|c| !matches!(c, '!' | '\'' | '^' | '$' | '\\')).collect()).collect();
    if let Some(w) = words.iter().find(|w| !w.is_empty() && *w != "|") {
        v.push(w.clone());
        v.push(format!("x{w}"));
        v.push(format!("{w}x"));
    }
    v.push(format!("x{nosp}"));
    v.push(nosp.chars().rev().collect());
    v.push(nosp.chars().flat_map(|c| [c, '_']).collect());
    let mut sh: Vec<String> = words.clone();
    if sh.len() > 1 {
        let i = r.below(sh.len());
        sh.remove(i);
    }
    v.push(sh.join(" "));
    v.push(sh.concat());
    let alpha = chars("ab \\|!'^$x");
    v.push(s(&string(r, &alpha, 0, 6)));
    v
}

fn syntax(d: &mut Driver, r: &mut Rng, n: usize, thorough: bool) {
    let special: Str = chars("ab \\|!'^$");
    let all = all_strings(&special, if thorough { 5 } else { 4 });
    let cfg = [Cfg::default_of(1), Cfg::default_of(2)];
    // Exhaustively, several queries a session.
    let mut i = 0;
    d.cfg(0, cfg[0]);
    for q in all {
        let q = s(&q);
        d.parse(0, &q);
        let cs = readings(r, &q);
        for _ in 0..4 {
            let c = r.pick(&cs).clone();
            d.xranges(0, 0, &c);
        }
        i += 1;
        if i % 12 == 0 {
            d.end();
            d.cfg(0, cfg[(i / 12) % 2]);
        }
    }
    d.end();
    syntax_random(d, r, n);
    // Any other character where there could be a space or a marker.
    let places = ["?a", "a?", "a?b", "a ? b", "!?a", "?!a", "a$?", "a?$", "a\\?b", "'?a", "^?a", "a | ?b", "a ?| b", "a |? b", "? a", "a ?", "?"];
    let others: Str = (0..128).map(|b| b as u8 as char).chain(LOOKALIKES.iter().copied()).collect();
    for (i, c) in others.into_iter().enumerate() {
        for (j, part) in places.chunks(6).enumerate() {
            d.cfg(0, cfg[(i + j) % 2]);
            for t in part {
                let q = t.replace('?', &c.to_string());
                d.parse(0, &q);
                let cs = readings(r, &q);
                for _ in 0..3 {
                    let x = r.pick(&cs).clone();
                    d.xranges(0, 0, &x);
                }
                let x = q.replace(c, "");
                d.xranges(0, 0, x.trim_start_matches(['!', '\'', '^']).trim_end_matches('$'));
            }
            d.end();
        }
    }
    // Many conditions and many alternatives.
    for k in [31, 32, 33, 63, 64, 65, 66, 100, 130] {
        for sep in [" ", " | "] {
            d.cfg(0, cfg[k % 2]);
            let q = vec!["a"; k].join(sep);
            d.parse(0, &q);
            d.xranges(0, 0, "ba");
            d.xranges(0, 0, "b");
            let q = format!("{} b", vec!["'z"; k].join(sep));
            d.parse(0, &q);
            d.xranges(0, 0, "bza");
            d.xranges(0, 0, "b");
            d.end();
        }
    }
}

fn syntax_random(d: &mut Driver, r: &mut Rng, n: usize) {
    let cfg = [Cfg::default_of(1), Cfg::default_of(2)];
    // Longer random ones.
    let pool: Str = chars("aabbc   \\\\||!!''^^$$é");
    let words = ["a", "b", "ab", "\\ ", "|", "!a", "'b", "^a", "b$", "^a$", "!'a", "!^b", "!a$", "!^a$", "a\\ b", "!", "^", "'", "$", "^$", "!$", "''", "$$", "a|b", "|a", "\\", "\\|", "é", "'^$", "ab$", "!|", "A", "'Ab"];
    for i in 0..n {
        let q = if r.chance(1, 2) {
            s(&string(r, &pool, 4, 16))
        } else {
            let k = r.range(2, 9);
            let mut q = String::new();
            for j in 0..k {
                if j > 0 {
                    q.push_str(*r.pick(&[" ", " ", " ", "  ", " | ", " | ", "\\ "]));
                }
                q.push_str(*r.pick(&words));
            }
            if r.chance(1, 8) {
                q.insert(0, ' ');
            }
            if r.chance(1, 8) {
                q.push(' ');
            }
            if r.chance(1, 40) {
                // Longer than the parser's initial buffers.
                let mut l = String::new();
                let k = r.range(5, 40);
                for _ in 0..k {
                    l.push_str(*r.pick(&words));
                    l.push_str(*r.pick(&[" ", " | ", " "]));
                }
                q.push(' ');
                q.push_str(&l);
            }
            q
        };
        if i % 8 == 0 {
            d.end();
            d.cfg(0, *r.pick(&cfg));
        }
        d.parse(0, &q);
        let cs = readings(r, &q);
        for _ in 0..5 {
            let c = r.pick(&cs).clone();
            d.xranges(0, 0, &c);
        }
    }
    d.end();
}

fn literal(d: &mut Driver, r: &mut Rng, n: usize) {
    let special: Str = chars("ab \\|!'^$");
    let mut all = all_strings(&special, 3);
    all.retain(|q| !q.is_empty());
    let mut i = 0;
    for chunk in all.chunks(10) {
        d.cfg(0, Cfg::default_of(1 + (i % 2)));
        for q in chunk {
            d.parse_raw(0, &s(q));
            d.xranges(0, 0, &s(q));
            let c = embed(r, q, &special, 14);
            d.xranges(0, 0, &s(&c));
            let c = string(r, &special, 0, 8);
            d.xranges(0, 0, &s(&c));
        }
        d.end();
        i += 1;
    }
    let others: Str = (0..128).map(|b| b as u8 as char).chain(LOOKALIKES.iter().copied()).collect();
    for (i, c) in others.into_iter().enumerate() {
        d.cfg(0, Cfg::default_of(1 + (i % 2) as u8));
        for t in ["?a", "a?", "a?b", "a ?", "? b", "?"] {
            let c = c.to_string();
            let q = t.replace('?', &c);
            d.parse_raw(0, &q);
            d.xranges(0, 0, &q);
            d.xranges(0, 0, &t.replace('?', ""));
            d.xranges(0, 0, &t.replace('?', &format!(" {c}_")));
        }
        d.end();
    }
    literal_random(d, r, n);
}

fn literal_random(d: &mut Driver, r: &mut Rng, n: usize) {
    let special: Str = chars("ab \\|!'^$");
    for i in 0..n {
        let mut alpha = special.clone();
        let uni = r.chance(1, 2);
        let extra = alphabet(r, uni);
        alpha.extend(extra);
        let long = i % 12 == 0;
        let m = if long { *r.pick(&[60, 63, 64, 65, 66, 100, 128, 129, 200]) } else { r.range(0, 9) };
        let q = string(r, &alpha, m, m);
        d.cfg(0, any_cfg(r, if long { &[1] } else { &[1, 2] }));
        if r.chance(1, 3) {
            // What was parsed before with the same parser doesn't matter.
            let t = string(r, &alpha, 0, 70);
            d.parse(0, &s(&t));
        }
        d.parse_raw(0, &s(&q));
        d.xranges(0, 0, &s(&q));
        for _ in 0..(if long { 3 } else { 8 }) {
            let c = embed(r, &q, &alpha, if long { 260 } else { 20 });
            d.xranges(0, 0, &s(&c));
        }
        d.end();
    }
}

/// Texts of a length a byte or two can't count.
fn literal_large(d: &mut Driver, r: &mut Rng, n: usize) {
    for i in 0..n {
        for m in [255, 256, 257, 520, 3000, 66_000] {
            let algo = if m > 1000 { 1 } else { 1 + (i % 2) as u8 };
            d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
            let alpha = chars(*r.pick(&["a b|", " ", "a\\ ", "ab!'^$", "éa ", "| a"]));
            let q = string(r, &alpha, m, m);
            d.parse_raw(0, &s(&q));
            let mut c = q.clone();
            d.ask(0, 0, &s(&c), 3);
            c.insert(r.below(m), 'x');
            d.ask(0, 0, &s(&c), 3);
            let mut c = q.clone();
            c.remove(*r.pick(&[0, m / 2, m - 1]));
            d.ask(0, 0, &s(&c), 3);
            d.end();
        }
    }
}

fn letters(d: &mut Driver, r: &mut Rng, n: usize, thorough: bool) {
    // Every pair of letters differing by their case, both ways.
    let mut pairs: Vec<(char, char)> = vec![];
    for u in 0u32..0x11_0000 {
        let Some(c) = char::from_u32(u) else { continue };
        let mut l = c.to_lowercase();
        if l.len() == 1 {
            let l = l.next().unwrap();
            if l != c && l.is_ascii() == c.is_ascii() {
                pairs.push((c, l));
            }
        }
    }
    let step = if thorough { 1 } else { 1 };
    for (i, chunk) in pairs.chunks(4).enumerate() {
        if i % step != 0 {
            continue;
        }
        for case in 0..3 {
            let cfg = Cfg { algo: 1 + ((i + case as usize) % 2) as u8, case, norm: i % 5 == 0, scheme: 0 };
            d.cfg(0, cfg);
            for &(u, l) in chunk {
                for q in [u, l] {
                    d.parse_raw(0, &q.to_string());
                    for c in [u, l] {
                        d.ask(0, 0, &c.to_string(), 2);
                    }
                }
                // As the text of the other kinds of terms.
                let kind = KINDS[1 + i % 4];
                d.parse(1, &write_term(&Term { kind, inv: false, text: vec![l, 'k'] }));
                d.ask(0, 1, &s(&[u, 'K']), 2);
                d.ask(0, 1, &s(&[u, 'k']), 2);
                d.parse(1, &write_term(&Term { kind, inv: false, text: vec![u, 'k'] }));
                d.ask(0, 1, &s(&[l, 'k']), 2);
                d.ask(0, 1, &s(&[u, 'K']), 2);
            }
            d.end();
        }
    }
    // Which characters make a term case-sensitive.
    for (i, chunk) in sorts(r, if thorough { 20000 } else { 500 }).chunks(40).enumerate() {
        d.cfg(0, Cfg { algo: 1 + (i % 2) as u8, case: 0, norm: i % 5 == 0, scheme: 0 });
        for (j, &c) in chunk.iter().enumerate() {
            if (i + j) % 3 == 0 {
                d.parse(0, &write_term(&Term { kind: KINDS[(i + j) % 5], inv: false, text: vec![c, 'a'] }));
            } else {
                d.parse_raw(0, &s(&[c, 'a']));
            }
            d.ask(0, 0, &s(&[c, 'A']), 2);
        }
        d.end();
    }
    hunt_sorts(d, Cfg::default_of(2), |d, c, record| {
        let (q, t) = (s(&[c, 'a']), s(&[c, 'A']));
        if record {
            d.parse_raw(0, &q);
            d.dist(0, 0, &t)
        } else {
            d.quiet_parse_raw(0, &q);
            d.quiet_dist(0, 0, &t)
        }
    });
    // Letters which have two cases, among all of those which aren't the same.
    let cased: Str = pairs.iter().flat_map(|&(u, l)| [u, l]).filter(|c| !c.is_ascii()).collect();
    let lower = |c: char| c.to_lowercase().collect::<String>();
    for (i, &q) in cased.iter().enumerate() {
        let of = lower(q);
        let others: Str = cased.iter().copied().filter(|&c| lower(c) != of).collect();
        hunt_equal(d, Cfg { algo: 1 + (i % 2) as u8, case: 2, norm: false, scheme: 0 }, q, &others);
    }
    let all: Str = (128u32..=0x10FFFF).filter_map(char::from_u32).collect();
    for q in (33u8..127).map(char::from) {
        hunt_equal(d, Cfg { algo: 1 + (q as u8 % 2), case: 2, norm: false, scheme: 0 }, q, &all);
    }
    // ASCII: every pair of characters, in every mode.
    for case in 0..3 {
        for q in 0u8..128 {
            d.cfg(0, Cfg { algo: 1 + q % 2, case, norm: q % 3 == 0, scheme: 0 });
            d.parse_raw(0, &(q as char).to_string());
            let lo: String = (0u8..64).map(|c| c as char).collect();
            let hi: String = (64u8..128).map(|c| c as char).collect();
            d.ask(0, 0, &lo, 2);
            d.ask(0, 0, &hi, 2);
            d.ask(0, 0, &format!("é{lo}"), 2);
            d.ask(0, 0, &format!("{hi}é"), 2);
            d.ask(0, 0, &(q as char).to_ascii_uppercase().to_string(), 2);
            d.ask(0, 0, &(q as char).to_ascii_lowercase().to_string(), 2);
            let f = if (q as char).is_ascii_alphabetic() { (q ^ 32) as char } else { (q ^ 32) as char };
            d.ask(0, 0, &f.to_string(), 2);
            d.ask(0, 0, &format!("é{f}"), 2);
            d.end();
        }
    }
    letters_random(d, r, n);
}

/// Long terms whose case depends on a single character.
fn long_words(d: &mut Driver, r: &mut Rng, n: usize) {
    for i in 0..n {
        let m = *r.pick(&[9, 16, 17, 31, 32, 33, 34, 48, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 400]);
        let lower = *r.pick(&['a', 'é', 'ж', 'σ', 'b']);
        let upper = *r.pick(&['A', 'É', 'Ж', 'Σ', 'B']);
        let mut text = vec![lower; m];
        let at = *r.pick(&[0, m / 2, m - 2, m - 1, m - 1]);
        if i % 4 > 0 {
            text[at] = upper;
        }
        d.cfg(0, Cfg { algo: 1 + (i % 2) as u8, case: if r.chance(3, 4) { 0 } else { r.below(3) as u8 }, norm: r.chance(1, 4), scheme: 0 });
        if r.chance(1, 4) {
            d.parse_raw(0, &s(&text));
        } else {
            let mut t = write_term(&Term { kind: *r.pick(&KINDS), inv: false, text: text.clone() });
            if r.chance(1, 3) {
                // Others don't matter.
                t = format!("{} {t}", *r.pick(&["!Z", "'z |", "é |", "!'A0", "Z |"]));
            }
            d.parse(0, &t);
        }
        d.ask(0, 0, &s(&text), 3);
        let f = flip(text[at]);
        text[at] = f;
        d.ask(0, 0, &s(&text), 3);
        let k = r.below(m);
        text[k] = flip(text[k]);
        d.ask(0, 0, &s(&text), 3);
        d.end();
    }
}

/// Words, in queries of one or more terms.
fn letters_random(d: &mut Driver, r: &mut Rng, n: usize) {
    let alpha = chars("abABéÉσΣxX1 жЖßK");
    for _ in 0..n {
        let algo = 1 + r.below(2) as u8;
        let case = r.below(3) as u8;
        d.cfg(0, Cfg { algo, case, norm: r.chance(1, 4), scheme: r.below(3) as u8 });
        let nt = r.range(1, 3);
        let terms: Vec<Term> = (0..nt)
            .map(|_| {
                let a: Str = match r.below(3) {
                    0 => chars("abx1éσ"),
                    1 => chars("abAB"),
                    _ => alpha.clone(),
                };
                let a: Str = a.into_iter().filter(|&c| c != ' ').collect();
                Term { kind: *r.pick(&KINDS), inv: r.chance(1, 8), text: term_text(r, &a, 4) }
            })
            .collect();
        let q = terms.iter().map(write_term).collect::<Vec<_>>().join(if r.chance(1, 3) { " | " } else { " " });
        d.parse(0, &q);
        for _ in 0..10 {
            let mut c: Str = vec![];
            for t in &terms {
                let f = if r.chance(1, 2) { case_flip(r, &t.text) } else { t.text.clone() };
                c.extend(f);
                let noise = string(r, &alpha, 0, 2);
                if r.chance(1, 2) {
                    c.extend(noise);
                }
            }
            d.ask(0, 0, &s(&c), 2);
        }
        d.end();
    }
}

/// What std says of a character.
fn sort(c: char) -> (bool, bool, bool, bool, bool) {
    (c.is_lowercase(), c.is_uppercase(), c.is_numeric(), c.is_alphabetic(), c.is_whitespace())
}

/// Asks for a character in candidates made of others, none of which should be
/// equal to it: the calls which match are recorded, for the specification to
/// judge them.
fn hunt_equal(d: &mut Driver, cfg: Cfg, q: char, others: &[char]) {
    d.cfg(0, cfg);
    d.parse_raw(0, &q.to_string());
    hunt_more(d, others);
}

/// The same with what was parsed.
fn hunt_more(d: &mut Driver, others: &[char]) {
    let mut found = 0;
    for chunk in others.chunks(400) {
        if d.quiet_dist(0, 0, &s(chunk)) == Reply::None {
            continue;
        }
        for c in chunk {
            if found < 20 && d.quiet_dist(0, 0, &c.to_string()) != Reply::None {
                d.xranges(0, 0, &c.to_string());
                found += 1;
            }
        }
    }
    if found > 0 {
        d.end();
    } else {
        d.discard();
    }
}

/// What is the same of two characters which only differ by their case.
fn folded(c: char) -> char {
    static OF: OnceLock<Vec<char>> = OnceLock::new();
    let of = OF.get_or_init(|| {
        let all = (0u32..0x11_0000).map(|u| char::from_u32(u).unwrap_or('\0'));
        all.map(|c| if c.to_lowercase().len() == 1 { c.to_lowercase().next().unwrap() } else { c }).collect()
    });
    of[c as usize]
}

/// Asks for characters from everywhere among all of those which aren't equal to
/// them, in every mode, as terms of these kinds.
fn hunt_lookups(d: &mut Driver, r: &mut Rng, n: usize, kinds: &[Kind]) {
    let all: Str = (1u32..=0x10FFFF).filter_map(char::from_u32).collect();
    for i in 0..n {
        let cfg = any_cfg(r, &[1, 2]);
        let pick = |r: &mut Rng, lo: u32, hi: u32| char::from_u32(r.range(lo as usize, hi as usize) as u32);
        let q = match i % 6 {
            0 => pick(r, 0x80, 0x7ff),
            1 => pick(r, 0x800, 0x33ff),
            2 => pick(r, 0x3400, 0xffff),
            3 => pick(r, 0x10000, 0x1ffff),
            4 => pick(r, 33, 126),
            _ => Some(*r.pick(LOOKALIKES)),
        };
        let Some(q) = q else { continue };
        let kind = kinds[i / 6 % kinds.len()];
        if "\\ |!'^$".contains(q) {
            continue;
        }
        let equal = |c: char| folded(c) == folded(q);
        d.cfg(0, cfg);
        d.parse(0, &write_term(&Term { kind, inv: false, text: vec![q] }));
        if matches!(kind, Kind::Fuzzy | Kind::Exact) {
            let others: Str = all.iter().copied().filter(|&c| !equal(c)).collect();
            hunt_more(d, &others);
            continue;
        }
        // What differs by a few bits, or has some in common.
        let mut found = 0;
        let mut others = vec![];
        for a in 0..21u32 {
            others.extend((0..21u32).map(|b| q as u32 ^ 1 << a ^ 1 << b));
            others.push(q as u32 ^ 1 << a);
            others.push(q as u32 & ((1 << a) - 1));
        }
        others.extend((0..0x1100u32).map(|h| h << 8 | q as u32 & 0xff));
        for c in others.into_iter().filter_map(char::from_u32).filter(|&c| !equal(c) && c != ' ') {
            if found < 20 && d.quiet_dist(0, 0, &c.to_string()) != Reply::None {
                d.xranges(0, 0, &c.to_string());
                found += 1;
            }
        }
        if found > 0 {
            d.end();
        } else {
            d.discard();
        }
    }
}

/// Asks for every character among those whose numbers differ from its own by a bit,
/// or by as much as those of letters' two cases do somewhere.
fn hunt_neighbours(d: &mut Driver, norm: bool) {
    let apart = [1u32, 2, 7, 8, 15, 16, 26, 28, 31, 32, 37, 38, 40, 48, 56, 63, 64, 74, 80, 86, 96, 100, 112, 116, 126, 128, 7264, 0xfee0, 38864];
    for case in 0..3 {
        for (i, lo) in (0x80u32..0x11_0000).step_by(0x1000).enumerate() {
            d.cfg(0, Cfg { algo: 1 + ((i + case as usize) % 2) as u8, case, norm, scheme: 0 });
            let mut found = 0;
            for q in (lo..lo + 0x1000).filter_map(char::from_u32) {
                let u = q as u32;
                let others: String = (0..21)
                    .map(|b| u ^ 1 << b)
                    .chain(apart.iter().flat_map(|&a| [u.wrapping_add(a), u.wrapping_sub(a)]))
                    .filter_map(char::from_u32)
                    .filter(|&c| folded(c) != folded(q))
                    .collect();
                d.quiet_parse_raw(0, &q.to_string());
                if found < 6 && d.quiet_dist(0, 0, &others) != Reply::None {
                    d.parse_raw(0, &q.to_string());
                    d.xranges(0, 0, &others);
                    found += 1;
                }
            }
            if found > 0 {
                d.end();
            } else {
                d.discard();
            }
        }
    }
}

/// Every non-ASCII character is asked about in the way `ask` does, without
/// it being recorded.  One that isn't told the same as the character before it
/// though it is of the same sort is recorded, asked about in the same way.
fn hunt_sorts(d: &mut Driver, cfg: Cfg, ask: fn(&mut Driver, char, bool) -> Reply) {
    let mut last = None;
    let mut found = 0;
    d.cfg(0, cfg);
    for c in (128u32..=0x10FFFF).filter_map(char::from_u32) {
        let this = (sort(c), ask(d, c, false));
        if let Some((was, reply)) = last {
            if was == this.0 && reply != this.1 && found < 40 {
                ask(d, char::from_u32(c as u32 - 1).unwrap_or(c), true);
                ask(d, c, true);
                found += 1;
            }
        }
        last = Some(this);
    }
    if found > 0 {
        d.end();
    } else {
        d.discard();
    }
}

/// Every length of a candidate, up to some, and every length of a term.
fn every_length(d: &mut Driver, r: &mut Rng, algos: &[u8], kinds: &[Kind], hi: usize, ops: Ops) {
    let mut i = 0;
    for &algo in algos {
        for from in (0..hi).step_by(20) {
            // The same few queries for all, in turns.
            let alpha = chars(*r.pick(&["ab_", "aB/é", "ab ", "a1-", "éa中"]));
            let m = r.range(1, 4);
            let kind = kinds[i % kinds.len()];
            i += 1;
            let text = term_text(r, &alpha, m);
            d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
            d.parse(0, &write_term(&Term { kind, inv: false, text: text.clone() }));
            for n in from..from + 20 {
                let k = text.len();
                let mut c = match kind {
                    Kind::Fuzzy => sized(r, &alpha, &text, n.max(1)),
                    _ => string(r, &alpha, n, n),
                };
                if n >= k {
                    match kind {
                        Kind::Fuzzy => {},
                        Kind::Exact => {
                            let at = r.below(n - k + 1);
                            c[at..at + k].copy_from_slice(&text);
                        },
                        Kind::Prefix => c[..k].copy_from_slice(&text),
                        Kind::Suffix => c[n - k..].copy_from_slice(&text),
                        Kind::Equal => {
                            c = vec![' '; n];
                            let at = r.below(n - k + 1);
                            c[at..at + k].copy_from_slice(&text);
                        },
                    }
                }
                call(d, 0, 0, &s(&c), ops, n % 2 == 0);
            }
            d.end();
        }
        // Terms of every length.
        for from in (1..hi / 2).step_by(10) {
            d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
            let alpha = chars(*r.pick(&["ab_", "aB/é", "ab", "a", "éa中"]));
            for m in from..from + 10 {
                let kind = kinds[i % kinds.len()];
                i += 1;
                let mut text = string(r, &alpha, m, m);
                text[0] = 'a';
                d.parse(0, &write_term(&Term { kind, inv: false, text: text.clone() }));
                let mut c = text;
                match (kind, r.below(3)) {
                    (Kind::Fuzzy, 0) => c.insert(r.below(m + 1), *r.pick(&['-', 'é', 'a'])),
                    (Kind::Equal, 0) | (_, 1) => {},
                    (_, 0) => c.insert(if kind == Kind::Suffix { 0 } else { m }, *r.pick(&['-', 'é', 'a'])),
                    _ => drop(c.remove(r.below(m))),
                }
                call(d, 0, 0, &s(&c), ops, m % 2 == 0);
            }
            d.end();
        }
    }
}

/// Terms of about as many characters as some integer, or some memory, holds;
/// in candidates which are almost the same.  Each is asked of two metrics when
/// `both`.
fn long_terms(d: &mut Driver, r: &mut Rng, algos: &[u8], kinds: &[Kind], ops: Ops, both: bool, giant: bool) {
    let ask = |d: &mut Driver, c: &[char], flip: bool| {
        let c = s(c);
        call(d, 0, 0, &c, ops, flip);
        if both {
            call(d, 1, 0, &c, ops, flip);
        }
    };
    let configure = |d: &mut Driver, r: &mut Rng, algo: u8| {
        let cfg = Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 };
        d.cfg(0, cfg);
        if both {
            d.cfg(1, Cfg { algo: 3 - algo, ..cfg });
        }
    };
    for &algo in algos {
        for (i, m) in [31usize, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 191, 193, 254, 255, 256, 257, 258, 383, 385, 511, 512, 513, 514].into_iter().enumerate() {
            let kind = kinds[(i + algo as usize) % kinds.len()];
            configure(d, r, algo);
            let alpha = chars(*r.pick(&["a", "a", "ab", "aé", "éa中"]));
            let mut text = string(r, &alpha, m, m);
            text[0] = 'a';
            if kind == Kind::Fuzzy && r.chance(1, 2) {
                d.parse_raw(0, &s(&text));
            } else {
                d.parse(0, &write_term(&Term { kind, inv: false, text: text.clone() }));
            }
            // The last one or the first one missing, or any; in other places as well.
            ask(d, &text[..m - 1], true);
            ask(d, &text[1..], false);
            let mut c = text.clone();
            c.remove(r.below(m));
            ask(d, &c, false);
            c.insert(r.below(m), '_');
            ask(d, &c, true);
            ask(d, &text, r.chance(1, 2));
            let mut c = text.clone();
            c.insert(if r.chance(1, 2) { m } else { r.below(m + 1) }, *r.pick(&['_', 'a', 'é', ' ']));
            ask(d, &c, false);
            c.insert(0, *r.pick(&['x', 'a', 'é', ' ']));
            ask(d, &c, true);
            ask(d, &['a'], true);
            d.end();
        }
        for m in [1023usize, 1025, 2048, 2049, 4097] {
            let kind = kinds[(m + algo as usize) % kinds.len()];
            configure(d, r, algo);
            let text = vec!['a'; m];
            d.parse(0, &write_term(&Term { kind, inv: false, text: text.clone() }));
            ask(d, &text[1..], true);
            ask(d, &text[..1], true);
            if m < 2500 {
                ask(d, &text, false);
            }
            d.end();
        }
        if giant {
            // None of these matches: what a match takes wouldn't fit.
            configure(d, r, algo);
            let m = (1 << 16) + r.range(1, 3);
            let text = vec!['a'; m];
            d.parse(0, &write_term(&Term { kind: kinds[0], inv: false, text: text.clone() }));
            ask(d, &text[1..], true);
            ask(d, &text[..3], true);
            d.end();
        }
    }
}

/// Terms which occur many times, wholly or in part, the best of them anywhere.
fn many_occurrences(d: &mut Driver, r: &mut Rng, n: usize, algos: &[u8], kinds: &[Kind], ops: Ops) {
    for _ in 0..n {
        for &kind in kinds {
            for &algo in algos {
                let k = if r.chance(1, 2) { r.range(5, 40) } else { *r.pick(&[63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300]) };
                let q = *r.pick(&["ab", "aa", "a", "aab", "aba", "éa", "abc"]);
                d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 });
                d.parse(0, &write_term(&Term { kind, inv: false, text: chars(q) }));
                let part: String = match r.below(4) {
                    0 => q.to_string(),
                    1 => q.chars().take(q.chars().count() - 1).collect(),
                    2 => format!("{q}x"),
                    _ => format!("x{q}"),
                };
                let mut parts = vec![part; k];
                let any = r.below(k);
                let at = *r.pick(&[0, k - 1, k - 1, k / 2, any]);
                parts[at] = format!("{}{q}", r.pick(&["/", " ", "_", "-", "é", "x"]));
                call(d, 0, 0, &parts.concat(), ops, true);
                parts.truncate(at);
                call(d, 0, 0, &parts.concat(), ops, false);
                d.end();
            }
        }
    }
}

/// What is asked about every character: the query and the candidate, in which
/// it takes the place of `?`, and the kind of query.
const ABOUT: &[(&str, &str, bool)] = &[
    ("a", "?a", false),
    ("a", "a?", false),
    ("ab", "xa?b", false),
    ("a?", "?a?", false),
    ("?", "a?", false),
    ("'ab", "a?b", true),
    ("'?b", "a?bx", true),
    ("^a", "?a", true),
    ("^?", "? a", true),
    ("a$", "a?", true),
    ("?$", "a ?", true),
    ("^a$", " a?", true),
    ("^?$", " ? ", true),
    ("!a", "?", true),
    ("!?", "ba", true),
    ("!?", "b?a", true),
    ("a b", "b?a", true),
    ("a | ?", "b?", true),
    ("a?b", "b?a", true),
    ("?a", "a", true),
    ("a?", "a", true),
    ("!?a", "a", true),
    ("'?a", "a", true),
    ("a?$", "a", true),
    ("a ? b", "ba", true),
    ("a?b", "ab", false),
    ("?a", "a", false),
    ("a?", "a", false),
    ("?", "", true),
    ("?", "x", true),
];

/// Asks the things of ABOUT about every character outside of ASCII, without
/// recording it.  A character of which the same isn't told as of the one
/// before, though it is of the same sort, has it recorded.
fn hunt_about(d: &mut Driver, which: &[usize], both: bool) {
    for (n, &i) in which.iter().enumerate() {
        let (q, t, ext) = ABOUT[i];
        let cfg = Cfg { algo: 1 + (n % 2) as u8, case: (n / 2 % 3) as u8, norm: false, scheme: (n % 3) as u8 };
        d.cfg(0, cfg);
        d.cfg(1, Cfg { algo: 3 - cfg.algo, ..cfg });
        let mut last = None;
        let mut found = 0;
        let of = |t: &str, c: char| t.split('?').collect::<Vec<_>>().join(&c.to_string());
        let record = |d: &mut Driver, c: char, last: bool| {
            if ext {
                d.parse(0, &of(q, c));
            } else {
                d.parse_raw(0, &of(q, c));
            }
            // What is asked of the two characters next to each other, and of
            // the two metrics, is comparable.
            if last {
                d.cleared(0, 0, &of(t, c));
                d.cleared(1, 0, &of(t, c));
                d.dist(0, 0, &of(t, c));
            } else {
                d.dist(0, 0, &of(t, c));
                d.cleared(1, 0, &of(t, c));
                d.cleared(0, 0, &of(t, c));
            }
        };
        d.quiet_parse(0, q, ext);
        for c in (128u32..=0x10FFFF).filter_map(char::from_u32) {
            if q.contains('?') {
                d.quiet_parse(0, &of(q, c), ext);
            }
            let cand = of(t, c);
            let mut all = vec![d.quiet_ranges(0, 0, &cand)];
            if both {
                all.push(d.quiet_ranges(1, 0, &cand));
                all.push((d.quiet_dist(0, 0, &cand), vec![]));
            }
            // The places in characters.
            for (_, v) in all.iter_mut() {
                for r in v.iter_mut() {
                    let at = |x: usize| cand.get(..x).map_or(9999, |p| p.chars().count());
                    *r = at(r.start)..at(r.end);
                }
            }
            let this = (sort(c), all);
            if let Some(was) = last.replace(this) {
                let this = last.as_ref().unwrap();
                if was.0 == this.0 && was.1 != this.1 && found < 40 {
                    record(d, char::from_u32(c as u32 - 1).unwrap_or(c), false);
                    record(d, c, true);
                    found += 1;
                }
            }
        }
        if found > 0 {
            d.end();
        } else {
            d.discard();
        }
    }
}

/// The first and last characters of every stretch of non-ASCII characters of
/// the same sort, all the white space and some of the others.
fn sorts(r: &mut Rng, others: usize) -> Str {
    let all: Str = (128u32..=0x10FFFF).filter_map(char::from_u32).collect();
    let mut v: Str = vec![];
    for (i, &c) in all.iter().enumerate() {
        if c.is_whitespace()
            || i == 0
            || i + 1 == all.len()
            || sort(all[i - 1]) != sort(c)
            || sort(all[i + 1]) != sort(c)
        {
            v.push(c);
        }
    }
    for _ in 0..others {
        v.push(*r.pick(&all));
        v.push(all[r.below(0x3000)]);
    }
    v
}

fn normalization(d: &mut Driver, r: &mut Rng, n: usize, thorough: bool) {
    let ranges = [(0xB0u32, 0x37Fu32), (0x1CF8, 0x1F07), (0x2065, 0x2190)];
    let lower: Vec<char> = ('a'..='z').collect();
    let both: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    let mut all: Vec<char> = vec![];
    for (a, b) in ranges {
        all.extend((a..=b).filter_map(char::from_u32));
    }
    // Every letter against every character in and around the table.
    for (ai, &q) in both.iter().enumerate() {
        for (ci, chunk) in all.chunks(110).enumerate() {
            let algo = 1 + ((ai + ci) % 2) as u8;
            d.cfg(0, Cfg { algo, case: 1, norm: true, scheme: 0 });
            d.parse_raw(0, &q.to_string());
            for &c in chunk {
                d.ask(0, 0, &c.to_string(), 6);
            }
            d.end();
        }
    }
    for (ai, &q) in lower.iter().enumerate() {
        for (ci, chunk) in all.chunks(110).enumerate() {
            if !thorough && (ai + ci) % 4 != 0 {
                continue;
            }
            for (case, norm) in [(0, true), (2, true), (1, false), (2, false)] {
                let algo = 1 + ((ai + ci) % 2) as u8;
                d.cfg(0, Cfg { algo, case, norm, scheme: 0 });
                d.parse_raw(0, &q.to_string());
                for &c in chunk {
                    d.ask(0, 0, &c.to_string(), 6);
                }
                d.end();
            }
        }
    }
    // And every printable character of ASCII against all the others there are.
    let others: Str =
        (128u32..=0x10FFFF).filter(|u| !ranges.iter().any(|(a, b)| (a..=b).contains(&u))).filter_map(char::from_u32).collect();
    for q in (33u8..127).map(char::from) {
        hunt_equal(d, Cfg { algo: 1 + (q as u8 % 2), case: 1 + q as u8 / 2 % 2, norm: true, scheme: 0 }, q, &others);
    }
    // The same characters on the query's side.
    for (ci, chunk) in all.chunks(12).enumerate() {
        d.cfg(0, Cfg { algo: 1 + (ci % 2) as u8, case: (ci % 3) as u8, norm: true, scheme: 0 });
        for &q in chunk {
            d.parse_raw(0, &q.to_string());
            d.ask(0, 0, &q.to_string(), 6);
            let f = case_flip(r, &[q]);
            d.ask(0, 0, &s(&f), 6);
            let c = *r.pick(&all);
            d.ask(0, 0, &s(&[c, q, 'a']), 6);
            d.ask(0, 0, "aeioucnszAEIOU", 6);
        }
        d.end();
    }
    normalization_random(d, r, n);
}

/// Terms of every kind.
fn normalization_random(d: &mut Driver, r: &mut Rng, n: usize) {
    let alpha: Str = ACCENTED.iter().copied().chain(chars("abcABCx ")).collect();
    for _ in 0..n {
        let base: Str = if r.chance(3, 4) { chars("abcdex") } else { chars("abcABCéäxÇ") };
        let kind = *r.pick(&KINDS);
        let text = term_text(r, &base, 4);
        let algo = 1 + r.below(2) as u8;
        d.cfg(0, Cfg { algo, case: r.below(3) as u8, norm: r.chance(4, 5), scheme: 0 });
        d.parse(0, &write_term(&Term { kind, inv: r.chance(1, 10), text: text.clone() }));
        for _ in 0..12 {
            let mut c = term_candidate(r, kind, &text, &alpha);
            for x in c.iter_mut() {
                if r.chance(1, 2) {
                    let v: Vec<char> = accents_of(*x);
                    if !v.is_empty() {
                        *x = *r.pick(&v);
                    }
                }
            }
            d.ask(0, 0, &s(&c), 6);
        }
        d.end();
    }
}

fn accents_of(c: char) -> Vec<char> {
    match c {
        'a' => chars("áäạɑₐᴀàā"),
        'A' => chars("ÁÄĄȺ"),
        'b' => chars("ƀḃʙ"),
        'B' => chars("ɃƁ"),
        'c' => chars("çćↄč"),
        'C' => chars("ÇĊ"),
        'd' => chars("ďḍð"),
        'e' => chars("éêếₑ"),
        'x' => chars("ẋₓ"),
        _ => vec![],
    }
}

fn bonuses(d: &mut Driver, r: &mut Rng, n: usize, thorough: bool) {
    let mut all: Str = (0u8..128).map(|c| c as char).collect();
    all.extend(UNI.iter().copied());
    // Every character preceded by every other one, under every scheme.
    for scheme in 0..3u8 {
        for (i, &c) in all.iter().enumerate() {
            d.cfg(0, Cfg { algo: 1 + (i % 2) as u8, case: 1, norm: false, scheme });
            d.parse_raw(0, &c.to_string());
            d.ask(0, 0, &c.to_string(), 6);
            for (j, &p) in all.iter().enumerate() {
                // Alone, or after some other character.
                if j % 2 == 0 {
                    d.ask(0, 0, &s(&[p, c]), 6);
                } else {
                    d.ask(0, 0, &s(&['é', p, c]), 6);
                }
            }
            d.end();
        }
    }
    // Every sort of character, on its own, after another and before another.
    for (i, chunk) in sorts(r, if thorough { 20000 } else { 1000 }).chunks(40).enumerate() {
        d.cfg(0, Cfg { algo: 1 + (i % 2) as u8, case: 1, norm: false, scheme: (i % 3) as u8 });
        d.parse_raw(1, "a");
        for (j, &c) in chunk.iter().enumerate() {
            d.ask(0, 1, &s(&[c, 'a']), 6);
            d.parse_raw(0, &c.to_string());
            d.ask(0, 0, &s(&[*r.pick(&['x', '/', '_', ' ', '1', 'X']), c]), 6);
            if j % 4 == 0 {
                d.ask(0, 0, &s(&[*r.pick(&all), c]), 6);
            }
        }
        d.end();
    }
    for scheme in 0..3 {
        let cfg = Cfg { algo: 1 + scheme % 2, case: 1, norm: false, scheme };
        hunt_sorts(d, cfg, |d, c, record| {
            let t = s(&[c, 'a']);
            if record {
                d.parse_raw(0, "a");
                d.dist(0, 0, &t)
            } else {
                d.quiet_parse_raw(0, "a");
                d.quiet_dist(0, 0, &t)
            }
        });
        hunt_sorts(d, cfg, |d, c, record| {
            let (q, t) = (c.to_string(), s(&['x', c]));
            if record {
                d.parse_raw(0, &q);
                d.dist(0, 0, &t)
            } else {
                d.quiet_parse_raw(0, &q);
                d.quiet_dist(0, 0, &t)
            }
        });
    }
    bonuses_random(d, r, n);
}

/// Through either metric and all the kinds of terms, with runs.
fn bonuses_random(d: &mut Driver, r: &mut Rng, n: usize) {
    let mut all: Str = (0u8..128).map(|c| c as char).collect();
    all.extend(UNI.iter().copied());
    for _ in 0..n {
        let mut alpha = vec![];
        for _ in 0..5 {
            alpha.push(*r.pick(&all));
        }
        let kind = *r.pick(&KINDS);
        let a: Str = alpha.iter().copied().filter(|c| *c != '\\' && *c != '|').chain(['a']).collect();
        let text = term_text(r, &a, 3);
        d.cfg(0, Cfg { algo: 1 + r.below(2) as u8, case: r.below(3) as u8, norm: false, scheme: r.below(3) as u8 });
        d.parse(0, &write_term(&Term { kind, inv: false, text: text.clone() }));
        for _ in 0..12 {
            let c = term_candidate(r, kind, &text, &alpha);
            d.ask(0, 0, &s(&c), 6);
        }
        d.end();
    }
}

fn ordering(d: &mut Driver, r: &mut Rng, n: usize) {
    for round in 0..n {
        let uni = r.chance(1, 3);
        let alpha = alphabet(r, uni);
        let q = string(r, &alpha, 1, 4);
        for algo in [1, 2] {
            d.cfg(0, Cfg::default_of(algo));
            parse_fuzzy(d, r, 0, &q);
            for _ in 0..10 {
                let n = r.range(3, 60);
                let c = if r.chance(1, 3) { sized(r, &alpha, &q, n) } else { candidate(r, &q, &alpha, 20) };
                d.dist(0, 0, &s(&c));
            }
        }
        if round % 4 == 0 {
            // Distances of every magnitude.
            d.cfg(0, Cfg::default_of(1));
            for m in [6, 7, 8, 12, 13, 14, 25, 26, 27, 100, 1300, 1400, 2600, 2800, 5000] {
                let m = m + r.below(3);
                let q = "a".repeat(m);
                d.parse_raw(0, &q);
                d.dist(0, 0, &q);
            }
        }
        // Negative ones: the gaps weigh more than the matches.
        d.cfg(0, Cfg { scheme: r.below(3) as u8, ..Cfg::default_of(1) });
        d.parse_raw(0, "ab");
        let k0 = d.pool.len();
        for _ in 0..6 {
            let n = if r.chance(1, 2) { r.range(28, 48) } else { r.range(28, 400) };
            d.dist(0, 0, &format!("{}a{}b", r.pick(&["", "x"]), "_".repeat(n)));
        }
        let k = d.pool.len();
        for i in k0..k {
            d.compare(i, k0 + (i + 1 - k0) % (k - k0));
            d.compare(i, r.below(k));
        }
        for _ in 0..24 {
            d.compare(r.below(k), r.below(k));
        }
        for i in 0..k.min(6) {
            d.compare(i, i);
        }
        d.sort();
        d.end();
    }
}

fn anything(r: &mut Rng, long: bool) -> String {
    let uni = r.chance(1, 2);
    let mut alpha = alphabet(r, uni);
    match r.below(4) {
        0 => alpha.extend(chars(" \\|!'^$")),
        1 => alpha.push(' '),
        2 => alpha = vec![*r.pick(&alpha)],
        _ => {},
    }
    let n = if long && r.chance(1, 5) { *r.pick(SIZES) } else { r.range(0, 14) };
    let mut c = string(r, &alpha, n, n);
    maybe_stutter(r, &mut c);
    s(&c)
}

/// Queries and candidates of every length, in the shapes which make the parser
/// and the metrics need the most room: recorded for some lengths.
fn shapes(d: &mut Driver) {
    let unit: &[&str] = &[
        "a ", " ", "a", "a|", "a | ", "| ", "\\ ", "\\", "! ", "!a ", "'a ", "^ ", "$ ", "a$ ", "é ", "é", "a\\ b ", "'", "!", "中 | ",
    ];
    let ends: &[&str] = &["", "b", " ", "\\", "|", " | b"];
    for n in 0..=140usize {
        let keep = n < 6 || (30..35).contains(&n) || (62..68).contains(&n) || (126..131).contains(&n);
        for (k, u) in unit.iter().enumerate() {
            for algo in [1, 2] {
                let p0 = d.panics;
                d.cfg(0, Cfg { algo, case: (n % 3) as u8, norm: n % 2 == 0, scheme: ((n / 2) % 3) as u8 });
                for (j, e) in ends.iter().enumerate() {
                    let q = u.repeat(n) + e;
                    for raw in [false, true] {
                        if raw {
                            d.parse_raw(0, &q);
                        } else {
                            d.parse(0, &q);
                        }
                        d.xranges(0, 0, "a b");
                        if j == n % ends.len() {
                            // The query as it is, and somewhat more or less.
                            d.xranges(0, 0, &q);
                            d.dist(0, 0, &(q.clone() + "é"));
                            d.xranges(0, 0, &"ab ".repeat(n));
                            d.dist(0, 0, &q.chars().skip(1).collect::<String>());
                        }
                    }
                }
                if d.panics > p0 || (keep && (k + n + algo as usize) % 7 == 0) {
                    d.end();
                } else {
                    d.discard();
                }
            }
        }
    }
}

/// A character which could be taken for something else, a few times over, at
/// every place of queries and candidates: recorded for `keep` in a hundred.
fn specials(d: &mut Driver, r: &mut Rng, algos: &[u8], ops: Ops, keep: usize) {
    let places = ["?ab", "a?b", "ab?", "?a?b?", "?", " ?ab", "ab? ", "??x?a b"];
    let queries = ["ab", "'ab", "^ab", "ab$", "^ab$", "!ab", "a b", "?", "a?b", "'?ab", "^ab?", "?ab$", "!?"];
    for (i, &x) in LOOKALIKES.iter().enumerate() {
        for n in 1..=4 {
            let run = x.to_string().repeat(n);
            for &algo in algos {
                let p0 = d.panics;
                d.cfg(0, Cfg { algo, ..any_cfg(r, algos) });
                for (k, q) in queries.iter().enumerate() {
                    let q = q.replace('?', &run);
                    if (i + n + k) % 5 == 0 {
                        d.parse_raw(0, &q);
                    } else {
                        d.parse(0, &q);
                    }
                    for c in places {
                        call(d, 0, 0, &c.replace('?', &run), ops, (k + n) % 2 == 0);
                    }
                }
                if d.panics > p0 || r.chance(keep, 100) {
                    d.end();
                } else {
                    d.discard();
                }
            }
        }
    }
}

/// A great many calls, of which a sample is recorded, plus all those which
/// panic (or never end: see the watchdog).
fn robustness(d: &mut Driver, r: &mut Rng, n: usize) {
    for round in 0..n {
        let record = d.sessions < 1500;
        let _ = round;
        for _ in 0..40 {
            let long = r.chance(1, 6);
            d.cfg(0, any_cfg(r, &[1, 2]));
            d.cfg(1, any_cfg(r, &[1, 2]));
            let p0 = d.panics;
            let steps = 60;
            for _ in 0..steps {
                let q = anything(r, long);
                if r.chance(1, 2) {
                    d.parse(0, &q);
                } else {
                    d.parse_raw(0, &q);
                }
                let qc: Str = q.chars().collect();
                for _ in 0..3 {
                    let uni = r.chance(1, 2);
                    let alpha = alphabet(r, uni);
                    let c = match r.below(3) {
                        0 => anything(r, long),
                        1 if !qc.is_empty() && qc.len() < 60 => s(&candidate(r, &qc, &alpha, 300)),
                        _ => q.replace(['!', '\'', '^', '$', '\\'], ""),
                    };
                    match r.below(3) {
                        0 => drop(d.dist(r.below(2), 0, &c)),
                        1 => drop(d.ranges(r.below(2), 0, &c)),
                        _ => drop(d.xranges(r.below(2), 0, &c)),
                    }
                    if d.panics > p0 {
                        break;
                    }
                }
                if d.panics > p0 {
                    break;
                }
            }
            if record && d.sessions < 1500 && r.chance(1, 3) || d.panics > p0 {
                d.end();
            } else {
                d.discard();
            }
        }
    }
}

fn empties(d: &mut Driver, r: &mut Rng, n: usize) {
    let pool = ["", " ", "  ", "|", "!", "'", "^", "!'", "!^", "'$", "^$", "!^$", " | ", "| |", "!'$"];
    for i in 0..n {
        let mut q = String::new();
        if i >= pool.len() {
            let k = r.range(1, 6);
            for j in 0..k {
                if j > 0 {
                    q.push(' ');
                }
                q.push_str(*r.pick(&pool));
            }
        } else {
            q.push_str(pool[i]);
        }
        d.cfg(0, any_cfg(r, &[1, 2]));
        if r.chance(1, 2) {
            let n = r.below(4);
            d.set_buf((0..n).map(|_| { let a = r.below(12); a..a + r.below(6) }).collect());
        }
        if r.chance(1, 4) {
            // Something else was parsed before.
            let t = anything(r, false);
            d.parse(0, &t);
            d.parse(1, &t);
        }
        if r.chance(1, 6) {
            d.parse_raw(0, "");
        } else {
            d.parse(0, &q);
        }
        for _ in 0..6 {
            let c = match r.below(5) {
                0 => String::new(),
                1 => q.clone(),
                _ => anything(r, true),
            };
            match r.below(3) {
                0 => drop(d.dist(0, 0, &c)),
                1 => drop(d.ranges(0, 0, &c)),
                _ => drop(d.xranges(0, 0, &c)),
            }
        }
        d.sort();
        d.end();
    }
}

/// Many words without a text, long candidates, a lot in the buffer.
fn empties_large(d: &mut Driver, r: &mut Rng) {
    let pool = ["", " ", "|", "!", "'", "^", "!'", "'$", "!^$", " | "];
    for (i, &m) in COUNTS.iter().chain(&[3000, 66_000]).enumerate() {
        d.cfg(0, any_cfg(r, &[1, 2]));
        let pad = if m > 1000 { 1 } else { m };
        d.set_buf((0..m).map(|x| x..x + 2).collect());
        for q in [" ".repeat(m), "! ".repeat(pad), vec![pool[i % pool.len()]; pad].join(" "), String::new()] {
            d.parse(0, &q);
            for c in [" ".repeat(m), "aé".repeat(m), String::new()] {
                if m < 1000 || r.chance(1, 4) {
                    d.ranges(0, 0, &c);
                }
                d.dist(0, 0, &c);
            }
        }
        d.end();
    }
}

fn representation(d: &mut Driver, r: &mut Rng, n: usize) {
    let subs: &[(&[char], &[char])] = &[
        (&['x', 'y', 'z'], &['ß', 'ñ', 'ж', '𐐨', 'ḱ']),
        (&['X', 'Y', 'Z'], &['Ñ', 'Ж', '𐐀', 'Ḱ']),
        (&['7', '8', '9'], &['½', '٣', '²']),
        (&['_', '-', '.'], &['€', '…', '×', '😀', '中']),
    ];
    for round in 0..n {
        let mut alpha = alphabet(r, false);
        let (from, to) = *r.pick(subs);
        alpha.push(*r.pick(from));
        alpha.push(*r.pick(from));
        alpha.retain(|c| c.is_ascii());
        let qalpha: Str = alpha.iter().copied().filter(|c| !from.contains(c)).chain(['a']).collect();
        let conds = match r.below(3) {
            0 => multi_conds(r, &qalpha),
            _ => vec![vec![any_term(r, &qalpha, 1)]],
        };
        let text = write_query(r, &conds);
        d.cfg(0, any_cfg(r, &[1, 2]));
        d.parse(0, &text);
        for _ in 0..8 {
            let mut c = multi_candidate(r, &conds, &alpha);
            c.retain(|x| x.is_ascii());
            let at: Vec<usize> = (0..c.len()).filter(|&i| from.contains(&c[i])).collect();
            if at.is_empty() {
                let i = r.below(c.len() + 1);
                c.insert(i, *r.pick(from));
            }
            let at: Vec<usize> = (0..c.len()).filter(|&i| from.contains(&c[i])).collect();
            let i = *r.pick(&at);
            let mut i = i;
            if round % 200 == 0 {
                // Far away, or far from the end.
                let n = *r.pick(&[300, 1030, 66_000]);
                let noise = *r.pick(from);
                let at = if r.chance(1, 2) { c.len() } else { 0 };
                c.splice(at..at, std::iter::repeat(noise).take(n));
                i = r.below(n) + at;
            }
            d.xranges(0, 0, &s(&c));
            c[i] = *r.pick(to);
            d.xranges(0, 0, &s(&c));
            if round % 200 == 0 {
                break;
            }
        }
        d.end();
    }
}

fn settings(d: &mut Driver, r: &mut Rng, n: usize) {
    // Queries and candidates on which all the settings tell.
    let items = [
        ("ab", "A/b aB"),
        ("a", "á A/a a"),
        ("Ab", "áb ab Áb"),
        ("'a", "b/a a;a á"),
        ("^a", "ábA"),
        ("b$", "aḃB"),
        ("aa b", "AA/a b"),
        ("^a$", "Á"),
        ("!A", "aá"),
        ("fo", "f/ö,o Fo"),
        ("f1", "x f:1 F1"),
    ];
    // And longer ones.
    let mut items: Vec<(&str, String)> = items.iter().map(|&(q, c)| (q, c.to_string())).collect();
    for i in 0..8 {
        let (q, c) = items[i].clone();
        let n = LONG[(7 * i + 1) % LONG.len()];
        items.push((q, if c.contains('b') { c.replace('b', &format!("{}b", "_".repeat(n))) } else { c }));
    }
    for _ in 0..n {
        let mut live = vec![false; SLOTS];
        let a = 1 + r.below(2) as u8;
        d.new_inst(0, a);
        live[0] = true;
        d.parse(0, items[r.below(items.len())].0);
        let mut cand = items[r.below(items.len())].1.clone();
        for _ in 0..30 {
            let on: Vec<usize> = (0..SLOTS).filter(|&i| live[i]).collect();
            let sl = *r.pick(&on);
            match r.below(13) {
                0 => {
                    let t = r.below(SLOTS);
                    let a = 1 + r.below(2) as u8;
                    d.new_inst(t, a);
                    live[t] = true;
                },
                1 => {
                    let t = r.below(SLOTS);
                    d.clone_inst(t, sl);
                    live[t] = true;
                },
                2 | 3 => d.set_case(sl, r.below(3) as u8),
                4 | 5 => d.set_norm(sl, r.chance(1, 2)),
                6 | 7 => d.set_scheme(sl, r.below(3) as u8),
                8 => {
                    let it = items[r.below(items.len())].clone();
                    d.parse(0, it.0);
                    cand = it.1;
                },
                9 => drop(d.dist(sl, 0, &cand)),
                10 => d.show(sl),
                _ => drop(d.xranges(sl, 0, &cand)),
            }
        }
        for sl in 0..SLOTS {
            if live[sl] {
                d.dist(sl, 0, &cand);
                d.show(sl);
            }
        }
        d.end();
    }
}

/// The same queries and candidates for both metrics, under the same settings.
fn both_metrics(d: &mut Driver, r: &mut Rng, n: usize) {
    for round in 0..n {
        let uni = r.chance(1, 2);
        let alpha = alphabet(r, uni);
        let c1 = any_cfg(r, &[1]);
        let c2 = Cfg { algo: 2, ..c1 };
        d.cfg(0, c1);
        d.cfg(1, c2);
        let conds = if r.chance(1, 2) { vec![vec![any_term(r, &alpha, 1)]] } else { multi_conds(r, &alpha) };
        if round % 5 == 0 {
            let m = r.range(1, 6);
            d.parse_raw(0, &s(&string(r, &alpha, m, m)));
        } else {
            let text = write_query(r, &conds);
            d.parse(0, &text);
        }
        for i in 0..12 {
            let mut c = multi_candidate(r, &conds, &alpha);
            if round % 9 == 0 {
                let m = *r.pick(&[60, 64, 128, 130]);
                let extra = string(r, &alpha, m, m);
                let at = r.below(c.len() + 1);
                c.splice(at..at, extra);
            }
            let c = s(&c);
            let first = r.below(2);
            if i % 3 == 0 {
                d.dist(first, 0, &c);
                d.dist(1 - first, 0, &c);
            } else {
                d.xranges(first, 0, &c);
                d.xranges(1 - first, 0, &c);
            }
        }
        d.end();
    }
}

/// Instances, each with a parser of its own, used from several threads at the
/// same time; before and after, the same calls are made by one thread.
fn threads(d: &mut Driver, r: &mut Rng, n: usize) {
    for round in 0..n {
        let base = any_cfg(r, &[1, 2]);
        let mut jobs = vec![];
        for t in 0..SLOTS {
            let uni = r.chance(1, 2);
            let alpha = alphabet(r, uni);
            // The same settings, or others; clones of one instance at times.
            let cfg = if round % 3 == 0 { base } else { any_cfg(r, &[1, 2]) };
            let mut items = vec![];
            for i in 0..8 {
                let raw = r.chance(1, 3);
                let (text, cands): (String, Vec<String>) = if raw {
                    let m = r.range(1, 5);
                    let q = string(r, &alpha, m, m);
                    let cs = (0..4)
                        .map(|_| {
                            let n = if r.chance(1, 40) { 1500 } else { *r.pick(SIZES) };
                            s(&sized(r, &alpha, &q, n.max(m)))
                        })
                        .collect();
                    (s(&q), cs)
                } else {
                    let conds = multi_conds(r, &alpha);
                    let cs = (0..4).map(|_| s(&multi_candidate(r, &conds, &alpha))).collect();
                    (write_query(r, &conds), cs)
                };
                items.push(Item { raw, text, cands, ranges: i % 2 == 0 });
            }
            jobs.push(Job { slot: t, cfg, items });
        }
        // Alone first, or last.
        let before = round % 2 == 0;
        let alone = |d: &mut Driver| {
            for j in &jobs {
                d.cfg(0, j.cfg);
                for it in &j.items {
                    if it.raw {
                        d.parse_raw(0, &it.text);
                    } else {
                        d.parse(0, &it.text);
                    }
                    for c in &it.cands {
                        if it.ranges {
                            d.xranges(0, 0, c);
                        } else {
                            d.dist(0, 0, c);
                        }
                    }
                }
            }
        };
        if before {
            alone(d);
        }
        let shared = round % 3 == 0;
        d.concurrently(&jobs, shared, 12);
        if !before {
            alone(d);
        }
        d.end();
    }
}

/// Executes recorded or specified sessions again: one per line, as in a trace,
/// of which only the inputs count.
pub fn replay(d: &mut Driver, input: &str) {
    let text = std::fs::read_to_string(input).expect("read");
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let j = crate::json::parse(line).expect("json");
        for e in j.get("ev").arr() {
            let sl = (e.get("s").num() - 1) as usize;
            let p = (e.get("p").num() - 1) as usize;
            let idx = |names: &[&str], v: &str| names.iter().position(|n| *n == v).expect("name") as u8;
            match e.get("o").str() {
                // What was observed of a thread: it takes its turn again.
                _ if e.get("w").num() > 0 => {},
                "begin" => d.begin(
                    (e.get("t").num() - 1) as usize,
                    sl,
                    e.get("e").bool(),
                    &e.get("q").text(),
                    &e.get("c").text(),
                    e.get("n").num() as usize,
                ),
                "return" => d.back((e.get("t").num() - 1) as usize),
                "new" => d.new_inst(sl, e.get("a").num() as u8),
                "clone" => d.clone_inst(sl, (e.get("f").num() - 1) as usize),
                "case" if e.get("n").num() > 1 => {
                    d.set_many(sl, 0, idx(&CASES, e.get("v").str()), e.get("n").num() as usize)
                },
                "norm" if e.get("n").num() > 1 => d.set_many(sl, 1, e.get("v").bool() as u8, e.get("n").num() as usize),
                "scheme" if e.get("n").num() > 1 => {
                    d.set_many(sl, 2, idx(&SCHEMES, e.get("v").str()), e.get("n").num() as usize)
                },
                "others" => d.others(e.get("n").num() as usize, e.get("a").num() as u8),
                "case" => d.set_case(sl, idx(&CASES, e.get("v").str())),
                "norm" => d.set_norm(sl, e.get("v").bool()),
                "scheme" => d.set_scheme(sl, idx(&SCHEMES, e.get("v").str())),
                "cfg" => d.cfg(
                    sl,
                    Cfg {
                        algo: e.get("a").num() as u8,
                        case: idx(&CASES, e.get("c").str()),
                        norm: e.get("n").bool(),
                        scheme: idx(&SCHEMES, e.get("h").str()),
                    },
                ),
                "parse" if e.get("n").num() > 1 => d.parse_many(p, &e.get("q").text(), e.get("n").num() as usize),
                "d" if e.get("n").num() > 1 => d.dist_many(sl, p, &e.get("c").text(), e.get("n").num() as usize),
                "parse" => drop(d.parse(p, &e.get("q").text())),
                "raw" => drop(d.parse_raw(p, &e.get("q").text())),
                "pnew" => d.new_parser(p),
                "pclone" => d.clone_parser(p),
                "buf" => {
                    let b = e.get("b").arr().iter();
                    d.set_buf(b.map(|r| r.arr()[0].num() as usize..r.arr()[1].num() as usize).collect());
                },
                "d" => drop(d.dist(sl, p, &e.get("c").text())),
                "r" => drop(d.ranges(sl, p, &e.get("c").text())),
                "x" => drop(d.cleared(sl, p, &e.get("c").text())),
                "f" => {
                    let x = char::from_u32(e.get("x").num() as u32).expect("char");
                    let (n, k) = (e.get("n").num() as usize, e.get("k").num() as usize);
                    let (pre, suf) = (e.get("c").text(), e.get("t").text());
                    d.far(sl, p, (&pre, x, n, &suf), k, e.get("op").str() == "r");
                },
                "g" => {
                    let t = |k: &str| e.get(k).text();
                    let g = Grown {
                        ext: e.get("ext").bool(),
                        query: [t("qp"), t("qu"), t("qs"), t("qv"), t("qt")],
                        cand: [t("cp"), t("cu"), t("cs")],
                    };
                    let (k, n) = (e.get("k").num() as usize, e.get("n").num() as usize);
                    d.grown(sl, &g, (k, n), e.get("op").str() == "r");
                },
                "cmp" => d.compare(e.get("i").num() as usize, e.get("j").num() as usize),
                "sort" => d.sort(),
                "show" => d.show(sl),
                o => panic!("unknown event {o}"),
            }
        }
        d.end();
    }
}
