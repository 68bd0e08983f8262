//! Candidates of up to tens of millions of characters, most of which are one
//! character the query has nothing to do with (see Far.tla).

use super::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Far {
    /// A term, under any settings.
    Term,
    /// A term, with ranges and without.
    Both,
    /// The same, twice, with others in between.
    Again,
    /// A query of two terms, and the terms.
    Composed,
    /// A query with a negated term, and the positive ones.
    Negated,
    /// Of both metrics.
    Metrics,
    /// The filler replaced by another one of its class.
    Swapped,
}

/// Fillers by class: lowercase letters, uppercase letters, digits, symbols.
const FILLERS: [&[char]; 4] = [&['x', 'ß', 'ж'], &['X', 'Ñ', 'Ж'], &['7', '½', '٣'], &['_', '€', '😀', '中']];

pub fn far(d: &mut Driver, r: &mut Rng, rounds: usize, algos: &[u8], kinds: &[Kind], plan: Far) {
    for i in 0..rounds {
        let algo = *r.pick(algos);
        let term = |r: &mut Rng, inv: bool| {
            let text = *r.pick(&["a", "b", "ab", "ba", "aab", "aB"]);
            Term { kind: *r.pick(kinds), inv, text: chars(text) }
        };
        let mut terms = vec![term(r, plan == Far::Negated)];
        if matches!(plan, Far::Composed) || plan == Far::Negated && r.chance(1, 2) {
            terms.push(term(r, false));
        }
        let len: usize = terms.iter().map(|t| t.text.len()).sum();
        let k = 12 + 26 * len + r.below(3);
        let class = r.below(4);
        let x = *r.pick(FILLERS[class]);
        let n = match i % 8 {
            0 => (1 << 24) + r.below(1000),
            1 | 2 => (1 << 20) + r.below(1000),
            3 => (1 << 16) - r.below(12),
            4 => (1 << 17) - r.below(12),
            _ => r.range(66_000, 200_000),
        };
        let n = match (algo, plan) {
            // The matrices of the second metric.
            (2, _) | (_, Far::Metrics) if n > 200_000 && len > 1 => 100_000 + n % 100_000,
            _ if !x.is_ascii() && n > 3_000_000 => 3_000_000 + n % 1000,
            _ => n,
        };
        let around = chars("ab_/ AéB中-");
        let side = |r: &mut Rng| -> Str {
            let m = r.below(7);
            let mut v = string(r, &around, m, m);
            if r.chance(1, 2) {
                let at = r.below(v.len() + 1);
                let t = r.pick(&terms).text.clone();
                v.splice(at..at, t);
            }
            v
        };
        let (mut pre, mut suf) = (side(r), side(r));
        // What is looked for may be on both sides.
        if r.chance(1, 3) && terms[0].text.len() > 1 {
            pre.retain(|&c| c != terms[0].text[1]);
            suf.retain(|&c| c != terms[0].text[0]);
        }
        let (pre, suf) = (s(&pre), s(&suf));
        let cfg = Cfg { algo, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 };
        d.cfg(0, cfg);
        let texts: Vec<String> = terms.iter().map(write_term).collect();
        let q = texts.join(if r.chance(1, 3) { " | " } else { " " });
        let ranges = r.chance(3, 4);
        match plan {
            Far::Term => {
                d.parse(0, &q);
                d.far(0, 0, (&pre, x, n, &suf), k, ranges);
                if i % 8 != 0 {
                    d.far(0, 0, (&suf, x, n + 1, &pre), k, ranges);
                }
            },
            Far::Both => {
                d.parse(0, &q);
                d.far(0, 0, (&pre, x, n, &suf), k, ranges);
                d.far(0, 0, (&pre, x, n, &suf), k, !ranges);
            },
            Far::Again => {
                d.parse(0, &q);
                let small = format!("{pre}{x}{x}{suf}");
                d.cleared(0, 0, &small);
                d.far(0, 0, (&pre, x, n, &suf), k, ranges);
                d.far(0, 0, (&suf, x, n / 2, &pre), k, ranges);
                d.cleared(0, 0, &small);
                d.far(0, 0, (&pre, x, n, &suf), k, ranges);
                d.far(0, 0, (&suf, x, n / 2 + 1, &pre), k, ranges);
                d.cfg(0, cfg);
                d.cleared(0, 0, &small);
                d.far(0, 0, (&pre, x, n + 1, &suf), k, ranges);
            },
            Far::Composed | Far::Negated => {
                for t in &terms {
                    d.parse(0, &write_term(&Term { inv: false, ..t.clone() }));
                    d.far(0, 0, (&pre, x, n, &suf), k, ranges);
                }
                if plan == Far::Negated && terms.len() > 1 {
                    d.parse(0, &texts[0]);
                    d.far(0, 0, (&pre, x, n, &suf), k, ranges);
                }
                d.parse(0, &q);
                d.far(0, 0, (&pre, x, n, &suf), k, ranges);
            },
            Far::Metrics => {
                d.parse(0, &q);
                d.far(0, 0, (&pre, x, n, &suf), k, ranges);
                d.cfg(1, Cfg { algo: 3 - algo, ..cfg });
                d.far(1, 0, (&pre, x, n, &suf), k, ranges);
            },
            Far::Swapped => {
                d.parse(0, &q);
                d.far(0, 0, (&pre, x, n, &suf), k, ranges);
                d.far(0, 0, (&pre, *r.pick(FILLERS[class]), n, &suf), k, ranges);
            },
        }
        d.end();
    }
}

/// Distances tens of millions apart, and next to one another there.
pub fn far_apart(d: &mut Driver, r: &mut Rng, rounds: usize) {
    for _ in 0..rounds {
        d.cfg(0, Cfg { scheme: r.below(3) as u8, ..Cfg::default_of(1) });
        d.parse(0, "ab");
        let k = 12 + 26 * 2;
        let k0 = d.pool.len();
        // Distances a point apart just past every so many bits, and some before.
        for m in [16usize, 17, 20, 23, 24] {
            let n = (1 << m) + 80 + r.below(40);
            for i in 0..3 {
                d.far(0, 0, ("_a", '_', n + i, "b"), k, false);
            }
            d.far(0, 0, ("xa", '_', n - 100 + r.below(100), "b"), k, false);
        }
        d.dist(0, 0, "ab");
        let n = d.pool.len();
        for i in k0..n {
            for j in k0..n {
                d.compare(i, j);
            }
            d.compare(i, 0);
        }
        d.sort();
        d.end();
    }
}
