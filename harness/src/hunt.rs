//! What is only written down if something about it looks wrong (see `Sift`):
//! there is too much of it for all of it to be checked by TLC.

use super::*;

/// Runs this, keeping the sessions in which something looks wrong.
pub fn hunting(d: &mut Driver, prop: &str, run: impl FnOnce(&mut Driver)) {
    let was = d.sift.replace(Sift::of(prop));
    run(d);
    d.sift = was;
}

/// What terms are made of, so that what's like them is made of it as well.
fn term_alphabet(r: &mut Rng) -> Str {
    let printable = (33u8..127).map(char::from).filter(|c| !"\\|!'^$".contains(*c));
    match r.below(6) {
        0 => printable.collect(),
        1 => ('a'..='z').collect(),
        2 => chars("abcxyzABCXYZ"),
        3 => chars("a@`[{]}~_;/:Z9"),
        4 => printable.chain(chars("éÉñßЖжΣσς中文😀ﬁｆ")).collect(),
        _ => {
            let uni = r.chance(1, 2);
            let v: Str = alphabet(r, uni).into_iter().filter(|c| !c.is_whitespace() && !"\\|!'^$".contains(*c)).collect();
            if v.is_empty() { chars("ab") } else { v }
        },
    }
}

/// The text with something about it changed.
fn mutant(r: &mut Rng, t: &[char]) -> Str {
    let mut v = t.to_vec();
    let n = v.len();
    let i = r.below(n);
    let set = |v: &mut Str, i: usize, u: u32| {
        if let Some(c) = char::from_u32(u) {
            if c != ' ' {
                v[i] = c;
            }
        }
    };
    match r.below(12) {
        // One bit of a character, or of some of them.
        0..=3 => {
            let b = if r.chance(3, 4) { r.below(8) } else { r.below(21) };
            let u = v[i] as u32 ^ 1 << b;
            set(&mut v, i, u);
            if r.chance(1, 4) {
                let j = r.below(n);
                let u = v[j] as u32 ^ 1 << b;
                set(&mut v, j, u);
            }
        },
        4 => {
            let j = (i + 1) % n;
            v.swap(i, j);
        },
        5 => {
            let j = r.below(n);
            v.swap(i, j);
        },
        // What usual hashes are equal for.
        6 | 7 if n > 1 => {
            const BASES: &[u32] = &[1, 3, 5, 7, 10, 13, 16, 17, 26, 27, 29, 31, 32, 33, 37, 41, 53, 61, 63, 64, 65, 67, 97, 101, 127, 128, 131, 137, 151, 251, 255, 256, 257, 263, 311, 499, 509, 911, 997, 1021, 1024, 1031, 4096, 8191, 65521, 65599];
            let b = *r.pick(BASES);
            let by = r.range(1, 2) as u32;
            let gap = if r.chance(1, 4) && n > 2 { 2 } else { 1 };
            let i = r.below(n - gap);
            let d = if gap == 2 { b.wrapping_mul(b) } else { b }.wrapping_mul(by);
            let up = r.chance(1, 2);
            let (x, y) = (v[i] as u32, v[i + gap] as u32);
            let (x, y) = if up { (x.wrapping_add(by), y.wrapping_sub(d)) } else { (x.wrapping_sub(by), y.wrapping_add(d)) };
            if char::from_u32(x).is_some() && char::from_u32(y).is_some() {
                set(&mut v, i, x);
                set(&mut v, i + gap, y);
            }
        },
        8 => drop(v.remove(i)),
        9 => {
            let c = v[i];
            v.insert(i, c);
        },
        10 => v[i] = *r.pick(t),
        _ => v[i] = flip(v[i]),
    }
    v
}

/// Long terms, in candidates which have something which is almost like them.
pub fn mutants(d: &mut Driver, r: &mut Rng, n: usize, kinds: &[Kind]) {
    for i in 0..n {
        let alpha = term_alphabet(r);
        let m = *r.pick(&[3, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 70]);
        let m = if i % 3 == 0 { r.range(1, 70) } else { m };
        let kind = kinds[i % kinds.len()];
        let mut text = string(r, &alpha, m, m);
        // With or without letters of both cases.
        match r.below(3) {
            0 => text.iter_mut().for_each(|c| *c = if c.is_uppercase() { flip(*c) } else { *c }),
            1 => text[r.below(m)] = *r.pick(&['A', 'Z', 'É', 'Ж']),
            _ => {},
        }
        if !writable(&text) {
            continue;
        }
        let q = write_term(&Term { kind, inv: false, text: text.clone() });
        let cfg = any_cfg(r, &[1, 2]);
        d.cfg(0, cfg);
        d.quiet_parse(0, &q, true);
        let mut found = 0;
        for _ in 0..60 {
            let mut body = mutant(r, &text);
            if r.chance(1, 4) && !body.is_empty() {
                body = mutant(r, &body);
            }
            if r.chance(1, 5) {
                body = disguise(r, &body);
            }
            let side = |r: &mut Rng, on: bool| {
                let k = if on && r.chance(2, 3) { *r.pick(&[1, 2, 5, 15, 16, 40]) } else { 0 };
                string(r, &alpha, k, k)
            };
            let before = matches!(kind, Kind::Fuzzy | Kind::Exact | Kind::Suffix);
            let after = matches!(kind, Kind::Fuzzy | Kind::Exact | Kind::Prefix);
            let mut c = side(r, before);
            c.extend(&body);
            if after && r.chance(1, 8) {
                c.extend(&text);
            }
            c.extend(side(r, after));
            let c = s(&c);
            if found < 4 && d.quiet_odd(0, 0, &c) {
                d.parse(0, &q);
                d.xranges(0, 0, &c);
                d.dist(0, 0, &c);
                found += 1;
            }
        }
        d.end();
    }
}

/// One instance which is asked about characters whose numbers only differ by a
/// bit or some, one after another.
pub fn tagged(d: &mut Driver, r: &mut Rng, n: usize) {
    for i in 0..n {
        let c = match i {
            0..=0x17f => 0x20 + i,
            _ => match i % 4 {
                0 => r.range(0x80, 0x7ff),
                1 => r.range(0x800, 0x33ff),
                2 => r.range(0x3400, 0xffff),
                _ => r.range(0x10000, 0x1ffff),
            },
        };
        let Some(c) = char::from_u32(c as u32) else { continue };
        let cfg = Cfg { algo: 1 + (i / 2 % 2) as u8, case: r.below(3) as u8, norm: r.chance(1, 2), scheme: r.below(3) as u8 };
        let mut like: Str = (0..21).filter_map(|b| char::from_u32(c as u32 ^ 1 << b)).collect();
        for _ in 0..6 {
            like.extend(char::from_u32(c as u32 ^ 1 << r.below(21) ^ 1 << r.below(21)));
        }
        like.extend((0..6).filter_map(|_| char::from_u32(c as u32 & 0xff | (r.below(0x1100) as u32) << 8)));
        like.extend((0..6).filter_map(|_| char::from_u32(c as u32 & 0xfff | (r.below(0x110) as u32) << 12)));
        if r.chance(1, 2) {
            like.reverse();
        }
        d.cfg(0, cfg);
        // Of which sort they are, and what they are equal to.
        let of = |c: char| {
            let f = folded(c);
            if i % 3 != 0 { f } else { c }
        };
        let asks = [('a', true), (of(c), false), ('e', false)];
        for (q, before) in asks {
            d.parse_raw(0, &q.to_string());
            for x in [c].iter().chain(&like).chain([&c]).chain(&like[like.len() / 2..]) {
                let t = if before { format!("{x}a{x}") } else { format!("_{x}a") };
                d.dist(0, 0, &t);
            }
        }
        for x in [c].iter().chain(&like).chain([&c]).chain(&like[like.len() / 2..]) {
            // The second metric does otherwise when there is only one of them.
            let x1 = of(*x);
            d.parse_raw(0, &if i % 2 == 0 { format!("{x1}b") } else { x1.to_string() });
            d.dist(0, 0, &format!("a{x}b"));
            d.dist(0, 0, &format!("_{x}b"));
        }
        d.parse_raw(0, &of(*r.pick(&like)).to_string());
        for x in like.iter().chain([&c]) {
            d.cleared(0, 0, &format!("-{x}"));
        }
        d.end();
    }
}

/// Long runs of a character of every width before, within and after what matches.
pub fn widths(d: &mut Driver, r: &mut Rng, n: usize, kinds: &[Kind]) {
    const OF: [&[char]; 4] = [&['x', '_', '7', 'W'], &['é', 'ж', '÷', 'Ñ'], &['€', '中', 'ｗ', '…'], &['😀', '𝐀', '𐐀', '\u{10ffff}']];
    for i in 0..n {
        let w = if i % 3 == 0 { 3 } else { r.below(4) };
        let x = *r.pick(OF[w]);
        let k = match r.below(4) {
            0 => *r.pick(&[15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
            1 => r.range(60, 140),
            2 => r.range(1, 60),
            _ => r.range(140, 600),
        };
        let text = chars(*r.pick(&["a", "ab", "abc", "aB"]));
        let kind = kinds[i % kinds.len()];
        let mut c = match kind {
            Kind::Prefix | Kind::Equal => vec![],
            _ => vec![x; k],
        };
        let at = c.len();
        c.extend(&text);
        match kind {
            Kind::Suffix | Kind::Equal => {},
            _ => c.extend(std::iter::repeat(x).take(r.range(0, 70))),
        }
        if kind == Kind::Fuzzy && text.len() > 1 && r.chance(1, 2) {
            let gap = *r.pick(&[1, 30, 64, 65, 128, 260]);
            c.splice(at + 1..at + 1, vec![*r.pick(OF[(w + gap) % 4]); gap]);
        }
        // Something of another width at times, anywhere.
        for _ in 0..r.below(3) {
            if kind == Kind::Fuzzy || kind == Kind::Exact {
                let (j, w) = (r.below(at + 1), r.below(4));
                c.insert(j, *r.pick(OF[w]));
            }
        }
        let c = s(&c);
        d.cfg(0, any_cfg(r, &[1, 2]));
        d.parse(0, &write_term(&Term { kind, inv: false, text }));
        d.cleared(0, 0, &c);
        d.dist(0, 0, &c);
        if i % 4 == 0 {
            d.parse(0, "a b");
            d.cleared(0, 0, &c);
        }
        d.end();
    }
}

/// A great many calls which are all different, on one instance.
pub fn lasting(d: &mut Driver, r: &mut Rng, n: usize, algo: u8) {
    // Of settings it hasn't by default, more often than not.
    let other = Cfg { algo, case: 2, norm: true, scheme: 1 + r.below(2) as u8 };
    d.cfg(0, if r.chance(2, 3) { other } else { any_cfg(r, &[algo]) });
    let mut found = 0;
    let skipped = d.skipped.get();
    for i in 0..n / 8 {
        let uni = r.chance(1, 3);
        let alpha = alphabet(r, uni);
        let ext = r.chance(1, 4);
        let q = if ext {
            let conds = if r.chance(1, 2) { multi_conds(r, &alpha) } else { vec![vec![any_term(r, &alpha, 1)]] };
            write_query(r, &conds)
        } else {
            let m = r.range(1, 4);
            s(&string(r, &alpha, m, m))
        };
        d.quiet_parse(0, &q, ext);
        let like = chars(&q);
        for _ in 0..8 {
            let m = r.range(0, 12);
            let mut c = string(r, &alpha, m, m);
            if r.chance(7, 8) {
                let at = r.below(c.len() + 1);
                let like = if r.chance(1, 4) { disguise(r, &like) } else { like.clone() };
                c.splice(at..at, like);
            }
            let c = s(&c);
            let (reply, b) = if i % 2 == 0 {
                (d.quiet_dist(0, 0, &c), None)
            } else {
                let (reply, b) = d.quiet_ranges(0, 0, &c);
                (reply, Some(b))
            };
            // A call which wasn't made.
            if d.skipped.get() > skipped {
                return d.end();
            }
            if found < 12 && d.unlike(0, 0, &c, reply, b.as_deref()) {
                found += 1;
                if ext {
                    d.parse(0, &q);
                } else {
                    d.parse_raw(0, &q);
                }
                d.observed(0, 0, &c, reply, b.as_deref());
                // On the same instance, and on one which is like it.
                for sl in [0, 1] {
                    if sl == 1 {
                        d.cfg(1, d.cfg_of(0));
                    }
                    d.dist(sl, 0, &c);
                    d.cleared(sl, 0, &c);
                }
            }
        }
    }
    d.end();
}

/// Queries and candidates of as many bytes each, one after another: what was
/// where they are before isn't what they are.
pub fn in_place(d: &mut Driver, r: &mut Rng, n: usize) {
    const OF: [[&str; 6]; 4] = [
        ["a", "b", "A", "/", "x", "1"],
        ["xx", "ab", "é", "É", "ж", "aB"],
        ["xab", "a b", "€", "éa", "bж", "中"],
        ["xabx", "😀", "éж", "a€", "𝐀", "A__b"],
    ];
    let pieces = |r: &mut Rng, sizes: &[usize]| -> String { sizes.iter().map(|&i| OF[i][r.below(6)]).collect() };
    for i in 0..n {
        let algo = 1 + (i % 2) as u8;
        let sizes: Vec<usize> = (0..*r.pick(&[1, 2, 3, 5, 8, 12, 24])).map(|_| r.below(4)).collect();
        let asks: Vec<usize> = (0..r.range(1, 2)).map(|_| r.below(3)).collect();
        d.cfg(0, any_cfg(r, &[algo]));
        d.cfg(1, any_cfg(r, &[algo]));
        for _ in 0..12 {
            let q = if r.chance(1, 2) { pieces(r, &asks) } else { String::from(*r.pick(&["ab", "ba", "aé", "x€", "éa", "bx"])) };
            if r.chance(1, 3) {
                d.parse(0, &q);
            } else {
                d.parse_raw(0, &q);
            }
            let ranges = r.chance(1, 2);
            let other = r.chance(1, 3);
            for _ in 0..r.range(1, 5) {
                let mut c = pieces(r, &sizes);
                // In the same place, and at times still the same.
                let times = r.range(1, 2);
                for _ in 0..times {
                    let sl = other as usize * r.below(2);
                    if ranges {
                        d.cleared(sl, 0, &c);
                    } else {
                        d.dist(sl, 0, &c);
                    }
                    c = c.replace("xx", "é");
                }
            }
        }
        d.end();
    }
}

/// What tells all of the settings apart.
const TELLING: [(&str, &str); 6] =
    [("ab", "A/b aB"), ("a", "á A/a a"), ("fo", "f/ö,o Fo"), ("'a", "b/a a;a á"), ("^a", "ábA"), ("Ab", "áb ab Áb")];

fn tell(d: &mut Driver, sl: usize, i: usize) {
    let (q, c) = TELLING[i % TELLING.len()];
    d.parse(0, q);
    d.dist(sl, 0, c);
    d.cleared(sl, 0, c);
}

/// Settings which are set any number of times between two calls.
pub fn counted(d: &mut Driver, r: &mut Rng, most: usize) {
    let near = |n: usize| n - 3..n + 4;
    let times: Vec<usize> = (1..300).chain(near(512)).chain(near(1024)).chain(near(4096)).chain(near(32_768)).chain(near(65_536)).collect();
    for algo in [1, 2] {
        for kind in 0..3 {
            let times = times.iter().copied().filter(|&n| n < most);
            for (i, n) in times.enumerate() {
                if i % 8 == 0 {
                    d.end();
                    d.new_inst(0, algo);
                }
                tell(d, 0, i);
                let c = d.cfg_of(0);
                let v = match kind {
                    0 => (c.case + 1 + r.below(2) as u8) % 3,
                    1 => !c.norm as u8,
                    _ => (c.scheme + 1 + r.below(2) as u8) % 3,
                };
                d.set_many(0, kind, v, n);
                for j in 0..3 {
                    tell(d, 0, i + j);
                }
            }
            d.end();
        }
    }
}

/// Clones of clones of an instance.
pub fn lineage(d: &mut Driver, r: &mut Rng, n: usize) {
    for algo in [1, 2] {
        for round in 0..3 {
            let c = Cfg { algo, case: 1 + round % 2, norm: true, scheme: 1 + r.below(2) as u8 };
            d.cfg(0, c);
            d.cfg(1, c);
            for i in 0..n {
                let (a, b) = if round == 2 { (0, 0) } else { (i % 2, (i + 1) % 2) };
                d.clone_inst(b, a);
                if round == 1 && i % 3 == 0 {
                    d.clone_inst(2, b);
                }
                tell(d, b, i);
            }
            d.end();
        }
    }
}

/// Instances and parsers of which a great many others are created meanwhile.
pub fn outnumbered(d: &mut Driver, r: &mut Rng, most: usize) {
    let near: &[usize] = &[256 - 8, 1024 - 8, 65_536 - 8];
    for (i, &n) in near.iter().filter(|&&n| n < most).enumerate() {
        for algo in [1, 2] {
            let cfg = any_cfg(r, &[algo]);
            d.cfg(0, cfg);
            d.clone_inst(1, 0);
            tell(d, 0, i);
            tell(d, 1, i);
            d.parse(1, "ab 'a");
            d.others(n, algo);
            for k in 0..16 {
                // One which isn't like it.
                let norm = !cfg.norm;
                d.cfg(2, Cfg { algo, case: (cfg.case + 1) % 3, norm, scheme: (cfg.scheme + 1 + k % 2) % 3 });
                tell(d, 2, k as usize);
                for j in 0..3 {
                    tell(d, 0, 2 * k as usize + j);
                }
                if k % 4 == 3 {
                    d.clone_inst(3, 2);
                    tell(d, 3, k as usize);
                }
                tell(d, 1, k as usize);
                d.new_parser(0);
                d.parse(0, "!b A");
                d.cleared(0, 0, "a/A c");
                d.cleared(0, 1, "A/b aB á");
            }
            d.end();
        }
    }
}

/// Candidates larger than usual used by several threads at once, or usual ones by
/// a great many threads.
pub fn large_threads(d: &mut Driver, r: &mut Rng, n: usize) {
    for round in 0..n {
        let crowd = match round % 4 {
            1 => *r.pick(&[9, 17, 24, 40]),
            3 => *r.pick(&[70, 100, 130]),
            _ => 0,
        };
        let base = any_cfg(r, &[1, 2]);
        let units: [&[char]; 3] = [&['é', 'ж', 'x'], &['€', '中', '_'], &['😀', 'a', '/']];
        let long = match round % 4 {
            0 => r.range(600, 1200),
            1 => r.range(1200, 2600),
            2 => r.range(2600, 6000),
            _ => r.range(300, 4500),
        };
        let long = if crowd > 0 { r.range(8, 100) } else { long };
        let jobs: Vec<Job> = (0..crowd.max(SLOTS))
            .map(|t| {
                let algo = if round % 3 == 0 { base.algo } else { 1 + r.below(2) as u8 };
                let cfg = if round % 3 == 0 { base } else { any_cfg(r, &[algo]) };
                let items = (0..2)
                    .map(|i| {
                        let q = *r.pick(&["ab", "b", "'ab", "^a", "cd", "c !d", "c$", "'b"]);
                        let cands = (0..2)
                            .map(|_| {
                                let ascii = r.chance(1, 5);
                                let us: &[char] = if ascii { &['x', '_', '/'] } else { r.pick(&units) };
                                let n = r.range(long / 2, long);
                                let mut c = string(r, us, n, n);
                                for _ in 0..r.range(0, 3) {
                                    let at = r.below(c.len());
                                    let what = chars(*r.pick(&["ab", "a", "b", "cd", "c", "d"]));
                                    c.splice(at..at, what);
                                }
                                let c = s(&c);
                                if t % 2 == 0 { format!("a{c}") } else { format!("{c}c") }
                            })
                            .collect();
                        Item { raw: false, text: q.into(), cands, ranges: i == 0 || round % 2 == 0 }
                    })
                    .collect();
                Job { slot: t % SLOTS, cfg, items }
            })
            .collect();
        let odd = d.concurrently(&jobs, false, if crowd > 100 { 100 } else if crowd > 0 { 300 } else { 60 });
        // The same by one thread.
        let mut expected = vec![];
        for j in &jobs {
            for it in &j.items {
                for c in &it.cands {
                    d.cfg(0, j.cfg);
                    d.quiet_parse(0, &it.text, !it.raw);
                    expected.push(if it.ranges {
                        let (r, b) = d.quiet_ranges(0, 0, c);
                        (r, ranges_json(&b))
                    } else {
                        (d.quiet_dist(0, 0, c), String::new())
                    });
                }
            }
        }
        let same = odd.len() == expected.len() && odd.iter().zip(&expected).all(|(was, (r, b))| {
            matches!(&was[..], [one] if one.0 == *r && one.1 == *b)
        });
        if same {
            d.discard();
            continue;
        }
        d.strange();
        // Those which are not, by one thread.
        let mut at = 0;
        for j in &jobs {
            for it in &j.items {
                for c in &it.cands {
                    let fine = odd.get(at).is_some_and(|w| w.len() == 1 && w[0] == expected[at]);
                    at += 1;
                    if fine {
                        continue;
                    }
                    d.cfg(0, j.cfg);
                    d.parse(0, &it.text);
                    if it.ranges {
                        d.cleared(0, 0, c);
                    } else {
                        d.dist(0, 0, c);
                    }
                }
            }
        }
        d.end();
        return;
    }
}
