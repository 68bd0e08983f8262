//! What the specification says, transcribed (spec/Match.tla, spec/Parser.tla,
//! spec/Chars.tla) so that it can be asked millions of times.
//!
//! Nothing is decided here.  A session in which the real code and this don't
//! agree is written out, for TLC to judge it by the specification itself; one
//! in which they do isn't.  A mistake made here can thus hide something, but
//! not raise an alarm; that there are none is what TLC's verdicts on the
//! sessions of the other workloads show, of which the disagreements are counted
//! as well.

use std::sync::OnceLock;

use crate::driver::Cfg;

struct Tables {
    class: Vec<u8>,
    fold: Vec<u32>,
    norm: Vec<u32>,
    ranges: Vec<(u32, u32)>,
}

static TABLES: OnceLock<Tables> = OnceLock::new();

const WHITE: u8 = 0;
const NON_WORD: u8 = 1;
const DELIM: u8 = 2;
const LOWER: u8 = 3;
const UPPER: u8 = 4;
const NUMBER: u8 = 6;

/// The numbers in a definition of the specification.
fn definition<'a>(text: &'a str, name: &str) -> &'a str {
    let from = text.find(&format!("\n{name} ==")).expect(name) + 1 + name.len() + 3;
    let rest = &text[from..];
    // Until the next definition, comment or the end.
    let to = rest.match_indices('\n').map(|(i, _)| i + 1).find(|&i| {
        let l = &rest[i..];
        l.starts_with("===") || l.starts_with("(*") || l.chars().next().map_or(true, |c| c.is_alphabetic())
    });
    &rest[..to.unwrap_or(rest.len())]
}

fn numbers(t: &str) -> Vec<u32> {
    t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// Reads the tables of the specification.
pub fn load(spec: &str) {
    let read = |f: &str| std::fs::read_to_string(format!("{spec}/{f}.tla")).expect(f);
    let (uni, nor) = (read("UnicodeData"), read("NormTable"));
    let starts = numbers(definition(&uni, "ClassStarts"));
    let vals = numbers(definition(&uni, "ClassVals"));
    let (from, to) = (numbers(definition(&uni, "LowerFrom")), numbers(definition(&uni, "LowerTo")));
    assert!(starts.len() == vals.len() && from.len() == to.len());
    let mut class = vec![NON_WORD; 0x11_0000];
    for c in 0..128usize {
        class[c] = match c {
            97..=122 => LOWER,
            65..=90 => UPPER,
            48..=57 => NUMBER,
            9 | 10 | 12 | 13 | 32 => WHITE,
            47 => DELIM,
            44 | 58 | 59 | 124 => 7,
            _ => NON_WORD,
        };
    }
    for (k, &s) in starts.iter().enumerate() {
        let e = starts.get(k + 1).map_or(0x11_0000, |&e| e as usize);
        class[s as usize..e].fill(vals[k] as u8);
    }
    let mut fold: Vec<u32> = (0..0x11_0000).collect();
    for c in 65..91 {
        fold[c] += 32;
    }
    for (&f, &t) in from.iter().zip(&to) {
        fold[f as usize] = t;
    }
    let mut norm: Vec<u32> = (0..0x11_0000).collect();
    for g in definition(&nor, "NormGroups").split(">> >>") {
        if let [to, from @ ..] = &numbers(g)[..] {
            for &c in from {
                norm[c as usize] = *to;
            }
        }
    }
    assert!(norm[0xe9] == 'e' as u32 && norm[0x1e95] == 'z' as u32 && norm[0xc0] == 'A' as u32);
    let ranges = numbers(definition(&nor, "NormRanges")).chunks(2).map(|c| (c[0], c[1])).collect();
    let _ = TABLES.set(Tables { class, fold, norm, ranges });
}

pub fn loaded() -> bool {
    TABLES.get().is_some()
}

fn tables() -> &'static Tables {
    TABLES.get().unwrap()
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Fuzzy,
    Exact,
    Prefix,
    Suffix,
    Equal,
}

pub struct Term {
    kind: Kind,
    inv: bool,
    text: Vec<u32>,
}

pub type Query = Vec<Vec<Term>>;

pub fn codes(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

const SPACE: u32 = 32;
const BACKSLASH: u32 = 92;

fn words(s: &[u32]) -> Vec<Vec<u32>> {
    let mut done = vec![];
    let mut cur = vec![];
    for i in 0..s.len() {
        if s[i] == SPACE && !(i > 0 && s[i - 1] == BACKSLASH) {
            if !cur.is_empty() {
                done.push(std::mem::take(&mut cur));
            }
        } else if !(s[i] == BACKSLASH && i + 1 < s.len() && s[i + 1] == SPACE) {
            cur.push(s[i]);
        }
    }
    if !cur.is_empty() {
        done.push(cur);
    }
    done
}

fn term(w: &[u32]) -> Term {
    let is = |w: &[u32], c: char| w.first() == Some(&(c as u32));
    let inv = is(w, '!');
    let w = if inv { &w[1..] } else { w };
    let suf = w.len() > 1 && w[w.len() - 1] == '$' as u32;
    let w = if suf { &w[..w.len() - 1] } else { w };
    let (quo, car) = (is(w, '\''), is(w, '^'));
    let text = if quo || car { &w[1..] } else { w };
    let kind = match (quo, car, suf) {
        (true, _, _) if inv => Kind::Fuzzy,
        (true, _, _) => Kind::Exact,
        (_, true, true) => Kind::Equal,
        (_, true, false) => Kind::Prefix,
        (_, _, true) => Kind::Suffix,
        _ if inv => Kind::Exact,
        _ => Kind::Fuzzy,
    };
    Term { kind, inv, text: text.to_vec() }
}

pub fn parse_extended(s: &str) -> Query {
    let mut conds: Query = vec![];
    let mut bar = false;
    for w in words(&codes(s)) {
        if w == ['|' as u32] {
            bar = true;
            continue;
        }
        let t = term(&w);
        if t.text.is_empty() {
            continue;
        }
        match conds.last_mut() {
            Some(c) if bar => c.push(t),
            _ => conds.push(vec![t]),
        }
        bar = false;
    }
    conds
}

pub fn parse_raw(s: &str) -> Query {
    if s.is_empty() { vec![] } else { vec![vec![Term { kind: Kind::Fuzzy, inv: false, text: codes(s) }]] }
}

struct Prep<'a> {
    n: usize,
    bon: Vec<i64>,
    raw: &'a [u32],
    fld: Vec<u32>,
    nrm: Vec<u32>,
    nfl: Vec<u32>,
    lead: usize,
    trail: usize,
}

fn class_of(c: u32, scheme: u8) -> u8 {
    match tables().class[c as usize] {
        7 if scheme == 1 => NON_WORD,
        7 => DELIM,
        b => b,
    }
}

fn bonus(prev: u8, cur: u8, scheme: u8) -> i64 {
    let white = if scheme == 0 { 10 } else { 8 };
    let delim = if scheme == 2 { 8 } else { 9 };
    match (prev, cur) {
        (_, NON_WORD) => 8,
        (_, WHITE) | (WHITE, _) => white,
        (DELIM, _) => delim,
        (NON_WORD, _) => 8,
        (LOWER, UPPER) => 7,
        (p, NUMBER) if p != NUMBER => 7,
        _ => 0,
    }
}

fn prep<'a>(cfg: &Cfg, cand: &'a [u32]) -> Prep<'a> {
    let t = tables();
    let mut prev = if cfg.scheme == 1 { DELIM } else { WHITE };
    let mut bon = Vec::with_capacity(cand.len());
    for &c in cand {
        let cur = class_of(c, cfg.scheme);
        bon.push(bonus(prev, cur, cfg.scheme));
        prev = cur;
    }
    let fold = |v: &[u32]| -> Vec<u32> { v.iter().map(|&c| t.fold[c as usize]).collect() };
    let nrm: Vec<u32> = if cfg.norm { cand.iter().map(|&c| t.norm[c as usize]).collect() } else { vec![] };
    Prep {
        n: cand.len(),
        bon,
        raw: cand,
        fld: if cfg.case == 1 { vec![] } else { fold(cand) },
        nfl: if cfg.case == 1 || !cfg.norm { vec![] } else { fold(&nrm) },
        nrm,
        lead: cand.iter().take_while(|&&c| c == SPACE).count(),
        trail: cand.iter().rev().take_while(|&&c| c == SPACE).count(),
    }
}

struct Keys<'a> {
    m: usize,
    pk: Vec<u32>,
    ck: Vec<&'a [u32]>,
}

impl Keys<'_> {
    /// From zero, other than in the specification.
    fn eq(&self, i: usize, j: usize) -> bool {
        self.ck[i][j] == self.pk[i]
    }
}

fn keys<'a>(cfg: &Cfg, p: &'a Prep<'a>, text: &[u32]) -> Keys<'a> {
    let t = tables();
    let sens = match cfg.case {
        1 => true,
        2 => false,
        _ => text.iter().any(|&c| t.class[c as usize] == UPPER),
    };
    let plain = |c: u32| t.ranges.iter().any(|&(a, b)| (a..=b).contains(&c));
    Keys {
        m: text.len(),
        pk: text.iter().map(|&c| if sens { c } else { t.fold[c as usize] }).collect(),
        ck: text
            .iter()
            .map(|&c| match (sens, cfg.norm && !plain(c)) {
                (true, false) => p.raw,
                (true, true) => &p.nrm[..],
                (false, false) => &p.fld[..],
                (false, true) => &p.nfl[..],
            })
            .collect(),
    }
}

/// The score of a match, and the characters it consists of.
type Found = Option<(i64, Vec<usize>)>;

fn window(p: &Prep, k: &Keys, s: usize, e: usize) -> Found {
    let (mut i, mut run, mut gap, mut fb, mut score) = (0, false, false, 0, 0);
    let mut pos = vec![];
    for j in s..e {
        if i == k.m {
            break;
        }
        if k.eq(i, j) {
            let b = p.bon[j];
            let bb;
            if run {
                if b >= 8 && b > fb {
                    fb = b;
                }
                bb = b.max(fb).max(4);
            } else {
                fb = b;
                bb = b;
            }
            score += 16 + if i == 0 { 2 * bb } else { bb };
            run = true;
            gap = false;
            i += 1;
            pos.push(j);
        } else {
            score -= if gap { 1 } else { 3 };
            run = false;
            gap = true;
            fb = 0;
        }
    }
    Some((score, pos))
}

fn greedy(p: &Prep, k: &Keys) -> Vec<usize> {
    let mut g = vec![];
    for j in 0..p.n {
        if g.len() < k.m && k.eq(g.len(), j) {
            g.push(j);
        }
    }
    g
}

fn fuzzy_v1(p: &Prep, k: &Keys) -> Found {
    let g = greedy(p, k);
    if g.len() < k.m {
        return None;
    }
    let e = g[k.m - 1];
    let (mut i, mut s) = (k.m, 0);
    for j in (0..=e).rev() {
        if i > 0 && k.eq(i - 1, j) {
            i -= 1;
            s = j;
        }
    }
    window(p, k, s, e + 1)
}

fn fuzzy_v2(p: &Prep, k: &Keys) -> Found {
    if k.m == 1 {
        let mut b: Option<usize> = None;
        for j in 0..p.n {
            if k.eq(0, j) && b.map_or(true, |a| p.bon[j] > p.bon[a]) {
                b = Some(j);
            }
        }
        return b.map(|b| (16 + 2 * p.bon[b], vec![b]));
    }
    let g = greedy(p, k);
    if g.len() < k.m {
        return None;
    }
    let last = (0..p.n).rev().find(|&j| k.eq(k.m - 1, j)).unwrap();
    let w = last + 1;
    // Row by row; what's outside of a row is zero.
    let mut h = vec![0i64; k.m * w];
    let mut c = vec![0usize; k.m * w];
    for i in 0..k.m {
        let upto = last + 1 + i - k.m;
        let mut gap = false;
        for j in g[i]..=upto {
            let at = i * w + j;
            let left = if j > 0 { h[at - 1] } else { 0 };
            let s2 = (left - if gap { 1 } else { 3 }).max(0);
            if !k.eq(i, j) {
                h[at] = s2;
                gap = true;
                continue;
            }
            let b = p.bon[j];
            if i == 0 {
                h[at] = 16 + 2 * b;
                c[at] = 1;
                gap = false;
                continue;
            }
            let up = at - w - 1;
            let run = c[up] + 1;
            let fb = p.bon[j + 1 - run];
            let brk = run > 1 && b >= 8 && b > fb;
            let bb = if run > 1 && !brk { b.max(fb).max(4) } else { b };
            let d = h[up] + 16;
            let cut = d + bb < s2;
            let s1 = if cut { d + b } else { d + bb };
            h[at] = s1.max(s2);
            c[at] = match (cut, brk) {
                (true, _) => 0,
                (_, true) => 1,
                _ => run,
            };
            gap = s1 < s2;
        }
    }
    let end = (k.m - 1) * w;
    let mut best = 0;
    for j in 0..w {
        if h[end + j] > h[end + best] {
            best = j;
        }
    }
    let score = h[end + best];
    let mut pos = vec![];
    let (mut i, mut pref) = (k.m, true);
    for j in (0..=best).rev() {
        if i == 0 {
            break;
        }
        let r = i - 1;
        let at = r * w + j;
        let s = h[at];
        let s1 = if r > 0 && j > 0 { h[at - w - 1] } else { 0 };
        let s2 = if j > 0 { h[at - 1] } else { 0 };
        let nxt = c[at] > 1 || (i < k.m && j + 1 < w && c[at + w + 1] > 0);
        if s > s1 && (s > s2 || (s == s2 && pref)) {
            pos.push(j);
            i -= 1;
        }
        pref = nxt;
    }
    pos.reverse();
    Some((score, pos))
}

fn occurs(k: &Keys, s: usize) -> bool {
    (0..k.m).all(|i| k.eq(i, s + i))
}

fn exact(p: &Prep, k: &Keys) -> Found {
    let mut b: Option<usize> = None;
    for s in 0..(p.n + 1).saturating_sub(k.m) {
        if occurs(k, s) {
            if b.map_or(true, |a| p.bon[s] > p.bon[a]) {
                b = Some(s);
            }
            if p.bon[b.unwrap()] >= 8 {
                break;
            }
        }
    }
    window(p, k, b?, b? + k.m)
}

fn anchored(p: &Prep, k: &Keys, s: usize) -> Found {
    if s + k.m <= p.n && occurs(k, s) { window(p, k, s, s + k.m) } else { None }
}

fn positive(cfg: &Cfg, p: &Prep, t: &Term) -> Found {
    let k = &keys(cfg, p, &t.text);
    let lead = t.text.iter().take_while(|&&c| c == SPACE).count();
    let trail = t.text.iter().rev().take_while(|&&c| c == SPACE).count();
    match t.kind {
        Kind::Fuzzy if cfg.algo == 1 => fuzzy_v1(p, k),
        Kind::Fuzzy => fuzzy_v2(p, k),
        Kind::Exact => exact(p, k),
        Kind::Prefix => anchored(p, k, p.lead.checked_sub(lead)?),
        Kind::Suffix => anchored(p, k, (p.n - p.trail.checked_sub(trail)?).checked_sub(k.m)?),
        Kind::Equal => {
            let (a, b) = (p.lead.checked_sub(lead)?, p.trail.checked_sub(trail)?);
            if a + b + k.m == p.n { anchored(p, k, a) } else { None }
        },
    }
}

/// The score of the candidate, and which of its characters are matched.
pub fn matches(cfg: &Cfg, q: &Query, cand: &[u32]) -> Option<(i64, Vec<bool>)> {
    let p = &prep(cfg, cand);
    let mut score = 0;
    let mut on = vec![false; cand.len()];
    for cond in q {
        let mut ok = false;
        for t in cond {
            match (positive(cfg, p, t), t.inv) {
                (None, true) => ok = true,
                (Some((s, pos)), false) => {
                    ok = true;
                    score += s;
                    pos.iter().for_each(|&j| on[j] = true);
                },
                _ => continue,
            }
            break;
        }
        if !ok {
            return None;
        }
    }
    Some((score, on))
}

/// A term as a query of its own, not negated; and whether to be parsed as an
/// extended one.
pub fn write(t: &Term) -> (String, bool) {
    let text: String = t.text.iter().filter_map(|&c| char::from_u32(c)).collect();
    let e = text.replace(' ', "\\ ");
    match t.kind {
        Kind::Fuzzy => (text, false),
        Kind::Exact => (format!("'{e}"), true),
        Kind::Prefix => (format!("^{e}"), true),
        Kind::Suffix => (format!("{e}$"), true),
        Kind::Equal => (format!("^{e}$"), true),
    }
}

/// The candidate, with the characters no term can match replaced by others of
/// their class: what fits in a byte by what doesn't, the reverse, or any.
pub fn swapped(cfg: &Cfg, q: &Query, cand: &str, way: usize) -> String {
    let t = tables();
    let text: Vec<u32> = q.iter().flatten().flat_map(|t| t.text.iter().copied()).collect();
    let key = |c: u32, norm: bool| t.fold[if norm { t.norm[c as usize] } else { c } as usize];
    let relevant = |c: u32| c == SPACE || text.iter().any(|&x| key(c, false) == key(x, false) || key(c, true) == key(x, false));
    let others: &[char] = if way == 1 {
        &['_', '-', '/', ',', 'z', 'q', 'w', 'Q', 'W', '7', '8', '\t']
    } else {
        &['\u{e7}', '\u{3b6}', '\u{436}', '\u{414}', '\u{1e9e}', '\u{666}', '\u{4e2d}', '\u{1f600}', '\u{3000}', '\u{2026}']
    };
    cand.chars()
        .enumerate()
        .map(|(i, c)| {
            let fits = |x: char| class_of(x as u32, cfg.scheme) == class_of(c as u32, cfg.scheme) && !relevant(x as u32);
            if relevant(c as u32) || (way == 2 && i % 2 == 0) {
                return c;
            }
            others.iter().copied().cycle().skip(i % others.len()).take(others.len()).find(|&x| fits(x)).unwrap_or(c)
        })
        .collect()
}
