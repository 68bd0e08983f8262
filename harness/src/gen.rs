//! Random and exhaustive generation of strings, terms and queries.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// In lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub type Str = Vec<char>;

pub fn s(v: &[char]) -> String {
    v.iter().collect()
}

/// All the strings over `alpha` of length at most `max`, shortest first.
pub fn all_strings(alpha: &[char], max: usize) -> Vec<Str> {
    let mut out: Vec<Str> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for &c in alpha {
                let mut t = out[i].clone();
                t.push(c);
                out.push(t);
            }
        }
        from = to;
    }
    out
}

/// Characters of every class, grouped.
pub const LOWER: &[char] = &['a', 'b', 'c', 'd', 'x'];
pub const UPPER: &[char] = &['A', 'B', 'C', 'X'];
pub const DIGIT: &[char] = &['0', '1', '2'];
pub const DELIM: &[char] = &['/', ',', ':', ';', '|'];
pub const NONWORD: &[char] = &['_', '-', '.', '#', '\\', '\u{b}', '(', '@'];
pub const WHITE: &[char] = &[' ', '\t', '\n', '\u{c}', '\r'];
/// Multi-byte characters of every class and encoded length.
pub const UNI: &[char] = &[
    'é', 'É', 'ß', 'ñ', 'Ü', 'ö', 'ł', 'Ł', 'Σ', 'σ', 'ς', 'Ж', 'ж', '中', '文', '😀', '½', '²', '٣',
    '\u{a0}', '\u{3000}', '\u{212a}', '\u{17f}', '\u{130}', '\u{131}', '\u{301}', 'ḱ', 'ⁱ', 'ↄ', 'Ꭰ', 'ꭰ',
    '𐐀', '𐐨', '€', '…', 'ª', '\u{1e9e}', 'ǅ', 'ǆ', 'Ǆ', '×', '÷', '\u{85}', '\u{2028}',
];
/// Candidate characters the normalization folds to the letters used above.
pub const ACCENTED: &[char] = &[
    'á', 'à', 'Á', 'Ä', 'ą', 'ḁ', 'ạ', 'ấ', 'ɑ', 'ƀ', 'ɓ', 'ḃ', 'ç', 'č', 'Ç', 'Ċ', 'ď', 'ḍ', 'đ', 'ẋ', 'ₓ',
    'é', 'É', 'ê', 'ñ', 'ö', 'Ö', 'ù', 'ḱ',
];

/// Characters which are the same but for their case, their encodings being of
/// different lengths for most.
pub const FOLDS: &[&[char]] = &[
    &['k', 'K', '\u{212a}'],
    &['s', 'S', '\u{17f}'],
    &['ß', '\u{1e9e}'],
    &['å', 'Å', '\u{212b}'],
    &['ω', 'Ω', '\u{2126}'],
    &['\u{2c65}', '\u{23a}'],
    &['\u{2c66}', '\u{23e}'],
    &['\u{26b}', '\u{2c62}'],
    &['\u{250}', '\u{2c6f}'],
    &['\u{251}', '\u{2c6d}', 'a'],
    &['\u{23f}', '\u{2c7e}'],
    &['ǆ', 'ǅ', 'Ǆ'],
    &['σ', 'ς', 'Σ'],
    &['𐐨', '𐐀'],
    &['ꭰ', 'Ꭰ'],
    &['\u{10d0}', '\u{1c90}'],
    &['i', 'I', '\u{130}', '\u{131}'],
    &['µ', 'μ', 'Μ'],
    &['é', 'É', 'e', 'E'],
    &['ÿ', 'Ÿ', 'y'],
];

/// A small random alphabet: matches are likely and characters repeat.
pub fn alphabet(r: &mut Rng, unicode: bool) -> Str {
    let n = r.range(2, 6);
    let mut a = vec![];
    for _ in 0..n {
        let k = r.below(if unicode { 16 } else { 12 });
        let c = match k {
            0..=4 => *r.pick(LOWER),
            5 | 6 => *r.pick(UPPER),
            7 => *r.pick(DIGIT),
            8 => *r.pick(DELIM),
            9 => *r.pick(NONWORD),
            10 => ' ',
            11 => *r.pick(WHITE),
            12 | 13 => *r.pick(UNI),
            _ => *r.pick(ACCENTED),
        };
        a.push(c);
    }
    if r.chance(1, 6) {
        a.push(odd(r, unicode));
    }
    if unicode && r.chance(1, 4) {
        a.extend(*r.pick(FOLDS));
    }
    if r.chance(1, 8) {
        // What differs from another character by what letters' cases differ by.
        let c = *r.pick(&a);
        if c.is_ascii() {
            a.push((c as u8 ^ 0x20) as char);
        }
        if r.chance(1, 2) {
            a.extend(*r.pick(&[['[', '{'], [']', '}'], ['@', '`'], ['_', '\u{7f}'], ['~', '^']]));
        }
    }
    a
}

/// Any character at all.
pub fn odd(r: &mut Rng, unicode: bool) -> char {
    if !unicode || r.chance(1, 3) {
        return r.below(128) as u8 as char;
    }
    let top = *r.pick(&[0x100, 0x250, 0x1000, 0x3000, 0x10000, 0x20000, 0x110000]);
    char::from_u32(r.below(top) as u32).unwrap_or('\u{fffd}')
}

/// Characters which could be taken for spaces or markers.
pub const LOOKALIKES: &[char] = &[
    '\u{85}', '\u{a0}', '\u{a6}', '\u{2003}', '\u{2028}', '\u{202f}', '\u{3000}', '\u{feff}', '\u{200b}', '\u{180e}', '\u{2019}',
    '\u{2018}', '\u{b4}', '\u{2c6}', '\u{302}', '\u{ff01}', '\u{ff04}', '\u{ff07}', '\u{ff3c}', '\u{ff3e}', '\u{ff5c}', '\u{a1}',
    '\u{203c}', '\u{120}', '\u{17c}', '\u{15c}', '\u{121}', '\u{127}', '\u{15e}', '\u{124}', '\u{2020}', '\u{205c}', '\u{d7ff}',
    '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10020}', '\u{1005c}', '\u{10ffff}', '\0', '\t', '\n', '\r', '\u{7f}', '\u{ad}',
    '\u{300}', '\u{301}', '\u{34f}', '\u{200d}', '\u{202e}', '\u{2060}', '\u{fe0f}', '\u{fffe}', '\u{fffd}', '\u{fdd0}',
    '\u{e0001}', '\u{1f3fb}', '\u{1f1e6}', '\u{1100}', '\u{ac00}', '\u{fb01}',
];

pub fn string(r: &mut Rng, alpha: &[char], lo: usize, hi: usize) -> Str {
    let n = r.range(lo, hi);
    (0..n).map(|_| *r.pick(alpha)).collect()
}

pub fn flip(c: char) -> char {
    if !c.is_ascii() {
        if let Some(g) = FOLDS.iter().find(|g| g.contains(&c)) {
            let i = g.iter().position(|x| *x == c).unwrap();
            return g[(i + 1) % g.len()];
        }
    }
    if c.is_ascii_lowercase() {
        c.to_ascii_uppercase()
    } else if c.is_ascii_uppercase() {
        c.to_ascii_lowercase()
    } else if c.is_lowercase() {
        let mut u = c.to_uppercase();
        if u.len() == 1 { u.next().unwrap() } else { c }
    } else {
        let mut l = c.to_lowercase();
        if l.len() == 1 { l.next().unwrap() } else { c }
    }
}

fn accent(r: &mut Rng, c: char) -> char {
    let v: &[char] = match c {
        'a' => &['á', 'ä', 'ạ', 'ɑ', 'ₐ', 'ᴀ'],
        'A' => &['Á', 'Ä', 'Ą', 'Ⱥ'],
        'b' => &['ƀ', 'ḃ', 'ʙ'],
        'B' => &['Ƀ', 'Ɓ'],
        'c' => &['ç', 'ć', 'ↄ'],
        'C' => &['Ç', 'Ċ'],
        'd' => &['ď', 'ḍ'],
        'x' => &['ẋ', 'ₓ'],
        _ => return c,
    };
    *r.pick(v)
}

/// A candidate in which `q` is likely to match: its characters, in order,
/// with runs of noise in between.
pub fn embed(r: &mut Rng, q: &[char], alpha: &[char], hi: usize) -> Str {
    let mut c = vec![];
    let glue = r.below(4);
    let vary = r.chance(1, 3);
    let acc = r.chance(1, 6);
    let drop = r.chance(1, 8);
    let gap = |r: &mut Rng, c: &mut Str| {
        let n = match glue {
            0 => 0,
            1 => r.below(2),
            2 => r.below(4),
            _ => {
                if r.chance(1, 8) { r.below(24) } else { r.below(3) }
            },
        };
        for _ in 0..n {
            c.push(*r.pick(alpha));
        }
    };
    let reps = if r.chance(1, 3) { 2 } else { 1 };
    for _ in 0..reps {
        let pre = r.below(4);
        for _ in 0..pre {
            c.push(*r.pick(alpha));
        }
        for (i, &x) in q.iter().enumerate() {
            if drop && i + 1 == q.len() && r.chance(1, 2) {
                break;
            }
            if i > 0 {
                gap(r, &mut c);
            }
            let mut y = x;
            if vary && r.chance(1, 3) {
                y = flip(y);
            }
            if acc && r.chance(1, 2) {
                y = accent(r, y);
            }
            c.push(y);
        }
        let post = r.below(4);
        for _ in 0..post {
            c.push(*r.pick(alpha));
        }
    }
    c.truncate(hi);
    c
}

/// A candidate for `q`: embedded or unrelated, with spaces around at times.
pub fn candidate(r: &mut Rng, q: &[char], alpha: &[char], hi: usize) -> Str {
    let mut c = if r.chance(3, 4) { embed(r, q, alpha, hi) } else { string(r, alpha, 0, hi.min(12)) };
    if r.chance(1, 6) {
        let n = r.range(1, 3);
        for _ in 0..n {
            c.insert(0, ' ');
        }
    }
    if r.chance(1, 6) {
        let n = r.range(1, 3);
        for _ in 0..n {
            c.push(' ');
        }
    }
    maybe_stutter(r, &mut c);
    c
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Fuzzy,
    Exact,
    Prefix,
    Suffix,
    Equal,
}

pub const KINDS: [Kind; 5] = [Kind::Fuzzy, Kind::Exact, Kind::Prefix, Kind::Suffix, Kind::Equal];

#[derive(Clone, Debug)]
pub struct Term {
    pub kind: Kind,
    pub inv: bool,
    pub text: Str,
}

/// How a term is written, with its spaces escaped.  Only for texts which can
/// be written unambiguously (see `writable`).
pub fn write_term(t: &Term) -> String {
    let mut o = String::new();
    if t.inv {
        o.push('!');
    }
    let (pre, post) = match (t.kind, t.inv) {
        (Kind::Fuzzy, false) => ("", ""),
        (Kind::Fuzzy, true) => ("'", ""),
        (Kind::Exact, false) => ("'", ""),
        (Kind::Exact, true) => ("", ""),
        (Kind::Prefix, _) => ("^", ""),
        (Kind::Suffix, _) => ("", "$"),
        (Kind::Equal, _) => ("^", "$"),
    };
    o.push_str(pre);
    for &c in &t.text {
        if c == ' ' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push_str(post);
    o
}

pub fn writable(text: &[char]) -> bool {
    !text.is_empty()
        && !text.contains(&'\\')
        && !matches!(text[0], '!' | '\'' | '^' | '|' | '$')
        && *text.last().unwrap() != '$'
}

pub fn term_text(r: &mut Rng, alpha: &[char], hi: usize) -> Str {
    for _ in 0..50 {
        let t = string(r, alpha, 1, hi);
        if writable(&t) {
            return t;
        }
    }
    vec!['a']
}

/// The text as it is, or with letters of the other case or with diacritics.
pub fn disguise(r: &mut Rng, t: &[char]) -> Str {
    let (f, a) = (r.chance(1, 5), r.chance(1, 5));
    t.iter()
        .map(|&c| {
            let c = if f && r.chance(1, 2) { flip(c) } else { c };
            if a && r.chance(1, 2) { accent(r, c) } else { c }
        })
        .collect()
}

pub fn case_flip(r: &mut Rng, t: &[char]) -> Str {
    t.iter().map(|&c| if r.chance(1, 2) { flip(c) } else { c }).collect()
}

/// The candidate made longer by `n` characters somewhere: at an end, within.
pub fn pad(r: &mut Rng, c: &mut Str, n: usize) {
    let at = match r.below(4) {
        0 => 0,
        1 => c.len(),
        2 => r.below(c.len() + 1),
        _ => c.iter().position(|&x| x != ' ').unwrap_or(0),
    };
    let x = *r.pick(&['_', 'z', ' ', ' ', '9', 'é', '中', '/', 'Q', '😀']);
    let y = if r.chance(1, 3) { *r.pick(&['-', 'w', '/', 'ж', '7', 'V']) } else { x };
    let k = if r.chance(1, 2) { 2 } else { n };
    c.splice(at..at, (0..n).map(|i| if i % k == 0 { x } else { y }));
}

/// Lengths around those the implementation's buffers begin with, or twice.
pub const LONG: &[usize] = &[56, 60, 63, 64, 65, 100, 120, 126, 127, 128, 129, 140, 200, 250, 254, 255, 256, 257, 300];

/// At times, a few of a character which could be taken for something else, or
/// of one which is there anyway, one after another.
pub fn maybe_stutter(r: &mut Rng, c: &mut Str) {
    if !r.chance(1, 12) {
        return;
    }
    let n = r.range(1, 4);
    let at = match r.below(4) {
        0 => 0,
        1 => c.len(),
        _ => r.below(c.len() + 1),
    };
    let x = match r.below(4) {
        0 if at < c.len() => c[at],
        1 => odd(r, true),
        _ => *r.pick(LOOKALIKES),
    };
    c.splice(at..at, std::iter::repeat(x).take(n));
}

/// At times, a longer candidate.
pub fn maybe_pad(r: &mut Rng, c: &mut Str) {
    if r.chance(1, 30) {
        let n = *r.pick(LONG);
        pad(r, c, n);
    }
}
