//! Generates spec/UnicodeData.tla from the Unicode database of Rust's standard
//! library, which is the one users of nomad/norm get:
//!   rustc -O tools/gen_unicode.rs -o /tmp/gen && /tmp/gen > spec/UnicodeData.tla
fn seq(v: &[u32]) -> String {
    let mut o = String::from("<<\n  ");
    let mut n = 0;
    for (i, x) in v.iter().enumerate() {
        let t = format!("{x}{}", if i + 1 < v.len() { "," } else { "" });
        n += t.len();
        o.push_str(&t);
        if n > 90 && i + 1 < v.len() {
            o.push_str("\n  ");
            n = 0;
        }
    }
    o + ">>"
}
fn main() {
    let (mut starts, mut vals, mut from, mut to) = (vec![], vec![], vec![], vec![]);
    for u in 128..=0x10FFFFu32 {
        let Some(c) = char::from_u32(u) else { continue };
        let v = if c.is_lowercase() { 3 } else if c.is_uppercase() { 4 } else if c.is_numeric() { 6 }
            else if c.is_alphabetic() { 5 } else if c.is_whitespace() { 0 } else { 1 };
        if vals.last() != Some(&v) {
            starts.push(u);
            vals.push(v);
        }
        let mut l = c.to_lowercase();
        if l.len() == 1 {
            let l = l.next().unwrap() as u32;
            if l != u && l >= 128 {
                from.push(u);
                to.push(l);
            }
        }
    }
    println!("---------------------------- MODULE UnicodeData ----------------------------");
    println!("(* GENERATED by tools/gen_unicode.rs from the Unicode database of Rust's");
    println!("   standard library, version {:?}.", char::UNICODE_VERSION);
    println!("   ClassStarts/ClassVals: run-length table of the character class of every");
    println!("   code point >= 128 (0 white space, 1 non-word, 3 lower, 4 upper, 5 letter,");
    println!("   6 number).  LowerFrom/LowerTo: the 1:1 lowercase mappings between");
    println!("   non-ASCII characters, sorted by source. *)");
    println!("ClassStarts == {}", seq(&starts));
    println!("ClassVals == {}", seq(&vals));
    println!("LowerFrom == {}", seq(&from));
    println!("LowerTo == {}", seq(&to));
    println!("=============================================================================");
}
