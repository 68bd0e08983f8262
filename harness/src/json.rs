//! A small reader of JSON.

pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map_or(&J::Null, |(_, j)| j),
            _ => &J::Null,
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => 0,
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    /// A string given as an array of code points.
    pub fn text(&self) -> String {
        self.arr().iter().filter_map(|j| char::from_u32(j.num() as u32)).collect()
    }
}

pub fn parse(s: &str) -> Option<J> {
    let b = s.as_bytes();
    let mut i = 0;
    value(b, &mut i)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b'}' => {
                        *i += 1;
                        return Some(J::Obj(v));
                    },
                    b',' => *i += 1,
                    _ => {
                        let J::Str(k) = value(b, i)? else { return None };
                        ws(b, i);
                        if *b.get(*i)? != b':' {
                            return None;
                        }
                        *i += 1;
                        v.push((k, value(b, i)?));
                    },
                }
            }
        },
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b']' => {
                        *i += 1;
                        return Some(J::Arr(v));
                    },
                    b',' => *i += 1,
                    _ => v.push(value(b, i)?),
                }
            }
        },
        b'"' => {
            *i += 1;
            let mut o = vec![];
            loop {
                match *b.get(*i)? {
                    b'"' => {
                        *i += 1;
                        return Some(J::Str(String::from_utf8(o).ok()?));
                    },
                    b'\\' => {
                        o.push(*b.get(*i + 1)?);
                        *i += 2;
                    },
                    c => {
                        o.push(c);
                        *i += 1;
                    },
                }
            }
        },
        b't' => {
            *i += 4;
            Some(J::Bool(true))
        },
        b'f' => {
            *i += 5;
            Some(J::Bool(false))
        },
        b'n' => {
            *i += 4;
            Some(J::Null)
        },
        _ => {
            let from = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            std::str::from_utf8(&b[from..*i]).ok()?.parse().ok().map(J::Num)
        },
    }
}
