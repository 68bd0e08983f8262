//! Drives the real library and records what it does, as a trace of events the
//! specification (spec/TraceCheck.tla) can be asked to accept or reject.

use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Write as _;
use std::io::Write;
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as AO};
use std::sync::Mutex;

use norm::fzf::{FzfDistance, FzfParser, FzfQuery, FzfScheme, FzfV1, FzfV2};
use norm::{CaseSensitivity, Metric};

use crate::mirror::{self, Query};

pub const SLOTS: usize = 4;
pub const PARSERS: usize = 2;

/// Texts above this are large ones.
const LARGE: usize = 1000;

#[derive(Clone)]
pub enum Any {
    V1(FzfV1),
    V2(FzfV2),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Cfg {
    pub algo: u8,
    pub case: u8,
    pub norm: bool,
    pub scheme: u8,
}

pub const CASES: [&str; 3] = ["smart", "sensitive", "insensitive"];
pub const SCHEMES: [&str; 3] = ["default", "path", "history"];

impl Cfg {
    pub fn default_of(algo: u8) -> Cfg {
        Cfg { algo, case: 0, norm: false, scheme: 0 }
    }
}

fn case_of(v: u8) -> CaseSensitivity {
    match v {
        0 => CaseSensitivity::Smart,
        1 => CaseSensitivity::Sensitive,
        _ => CaseSensitivity::Insensitive,
    }
}

fn scheme_of(v: u8) -> FzfScheme {
    match v {
        0 => FzfScheme::Default,
        1 => FzfScheme::Path,
        _ => FzfScheme::History,
    }
}

/// What a call returned: a distance (as a score), nothing, or a panic.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Reply {
    Some(i64),
    None,
    Panic,
}

impl Reply {
    pub fn json(self) -> String {
        match self {
            Reply::Some(s) => format!("[1,{s}]"),
            Reply::None => "[0,0]".into(),
            Reply::Panic => "[2,0]".into(),
        }
    }
}

// What the watchdog writes if the current call never returns.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// How many calls there are which haven't returned.
pub static BUSY: AtomicU64 = AtomicU64::new(0);
/// How many characters the call is about, or more, and how much of PENDING is
/// what precedes it.
pub static SIZE: AtomicU64 = AtomicU64::new(0);
pub static BEFORE: AtomicU64 = AtomicU64::new(0);
pub static PENDING: Mutex<String> = Mutex::new(String::new());
/// The call which isn't recorded, while there is one.
pub static ASKING: Mutex<Asking> = Mutex::new(Asking { cfg: None, query: String::new(), ext: true, cand: None });
pub static IS_ASKING: AtomicBool = AtomicBool::new(false);
pub static OUT: Mutex<Option<std::io::BufWriter<std::fs::File>>> = Mutex::new(None);

pub struct Asking {
    cfg: Option<Cfg>,
    query: String,
    ext: bool,
    cand: Option<String>,
}

impl Asking {
    /// The call, which never returned.
    pub fn events(&self) -> String {
        let cfg = self.cfg.unwrap_or(Cfg::default_of(1));
        let never = "\"r\":[3,0]";
        let parse = format!(
            "{{\"o\":\"{}\",\"p\":1,\"q\":{},{}}}",
            if self.ext { "parse" } else { "raw" },
            cps(&self.query),
            if self.cand.is_some() { "\"r\":[1,0]" } else { never }
        );
        match &self.cand {
            None => parse,
            Some(c) => format!(
                "{},{parse},{{\"o\":\"d\",\"s\":1,\"p\":1,\"c\":{},{never}}}",
                cfg_event(0, cfg),
                cps(c)
            ),
        }
    }
}

pub fn cfg_event(s: usize, c: Cfg) -> String {
    format!(
        "{{\"o\":\"cfg\",\"s\":{},\"a\":{},\"c\":\"{}\",\"n\":{},\"h\":\"{}\"}}",
        s + 1,
        c.algo,
        CASES[c.case as usize],
        c.norm,
        SCHEMES[c.scheme as usize]
    )
}

thread_local! {
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(false));
    r
}

pub fn cps(s: &str) -> String {
    let mut o = String::with_capacity(s.len() * 3 + 2);
    o.push('[');
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", c as u32);
    }
    o.push(']');
    o
}

pub fn ranges_json(r: &[Range<usize>]) -> String {
    let mut o = String::from("[");
    for (i, x) in r.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        // An index no candidate reaches, should a range be absurd.
        let _ = write!(o, "[{},{}]", x.start.min(99_999_999), x.end.min(99_999_999));
    }
    o.push(']');
    o
}

pub struct Driver {
    pub insts: Vec<Option<Any>>,
    cfgs: Vec<Option<Cfg>>,
    parsers: Vec<*mut FzfParser>,
    queries: Vec<FzfQuery<'static>>,
    pub buf: Vec<Range<usize>>,
    /// The default distance, and those returned by this session's calls.
    pub pool: Vec<FzfDistance>,
    careful: Option<String>,
    /// The size of what isn't too large, for an implementation found to be slow.
    most: usize,
    /// How long calls on large texts may take together, what they took so far,
    /// and since when there is one.
    budget: f64,
    pub spent: Cell<f64>,
    pub skipped: Cell<u64>,
    since: Cell<Option<std::time::Instant>>,
    events: String,
    /// How much of `events` the pending history holds already.
    pended: Cell<usize>,
    nev: usize,
    /// What the queries are according to the mirror.
    says: Vec<Query>,
    /// Their texts, and whether they are extended.
    texts: Vec<(String, bool)>,
    /// Whether only sessions in which something looks wrong are written, and
    /// what is looked at.
    pub sift: Option<Sift>,
    confirming: bool,
    /// How often the mirror, if there is one, and the code disagreed in this
    /// session, and in all.
    odd: u64,
    pub odds: u64,
    pub kept: u64,
    kept_bytes: usize,
    witnesses: u64,
    pub sessions: u64,
    pub total: u64,
    pub calls: u64,
    pub matched: u64,
    pub panics: u64,
    ticks: u64,
    workers: Vec<Worker>,
    spares: Vec<Box<FzfParser>>,
    room: Room,
}

/// A fresh instance with the given settings.
pub fn any_of(c: Cfg) -> Any {
    macro_rules! of {
        ($m:expr) => {{
            let mut m = $m;
            m.set_case_sensitivity(case_of(c.case));
            m.set_candidate_normalization(c.norm);
            m.set_scoring_scheme(scheme_of(c.scheme));
            m
        }};
    }
    if c.algo == 1 {
        Any::V1(of!(FzfV1::new()))
    } else {
        Any::V2(of!(FzfV2::new()))
    }
}

/// Where strings are passed from: not always from an allocation of their own, but
/// from within another string as well, at any address.
#[derive(Default)]
pub struct Room {
    text: String,
    at: usize,
}

impl Room {
    pub fn place<'a>(&'a mut self, s: &'a str) -> &'a str {
        self.at += 1;
        // Some in a row are in the same place.
        let k = self.at / 7 + self.at % 7 / 6;
        let pad = &"/ / / / "[..k / 4 % 8];
        let (before, after) = match k % 4 {
            1 => ("", s),
            2 => ("é", "é€ "),
            3 => ("ab", "abc ABC"),
            _ => return s,
        };
        self.text.clear();
        // So that it doesn't move.
        self.text.reserve(4096);
        for x in [pad, before, s, after] {
            self.text.push_str(x);
        }
        let start = pad.len() + before.len();
        &self.text[start..start + s.len()]
    }
}

/// What a query and a candidate are made of: a prefix, a unit and a suffix each,
/// and the query of another unit and what follows that.
pub struct Grown {
    pub ext: bool,
    pub query: [String; 5],
    pub cand: [String; 3],
}

impl Driver {
    pub fn new() -> Self {
        let mut d = Driver {
            insts: vec![None; SLOTS],
            cfgs: vec![None; SLOTS],
            parsers: vec![],
            queries: vec![],
            buf: vec![],
            pool: vec![FzfDistance::default()],
            careful: std::env::var("CONF_CAREFUL").ok(),
            most: std::env::var("CONF_MOST").ok().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX),
            budget: std::env::var("CONF_SPEND").ok().and_then(|x| x.parse().ok()).unwrap_or(1e9),
            spent: Cell::new(0.0),
            skipped: Cell::new(0),
            since: Cell::new(None),
            events: String::new(),
            pended: Cell::new(0),
            nev: 0,
            says: vec![],
            texts: vec![],
            sift: None,
            confirming: false,
            odd: 0,
            odds: 0,
            kept: 0,
            kept_bytes: 0,
            witnesses: 0,
            sessions: 0,
            total: 0,
            calls: 0,
            matched: 0,
            panics: 0,
            ticks: 0x9E37_79B9_7F4A_7C15,
            workers: vec![],
            spares: vec![],
            room: Room::default(),
        };
        d.fresh_parsers();
        d
    }

    fn fresh_parsers(&mut self) {
        self.says = (0..PARSERS).map(|_| vec![]).collect();
        self.texts = vec![(String::new(), true); PARSERS];
        self.queries.clear();
        for p in self.parsers.drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
        for _ in 0..PARSERS {
            let p = Box::into_raw(Box::new(FzfParser::new()));
            self.parsers.push(p);
            // SAFETY: a query is dropped before its parser is used again.
            self.queries.push(unsafe { (*p).parse("") });
        }
    }

    /// Ends the current session, writing it out, and starts a new one.
    pub fn end(&mut self) {
        if self.nev > 0 {
            // And a few of those which are as they should be.
            let witness = self.sessions % 300 == 7 && self.events.len() < 20_000 && self.witnesses < 60;
            if self.sift.is_some() && self.odd == 0 && witness {
                self.witnesses += 1;
            } else if self.sift.is_some() && self.odd > 0 {
                self.kept += 1;
                self.kept_bytes += self.events.len();
            }
            if self.sift.is_none() || self.odd > 0 || witness {
                let mut out = OUT.lock().unwrap();
                if let Some(w) = out.as_mut() {
                    let _ = writeln!(w, "{{\"ev\":[{}]}}", self.events);
                }
            }
            self.sessions += 1;
            self.total += self.nev as u64;
        }
        self.odd = 0;
        self.room.at = 0;
        self.events.clear();
        self.pended.set(0);
        self.nev = 0;
        self.insts = vec![None; SLOTS];
        self.cfgs = vec![None; SLOTS];
        self.buf = vec![];
        self.pool = vec![FzfDistance::default()];
        self.fresh_parsers();
    }

    fn ev(&mut self, e: String) {
        if self.nev > 0 {
            self.events.push(',');
        }
        self.events.push_str(&e);
        self.nev += 1;
    }

    fn pend(&self, e: &str) {
        let mut p = PENDING.lock().unwrap();
        // What it holds is a part of the history, and the last pending call.
        let had = self.pended.replace(self.events.len());
        p.truncate(had);
        p.push_str(&self.events[had..]);
        BEFORE.store(p.len() as u64, AO::SeqCst);
        SIZE.store(e.len() as u64 / 3, AO::SeqCst);
        if self.nev > 0 {
            p.push(',');
        }
        p.push_str(e);
        if let Some(f) = &self.careful {
            let _ = std::fs::write(f, format!("{{\"ev\":[{p}]}}\n"));
        }
        drop(p);
        self.since.set(Some(std::time::Instant::now()));
        PROGRESS.fetch_add(1, AO::SeqCst);
        BUSY.fetch_add(1, AO::SeqCst);
    }

    /// The same for a call which isn't recorded.
    fn asking(&self, s: Option<usize>, p: usize, cand: Option<&str>) {
        let mut a = ASKING.lock().unwrap();
        a.cfg = s.and_then(|s| self.cfgs[s]);
        let (text, ext) = &self.texts[p];
        a.query.clone_from(text);
        a.ext = *ext;
        match (&mut a.cand, cand) {
            (Some(a), Some(c)) => {
                a.clear();
                a.push_str(c);
            },
            (a, c) => *a = c.map(str::to_string),
        }
        if let Some(f) = &self.careful {
            let _ = std::fs::write(f, format!("{{\"ev\":[{}]}}\n", a.events()));
        }
        drop(a);
        let size = cand.map_or(0, str::len).max(text.len());
        self.since.set((size > LARGE).then(std::time::Instant::now));
        SIZE.store(size as u64, AO::Relaxed);
        IS_ASKING.store(true, AO::Relaxed);
        PROGRESS.fetch_add(1, AO::Relaxed);
        BUSY.fetch_add(1, AO::Release);
    }

    fn took(&self) {
        if let Some(t) = self.since.take() {
            if SIZE.load(AO::SeqCst) > LARGE as u64 {
                self.spent.set(self.spent.get() + t.elapsed().as_secs_f64());
            }
        }
    }

    fn asked(&self) {
        self.took();
        IS_ASKING.store(false, AO::Relaxed);
        BUSY.fetch_sub(1, AO::Release);
    }

    fn done(&self) {
        self.took();
        PROGRESS.fetch_add(1, AO::SeqCst);
        BUSY.fetch_sub(1, AO::SeqCst);
    }

    /// Whether a call isn't to be made: see CONF_MOST, and CONF_SPEND.
    pub fn too_much(&self, n: usize) -> bool {
        let much = n > self.most
            || (n > LARGE && self.spent.get() > self.budget * if n > 5 * LARGE { 1.0 } else { 2.0 });
        if much {
            self.skipped.set(self.skipped.get() + 1);
        }
        much
    }

    pub fn new_inst(&mut self, s: usize, algo: u8) {
        self.insts[s] = Some(if algo == 1 { Any::V1(FzfV1::new()) } else { Any::V2(FzfV2::new()) });
        self.cfgs[s] = Some(Cfg::default_of(algo));
        self.ev(format!("{{\"o\":\"new\",\"s\":{},\"a\":{}}}", s + 1, algo));
    }

    pub fn clone_inst(&mut self, s: usize, from: usize) {
        // Into the one which is there, at times (which depends on nothing but
        // the history, so as to happen again when it's replayed).
        let sum = |c: &Option<Cfg>| c.map_or(0, |c| c.case + c.norm as u8 + c.scheme);
        if s != from && (sum(&self.cfgs[s]) + sum(&self.cfgs[from])) % 2 == 1 {
            let (a, b) = self.insts.split_at_mut(s.max(from));
            let (to, of) = if s < from { (&mut a[s], &b[0]) } else { (&mut b[0], &a[from]) };
            match (to, of) {
                (Some(Any::V1(to)), Some(Any::V1(of))) => to.clone_from(of),
                (Some(Any::V2(to)), Some(Any::V2(of))) => to.clone_from(of),
                (to, of) => *to = of.clone(),
            }
        } else {
            self.insts[s] = self.insts[from].clone();
        }
        self.cfgs[s] = self.cfgs[from];
        self.ev(format!("{{\"o\":\"clone\",\"s\":{},\"f\":{}}}", s + 1, from + 1));
    }

    fn raw_case(&mut self, s: usize, v: u8) {
        match self.insts[s].as_mut().unwrap() {
            Any::V1(m) => drop(m.set_case_sensitivity(case_of(v))),
            Any::V2(m) => drop(m.set_case_sensitivity(case_of(v))),
        }
        self.cfgs[s].as_mut().unwrap().case = v;
    }

    fn raw_norm(&mut self, s: usize, v: bool) {
        match self.insts[s].as_mut().unwrap() {
            Any::V1(m) => drop(m.set_candidate_normalization(v)),
            Any::V2(m) => drop(m.set_candidate_normalization(v)),
        }
        self.cfgs[s].as_mut().unwrap().norm = v;
    }

    fn raw_scheme(&mut self, s: usize, v: u8) {
        match self.insts[s].as_mut().unwrap() {
            Any::V1(m) => drop(m.set_scoring_scheme(scheme_of(v))),
            Any::V2(m) => drop(m.set_scoring_scheme(scheme_of(v))),
        }
        self.cfgs[s].as_mut().unwrap().scheme = v;
    }

    pub fn set_case(&mut self, s: usize, v: u8) {
        self.raw_case(s, v);
        self.ev(format!("{{\"o\":\"case\",\"s\":{},\"v\":\"{}\"}}", s + 1, CASES[v as usize]));
    }

    pub fn set_norm(&mut self, s: usize, v: bool) {
        self.raw_norm(s, v);
        self.ev(format!("{{\"o\":\"norm\",\"s\":{},\"v\":{}}}", s + 1, v));
    }

    pub fn set_scheme(&mut self, s: usize, v: u8) {
        self.raw_scheme(s, v);
        self.ev(format!("{{\"o\":\"scheme\",\"s\":{},\"v\":\"{}\"}}", s + 1, SCHEMES[v as usize]));
    }

    /// A setting set so many times, to other values in turn and then to this one.
    pub fn set_many(&mut self, s: usize, kind: u8, v: u8, n: usize) {
        for i in (0..n).rev() {
            let to = if kind == 1 { (v as usize + i) % 2 } else { (v as usize + i) % 3 } as u8;
            match kind {
                0 => self.raw_case(s, to),
                1 => self.raw_norm(s, to == 1),
                _ => self.raw_scheme(s, to),
            }
        }
        let (o, v) = match kind {
            0 => ("case", format!("{:?}", CASES[v as usize])),
            1 => ("norm", format!("{}", v == 1)),
            _ => ("scheme", format!("{:?}", SCHEMES[v as usize])),
        };
        self.ev(format!("{{\"o\":\"{o}\",\"s\":{},\"v\":{v},\"n\":{n}}}", s + 1));
    }

    pub fn cfg_of(&self, s: usize) -> Cfg {
        self.cfgs[s].unwrap()
    }

    /// So many other instances and parsers are created, with settings of their own,
    /// used at times, and dropped.
    pub fn others(&mut self, n: usize, algo: u8) {
        let mut kept = std::collections::VecDeque::new();
        for i in 0..n {
            let c = Cfg { algo, case: (i % 3) as u8, norm: i % 2 == 0, scheme: (i / 3 % 3) as u8 };
            let a = match (i % 5, kept.back()) {
                (0, Some((a, _))) => Any::clone(a),
                (1, _) => any_of(Cfg::default_of(algo)),
                _ => any_of(c),
            };
            kept.push_back((a, FzfParser::new()));
            if i % 64 == 7 {
                let (a, p) = kept.back_mut().unwrap();
                let used = guarded(|| {
                    let q = p.parse("a 'b");
                    match a {
                        Any::V1(a) => drop(a.distance(q, "xa/b")),
                        Any::V2(a) => drop(a.distance(q, "xa/b")),
                    }
                });
                if used.is_none() {
                    kept.pop_back();
                }
            }
            if kept.len() > 300 {
                kept.pop_front();
            }
        }
        self.ev(format!("{{\"o\":\"others\",\"n\":{n},\"a\":{algo}}}"));
    }

    /// A fresh instance with the given settings, as a single event.
    pub fn cfg(&mut self, s: usize, c: Cfg) {
        self.insts[s] = Some(if c.algo == 1 { Any::V1(FzfV1::new()) } else { Any::V2(FzfV2::new()) });
        self.cfgs[s] = Some(Cfg::default_of(c.algo));
        self.raw_case(s, c.case);
        self.raw_norm(s, c.norm);
        self.raw_scheme(s, c.scheme);
        self.ev(cfg_event(s, c));
    }

    fn parse_with(&mut self, p: usize, text: &str, op: &str) -> bool {
        if self.too_much(text.len()) {
            return true;
        }
        let head = format!("{{\"o\":\"{}\",\"p\":{},\"q\":{}", op, p + 1, cps(text));
        self.texts[p] = (text.to_string(), op == "parse");
        self.pend(&format!("{head},\"r\":[3,0]}}"));
        let ptr = self.parsers[p];
        let at = self.room.place(text);
        let r = guarded(|| unsafe {
            if op == "parse" {
                (*ptr).parse(at)
            } else {
                (*ptr).parse_not_extended(at)
            }
        });
        self.done();
        let ok = r.is_some();
        if mirror::loaded() {
            self.says[p] = match (ok, op) {
                (false, _) => vec![],
                (_, "parse") => mirror::parse_extended(text),
                _ => mirror::parse_raw(text),
            };
        }
        match r {
            Some(q) => self.queries[p] = q,
            None => {
                self.panics += 1;
                self.odd();
                // The parser may be in any state: replace it.
                let np = Box::into_raw(Box::new(FzfParser::new()));
                let old = std::mem::replace(&mut self.parsers[p], np);
                self.queries[p] = unsafe { (*np).parse("") };
                drop(unsafe { Box::from_raw(old) });
            },
        }
        self.ev(format!("{head},\"r\":[{},0]}}", if ok { 1 } else { 2 }));
        ok
    }

    pub fn parse(&mut self, p: usize, text: &str) -> bool {
        self.parse_with(p, text, "parse")
    }

    pub fn parse_raw(&mut self, p: usize, text: &str) -> bool {
        self.parse_with(p, text, "raw")
    }

    /// A fresh parser in the given slot (its query becomes the empty one).
    pub fn new_parser(&mut self, p: usize) {
        let np = Box::into_raw(Box::new(FzfParser::new()));
        let old = std::mem::replace(&mut self.parsers[p], np);
        self.queries[p] = unsafe { (*np).parse("") };
        self.says[p] = vec![];
        self.texts[p] = (String::new(), true);
        drop(unsafe { Box::from_raw(old) });
        self.ev(format!("{{\"o\":\"pnew\",\"p\":{}}}", p + 1));
    }

    /// Replaces the parser of the given slot with a clone of itself (a clone
    /// has no query of its own: its query becomes the empty one).
    pub fn clone_parser(&mut self, p: usize) {
        let of = unsafe { &*self.parsers[p] };
        let np = if self.texts[p].0.len() % 2 == 0 {
            Box::new(of.clone())
        } else {
            let mut used = Box::<FzfParser>::default();
            used.parse("a b");
            (*used).clone_from(of);
            used
        };
        let np = Box::into_raw(np);
        let old = std::mem::replace(&mut self.parsers[p], np);
        self.queries[p] = unsafe { (*np).parse("") };
        self.says[p] = vec![];
        self.texts[p] = (String::new(), true);
        drop(unsafe { Box::from_raw(old) });
        self.ev(format!("{{\"o\":\"pclone\",\"p\":{}}}", p + 1));
    }

    pub fn set_buf(&mut self, b: Vec<Range<usize>>) {
        self.buf = b;
        self.ev(format!("{{\"o\":\"buf\",\"b\":{}}}", ranges_json(&self.buf)));
    }

    fn revive(&mut self, s: usize) {
        // After a panic the instance may be in any state: replace it by a
        // fresh one with the same settings.
        self.panics += 1;
        self.odd();
        let c = self.cfgs[s].unwrap();
        self.insts[s] = Some(if c.algo == 1 { Any::V1(FzfV1::new()) } else { Any::V2(FzfV2::new()) });
        self.raw_case(s, c.case);
        self.raw_norm(s, c.norm);
        self.raw_scheme(s, c.scheme);
    }

    fn note(&mut self, r: Reply) {
        self.calls += 1;
        if matches!(r, Reply::Some(_)) {
            self.matched += 1;
        }
    }

    pub fn dist(&mut self, s: usize, p: usize, cand: &str) -> Reply {
        if self.too_much(cand.len()) {
            return Reply::None;
        }
        let head = format!("{{\"o\":\"d\",\"s\":{},\"p\":{},\"c\":{}", s + 1, p + 1, cps(cand));
        self.pend(&format!("{head},\"r\":[3,0]}}"));
        let q = self.queries[p];
        let m = self.insts[s].as_mut().unwrap();
        let at = self.room.place(cand);
        let r = guarded(|| match m {
            Any::V1(m) => m.distance(q, at),
            Any::V2(m) => m.distance(q, at),
        });
        let r = match r {
            Some(Some(d)) => {
                self.pool.push(d);
                Reply::Some(d.into_score())
            },
            Some(None) => Reply::None,
            None => {
                self.revive(s);
                Reply::Panic
            },
        };
        self.done();
        self.note(r);
        self.ev(format!("{head},\"r\":{}}}", r.json()));
        self.look(s, p, cand, r, None);
        r
    }

    /// A call which isn't recorded.
    pub fn quiet_dist(&mut self, s: usize, p: usize, cand: &str) -> Reply {
        if self.too_much(cand.len()) {
            return Reply::None;
        }
        self.asking(Some(s), p, Some(cand));
        let q = self.queries[p];
        let m = self.insts[s].as_mut().unwrap();
        let at = self.room.place(cand);
        let r = guarded(|| match m {
            Any::V1(m) => m.distance(q, at),
            Any::V2(m) => m.distance(q, at),
        });
        self.asked();
        let r = match r {
            Some(Some(d)) => Reply::Some(d.into_score()),
            Some(None) => Reply::None,
            None => {
                self.revive(s);
                Reply::Panic
            },
        };
        self.note(r);
        r
    }

    /// A call for ranges which isn't recorded.
    pub fn quiet_ranges(&mut self, s: usize, p: usize, cand: &str) -> (Reply, Vec<Range<usize>>) {
        if self.too_much(cand.len()) {
            return (Reply::None, vec![]);
        }
        self.asking(Some(s), p, Some(cand));
        let q = self.queries[p];
        let m = self.insts[s].as_mut().unwrap();
        let mut buf = vec![];
        let at = self.room.place(cand);
        let r = guarded(|| match m {
            Any::V1(m) => m.distance_and_ranges(q, at, &mut buf),
            Any::V2(m) => m.distance_and_ranges(q, at, &mut buf),
        });
        self.asked();
        let r = match r {
            Some(Some(d)) => Reply::Some(d.into_score()),
            Some(None) => Reply::None,
            None => {
                self.revive(s);
                Reply::Panic
            },
        };
        self.note(r);
        (r, buf)
    }

    /// Whether a call which isn't recorded isn't as the mirror says.
    pub fn quiet_odd(&mut self, s: usize, p: usize, cand: &str) -> bool {
        let n = self.skipped.get();
        let (r, b) = self.quiet_ranges(s, p, cand);
        self.skipped.get() == n && self.unlike(s, p, cand, r, Some(&b))
    }

    /// Records what such a call returned, should it not do so again; the query
    /// being recorded by then.
    pub fn observed(&mut self, s: usize, p: usize, cand: &str, r: Reply, b: Option<&[Range<usize>]>) {
        let head = format!("\"s\":{},\"p\":{},\"c\":{},\"r\":{}", s + 1, p + 1, cps(cand), r.json());
        self.odd();
        match b {
            None => self.ev(format!("{{\"o\":\"d\",{head}}}")),
            Some(b) => {
                self.ev(format!("{{\"o\":\"x\",{head},\"b\":{}}}", ranges_json(b)));
                self.buf = b.to_vec();
            },
        }
    }

    /// Whether that isn't what the mirror says.
    pub fn unlike(&self, s: usize, p: usize, cand: &str, r: Reply, b: Option<&[Range<usize>]>) -> bool {
        if !mirror::loaded() {
            return false;
        }
        let says = mirror::matches(&self.cfgs[s].unwrap(), &self.says[p], &mirror::codes(cand));
        let covered = |pos: &[bool]| {
            let Some(b) = b else { return true };
            let mut on = vec![false; cand.len()];
            for x in b {
                on[x.start.min(cand.len())..x.end.clamp(x.start, cand.len().max(x.start)).min(cand.len())].fill(true);
            }
            cand.char_indices().zip(pos).all(|((at, _), &is)| on[at] == is)
        };
        match (&says, r) {
            (Some((x, pos)), Reply::Some(y)) => *x != y || !covered(pos),
            (None, Reply::None) => false,
            _ => true,
        }
    }

    /// A session which is worth being written out, whatever else there is to it.
    pub fn strange(&mut self) {
        self.odd();
    }

    /// A query which isn't recorded.
    pub fn quiet_parse(&mut self, p: usize, text: &str, ext: bool) {
        if self.too_much(text.len()) {
            return;
        }
        self.texts[p].0.clear();
        self.texts[p].0.push_str(text);
        self.texts[p].1 = ext;
        self.asking(None, p, None);
        let ptr = self.parsers[p];
        let at = self.room.place(text);
        let r = guarded(|| unsafe { if ext { (*ptr).parse(at) } else { (*ptr).parse_not_extended(at) } });
        self.asked();
        match r {
            Some(q) => self.queries[p] = q,
            None => self.new_parser(p),
        }
        if mirror::loaded() {
            self.says[p] = if ext { mirror::parse_extended(text) } else { mirror::parse_raw(text) };
        }
    }

    pub fn quiet_parse_raw(&mut self, p: usize, text: &str) {
        self.quiet_parse(p, text, false);
    }

    /// The same call many times: an event for every run of equal replies.
    pub fn dist_many(&mut self, s: usize, p: usize, cand: &str, n: usize) {
        if self.too_much(cand.len()) {
            return;
        }
        let head = format!("{{\"o\":\"d\",\"s\":{},\"p\":{},\"c\":{}", s + 1, p + 1, cps(cand));
        self.pend(&format!("{head},\"n\":{n},\"r\":[3,0]}}"));
        let q = self.queries[p];
        let mut run: Option<(Reply, usize)> = None;
        for _ in 0..n {
            let m = self.insts[s].as_mut().unwrap();
            let at = self.room.place(cand);
            let r = guarded(|| match m {
                Any::V1(m) => m.distance(q, at),
                Any::V2(m) => m.distance(q, at),
            });
            let r = match r {
                Some(Some(d)) => Reply::Some(d.into_score()),
                Some(None) => Reply::None,
                None => Reply::Panic,
            };
            PROGRESS.fetch_add(1, AO::SeqCst);
            self.note(r);
            match &mut run {
                Some((x, k)) if *x == r => *k += 1,
                _ => {
                    if let Some((x, k)) = run.replace((r, 1)) {
                        self.odd();
                        self.ev(format!("{head},\"n\":{k},\"r\":{}}}", x.json()));
                    }
                },
            }
            if r == Reply::Panic {
                self.revive(s);
                break;
            }
        }
        self.done();
        if let Some((x, k)) = run {
            self.ev(format!("{head},\"n\":{k},\"r\":{}}}", x.json()));
            self.look(s, p, cand, x, None);
        }
    }

    /// Parses the same query many times.
    pub fn parse_many(&mut self, p: usize, text: &str, n: usize) {
        if self.too_much(text.len()) {
            return;
        }
        let head = format!("{{\"o\":\"parse\",\"p\":{},\"q\":{},\"n\":{n}", p + 1, cps(text));
        self.pend(&format!("{head},\"r\":[3,0]}}"));
        let ptr = self.parsers[p];
        let mut ok = true;
        for _ in 0..n {
            match guarded(|| unsafe { (*ptr).parse(text) }) {
                Some(q) => self.queries[p] = q,
                None => {
                    ok = false;
                    break;
                },
            }
            PROGRESS.fetch_add(1, AO::SeqCst);
        }
        if !ok {
            self.panics += 1;
            self.odd();
            let np = Box::into_raw(Box::new(FzfParser::new()));
            let old = std::mem::replace(&mut self.parsers[p], np);
            self.queries[p] = unsafe { (*np).parse("") };
            drop(unsafe { Box::from_raw(old) });
        }
        if mirror::loaded() {
            self.says[p] = if ok { mirror::parse_extended(text) } else { vec![] };
        }
        self.done();
        self.ev(format!("{head},\"r\":[{},0]}}", if ok { 1 } else { 2 }));
    }

    fn ranges_with(&mut self, s: usize, p: usize, cand: &str, op: &str) -> Reply {
        if self.too_much(cand.len()) {
            return Reply::None;
        }
        let head = format!("{{\"o\":\"{}\",\"s\":{},\"p\":{},\"c\":{}", op, s + 1, p + 1, cps(cand));
        self.pend(&format!("{head},\"r\":[3,0],\"b\":[]}}"));
        let q = self.queries[p];
        let mut buf = std::mem::take(&mut self.buf);
        if op == "x" {
            buf.clear();
        }
        let before = if mirror::loaded() { buf.clone() } else { vec![] };
        let m = self.insts[s].as_mut().unwrap();
        let at = self.room.place(cand);
        let r = guarded(|| match m {
            Any::V1(m) => m.distance_and_ranges(q, at, &mut buf),
            Any::V2(m) => m.distance_and_ranges(q, at, &mut buf),
        });
        self.buf = buf;
        let r = match r {
            Some(Some(d)) => Reply::Some(d.into_score()),
            Some(None) => Reply::None,
            None => {
                self.revive(s);
                Reply::Panic
            },
        };
        self.done();
        self.note(r);
        let b = ranges_json(&self.buf);
        self.ev(format!("{head},\"r\":{},\"b\":{b}}}", r.json()));
        self.look(s, p, cand, r, Some(&before));
        r
    }

    /// A call on a candidate too long to be written out: `n` times `x` between
    /// `pre` and `suf`; with ranges, appended to a buffer of its own, or not.
    /// `k` fillers are as good as any more of them (see Far.tla).
    pub fn far(&mut self, s: usize, p: usize, (pre, x, n, suf): (&str, char, usize, &str), k: usize, ranges: bool) -> Reply {
        if self.too_much(n) {
            return Reply::None;
        }
        let head = format!(
            "{{\"o\":\"f\",\"op\":\"{}\",\"s\":{},\"p\":{},\"c\":{},\"x\":{},\"k\":{k},\"n\":{n},\"t\":{}",
            if ranges { "r" } else { "d" },
            s + 1,
            p + 1,
            cps(pre),
            x as u32,
            cps(suf)
        );
        self.pend(&format!("{head},\"r\":[3,0],\"b\":[]}}"));
        SIZE.fetch_max(n as u64, AO::SeqCst);
        let mut cand = String::with_capacity(pre.len() + n * x.len_utf8() + suf.len());
        cand.push_str(pre);
        cand.extend(std::iter::repeat(x).take(n));
        cand.push_str(suf);
        let q = self.queries[p];
        let mut buf = vec![];
        let m = self.insts[s].as_mut().unwrap();
        let r = guarded(|| match (m, ranges) {
            (Any::V1(m), true) => m.distance_and_ranges(q, &cand, &mut buf),
            (Any::V2(m), true) => m.distance_and_ranges(q, &cand, &mut buf),
            (Any::V1(m), false) => m.distance(q, &cand),
            (Any::V2(m), false) => m.distance(q, &cand),
        });
        let r = match r {
            Some(Some(d)) => {
                self.pool.push(d);
                Reply::Some(d.into_score())
            },
            Some(None) => Reply::None,
            None => {
                self.revive(s);
                Reply::Panic
            },
        };
        self.done();
        self.note(r);
        self.ev(format!("{head},\"r\":{},\"b\":{}}}", r.json(), ranges_json(&buf)));
        r
    }

    /// A call whose query and candidate are a unit repeated `n` times, between a
    /// prefix and a suffix, in the one, in the other or in both; with a parser and
    /// a buffer of its own.  From `k` units on, one more always has the same effect
    /// (see Grow.tla).
    pub fn grown(&mut self, s: usize, g: &Grown, (k, n): (usize, usize), ranges: bool) -> Reply {
        if self.too_much(n) {
            return Reply::None;
        }
        let [qp, qu, qs, qv, qt] = &g.query;
        let [cp, cu, cs] = &g.cand;
        let head = format!(
            "{{\"o\":\"g\",\"op\":\"{}\",\"s\":{},\"ext\":{},\"qp\":{},\"qu\":{},\"qs\":{},\"qv\":{},\"qt\":{},\"cp\":{},\"cu\":{},\"cs\":{},\"k\":{k},\"n\":{n}",
            if ranges { "r" } else { "d" },
            s + 1,
            g.ext,
            cps(qp),
            cps(qu),
            cps(qs),
            cps(qv),
            cps(qt),
            cps(cp),
            cps(cu),
            cps(cs)
        );
        self.pend(&format!("{head},\"r\":[3,0],\"b\":[]}}"));
        SIZE.fetch_max(n as u64, AO::SeqCst);
        let text = format!("{qp}{}{qs}{}{qt}", qu.repeat(n), qv.repeat(n));
        let cand = format!("{cp}{}{cs}", cu.repeat(n));
        let mut parser = FzfParser::new();
        let mut buf = vec![];
        let m = self.insts[s].as_mut().unwrap();
        // With as much of a stack as a thread has at least where one is started
        // with a process (1 MiB, on Windows).
        let r = std::thread::scope(|sc| {
            let call = || {
                guarded(|| {
                    let q = if g.ext { parser.parse(&text) } else { parser.parse_not_extended(&text) };
                    match (m, ranges) {
                        (Any::V1(m), true) => m.distance_and_ranges(q, &cand, &mut buf),
                        (Any::V2(m), true) => m.distance_and_ranges(q, &cand, &mut buf),
                        (Any::V1(m), false) => m.distance(q, &cand),
                        (Any::V2(m), false) => m.distance(q, &cand),
                    }
                })
            };
            let t = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, call);
            t.expect("thread").join().expect("joined")
        });
        let r = match r {
            Some(Some(d)) => {
                self.pool.push(d);
                Reply::Some(d.into_score())
            },
            Some(None) => Reply::None,
            None => {
                self.revive(s);
                Reply::Panic
            },
        };
        self.done();
        self.note(r);
        // Ranges which touch are as good as one.
        let mut whole: Vec<Range<usize>> = vec![];
        for b in buf {
            match whole.last_mut() {
                Some(w) if w.end == b.start && b.start < b.end => w.end = b.end,
                _ => whole.push(b),
            }
        }
        whole.truncate(1000);
        self.ev(format!("{head},\"r\":{},\"b\":{}}}", r.json(), ranges_json(&whole)));
        r
    }

    /// `distance_and_ranges` appending to the shared buffer.
    pub fn ranges(&mut self, s: usize, p: usize, cand: &str) -> Reply {
        self.ranges_with(s, p, cand, "r")
    }

    /// `distance_and_ranges` on a buffer which is cleared first.
    pub fn cleared(&mut self, s: usize, p: usize, cand: &str) -> Reply {
        self.ranges_with(s, p, cand, "x")
    }

    /// `distance_and_ranges`, most of the time on an empty buffer; else on one
    /// which has something in it.
    pub fn xranges(&mut self, s: usize, p: usize, cand: &str) -> Reply {
        match self.tick(10) {
            0 => {
                let b = match self.tick(6) {
                    0 => vec![0..1],
                    1 => vec![3..3, 0..2],
                    2 => vec![0..400],
                    3 => vec![5..9, 2..4],
                    4 => vec![1..2, 2..3, 1..2],
                    _ => vec![70_000..70_001],
                };
                self.set_buf(b);
                self.ranges(s, p, cand)
            },
            1 if self.buf.len() < 12 => self.ranges(s, p, cand),
            _ => self.cleared(s, p, cand),
        }
    }

    /// `distance` or `distance_and_ranges`: the former `num` times out of 8.
    pub fn ask(&mut self, s: usize, p: usize, cand: &str, num: usize) -> Reply {
        if self.tick(8) < num {
            self.dist(s, p, cand)
        } else {
            self.xranges(s, p, cand)
        }
    }

    /// A choice which depends on nothing but the choices before.
    fn tick(&mut self, n: usize) -> usize {
        self.ticks ^= self.ticks << 13;
        self.ticks ^= self.ticks >> 7;
        self.ticks ^= self.ticks << 17;
        ((self.ticks >> 20) % n as u64) as usize
    }

    /// The settings an instance's debug output shows ("?" for those it doesn't).
    pub fn show(&mut self, s: usize) {
        let m = self.insts[s].as_ref().unwrap();
        let t = guarded(|| match m {
            Any::V1(m) => format!("{m:?} {m:#?}"),
            Any::V2(m) => format!("{m:?} {m:#?}"),
        });
        let t = t.unwrap_or_default();
        let words: Vec<&str> = t.split(|c: char| !c.is_alphanumeric()).collect();
        let which = |names: &[&str], show: &[&'static str]| -> &'static str {
            let v: Vec<usize> = (0..names.len()).filter(|&i| words.contains(&names[i])).collect();
            if v.len() == 1 { show[v[0]] } else { "?" }
        };
        let e = format!(
            "{{\"o\":\"show\",\"s\":{},\"c\":\"{}\",\"n\":\"{}\",\"h\":\"{}\"}}",
            s + 1,
            which(&["Smart", "Sensitive", "Insensitive"], &CASES),
            which(&["false", "true"], &["off", "on"]),
            which(&["Default", "Path", "History"], &SCHEMES)
        );
        self.calls += 1;
        let c = self.cfgs[s].unwrap();
        let norm = if c.norm { "on" } else { "off" };
        if e != format!(
            "{{\"o\":\"show\",\"s\":{},\"c\":\"{}\",\"n\":\"{norm}\",\"h\":\"{}\"}}",
            s + 1,
            CASES[c.case as usize],
            SCHEMES[c.scheme as usize]
        ) {
            self.odd();
        }
        self.ev(e);
    }

    /// How two distances of the pool compare.
    pub fn compare(&mut self, i: usize, j: usize) {
        let (Some(&a), Some(&b)) = (self.pool.get(i), self.pool.get(j)) else { return };
        let o = |o: Ordering| match o {
            Ordering::Less => -1,
            Ordering::Equal => 0,
            Ordering::Greater => 1,
        };
        let po = a.partial_cmp(&b).map_or(9, o);
        let def = FzfDistance::default();
        // The better score is the shorter distance.
        let (lo, hi) = if a.into_score() >= b.into_score() { (a, b) } else { (b, a) };
        let c = format!(
            "{{\"o\":\"cmp\",\"i\":{i},\"j\":{j},\"x\":{},\"y\":{},\"c\":{},\"p\":{},\"e\":{},\"ne\":{},\"l\":{},\"g\":{},\"le\":{},\"ge\":{},\"mn\":{},\"mx\":{},\"d\":{},\"cl\":{}}}",
            a.into_score(),
            b.into_score(),
            o(a.cmp(&b)),
            po,
            a == b,
            a != b,
            a < b,
            a > b,
            a <= b,
            a >= b,
            a.min(b).into_score(),
            a.max(b).into_score(),
            def.into_score(),
            guarded(|| def.clamp(lo, hi)).map_or(-999_999, |d| d.into_score())
        );
        self.calls += 1;
        let (x, y) = (a.into_score(), b.into_score());
        let w = y.cmp(&x);
        let fine = a.cmp(&b) == w
            && a.partial_cmp(&b) == Some(w)
            && (a == b) == w.is_eq()
            && (a != b) == w.is_ne()
            && (a < b) == w.is_lt()
            && (a > b) == w.is_gt()
            && (a <= b) == w.is_le()
            && (a >= b) == w.is_ge()
            && a.min(b).into_score() == x.max(y)
            && a.max(b).into_score() == x.min(y);
        let (least, most) = (x.min(y), x.max(y));
        if !fine || guarded(|| def.clamp(lo, hi)).map(|d| d.into_score()) != Some(def.into_score().clamp(least, most)) {
            self.odd();
        }
        self.ev(c);
    }

    /// Sorts the distances of the pool, recording the scores before and after.
    pub fn sort(&mut self) {
        let ds = &self.pool[..];
        let mut v = ds.to_vec();
        v.sort();
        let (mut was, is): (Vec<_>, Vec<_>) =
            (ds.iter().map(|d| d.into_score()).collect(), v.iter().map(|d| d.into_score()).collect());
        was.sort_by(|a, b| b.cmp(a));
        let odd = was != is;
        let js = |v: &[FzfDistance]| {
            v.iter().map(|d| d.into_score().to_string()).collect::<Vec<_>>().join(",")
        };
        let e = format!(
            "{{\"o\":\"sort\",\"x\":[{}],\"y\":[{}],\"d\":{}}}",
            js(ds),
            js(&v),
            FzfDistance::default().into_score()
        );
        if odd {
            self.odd();
        }
        self.calls += 1;
        self.ev(e);
    }
}

/// What looks wrong, when looking for sessions worth writing out.
#[derive(Clone, Copy)]
pub struct Sift {
    pub matched: bool,
    pub score: bool,
    pub covered: bool,
    pub form: bool,
    pub buffer: bool,
    /// What is asked besides, so that calls can be compared with each other.
    pub again: bool,
    pub terms: bool,
    pub metrics: bool,
    pub swaps: bool,
}

impl Sift {
    pub fn of(prop: &str) -> Sift {
        let is = |l: &[&str]| l.contains(&prop);
        let nothing = is(&["C18", "C19"]);
        let only = |p: &str| prop == p;
        Sift {
            matched: !nothing && !is(&["C03", "C04"]),
            score: !nothing && !is(&["C01", "C02", "C03", "C04", "C22"]),
            covered: !nothing && !is(&["C01", "C03", "C04", "C05", "C12"]),
            form: only("C03"),
            buffer: is(&["C04", "C20"]),
            again: is(&["C05", "C06", "C25"]),
            terms: is(&["C11", "C12", "C22"]),
            metrics: only("C24"),
            swaps: only("C21"),
        }
    }
}

impl Driver {
    fn odd(&mut self) {
        self.odd += 1;
        self.odds += 1;
    }

    /// Whether enough has been found.
    pub fn enough(&self) -> bool {
        self.sift.is_some() && (self.kept >= 40 || self.kept_bytes > 20_000_000)
    }

    /// Looks at a call and, if it isn't as the mirror says, makes those which
    /// it is to be compared with.
    fn look(&mut self, s: usize, p: usize, cand: &str, r: Reply, before: Option<&[Range<usize>]>) {
        if r == Reply::Panic {
            return self.odd();
        }
        if !mirror::loaded() {
            return;
        }
        let what = self.sift.unwrap_or(Sift::of(""));
        let cs = mirror::codes(cand);
        let says = mirror::matches(&self.cfgs[s].unwrap(), &self.says[p], &cs);
        let mut odd = match (&says, r) {
            (Some((x, _)), Reply::Some(y)) => what.score && *x != y,
            (None, Reply::None) => false,
            _ => what.matched,
        };
        if let Some(before) = before {
            let (b, n) = (&self.buf, before.len());
            if b.len() < n || b[..n] != *before || (r == Reply::None && b.len() > n) {
                odd |= what.buffer || what.form;
            } else {
                let new = &b[n..];
                if what.form {
                    let mut v: Vec<_> = new.iter().map(|x| (x.start, x.end)).collect();
                    v.sort();
                    odd |= v.windows(2).any(|w| w[0].1 > w[1].0)
                        || v.iter().any(|&(a, e)| a >= e || !cand.is_char_boundary(a) || !cand.is_char_boundary(e));
                }
                if what.covered && matches!(r, Reply::Some(_)) {
                    let mut on = vec![false; cand.len()];
                    for x in new {
                        on[x.start.min(cand.len())..x.end.clamp(x.start, cand.len().max(x.start)).min(cand.len())].fill(true);
                    }
                    let same = says.as_ref().map_or(true, |(_, pos)| {
                        cand.char_indices().zip(pos).all(|((at, _), &is)| on[at] == is)
                    });
                    odd |= !same;
                }
            }
        }
        if !odd {
            return;
        }
        self.odd();
        if self.sift.is_none() || self.confirming || self.odd > 3 {
            return;
        }
        self.confirming = true;
        self.confirm(s, p, cand, what);
        self.confirming = false;
    }

    fn confirm(&mut self, s: usize, p: usize, cand: &str, what: Sift) {
        let cfg = self.cfgs[s].unwrap();
        let spare = SLOTS - 1;
        if what.again {
            self.dist(s, p, cand);
            self.cleared(s, p, cand);
            if s != spare {
                self.cfg(spare, cfg);
                self.cleared(spare, p, cand);
                self.dist(spare, p, cand);
            }
        }
        if what.metrics && s != spare {
            self.cleared(s, p, cand);
            self.cfg(spare, Cfg { algo: 3 - cfg.algo, ..cfg });
            self.cleared(spare, p, cand);
            self.cfg(spare, cfg);
            self.cleared(spare, p, cand);
        }
        if what.swaps {
            for way in 0..3 {
                let c = mirror::swapped(&cfg, &self.says[p], cand, way);
                self.cleared(s, p, &c);
                self.cleared(s, p, cand);
                self.cleared(s, p, &c);
            }
        }
        if what.terms {
            let terms: Vec<(String, bool)> = self.says[p].iter().flatten().take(40).map(mirror::write).collect();
            for (t, ext) in &terms {
                if *ext {
                    self.parse(1 - p, t);
                } else {
                    self.parse_raw(1 - p, t);
                }
                self.cleared(s, 1 - p, cand);
                self.dist(s, 1 - p, cand);
            }
            self.cleared(s, p, cand);
            self.dist(s, p, cand);
        }
    }

    /// Ends the current session without writing it out.
    pub fn discard(&mut self) {
        self.nev = 0;
        self.end();
    }
}

/// A call made by a thread, over and over, on an instance and with a parser it
/// was handed for that.
pub struct Turn {
    slot: usize,
    m: Any,
    parser: Box<FzfParser>,
    ext: bool,
    text: String,
    cand: String,
    times: usize,
}

/// The instance and the parser, and what was observed: every reply that
/// differs from the one before.
struct Returned {
    slot: usize,
    m: Any,
    parser: Box<FzfParser>,
    seen: Vec<String>,
    calls: u64,
    matched: u64,
    panics: u64,
}

/// A thread which takes turns.
pub struct Worker {
    give: std::sync::mpsc::Sender<Turn>,
    take: std::sync::mpsc::Receiver<Returned>,
}

impl Worker {
    fn spawn() -> Worker {
        let (give, turns) = std::sync::mpsc::channel::<Turn>();
        let (back, take) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for t in turns {
                let _ = back.send(take_turn(t));
            }
        });
        Worker { give, take }
    }
}

fn take_turn(t: Turn) -> Returned {
    let Turn { slot, mut m, mut parser, ext, text, cand, times } = t;
    let (mut seen, mut calls, mut matched, mut panics) = (vec![], 0, 0, 0);
    let parsed = |r: u8| {
        let o = if ext { "parse" } else { "raw" };
        format!("{{\"o\":\"{o}\",\"p\":1,\"q\":{},\"w\":1,\"r\":[{r},0]}}", cps(&text))
    };
    let mut was = String::new();
    for x in 0..times {
        if x % 16 == 0 {
            PROGRESS.fetch_add(1, AO::Relaxed);
        }
        let q = guarded(|| if ext { parser.parse(&text) } else { parser.parse_not_extended(&text) });
        let Some(q) = q else {
            panics += 1;
            seen.push(parsed(2));
            parser = Box::default();
            break;
        };
        let mut buf = vec![];
        let r = guarded(|| match &mut m {
            Any::V1(m) => m.distance_and_ranges(q, &cand, &mut buf),
            Any::V2(m) => m.distance_and_ranges(q, &cand, &mut buf),
        });
        calls += 1;
        let r = match r {
            Some(Some(d)) => {
                matched += 1;
                Reply::Some(d.into_score())
            },
            Some(None) => Reply::None,
            None => Reply::Panic,
        };
        let out = format!(
            "{{\"o\":\"x\",\"s\":{},\"p\":1,\"c\":{},\"w\":1,\"r\":{},\"b\":{}}}",
            slot + 1,
            cps(&cand),
            r.json(),
            ranges_json(&buf)
        );
        if out != was {
            if seen.is_empty() {
                seen.push(parsed(1));
            }
            seen.push(out.clone());
            was = out;
        }
        if r == Reply::Panic {
            panics += 1;
            break;
        }
    }
    Returned { slot, m, parser, seen, calls, matched, panics }
}

impl Driver {
    /// Has a thread begin making a call on an instance.
    pub fn begin(&mut self, t: usize, s: usize, ext: bool, text: &str, cand: &str, times: usize) {
        while self.workers.len() <= t {
            self.workers.push(Worker::spawn());
            self.spares.push(Box::default());
        }
        let head = format!("{{\"o\":\"begin\",\"t\":{},\"s\":{},\"e\":{ext},\"q\":{},\"c\":{},\"n\":{times}}}", t + 1, s + 1, cps(text), cps(cand));
        // Should it never return, or bring the process down.
        self.pend(&format!(
            "{{\"o\":\"raw\",\"p\":1,\"q\":{},\"r\":[1,0]}},{{\"o\":\"x\",\"s\":{},\"p\":1,\"c\":{},\"r\":[3,0],\"b\":[],\"thread\":{}}}",
            cps(text),
            s + 1,
            cps(cand),
            t + 1
        ));
        let turn = Turn {
            slot: s,
            m: self.insts[s].take().expect("an instance"),
            parser: std::mem::take(&mut self.spares[t]),
            ext,
            text: text.to_string(),
            cand: cand.to_string(),
            times,
        };
        self.workers[t].give.send(turn).expect("a thread");
        self.ev(head);
    }

    /// Waits for the thread's call to return.
    pub fn back(&mut self, t: usize) {
        let r = self.workers[t].take.recv().expect("a thread");
        self.done();
        self.ev(format!("{{\"o\":\"return\",\"t\":{}}}", t + 1));
        self.insts[r.slot] = Some(r.m);
        self.spares[t] = r.parser;
        if r.panics > 0 {
            self.revive(r.slot);
        }
        for e in r.seen {
            self.ev(e);
        }
        self.calls += r.calls;
        self.matched += r.matched;
    }
}

/// Calls to be made by a thread, in order.
pub struct Item {
    pub raw: bool,
    pub text: String,
    pub cands: Vec<String>,
    pub ranges: bool,
}

pub struct Job {
    pub slot: usize,
    pub cfg: Cfg,
    pub items: Vec<Item>,
}

fn make(c: Cfg) -> Any {
    let mut a = if c.algo == 1 { Any::V1(FzfV1::new()) } else { Any::V2(FzfV2::new()) };
    match &mut a {
        Any::V1(m) => {
            m.set_case_sensitivity(case_of(c.case));
            m.set_candidate_normalization(c.norm);
            m.set_scoring_scheme(scheme_of(c.scheme));
        },
        Any::V2(m) => {
            m.set_case_sensitivity(case_of(c.case));
            m.set_candidate_normalization(c.norm);
            m.set_scoring_scheme(scheme_of(c.scheme));
        },
    }
    a
}

impl Driver {
    /// Makes all of the calls of the jobs, `times` times, each job on its own
    /// thread and instance.  If `shared`, the instances are clones of one.
    ///
    /// What is recorded, thread after thread, is the first outcome of every
    /// call and any which differs: the threads share nothing the specification
    /// knows of, hence neither does it matter how their calls interleaved.
    ///
    /// Returns every different outcome of each of the calls.
    pub fn concurrently(&mut self, jobs: &[Job], shared: bool, times: usize) -> Vec<Vec<(Reply, String)>> {
        // Should this never end, or bring the process down.
        let first = &jobs[0].items[0];
        let pend = format!(
            "{{\"o\":\"cfg\",\"s\":1,\"a\":{},\"c\":\"{}\",\"n\":{},\"h\":\"{}\"}},{{\"o\":\"x\",\"s\":1,\"p\":2,\"c\":{},\"r\":[3,0],\"b\":[],\"threads\":{}}}",
            jobs[0].cfg.algo,
            CASES[jobs[0].cfg.case as usize],
            jobs[0].cfg.norm,
            SCHEMES[jobs[0].cfg.scheme as usize],
            cps(&first.cands[0]),
            jobs.len()
        );
        self.pend(&pend);
        let one = make(jobs[0].cfg);
        let gate = std::sync::Barrier::new(jobs.len());
        type Seen = std::collections::BTreeMap<(usize, usize), Vec<(Reply, String)>>;
        let logs: Vec<(Vec<String>, u64, u64, u64, Seen)> = std::thread::scope(|sc| {
            let hs: Vec<_> = jobs
                .iter()
                .map(|j| {
                    let gate = &gate;
                    let mut m = if shared { one.clone() } else { make(j.cfg) };
                    sc.spawn(move || {
                        let mut parser = FzfParser::new();
                        let mut log: Vec<String> = vec![];
                        let (mut calls, mut matched, mut panics) = (0, 0, 0);
                        let head = format!(
                            "{{\"o\":\"cfg\",\"s\":{},\"a\":{},\"c\":\"{}\",\"n\":{},\"h\":\"{}\"}}",
                            j.slot + 1,
                            j.cfg.algo,
                            CASES[j.cfg.case as usize],
                            j.cfg.norm,
                            SCHEMES[j.cfg.scheme as usize]
                        );
                        log.push(head);
                        let mut seen = Seen::new();
                        for round in 0..times {
                            if round == 0 {
                                gate.wait();
                            }
                            for (k, it) in j.items.iter().enumerate() {
                                if k % 4 == 0 {
                                    PROGRESS.fetch_add(1, AO::Relaxed);
                                }
                                let mut parsed = false;
                                let pe = |r: u8| {
                                    format!(
                                        "{{\"o\":\"{}\",\"p\":1,\"q\":{},\"r\":[{r},0]}}",
                                        if it.raw { "raw" } else { "parse" },
                                        cps(&it.text)
                                    )
                                };
                                let q = guarded(|| {
                                    if it.raw { parser.parse_not_extended(&it.text) } else { parser.parse(&it.text) }
                                });
                                let Some(q) = q else {
                                    panics += 1;
                                    log.push(pe(2));
                                    return (log, calls, matched, panics, seen);
                                };
                                for (i, c) in it.cands.iter().enumerate() {
                                    let mut buf = vec![];
                                    let r = guarded(|| match (&mut m, it.ranges) {
                                        (Any::V1(m), false) => m.distance(q, c),
                                        (Any::V2(m), false) => m.distance(q, c),
                                        (Any::V1(m), true) => m.distance_and_ranges(q, c, &mut buf),
                                        (Any::V2(m), true) => m.distance_and_ranges(q, c, &mut buf),
                                    });
                                    calls += 1;
                                    let r = match r {
                                        Some(Some(d)) => {
                                            matched += 1;
                                            Reply::Some(d.into_score())
                                        },
                                        Some(None) => Reply::None,
                                        None => Reply::Panic,
                                    };
                                    let b = if it.ranges { ranges_json(&buf) } else { String::new() };
                                    let out = if it.ranges {
                                        format!("\"r\":{},\"b\":{b}}}", r.json())
                                    } else {
                                        format!("\"r\":{}}}", r.json())
                                    };
                                    let was = seen.entry((k, i)).or_default();
                                    let is = (r, b);
                                    if was.last() != Some(&is) && was.len() < 20 {
                                        if !parsed {
                                            log.push(pe(1));
                                            parsed = true;
                                        }
                                        log.push(format!(
                                            "{{\"o\":\"{}\",\"s\":{},\"p\":1,\"c\":{},{}",
                                            if it.ranges { "x" } else { "d" },
                                            j.slot + 1,
                                            cps(c),
                                            out
                                        ));
                                        was.push(is);
                                    }
                                    if r == Reply::Panic {
                                        panics += 1;
                                        return (log, calls, matched, panics, seen);
                                    }
                                    if (k + i + round) % 3 == 0 {
                                        std::thread::yield_now();
                                    }
                                }
                            }
                        }
                        (log, calls, matched, panics, seen)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        self.done();
        let mut all = vec![];
        for (log, calls, matched, panics, seen) in logs {
            for e in log {
                self.ev(e);
            }
            all.extend(seen.into_values());
            self.calls += calls;
            self.matched += matched;
            self.panics += panics;
        }
        // The queries are no longer those of the parsers, nor the buffer theirs.
        self.parse(0, "");
        self.set_buf(vec![]);
        all
    }
}
