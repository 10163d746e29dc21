use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// One input: what to do, and its arguments as bytes.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub kind: String,
    pub args: Vec<Vec<u8>>,
}

impl Case {
    pub fn new(kind: &str, args: Vec<Vec<u8>>) -> Self {
        Self { kind: kind.into(), args }
    }
    pub fn bytes(&self, i: usize) -> &[u8] {
        self.args.get(i).map(|v| v.as_slice()).unwrap_or(&[])
    }
    pub fn u64(&self, i: usize) -> u64 {
        let mut b = [0; 8];
        let a = self.bytes(i);
        let n = a.len().min(8);
        b[..n].copy_from_slice(&a[..n]);
        u64::from_le_bytes(b)
    }
}

/// Bytes of a number, for use as an argument.
pub fn num(v: u64) -> Vec<u8> {
    v.to_le_bytes().to_vec()
}

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// Constants that occur in the source under test, so that inputs that are
/// special to the code are tried.
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<i64>,
    pub floats: Vec<f32>,
    pub bytes: Vec<Vec<u8>>,
}

impl Dict {
    pub fn harvest(dir: &str) -> Dict {
        let mut ints = HashSet::new();
        let mut floats: HashSet<u32> = HashSet::new();
        let mut bytes = HashSet::new();
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            let Ok(text) = std::fs::read_to_string(&f) else { continue };
            let b: Vec<char> = text.chars().collect();
            let mut i = 0;
            while i < b.len() {
                let c = b[i];
                let prev_id = i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_');
                if c.is_ascii_digit() && !prev_id {
                    let mut j = i;
                    while j < b.len()
                        && (b[j].is_alphanumeric()
                            || b[j] == '_'
                            || (b[j] == '.' && b.get(j + 1).is_some_and(|c| c.is_ascii_digit()))
                            || (b[j] == '-' && b[j - 1] == 'e'))
                    {
                        j += 1;
                    }
                    let mut t: String = b[i..j].iter().filter(|c| **c != '_').collect();
                    for s in ["usize", "u8", "u16", "u32", "u64", "i32", "i64", "f32", "f64", "i8", "i16"] {
                        if t.ends_with(s) {
                            t.truncate(t.len() - s.len());
                        }
                    }
                    if let Some(h) = t.strip_prefix("0x") {
                        if let Ok(v) = i64::from_str_radix(h, 16) {
                            ints.insert(v);
                        }
                    } else if let Some(h) = t.strip_prefix("0b") {
                        if let Ok(v) = i64::from_str_radix(h, 2) {
                            ints.insert(v);
                        }
                    } else if let Ok(v) = t.parse::<i64>() {
                        ints.insert(v);
                    }
                    if let Ok(v) = t.parse::<f32>() {
                        floats.insert(v.to_bits());
                    }
                    i = j;
                    continue;
                }
                if c == '"' {
                    let mut j = i + 1;
                    let mut v = String::new();
                    while j < b.len() && b[j] != '"' && b[j] != '\n' {
                        if b[j] == '\\' {
                            j += 1;
                            match b.get(j) {
                                Some('n') => v.push('\n'),
                                Some('r') => v.push('\r'),
                                Some('t') => v.push('\t'),
                                Some('0') => v.push('\0'),
                                Some(c) => v.push(*c),
                                None => {}
                            }
                        } else {
                            v.push(b[j]);
                        }
                        j += 1;
                    }
                    if v.len() <= 64 && !v.is_empty() {
                        bytes.insert(v.into_bytes());
                    }
                    i = j + 1;
                    continue;
                }
                if c == '\'' && i + 2 < b.len() {
                    // Character literal.
                    if b[i + 1] != '\\' && b[i + 2] == '\'' {
                        let mut t = [0; 4];
                        bytes.insert(b[i + 1].encode_utf8(&mut t).as_bytes().to_vec());
                        ints.insert(b[i + 1] as i64);
                        i += 3;
                        continue;
                    }
                }
                i += 1;
            }
        }
        let mut ints: Vec<i64> = ints.into_iter().collect();
        ints.sort();
        let mut floats: Vec<f32> = floats.into_iter().map(f32::from_bits).collect();
        floats.sort_by(f32::total_cmp);
        let mut bytes: Vec<Vec<u8>> = bytes.into_iter().collect();
        bytes.sort();
        Dict { ints, floats, bytes }
    }

    /// An integer near an interesting value.
    pub fn int(&self, r: &mut Rng) -> i64 {
        let base = match r.below(6) {
            0 => r.below(300) as i64,
            1 => {
                let s = r.below(34);
                1i64 << s
            }
            2 => [0, 1, 255, 256, 65535, 65536, 16777215, 16777216, i32::MAX as i64, i32::MIN as i64]
                [r.below(10)],
            3 | 4 if !self.ints.is_empty() => *r.pick(&self.ints),
            _ => {
                let s = r.below(32) + 1;
                (r.next() % (1u64 << s)) as i64
            }
        };
        let v = base + [0, 0, 0, 1, -1, 2, -2][r.below(7)];
        if r.chance(1, 4) { -v } else { v }
    }

    pub fn i32(&self, r: &mut Rng) -> i32 {
        self.int(r).clamp(i32::MIN as i64, i32::MAX as i64) as i32
    }

    /// A finite float.
    pub fn f32(&self, r: &mut Rng) -> f32 {
        let v = match r.below(8) {
            0 => self.int(r) as f32,
            1 => self.int(r) as f32 / 10f32.powi(r.below(8) as i32),
            2 if !self.floats.is_empty() => {
                let b = r.pick(&self.floats).to_bits();
                f32::from_bits(b.wrapping_add(r.below(5) as u32).wrapping_sub(2))
            }
            3 => 10f32.powi(r.below(77) as i32 - 38) * (1 + r.below(9)) as f32,
            4 => {
                let b = 10f32.powi(r.below(77) as i32 - 38).to_bits();
                f32::from_bits(b.wrapping_add(r.below(5) as u32).wrapping_sub(2))
            }
            5 => [0.0, -0.0, f32::MIN, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON, 0.5, 1.0][r.below(8)],
            6 => r.below(2000) as f32 / 1000.0,
            _ => f32::from_bits(r.next() as u32),
        };
        let v = if r.chance(1, 5) { -v } else { v };
        if v.is_finite() { v } else { 1.5 }
    }

    /// Seldom a length near a constant of the source or a power of two.
    fn length(&self, r: &mut Rng, n: usize) -> usize {
        if r.chance(1, 4000) { self.int(r).clamp(0, 70_000) as usize } else { n }
    }

    /// A byte string with interesting parts.
    pub fn byte_string(&self, r: &mut Rng, max: usize) -> Vec<u8> {
        let mode = r.below(7);
        let n = match r.below(5) {
            0 => r.below(3),
            1 => r.below(6),
            2 => r.below(12),
            3 => r.below(max.min(40) + 1),
            _ => r.below(max + 1),
        };
        let n = self.length(r, n);
        let mut v = vec![];
        while v.len() < n {
            match mode {
                0 => v.push(r.next() as u8),
                1 => v.push(32 + r.below(95) as u8),
                2 => v.push(r.below(128) as u8),
                3 => v.push(*r.pick(b"()\\\r\n\t\x08\x0c01789abnrtf <>[]{}/%#\0\x7f\x80\xff\x1b")),
                4 => v.push(*r.pick(b"(()))\\a")),
                5 if !self.bytes.is_empty() => {
                    v.extend(r.pick(&self.bytes));
                    if r.chance(1, 3) {
                        v.push(r.next() as u8);
                    }
                }
                _ => {
                    // A balanced piece.
                    let d = 1 + r.below(4);
                    v.extend(std::iter::repeat(b'(').take(d));
                    v.push(97 + r.below(26) as u8);
                    v.extend(std::iter::repeat(b')').take(d));
                    if r.chance(1, 8) {
                        v.push(*r.pick(b"()\\"));
                    }
                }
            }
        }
        v.truncate(n);
        v
    }

    /// A Unicode string with interesting parts.
    pub fn string(&self, r: &mut Rng, max: usize) -> String {
        let mode = r.below(6);
        let n = if r.chance(1, 2) { r.below(6) } else { r.below(max + 1) };
        let n = self.length(r, n);
        let mut s = String::new();
        for _ in 0..n {
            match mode {
                0 => s.push((32 + r.below(95) as u8) as char),
                1 => s.push(*r.pick(&['(', ')', '\\', '\r', '\n', 'a', '~', ' ', '\u{7f}', '\u{1f}'])),
                2 => {
                    if let Some(c) = char::from_u32(r.below(0x300) as u32) {
                        s.push(c)
                    }
                }
                3 => s.push(*r.pick(&[
                    '\0', '\u{7e}', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{d7ff}', '\u{e000}',
                    '\u{fffd}', '\u{feff}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10001}', '\u{1f600}',
                    '\u{10fbff}', '\u{10fc00}', '\u{10ffff}', 'a', '(',
                ])),
                4 => {
                    if !self.bytes.is_empty() && r.chance(1, 3) {
                        s.push_str(&String::from_utf8_lossy(r.pick(&self.bytes)));
                    } else {
                        s.push((32 + r.below(95) as u8) as char);
                    }
                }
                _ => {
                    if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                        s.push(c)
                    }
                }
            }
        }
        // The escape character cannot be represented, see DESIGN.md.
        s.replace('\u{1b}', "?")
    }
}

pub struct Ctx {
    pub dict: Dict,
    pub thorough: bool,
    pub seed: u64,
}

/// A property: exhaustive or listed cases, random cases, and the oracle.
pub struct Prop {
    pub id: &'static str,
    /// Cases that are always run; `shard` of `shards`.
    pub listed: fn(&Ctx) -> Vec<Case>,
    pub random: fn(&Ctx, &mut Rng) -> Case,
    /// Number of random cases (quick, thorough).
    pub n: (u64, u64),
    pub check: fn(&Case) -> Result<(), String>,
    pub rule: &'static str,
    /// Whether a case is non-trivial.
    pub nontrivial: fn(&Case) -> bool,
    /// An exhaustive enumeration, run as a whole: (quick, thorough range ends).
    pub sweep: Option<Sweep>,
}

pub struct Sweep {
    pub name: &'static str,
    pub end: (u64, u64),
    /// Maps an index to a case cheaply checked; returns an error message.
    pub check: fn(u64, bool) -> Result<(), (Case, String)>,
}

/// Run the oracle; a panic in the code under test is a failure.
pub fn guarded(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    }
}

/// Does this panic?
pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn show_bytes(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        s.push_str(&std::ascii::escape_default(c).to_string());
    }
    s
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Make a failing case smaller.
fn shrink(p: &Prop, mut case: Case, mut msg: String) -> (Case, String) {
    let start = Instant::now();
    let mut progress = true;
    while progress && start.elapsed().as_secs() < 5 {
        progress = false;
        for i in 0..case.args.len() {
            let mut step = (case.args[i].len() / 2).max(1);
            loop {
                let mut pos = 0;
                while pos + step <= case.args[i].len() && start.elapsed().as_secs() < 5 {
                    let mut c = case.clone();
                    c.args[i].drain(pos..pos + step);
                    match guarded(|| (p.check)(&c)) {
                        Err(m) => {
                            case = c;
                            msg = m;
                            progress = true;
                        }
                        Ok(()) => pos += step,
                    }
                }
                if step == 1 {
                    break;
                }
                step /= 2;
            }
        }
    }
    (case, msg)
}

pub fn run_cli(args: &[String]) {
    let id = &args[0];
    let mut tier = "quick".to_string();
    let mut seed = 1u64;
    let mut src = "/repo/src".to_string();
    let mut out = String::new();
    let mut i = 1;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--tier" => tier = args[i + 1].clone(),
            "--seed" => seed = args[i + 1].parse().unwrap_or(1),
            "--src" => src = args[i + 1].clone(),
            "--out" => out = args[i + 1].clone(),
            _ => {}
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let all = crate::props::all();
    let Some(p) = all.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let ctx = Ctx { dict: Dict::harvest(&src), thorough: tier == "thorough", seed };
    let start = Instant::now();
    let limit = if ctx.thorough { 6000 } else { 120 };
    let listed = (p.listed)(&ctx);
    let n = if ctx.thorough { p.n.1 } else { p.n.0 };
    let threads = 8u64;
    let evals = AtomicU64::new(0);
    let swept = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let failure: Mutex<Option<(Case, String)>> = Mutex::new(None);
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<Case>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (ctx, listed, evals, stop, failure, seen, samples, swept, timed_out) =
                (&ctx, &listed, &evals, &stop, &failure, &seen, &samples, &swept, &timed_out);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut local: HashSet<u64> = HashSet::new();
                    let mut count = 0;
                    let mut one = |case: Case| {
                        count += 1;
                        if (p.nontrivial)(&case) && local.len() < 2_000_000 {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            case.hash(&mut h);
                            local.insert(h.finish());
                        }
                        if let Err(m) = guarded(|| (p.check)(&case)) {
                            let mut f = failure.lock().unwrap();
                            if f.is_none() {
                                *f = Some((case, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    };
                    for (i, c) in listed.iter().enumerate() {
                        if i as u64 % threads != t {
                            continue;
                        }
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        one(c.clone());
                    }
                    let mut r = Rng(ctx.seed.wrapping_mul(0x1234567).wrapping_add(t * 7919));
                    r.next();
                    for i in 0..n / threads {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if i % 64 == 0 && start.elapsed().as_secs() > limit {
                            timed_out.store(true, Ordering::Relaxed);
                            break;
                        }
                        let c = (p.random)(ctx, &mut r);
                        if t == 0 && i % 4001 == 7 {
                            let mut s = samples.lock().unwrap();
                            if s.len() < 8 {
                                s.push(c.clone());
                            }
                        }
                        one(c);
                    }
                    if let Some(sw) = &p.sweep {
                        let end = if ctx.thorough { sw.end.1 } else { sw.end.0 };
                        let mut i = t;
                        let mut n = 0u64;
                        while i < end {
                            if n % 4096 == 0 && stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let r = match catch_unwind(AssertUnwindSafe(|| (sw.check)(i, ctx.thorough))) {
                                Ok(r) => r,
                                Err(_) => Err((
                                    Case::new("sweep", vec![num(i), vec![ctx.thorough as u8]]),
                                    "panicked".into(),
                                )),
                            };
                            if let Err((c, m)) = r {
                                let mut f = failure.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((c, m));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                            i += threads;
                            n += 1;
                        }
                        swept.fetch_add(n, Ordering::Relaxed);
                    }
                    evals.fetch_add(count, Ordering::Relaxed);
                    seen.lock().unwrap().extend(local);
                })
                .unwrap();
        }
    });
    let failure = failure.into_inner().unwrap();
    let failure = failure.map(|(c, m)| shrink(p, c, m));
    let mut j = String::from("{");
    j.push_str(&format!("\"property\": {}, ", json_str(id)));
    j.push_str(&format!("\"evaluations\": {}, ", evals.load(Ordering::Relaxed)));
    j.push_str(&format!("\"listed\": {}, ", listed.len()));
    j.push_str(&format!("\"swept\": {}, ", swept.load(Ordering::Relaxed)));
    j.push_str(&format!("\"sweep\": {}, ", json_str(p.sweep.as_ref().map(|s| s.name).unwrap_or(""))));
    j.push_str(&format!("\"sweep_complete\": {}, ", ctx.thorough && p.sweep.is_some() && failure.is_none()));
    j.push_str(&format!("\"distinct_nontrivial\": {}, ", seen.lock().unwrap().len()));
    j.push_str(&format!("\"rule\": {}, ", json_str(p.rule)));
    j.push_str(&format!("\"timed_out\": {}, ", timed_out.load(Ordering::Relaxed)));
    let mut sm = samples.into_inner().unwrap();
    sm.extend(listed.iter().take(2).cloned());
    j.push_str("\"samples\": [");
    for (i, c) in sm.iter().enumerate() {
        if i > 0 {
            j.push_str(", ");
        }
        j.push_str(&json_str(&describe(c)));
    }
    j.push_str("], ");
    match &failure {
        None => j.push_str("\"failure\": null"),
        Some((c, m)) => {
            j.push_str(&format!(
                "\"failure\": {{\"case\": {}, \"message\": {}, \"replay\": {}}}",
                json_str(&describe(c)),
                json_str(m),
                json_str(&replay_text(id, c))
            ));
        }
    }
    j.push_str(&format!(", \"wall_s\": {:.2}}}\n", start.elapsed().as_secs_f64()));
    if out.is_empty() {
        println!("{j}");
    } else {
        std::fs::write(out, j).unwrap();
    }
    std::process::exit(if failure.is_some() { 1 } else { 0 });
}

fn describe(c: &Case) -> String {
    let mut s = c.kind.clone();
    for a in &c.args {
        let t = show_bytes(&a[..a.len().min(200)]);
        s.push_str(&format!(" b\"{t}\""));
    }
    s
}

fn replay_text(id: &str, c: &Case) -> String {
    let mut s = format!("property {id}\nkind {}\n", c.kind);
    for a in &c.args {
        s.push_str(&format!("arg {}\n", hex(a)));
    }
    s
}

pub fn replay_cli(path: &str) {
    let text = std::fs::read_to_string(path).expect("cannot read the replay file");
    let mut id = String::new();
    let mut case = Case::new("", vec![]);
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("property ") {
            id = r.trim().into();
        } else if let Some(r) = l.strip_prefix("kind ") {
            case.kind = r.trim().into();
        } else if l == "arg" || l.starts_with("arg ") {
            let h = l[3..].trim();
            case.args.push(
                (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(),
            );
        }
    }
    if case.kind.is_empty() {
        println!("no input to replay: this file records a failed proof obligation");
        std::process::exit(0);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let all = crate::props::all();
    let p = all.iter().find(|p| p.id == id).expect("unknown property");
    println!("case: {}", describe(&case));
    let r = if case.kind == "sweep" {
        let sw = p.sweep.as_ref().unwrap();
        guarded(|| (sw.check)(case.u64(0), case.bytes(1) == [1]).map_err(|e| e.1))
    } else {
        guarded(|| (p.check)(&case))
    };
    match r {
        Ok(()) => println!("holds"),
        Err(m) => {
            println!("FAILS: {m}");
            std::process::exit(1);
        }
    }
}
