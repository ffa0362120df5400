//! Generates a seeded set of compile-time collections: through the macros in all their forms, and through the emitter,
//! which runs here. What each of them must hold is written next to it.

use frozen_collections::emit::{CollectionEmitter, CollectionEntry};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use syn::{Expr, Type, parse_str};

fn skipped(only: Option<(usize, usize)>, i: usize) -> bool {
    only.is_some_and(|(a, b)| i < a || i >= b)
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    fn chance(&mut self, a: u64, b: u64) -> bool {
        self.below(b) < a
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}

/// A key as known while generating. Hashes and compares like the key it stands for.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Num(u64);
impl Hash for Num {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.0);
    }
}

const INTS: [(&str, u32, bool); 10] = [
    ("u8", 8, false),
    ("i8", 8, true),
    ("u16", 16, false),
    ("i16", 16, true),
    ("u32", 32, false),
    ("i32", 32, true),
    ("u64", 64, false),
    ("i64", 64, true),
    ("usize", 64, false),
    ("isize", 64, true),
];

const SIZES: [u64; 26] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 33, 64, 90, 120, 127, 128, 129, 200, 254, 255, 256, 257, 300];

fn size(r: &mut Rng, max: u64) -> u64 {
    let n = match r.below(10) {
        0..=4 => r.range(1, 12),
        5..=7 => *r.pick(&SIZES[..16]),
        _ => *r.pick(&SIZES),
    };
    n.min(max)
}

/// Integer keys in the order they are written down, repeats included, as bit patterns.
fn ints(r: &mut Rng, bits: u32, lo: i128, hi: i128, shape: u64, dups: bool, want: Option<u64>) -> Vec<i128> {
    let room = (hi - lo + 1).min(1 << 40) as u64;
    let mut set = BTreeSet::new();
    match shape {
        // contiguous
        0 => {
            let n = want.unwrap_or_else(|| size(r, room)).min(room);
            let base = match r.below(5) {
                0 => 0.max(lo),
                1 => hi - i128::from(n) + 1,
                2 => lo,
                3 => (-i128::from(n) / 2).max(lo),
                _ => lo + i128::from(r.below(room - n + 1)),
            };
            let base = base.min(hi - i128::from(n) + 1).max(lo);
            set.extend((0..n).map(|i| base + i128::from(i)));
        }
        // a few holes; the width of the range near the limits of the lookup tables
        1 => {
            let n = want.unwrap_or_else(|| size(r, room.min(160) / 2)).max(2);
            let width = match r.below(4) {
                0 => *r.pick(&[255u64, 256, 257, 258, 127, 128]),
                1 => n * 9,
                2 => n * 2,
                _ => n + 1 + r.below(n * 8),
            };
            let width = width.max(n).min(room);
            let base = lo.max(0) + i128::from(r.below((room - width + 1).min(5000)));
            let base = if r.chance(1, 4) { hi - i128::from(width) + 1 } else { base.min(hi - i128::from(width) + 1) };
            set.insert(base);
            set.insert(base + i128::from(width) - 1);
            while (set.len() as u64) < n.min(width) {
                set.insert(base + i128::from(r.below(width)));
            }
        }
        // anything
        _ => {
            let n = want.unwrap_or_else(|| size(r, room / 2));
            let top = r.range(4, u64::from(bits));
            while (set.len() as u64) < n {
                let x = if bits > 16 && r.chance(1, 3) { r.next() >> (64 - top) } else { r.next() };
                let span = (hi - lo) as u128 + 1;
                set.insert(lo + (u128::from(x) % span) as i128);
                if r.chance(1, 9) {
                    set.insert(*r.pick(&[lo, hi, 0.max(lo), hi / 2 + 1]));
                }
            }
        }
    }
    let mut v: Vec<i128> = set.into_iter().collect();
    finish(r, &mut v, dups);
    v
}

fn finish<T: Clone>(r: &mut Rng, v: &mut Vec<T>, dups: bool) {
    match r.below(4) {
        0 => {}
        1 => v.reverse(),
        _ => r.shuffle(v),
    }
    if dups && !v.is_empty() && r.chance(2, 3) {
        for _ in 0..r.range(1, v.len() as u64 / 3 + 1) {
            let x = r.pick(v).clone();
            let at = r.below(v.len() as u64 + 1) as usize;
            v.insert(at, x);
        }
    }
}

/// Non-negative literal in one of the ways of writing it.
fn int_lit(r: &mut Rng, v: u128, suffix: &str, fancy: bool) -> String {
    let mut s = if !fancy {
        v.to_string()
    } else {
        match r.below(7) {
            0 => format!("0x{v:x}"),
            1 => format!("0o{v:o}"),
            2 if v < 1 << 20 => format!("0b{v:b}"),
            3 => {
                let d = v.to_string();
                let mut o = String::new();
                for (i, c) in d.chars().enumerate() {
                    if i > 0 && (d.len() - i) % 3 == 0 {
                        o.push('_');
                    }
                    o.push(c);
                }
                o
            }
            _ => v.to_string(),
        }
    };
    if !suffix.is_empty() {
        if fancy && r.chance(1, 3) {
            s.push('_');
        }
        s.push_str(suffix);
    }
    s
}

fn signed_expr(v: i128, ty: &str, bits: u32) -> String {
    if v < 0 && v == -(1i128 << (bits - 1)) {
        format!("{ty}::MIN")
    } else if v < 0 {
        format!("-{}{ty}", -v)
    } else {
        format!("{v}{ty}")
    }
}

fn pattern(v: i128, bits: u32) -> u64 {
    if bits == 64 { v as u64 } else { (v as u64) & ((1 << bits) - 1) }
}

fn strings(r: &mut Rng, n: u64, dups: bool) -> Vec<String> {
    let shape = if n <= 60 { *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 18, 19]) } else { r.below(14) };
    let mut seen = BTreeSet::new();
    let mut v = Vec::new();
    let mut tries = 0;
    while (v.len() as u64) < n && tries < n * 50 + 50 {
        tries += 1;
        let i = v.len() as u64 + if tries % 5 == 4 { tries } else { 0 };
        let x = r.next();
        let s = match shape {
            0 => format!("k{i}"),
            1 => format!("a/very/long/common/prefix/of/paths/{i}"),
            2 => format!("{i}.a.common.suffix.example.com"),
            3 => "x".repeat((i % 400) as usize),
            4 => format!("é{i}✓ü"),
            5 => format!("{x:016x}"),
            6 => format!("pre-{i:05}-post"),
            7 => match x % 8 {
                0 => String::new(),
                1 => format!("\"{i}\\"),
                2 => format!("\n{i}\t\u{1}"),
                3 => format!("{i}\u{0}"),
                4 => format!("𝄞{i}"),
                5 => format!(" {i} "),
                6 => format!("{{{i}}}"),
                _ => format!("{i}"),
            },
            8 => {
                let mut b = vec![b'a'; 20];
                b[(i % 20) as usize] = b'b' + ((i / 20) % 24) as u8;
                String::from_utf8(b).unwrap()
            }
            9 => {
                // short strings over a small alphabet
                let mut m = x % 400;
                let mut s = String::new();
                while m > 0 {
                    s.push((b'a' + ((m - 1) % 3) as u8) as char);
                    m = (m - 1) / 3;
                }
                s
            }
            10 => {
                let l = r.range(1, 12);
                (0..l).map(|_| *r.pick(&['a', 'b', 'z', '0', '_', 'Q', 'ß', '中'])).collect()
            }
            // one differing character at a fixed place
            11 => format!("{}{}{}", "p".repeat(7), char::from_u32(0x21 + (i % 90) as u32).unwrap(), "s".repeat((i % 5) as usize)),
            // identifiers, right-aligned
            12 => format!("{:>12}", i * 37 % 1000),
            // lengths that are the same modulo 256
            14 => "x".repeat((i % 9 + i / 9 % 7 * 256) as usize),
            // what differs is far from the beginning, or from the end, or from both
            15 => format!("{}{i}", "p".repeat(280)),
            16 => format!("{i:04}{}", "s".repeat(280)),
            17 => {
                let mut b = vec![b'a'; 560];
                b[(i % 280 * 2) as usize] = b'b' + ((i / 280) % 24) as u8;
                String::from_utf8(b).unwrap()
            }
            // what differs is at a fixed distance from the end
            18 => format!("{}{}{}", "p".repeat(1 + (x % 5) as usize), char::from_u32(0x21 + (i % 90) as u32).unwrap(), "s".repeat(7)),
            19 => format!("{}{i:02}{}", "pq".repeat(1 + (x % 4) as usize), ".rs"),
            _ => format!("{}{}", ["get", "set", "put", "del", "list", "patch", "head"][(x % 7) as usize], i / 7),
        };
        if seen.insert(s.clone()) {
            v.push(s);
        }
    }
    finish(r, &mut v, dups);
    v
}

fn str_lit(r: &mut Rng, s: &str) -> String {
    let plain = s.chars().all(|c| c != '\r' && c != '\u{0}' && (c == '\n' || !c.is_control())) && !s.contains("\"#");
    if plain && r.chance(1, 4) { format!("r#\"{s}\"#") } else { format!("{s:?}") }
}

/// Key families at run time.
#[derive(Clone)]
enum Keys {
    Int(usize),
    Key,
    Ref,
    Own,
    Sim,
    Enum(usize),
}

/// One entry: how its key is written, what it is, its tag and value.
struct Ent {
    key: String,
    num: u64,
    text: Option<String>,
    tag: u64,
    val: u64,
}

struct Out {
    src: String,
    targets: String,
    force: String,
    count: usize,
}

struct Fix<'a> {
    what: String,
    keys: Keys,
    set: bool,
    ents: &'a [Ent],
    /// items in front of the build function
    items: String,
    /// a block with the collection as its value
    body: String,
    force: bool,
}

impl Out {
    fn add(&mut self, only: Option<(usize, usize)>, f: Fix<'_>) {
        let i = self.count;
        self.count += 1;
        if skipped(only, i) {
            return;
        }
        let (fam, tag, mp, sp) = match &f.keys {
            Keys::Int(t) => (format!("FScalar<{}>", INTS[*t].0), "scalar", format!("peer:FzScalarMap<{},_>", INTS[*t].0), format!("peer:FzScalarSet<{}>", INTS[*t].0)),
            Keys::Sim => ("FScalar<SimScalar>".into(), "scalar", "peer:FzScalarMap<SimScalar,_>".into(), "peer:FzScalarSet<SimScalar>".into()),
            Keys::Key => ("FKey".into(), "key", "FzHashMap<SimKey,_,SimBH>".into(), "FzHashSet<SimKey,SimBH>".into()),
            Keys::Enum(n) => (format!("FEnum{n}"), "scalar", "-".into(), "-".into()),
            Keys::Ref => ("FRef".into(), "str", String::new(), String::new()),
            Keys::Own => ("FStr".into(), "str", String::new(), String::new()),
        };
        let kind = if f.set { "FxSet" } else { "FxMap" };
        let name = format!("f{i}: {} ({} entries)", f.what, f.ents.len());
        let _ = writeln!(self.src, "pub mod f{i} {{\n#[allow(unused_imports)]\nuse super::*;\n{}", f.items);
        let strs = matches!(f.keys, Keys::Ref | Keys::Own);
        if strs {
            let _ = write!(self.src, "static E: &[(&str, u64)] = &[");
            for e in f.ents {
                let _ = write!(self.src, "({:?}, {}), ", e.text.as_ref().unwrap(), if f.set { 0 } else { e.val });
            }
        } else {
            let _ = write!(self.src, "static E: &[(u64, u64, u64)] = &[");
            for e in f.ents {
                let _ = write!(self.src, "({}, {}, {}), ", e.num, if matches!(f.keys, Keys::Key) { e.tag } else { 0 }, if f.set { 0 } else { e.val });
            }
        }
        let _ = writeln!(self.src, "];");
        let _ = writeln!(
            self.src,
            "fn build(_: &Req<'_>) -> Box<dyn SimMap> {{ let m = {{ fcsim::world::go(); let _g = InLib::enter(); {} }}; Box::new({kind}::<_, {fam}>::of(m)) }}",
            f.body
        );
        let make = if strs {
            format!("fixture_str::<{fam}>({name:?}, {}, build, || str_entries(E), || str_ids(E.len()))", f.set)
        } else {
            let peer = if f.set { sp } else { mp };
            format!("fixture::<{fam}>({name:?}, {tag:?}, {}, &[{peer:?}], build, || E.to_vec())", f.set)
        };
        let _ = writeln!(self.src, "pub fn target() -> Target {{ {make} }}");
        if f.force {
            let _ = writeln!(self.src, "pub fn force() {{ std::sync::LazyLock::force(&S); }}");
            let _ = writeln!(self.force, "    let _ = std::panic::catch_unwind(f{i}::force);");
        }
        let _ = writeln!(self.src, "}}");
        let _ = writeln!(self.targets, "    v.push(f{i}::target());");
    }
}

const FORMS: [&str; 4] = ["static", "let", "let mut", "short"];

fn rust_type(k: &Keys) -> String {
    match k {
        Keys::Int(t) => INTS[*t].0.into(),
        Keys::Key => "SimKey".into(),
        Keys::Ref => "&'static str".into(),
        Keys::Own => "Box<str>".into(),
        Keys::Sim => "SimScalar".into(),
        Keys::Enum(n) => format!("E{n}"),
    }
}

/// What is declared visible is declared in a module of its own, and used outside of it.
fn seen_from_outside(vis: &str, items: String) -> String {
    if vis.is_empty() { items } else { format!("mod d {{ use super::*; {items} }}\nuse d::S;") }
}

/// A collection through one of the macros.
fn via_macro(out: &mut Out, r: &mut Rng, only: Option<(usize, usize)>, mac: &str, form: &str, keys: Keys, set: bool, constant: bool, what: &str, ents: &[Ent]) {
    let name = format!("fz_{mac}_{}", if set { "set" } else { "map" });
    let ty = rust_type(&keys);
    let args = if set { format!("<{ty}>") } else { format!("<{ty}, SimVal>") };
    let still = form == "static";
    // written out, or passed through a macro of the program's own
    let wrap = !ents.is_empty() && r.chance(1, 4);
    let arrow = if wrap { " =>" } else { ":" };
    let mut list = String::new();
    for (i, e) in ents.iter().enumerate() {
        if i > 0 {
            list.push_str(", ");
        }
        list.push_str(&e.key);
        if !set {
            let _ = write!(list, "{arrow} SimVal::{}({})", if still && constant { "fixed" } else if still { "late" } else { "new" }, e.val);
        }
    }
    if !ents.is_empty() && r.chance(1, 2) {
        list.push(',');
    }
    let full = format!("{name} {form}{}, {what}", if wrap { " wrapped" } else { "" });
    let frag = if constant { *r.pick(&["expr", "literal"]) } else { "expr" };
    let (pat, inner) = if set { (format!("$($k:{frag}),* $(,)?"), "$($k),*") } else { (format!("$($k:{frag} => $v:expr),* $(,)?"), "$($k: $v),*") };
    let fix = match form {
        "static" => {
            let vis = *r.pick(&["", "pub ", "pub(crate) "]);
            // a private alias of a public static is a lint, nothing more
            let lazy = !constant;
            let (items, body) = if wrap {
                (
                    format!("macro_rules! w {{ ({pat}) => {{ {name}!({vis}static S: T{args}, {{ {inner} }}); }} }}\nw!({list});"),
                    "S.clone()".to_string(),
                )
            } else {
                (format!("{name}!({vis}static S: T{args}, {{ {list} }});"), "S.clone()".to_string())
            };
            Fix { what: full, keys, set, ents, items: seen_from_outside(vis, items), body, force: lazy }
        }
        _ => {
            let (head, tail) = match form {
                "let" => (format!("let m: T{args}, "), "; m"),
                "let mut" => (format!("let mut m: T{args}, "), "; let _ = &mut m; m"),
                _ => (String::new(), ""),
            };
            if wrap {
                let items = format!("macro_rules! w {{ ({pat}) => {{{{ {name}!({head}{{ {inner} }}){tail} }}}} }}");
                Fix { what: full, keys, set, ents, items, body: format!("w!({list})"), force: false }
            } else {
                Fix { what: full, keys, set, ents, items: String::new(), body: format!("{name}!({head}{{ {list} }}){tail}"), force: false }
            }
        }
    };
    out.add(only, fix);
}

/// A collection through the emitter.
fn via_emitter<K>(
    out: &mut Out,
    r: &mut Rng,
    only: Option<(usize, usize)>,
    keys: Keys,
    set: bool,
    what: &str,
    ents: &[Ent],
    key: impl Fn(&Ent) -> K,
    emit: impl FnOnce(CollectionEmitter, Vec<CollectionEntry<K>>) -> Result<proc_macro2::TokenStream, String>,
) {
    let form = *r.pick(&["static", "let", "let mut", "expression"]);
    let still = form == "static";
    let skip = skipped(only, out.count);
    let ty: Type = parse_str(&rust_type(&keys)).unwrap();
    let mut e = CollectionEmitter::new(&ty);
    if !set {
        e = e.value_type(&parse_str("SimVal").unwrap());
    }
    if form != "expression" {
        e = e.symbol_name(if still { "S" } else { "m" });
        if r.chance(1, 2) {
            e = e.alias_name("T");
        }
    }
    let mut vis = "";
    if still {
        e = e.static_instance(true);
        if r.chance(1, 2) {
            vis = *r.pick(&["pub", "pub(crate)"]);
            e = e.visibility(parse_str(vis).unwrap());
        }
    }
    // what cannot be evaluated at compile time becomes a lazily made static
    let lazy = still && r.chance(1, 4);
    e = e.const_keys(!lazy).const_values(!lazy).mutable(form == "let mut");
    let entries: Vec<CollectionEntry<K>> = ents
        .iter()
        .map(|x| {
            let text = if still { x.key.replace("SimKey::new", if lazy { "SimKey::late" } else { "SimKey::fixed" }) } else { x.key.clone() };
            let ke: Expr = parse_str(&text).unwrap();
            if set {
                CollectionEntry::set_entry(key(x), ke)
            } else {
                let ve: Expr = parse_str(&format!("SimVal::{}({})", if lazy { "late" } else if still { "fixed" } else { "new" }, x.val)).unwrap();
                CollectionEntry::map_entry(key(x), ke, ve)
            }
        })
        .collect();
    // an emitter that fails on well-formed entries is told apart from one that does not fail by not compiling
    let toks = if skip {
        String::new()
    } else {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| emit(e, entries))) {
            Ok(Ok(t)) => t.to_string(),
            Ok(Err(e)) => format!("compile_error!({:?});", format!("the emitter reports: {e}")),
            Err(_) => "compile_error!(\"the emitter panics\");".to_string(),
        }
    };
    let full = format!("emitter {form}{}, {what}", if lazy { " lazy" } else { "" });
    let fix = match form {
        "static" => Fix { what: full, keys, set, ents, items: seen_from_outside(vis, toks), body: "S.clone()".into(), force: lazy },
        "expression" => Fix { what: full, keys, set, ents, items: String::new(), body: toks, force: false },
        "let mut" => Fix { what: full, keys, set, ents, items: String::new(), body: format!("{toks} let _ = &mut m; m"), force: false },
        _ => Fix { what: full, keys, set, ents, items: String::new(), body: format!("{toks} m"), force: false },
    };
    out.add(only, fix);
}

fn main() {
    for v in ["FCFIX_SEED", "FCFIX_COUNT", "FCFIX_ONLY", "CONST_RANDOM_SEED"] {
        println!("cargo:rerun-if-env-changed={v}");
    }
    println!("cargo:rerun-if-changed=build.rs");
    let env = |n: &str| std::env::var(n).ok().and_then(|x| x.parse::<u64>().ok());
    let seed = env("FCFIX_SEED").unwrap_or(1);
    let count = env("FCFIX_COUNT").unwrap_or(40);
    // a range of them: the others are left out, which changes nothing about these
    let only = std::env::var("FCFIX_ONLY").ok().and_then(|x| {
        let (a, b) = x.split_once('-')?;
        Some((a.parse().ok()?, b.parse().ok()?))
    });
    let hash_seed = std::env::var("CONST_RANDOM_SEED").unwrap_or_default();
    let opt = std::env::var("FC_OPT").unwrap_or_else(|_| "0".into());
    println!("cargo:rustc-env=FCFIX_ID=FCFIX_SEED={seed} FCFIX_COUNT={count} CONST_RANDOM_SEED={hash_seed} FC_OPT={opt}");
    println!("cargo:rerun-if-env-changed=FC_OPT");
    let mut r = Rng(seed ^ 0x0f1c_5eed);
    let mut out = Out { src: String::new(), targets: String::new(), force: String::new(), count: 0 };
    let mut kinds: Vec<u64> = Vec::new();
    for i in 0..count {
        // every kind before any kind again
        if kinds.is_empty() {
            kinds = (0..KINDS).collect();
            r.shuffle(&mut kinds);
        }
        let kind = kinds.pop().unwrap();
        let mut rr = Rng(r.next());
        // the last count that fits into a byte, and the first that does not, in turns
        let edge = 255 + (seed + kind + i / KINDS) % 2;
        one(&mut out, &mut rr, only, i, kind, edge);
    }
    let mut text = out.src;
    let _ = writeln!(text, "pub fn all() -> Vec<Target> {{\n    #[allow(unused_mut)]\n    let mut v: Vec<Target> = Vec::new();\n{}    v\n}}", out.targets);
    let _ = writeln!(text, "pub fn force() {{\n{}}}", out.force);
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{dir}/fixtures.rs"), text).unwrap();
}

const KINDS: u64 = 36;

fn ent(i: u64, k: usize, key: String, num: u64, text: Option<String>) -> Ent {
    Ent { key, num, text, tag: (1 << 30) + i * 1000 + k as u64, val: (1 << 50) + i * 10_000 + k as u64 }
}

fn int_ents(i: u64, v: &[i128], bits: u32, f: impl Fn(usize, i128) -> String) -> Vec<Ent> {
    v.iter().enumerate().map(|(k, x)| ent(i, k, f(k, *x), pattern(*x, bits), None)).collect()
}

fn limits(t: usize) -> (u32, i128, i128) {
    let (_, bits, signed) = INTS[t];
    if signed { (bits, -(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (bits, 0, (1i128 << bits) - 1) }
}

fn key_ids(r: &mut Rng, n: u64, dups: bool) -> Vec<u64> {
    let bits = *r.pick(&[6u32, 10, 32, 63]);
    let mut set = BTreeSet::new();
    let dense = r.chance(1, 3);
    let base = r.next() >> (64 - bits);
    let cap = if bits == 6 { 50 } else { u64::MAX };
    while (set.len() as u64) < n.min(cap) {
        set.insert(if dense { base + set.len() as u64 } else { r.next() >> (64 - bits) });
    }
    let mut v: Vec<u64> = set.into_iter().collect();
    finish(r, &mut v, dups);
    v
}

/// An expression, or sometimes a literal among expressions.
fn mixed(r: &mut Rng, k: usize, s: &str) -> String {
    if k > 0 && r.chance(1, 3) { str_lit(r, s) } else { format!("ident({s:?})") }
}

#[allow(clippy::too_many_lines)]
fn one(out: &mut Out, r: &mut Rng, only: Option<(usize, usize)>, i: u64, kind: u64, edge: u64) {
    let set = r.chance(2, 5);
    let form = *r.pick(&FORMS);
    match kind {
        // literal scalars: dense, sparse, general (few), general (many)
        0..=7 => {
            let t = if kind >= 6 { r.range(2, 9) as usize } else { r.below(10) as usize };
            let (bits, _, hi) = limits(t);
            let (shape, want, what) = match kind {
                0 | 1 => (0, None, "dense"),
                2 | 3 => (1, if bits > 8 && r.chance(1, 4) { Some(*r.pick(&[254u64, 255, 256, 257, 300])) } else { None }, "sparse"),
                4 | 5 => (2, Some(r.range(1, 7)), "general"),
                _ => (2, Some(size(r, 400).max(8)), "general"),
            };
            let mut v = ints(r, bits, 0, hi, shape, true, want);
            let mac = *r.pick(&["scalar", "scalar", "scalar", "hash", "ordered"]);
            let fancy = r.chance(1, 2);
            // all unsuffixed literals are i32
            let bare = INTS[t].0 == "i32" && r.chance(1, 2);
            let partly = r.chance(1, 4);
            let first = r.below(v.len() as u64) as usize;
            if bare {
                v.retain(|x| *x <= i128::from(i32::MAX));
            }
            let lits: Vec<String> = v
                .iter()
                .enumerate()
                .map(|(k, x)| {
                    let none = bare || partly && k != first && r.chance(1, 2);
                    int_lit(r, *x as u128, if none { "" } else { INTS[t].0 }, fancy)
                })
                .collect();
            let e = int_ents(i, &v, bits, |k, _| lits[k].clone());
            via_macro(out, r, only, mac, form, Keys::Int(t), set, true, &format!("literal {} {what}", INTS[t].0), &e);
        }
        // literal strings
        8..=12 => {
            let n = match kind {
                8 => r.range(1, 3),
                9 | 10 => r.range(4, 40),
                11 => *r.pick(&[90, 127, 128, 129, 200]),
                _ => *r.pick(&[254, 255, 256, 257, 300]),
            };
            let v = strings(r, n, true);
            let mac = *r.pick(&["string", "string", "string", "hash", "ordered"]);
            let e: Vec<Ent> = v.iter().enumerate().map(|(k, s)| ent(i, k, str_lit(r, s), 0, Some(s.clone()))).collect();
            via_macro(out, r, only, mac, form, Keys::Ref, set, true, "literal strings", &e);
        }
        // expressions of a user-defined key type
        13..=16 => {
            let mac = if kind % 2 == 1 { "hash" } else { "ordered" };
            let n = if kind < 15 { r.range(1, 3) } else { *r.pick(&[4, 5, 7, 8, 12, 16, 31, 64, 65, 100]) };
            // the small ones, and the ordered ones, take the entries as they are
            let v = key_ids(r, n, mac == "hash" && n >= 4);
            let small = v.len() < 4;
            let how = if form == "static" { "late" } else { "new" };
            let _ = small;
            let e: Vec<Ent> =
                v.iter().enumerate().map(|(k, x)| { let mut e = ent(i, k, String::new(), *x, None); e.key = format!("SimKey::{how}({x}, {})", e.tag); e }).collect();
            via_macro(out, r, only, mac, form, Keys::Key, set, false, "expressions", &e);
        }
        // scalar expressions: negative literals and user-defined scalars
        17..=19 => {
            let n = if kind == 17 { r.range(1, 7) } else { r.range(8, 120) };
            if r.chance(1, 2) {
                let t = *r.pick(&[1usize, 3, 5, 7, 9]);
                let (bits, lo, hi) = limits(t);
                let shape = r.below(3);
                let mut v = ints(r, bits, lo, hi, shape, n >= 8, Some(n));
                // at least one of them is no literal
                if !v.iter().any(|x| *x < 0) {
                    v.push(-3);
                }
                let many = v.len() >= 8;
                if !many {
                    let mut seen = BTreeSet::new();
                    v.retain(|x| seen.insert(*x));
                }
                let e = int_ents(i, &v, bits, |_, x| signed_expr(x, INTS[t].0, bits));
                via_macro(out, r, only, "scalar", form, Keys::Int(t), set, false, &format!("signed {}", INTS[t].0), &e);
            } else {
                let v = ints(r, 63, 0, (1 << 63) - 1, r.0 % 3, n >= 8, Some(n));
                let e = int_ents(i, &v, 64, |_, x| format!("SimScalar({x})"));
                via_macro(out, r, only, "scalar", form, Keys::Sim, set, false, "user-defined scalars", &e);
            }
        }
        // enumerations
        20 | 21 => {
            let which = r.below(4) as usize;
            let n = [5u64, 12, 40, 300][which];
            let k = r.range(1, n);
            let mut v: Vec<u64> = (0..n).collect();
            r.shuffle(&mut v);
            v.truncate(k as usize);
            let e: Vec<Ent> = v.iter().enumerate().map(|(k, x)| ent(i, k, format!("E{which}::V{x}"), *x, None)).collect();
            if kind == 20 {
                via_macro(out, r, only, "scalar", form, Keys::Enum(which), set, false, "enumeration", &e);
            } else {
                via_emitter(out, r, only, Keys::Enum(which), set, "enumeration", &e, |e| e.num as u16, |c, e| c.emit_scalar_collection(e));
            }
        }
        // string expressions
        22 => {
            let n = if r.chance(1, 3) { r.range(1, 3) } else { r.range(4, 60) };
            let v = strings(r, n, n >= 4);
            if v.len() < 4 {
                let mut seen = BTreeSet::new();
                let v: Vec<String> = v.into_iter().filter(|x| seen.insert(x.clone())).collect();
                let e: Vec<Ent> = v.iter().enumerate().map(|(k, s)| ent(i, k, mixed(r, k, s), 0, Some(s.clone()))).collect();
                via_macro(out, r, only, "string", form, Keys::Ref, set, false, "string expressions", &e);
            } else {
                let e: Vec<Ent> = v.iter().enumerate().map(|(k, s)| ent(i, k, mixed(r, k, s), 0, Some(s.clone()))).collect();
                via_macro(out, r, only, "string", "short", Keys::Own, set, false, "string expressions", &e);
            }
        }
        // the emitter
        23 | 24 => {
            let n = size(r, 300);
            let v = key_ids(r, n, true);
            let e: Vec<Ent> =
                v.iter().enumerate().map(|(k, x)| { let mut e = ent(i, k, String::new(), *x, None); e.key = format!("SimKey::new({x}, {})", e.tag); e }).collect();
            if kind == 23 {
                via_emitter(out, r, only, Keys::Key, set, "hash", &e, |e| Num(e.num), |c, e| c.emit_hash_collection(e));
            } else {
                via_emitter(out, r, only, Keys::Key, set, "ordered", &e, |e| Num(e.num), |c, e| c.emit_ordered_collection(e));
            }
        }
        25 | 26 => {
            let t = r.below(10) as usize;
            let (bits, lo, hi) = limits(t);
            let shape = r.below(3);
            let v = ints(r, bits, lo, hi, shape, true, None);
            let e = int_ents(i, &v, bits, |_, x| signed_expr(x, INTS[t].0, bits));
            let how = if kind == 25 { 0 } else { r.range(1, 2) };
            macro_rules! by {
                ($($n:literal $t:ty;)+) => {
                    match t {
                        $($n => match how {
                            0 => via_emitter(out, r, only, Keys::Int(t), set, concat!("scalar ", stringify!($t)), &e, |e| e.num as $t, |c, e| c.emit_scalar_collection(e)),
                            1 => via_emitter(out, r, only, Keys::Int(t), set, concat!("hash ", stringify!($t)), &e, |e| e.num as $t, |c, e| c.emit_hash_collection(e)),
                            _ => via_emitter(out, r, only, Keys::Int(t), set, concat!("ordered ", stringify!($t)), &e, |e| e.num as $t, |c, e| c.emit_ordered_collection(e)),
                        },)+
                        _ => unreachable!(),
                    }
                };
            }
            by! { 0 u8; 1 i8; 2 u16; 3 i16; 4 u32; 5 i32; 6 u64; 7 i64; 8 usize; 9 isize; }
        }
        27 | 28 => {
            let n = size(r, 300);
            let v = strings(r, n, true);
            let e: Vec<Ent> = v.iter().enumerate().map(|(k, s)| ent(i, k, str_lit(r, s), 0, Some(s.clone()))).collect();
            let key = |e: &Ent| e.text.clone().unwrap();
            match r.below(4) {
                0 => via_emitter(out, r, only, Keys::Ref, set, "hash strings", &e, key, |c, e| c.emit_hash_collection(e)),
                1 => via_emitter(out, r, only, Keys::Ref, set, "ordered strings", &e, key, |c, e| c.emit_ordered_collection(e)),
                _ => via_emitter(out, r, only, Keys::Ref, set, "strings", &e, key, |c, e| c.emit_string_collection(e)),
            }
        }
        // as many slots as entries, or all entries in few slots
        30 | 31 => {
            if r.chance(1, 2) {
                let n = *r.pick(&[4u64, 4, 8, 8, 16, 32]);
                let from = r.below(9);
                let c = *r.pick(&["x", "-", "é"]);
                let mut v: Vec<String> = (0..n).map(|k| c.repeat((from + k) as usize)).collect();
                finish(r, &mut v, true);
                let e: Vec<Ent> = v.iter().enumerate().map(|(k, s)| ent(i, k, str_lit(r, s), 0, Some(s.clone()))).collect();
                if kind == 30 {
                    via_macro(out, r, only, "string", form, Keys::Ref, set, true, "strings of consecutive lengths", &e);
                } else {
                    via_emitter(out, r, only, Keys::Ref, set, "strings of consecutive lengths", &e, |e| e.text.clone().unwrap(), |c, e| c.emit_string_collection(e));
                }
            } else {
                let n = *r.pick(&[8u64, 8, 16, 32, 64, 255, 256]);
                let step = if n > 200 { 1024 } else { *r.pick(&[n, n, n * 4, 1 << 12]) };
                let apart = r.chance(2, 3);
                let mut v: Vec<i128> = (0..n).map(|k| i128::from((k * 1000 + r.below(1000)) * step % (1 << 31) + if apart { k } else { 3 })).collect();
                finish(r, &mut v, true);
                let what = if apart { "u32 keys in slots of their own" } else { "u32 keys in one slot" };
                let e = int_ents(i, &v, 32, |_, x| format!("{x}u32"));
                if kind == 30 {
                    via_macro(out, r, only, "scalar", form, Keys::Int(4), set, true, what, &e);
                } else {
                    via_emitter(out, r, only, Keys::Int(4), set, what, &e, |e| e.num as u32, |c, e| c.emit_scalar_collection(e));
                }
            }
        }
        // as many entries as a byte can count, or one more: with gaps
        32 => {
            let t = r.range(2, 9) as usize;
            let (bits, _, hi) = limits(t);
            let v = ints(r, bits, 0, hi, 1, true, Some(edge));
            let e = int_ents(i, &v, bits, |_, x| format!("{x}{}", INTS[t].0));
            via_macro(out, r, only, "scalar", form, Keys::Int(t), set, true, &format!("{edge} sparse {}", INTS[t].0), &e);
        }
        // hashed
        33 => {
            let t = r.range(2, 9) as usize;
            let (bits, _, hi) = limits(t);
            let v = ints(r, bits, 0, hi, 2, true, Some(edge));
            let e = int_ents(i, &v, bits, |_, x| format!("{x}{}", INTS[t].0));
            let mac = if r.chance(1, 3) { "hash" } else { "scalar" };
            via_macro(out, r, only, mac, form, Keys::Int(t), set, true, &format!("{edge} scattered {}", INTS[t].0), &e);
        }
        // strings
        34 => {
            let v = strings(r, edge, true);
            let e: Vec<Ent> = v.iter().enumerate().map(|(k, s)| ent(i, k, str_lit(r, s), 0, Some(s.clone()))).collect();
            let mac = if r.chance(1, 4) { "hash" } else { "string" };
            via_macro(out, r, only, mac, form, Keys::Ref, set, true, &format!("{edge} strings"), &e);
        }
        // of a user-defined type
        35 => {
            let v = key_ids(r, edge, true);
            let e: Vec<Ent> =
                v.iter().enumerate().map(|(k, x)| { let mut e = ent(i, k, String::new(), *x, None); e.key = format!("SimKey::new({x}, {})", e.tag); e }).collect();
            via_emitter(out, r, only, Keys::Key, set, &format!("{edge} hashed"), &e, |e| Num(e.num), |c, e| c.emit_hash_collection(e));
        }
        // nothing at all
        _ => {
            let form = *r.pick(&["static", "let", "let mut"]);
            match r.below(4) {
                0 => via_macro(out, r, only, "hash", form, Keys::Key, set, true, "empty", &[]),
                1 => via_macro(out, r, only, "string", form, Keys::Ref, set, true, "empty", &[]),
                2 => via_macro(out, r, only, "scalar", form, Keys::Int(4), set, true, "empty", &[]),
                _ => via_emitter(out, r, only, Keys::Ref, set, "empty strings", &[], |_| String::new(), |c, e| c.emit_string_collection(e)),
            }
        }
    }
}
