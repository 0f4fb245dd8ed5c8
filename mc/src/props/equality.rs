//! C33: what `==` and the hash of values say.

use crate::engine::{thorough, Ctx, R};
use crate::gen;
use crate::imp::*;
use crate::report::ensure;
use osu_file_parser as lib;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn hash(x: &Val) -> u64 {
    match x {
        Val::General(x) => hash_of(x),
        Val::Editor(x) => hash_of(x),
        Val::Metadata(x) => hash_of(x),
        Val::Difficulty(x) => hash_of(x),
        Val::Events(x) => hash_of(x),
        Val::Timing(x) => hash_of(x),
        Val::Colours(x) => hash_of(x),
        Val::Hits(x) => hash_of(x),
        Val::Osu(x) => hash_of(x),
        Val::Osb(x) => hash_of(x),
    }
}

/// The model value as text, with numbers without the zeros at the end of their fraction.
fn key(x: &Val) -> String {
    let text = format!("{:?}", x.view());
    let mut out = String::new();
    let mut rest = text.as_str();
    while let Some(i) = rest.find("N(") {
        let (before, after) = rest.split_at(i + 2);
        out += before;
        let end = after.find(')').unwrap_or(0);
        match after[..end].split_once(", ").and_then(|(m, s)| Some((m.parse::<i128>().ok()?, s.parse::<u32>().ok()?))) {
            Some((mut m, mut s)) => {
                while s > 0 && m % 10 == 0 {
                    m /= 10;
                    s -= 1;
                }
                out += &format!("{m}, {s}");
                rest = &after[end..];
            }
            None => rest = after,
        }
    }
    out + rest
}

/// A value that was read, and what it is.
pub struct Known {
    text: String,
    part: Part,
    v: u8,
    val: Val,
    key: Arc<str>,
    printed: Vec<Option<String>>,
    hash: u64,
}

fn known(part: Part, text: &str, v: u8) -> Option<Known> {
    let val = part.parse(text, v).ok()??;
    let key = key(&val).into();
    let hash = hash(&val);
    // values that hold the same may still remember how a word or number was spelt
    let printed = [3u8, 14].iter().map(|v| val.print(*v)).collect();
    Some(Known { text: text.to_string(), part, v, val, key, printed, hash })
}

fn pair(a: &Known, b: &Known) -> R {
    let what = || format!("{:?} at version {} and {:?} at version {}, read as {},", a.text, a.v, b.text, b.v, a.part.name());
    let want = a.key == b.key;
    let got = a.val == b.val;
    let spelt = want && a.printed != b.printed;
    ensure(spelt || got == want, || format!("{} are {} although they hold {}", what(), if got { "equal" } else { "unequal" }, if want { "the same" } else { "different values" }))?;
    #[allow(clippy::partialeq_ne_impl)]
    ensure((a.val != b.val) != got, || format!("{} are both equal and unequal or neither", what()))?;
    ensure(!got || a.hash == b.hash, || format!("{} are equal but have different hashes", what()))
}

/// Every record and variant of a part at a version.
fn variants(part: Part, v: u8) -> Vec<Known> {
    let mut texts: Vec<String> = crate::props::malformed::families()
        .into_iter()
        .filter(|(p, from, to, _)| *p == part && *from <= v && v <= *to)
        .flat_map(|(_, _, _, l)| l)
        .collect();
    if matches!(part, General | Editor | Metadata | Difficulty) {
        texts.push(String::new());
    }
    texts.sort();
    texts.dedup();
    texts.iter().filter_map(|t| known(part, t, v)).collect()
}

pub fn c33(ctx: &mut Ctx) {
    let versions: &[u8] = if thorough() { &[3, 4, 5, 7, 9, 10, 11, 12, 13, 14] } else { &[4, 14] };
    let all: Vec<Vec<Known>> = versions.iter().flat_map(|v| PARTS.iter().map(move |p| variants(*p, *v))).filter(|l| !l.is_empty()).collect();
    let all = &all;
    ctx.space("every pair of variants of the records of a section", 0, &|ch| {
        let l = ch.of(all);
        let (a, b) = (ch.of(l), ch.of(l));
        ch.note(|| format!("{:?} and {:?} as {}", a.text, b.text, a.part.name()));
        pair(a, b)
    });
    ctx.space("the same text read twice, and copies", 0, &|ch| {
        let l = ch.of(all);
        let a = ch.of(l);
        ch.note(|| format!("{:?} as {}", a.text, a.part.name()));
        let b = must(a.part, &a.text, a.v)?;
        ensure(a.val == b && hash(&b) == a.hash, || format!("{:?} read twice as {} is not equal", a.text, a.part.name()))?;
        let c = b.clone();
        ensure(c == b && hash(&c) == a.hash, || format!("the copy of {:?} as {} is not equal", a.text, a.part.name()))?;
        same("copy", &a.text, a.v, &c.view(), &a.val.view())?;
        ensure(c.print(a.v) == b.print(a.v), || format!("the copy of {:?} as {} is printed differently", a.text, a.part.name()))
    });
    // the same record at other versions
    let across: Vec<Vec<Known>> = [Hits, Timing, Events, Colours, General, Editor, Metadata, Difficulty]
        .iter()
        .map(|p| {
            let mut l = Vec::new();
            for (part, from, to, texts) in crate::props::malformed::families() {
                if part == *p {
                    for t in texts.iter().step_by(if thorough() { 3 } else { 7 }) {
                        l.extend((from..=to).filter_map(|v| known(part, t, v)));
                    }
                }
            }
            l
        })
        .collect();
    let across = &across;
    ctx.space("records at different versions", 0, &|ch| {
        let l = ch.of(across);
        let (a, b) = (ch.of(l), ch.of(l));
        ch.note(|| format!("{:?} at version {} and {:?} at version {} as {}", a.text, a.v, b.text, b.v, a.part.name()));
        pair(a, b)
    });
    // whole files: one section left out or another value in it
    let files: Vec<Known> = {
        let mut l = Vec::new();
        for v in if thorough() { &[3u8, 5, 10, 13, 14][..] } else { &[14, 4] } {
            let text = gen::default_file(*v).print(*v);
            let blocks: Vec<&str> = text.split("\n\n").collect();
            l.extend(known(Osu, &text, *v));
            for i in 1..blocks.len() {
                let mut b = blocks.clone();
                let own = b.remove(i);
                l.extend(known(Osu, &b.join("\n\n"), *v));
                // at another place
                b.push(own);
                l.extend(known(Osu, &b.join("\n\n"), *v));
                let lines: Vec<&str> = own.lines().collect();
                for j in 1..lines.len() {
                    let mut kept = lines.clone();
                    kept.remove(j);
                    let kept = kept.join("\n");
                    let mut b = blocks.clone();
                    b[i] = &kept;
                    l.extend(known(Osu, &b.join("\n\n"), *v));
                }
            }
            l.extend(known(Osu, &format!("osu file format v{v}"), *v));
        }
        l
    };
    let files = &files;
    ctx.space("every pair of files with a line or section left out", 0, &|ch| {
        let (a, b) = (ch.of(files), ch.of(files));
        ch.note(|| format!("{:?} and {:?}", a.text, b.text));
        pair(a, b)?;
        // storyboards count as well
        let (Val::Osu(a), Val::Osu(b)) = (&a.val, &b.val) else { return Ok(()) };
        let (mut a, mut b) = ((**a).clone(), (**b).clone());
        let equal = a == b;
        let boards = ["[Events]\n//x", "[Events]\n//y", "[Variables]\n$a=1", "[Variables]\n$a=2"];
        let (i, j) = (ch.free(boards.len() + 1), ch.free(boards.len() + 1));
        for (f, k) in [(&mut a, i), (&mut b, j)] {
            if k > 0 {
                f.append_osb(boards[k - 1]).map_err(|e| format!("{:?} is rejected: {e}", boards[k - 1]))?;
            }
        }
        let board = |v: u8, k: usize| if v < 14 { 0 } else { k };
        let want = equal && board(a.version, i) == board(b.version, j);
        ensure((a == b) == want, || format!("files with the storyboards {i} and {j} compare as {} instead of {want}", a == b))?;
        ensure(a != b || hash_of(&a) == hash_of(&b), || "equal files have different hashes".to_string())
    });
    ctx.space("numbers", 0, &|ch| {
        let pool = [
            "0", "1", "-1", "1.0", "1.00", "10", "1.5", "1.50", "-1.5", "x", "X", "", "1e5", "100000", "0.1", "0.10", "NaN", "nan", " 1", "79228162514264337593543950335",
            "79228162514264337593543950336", "0.0000000000000000000000000001", "0.00000000000000000000000000001",
        ];
        let (a, b) = (*ch.of(&pool), *ch.of(&pool));
        ch.note(|| format!("{a:?} and {b:?}"));
        let trim = |s: &str| match crate::num::D::new(s) {
            crate::num::D::N(..) if s.contains('.') => s.trim_end_matches('0').trim_end_matches('.').to_string(),
            _ => s.to_string(),
        };
        let (x, y) = (lib::Decimal::from(a), lib::Decimal::from(b));
        // more digits than a number can hold are not specified
        if [a, b].iter().any(|s| s.len() > 29) && a != b {
            return Ok(());
        }
        ensure((x == y) == (trim(a) == trim(b)), || format!("the numbers {a:?} and {b:?} compare as {}", x == y))?;
        ensure(x != y || hash_of(&x) == hash_of(&y), || format!("the equal numbers {a:?} and {b:?} have different hashes"))
    });
    ctx.space("file paths and positions", 0, &|ch| {
        let pool = ["a.png", "A.png", "a.jpg", "b/a.png", "b//a.png", "b/./a.png", "b/../a.png", "/b/a.png", "b/c.png", "b", "b/", "b.", "b ", "\"b\"", "b\\a.png", "é", "e", ""];
        let (a, b) = (*ch.of(&pool), *ch.of(&pool));
        let nums = [0, 1, -1, 256];
        let (p, q) = ((*ch.of(&nums), *ch.of(&nums)), (*ch.of(&nums), *ch.of(&nums)));
        let (x, y) = (lib::FilePath::from(a), lib::FilePath::from(b));
        // paths are compared by their components
        let want = std::path::Path::new(a) == std::path::Path::new(b);
        ensure((x == y) == want, || format!("the paths {a:?} and {b:?} compare as {}", x == y))?;
        ensure(x != y || hash_of(&x) == hash_of(&y), || format!("the equal paths {a:?} and {b:?} have different hashes"))?;
        let pos = |p: (i32, i32)| lib::Position { x: p.0.into(), y: p.1.into() };
        let (x, y) = (pos(p), pos(q));
        ensure((x == y) == (p == q), || format!("the positions {p:?} and {q:?} compare as {}", x == y))?;
        ensure(x != y || hash_of(&x) == hash_of(&y), || format!("the equal positions {p:?} have different hashes"))
    });
}
