//! C32: the result of a call depends on its arguments only. Every history runs in a process of its own.

use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

use crate::engine::{thorough, Ch, Ctx, Fail, R};
use crate::imp::*;
use crate::model::*;

use super::tokens;

struct Op {
    part: Part,
    text: String,
}

/// Ranges of operations that are variants of one another, with the versions that have the record.
struct Family {
    from: u8,
    to: u8,
    ops: std::ops::Range<usize>,
}

fn storyboards() -> Vec<Vec<String>> {
    let file = |vars: &str, events: &str| format!("{vars}[Events]\n{events}");
    let sprite = "Sprite,Pass,Centre,a.png,0,0\n";
    let mut one = Vec::new();
    for vars in ["", "[Variables]\n$a=1\n\n", "[Variables]\n$a=2\n\n", "[Variables]\n$a=1\n$ab=3\n\n", "[Variables]\n$ab=4\n\n", "[Variables]\n$a=1\n$a=2\n\n", "[Variables]\n$b=0,1\n$a=5\n\n", "[Variables]\n$a=x\n\n"] {
        for events in [" F,0,1,2,0.5\n", " F,0,$a,2,0.5\n", " F,0,1,2,$a,$ab\n", " L,$a,2\n  F,0,$a,2,1\n", " F,0,5,6,0,1\n", " F,$b,6,1\n"] {
            one.push(file(vars, &format!("{sprite}{events}")));
        }
    }
    one.push("[Events]\n".into());
    one.push("[Variables]\n".into());
    one.push(String::new());
    vec![one]
}

fn files() -> Vec<String> {
    let mut out = Vec::new();
    for v in [2u8, 3, 4, 5, 9, 10, 13, 14, 15] {
        for body in ["", "[General]\nMode: 0\n", "[TimingPoints]\n100,500\n", "[HitObjects]\n1,2,100,1,0\n", "[Events]\n2,100,200\n", "[Colours]\nCombo1 : 1,2,3\n", "[Foo]\n"] {
            out.push(format!("osu file format v{v}\n\n{body}"));
        }
    }
    out.push(crate::gen::default_file(14).print(14));
    out.push(crate::gen::default_file(3).print(3));
    out
}

fn families(out: &mut Vec<Op>) -> Vec<Family> {
    let mut fam = Vec::new();
    let mut add = |part: Part, from: u8, to: u8, l: Vec<String>| {
        let start = out.len();
        out.extend(l.into_iter().map(|text| Op { part, text }));
        fam.push(Family { from, to, ops: start..out.len() });
    };
    for (part, from, to, l) in super::malformed::families() {
        add(part, from, to, l);
    }
    for l in storyboards() {
        add(Osb, 14, 14, l);
    }
    add(Osu, 14, 14, files());
    fam
}

/// Every record, every record with its last character gone and with a stray one, and short lists; then the families.
fn ops() -> (Vec<Op>, Vec<Family>, usize) {
    let mut out = Vec::new();
    for r in tokens::records(14) {
        let text = r.text(&r.line);
        let cut = &text[..text.char_indices().last().map_or(0, |(i, _)| i)];
        for t in [text.clone(), cut.to_string(), format!("{text}\u{1}"), format!("{text}\n{}", r.line)] {
            out.push(Op { part: r.part, text: t });
        }
    }
    out.push(Op { part: Osu, text: crate::gen::default_file(14).print(14) });
    out.push(Op { part: Osu, text: crate::gen::default_file(3).print(3) });
    let n = out.len();
    let fam = families(&mut out);
    (out, fam, n)
}

fn digest(o: &Op, v: u8, keep: &mut Vec<Val>) -> String {
    let mut out = String::new();
    match o.part.parse(&o.text, v) {
        Ok(Some(x)) => {
            out += &format!("{:?}", x.view());
            for w in [v, 3, 9, 14] {
                out += &format!(" {:?}", x.print(w));
            }
            keep.push(x);
        }
        Ok(None) => out += "none",
        Err(e) => out += &format!("{e:?}"),
    }
    out
}

/// One step: operation, version, times, thread of its own.
type Step = (usize, u8, usize, bool);

/// The calls as the child reads them: per step the part, version, times, thread, and the text or the step that has it.
fn encode(ops: &[Op], h: &[Step]) -> String {
    let mut out = String::new();
    let mut first: HashMap<usize, usize> = HashMap::new();
    for (i, (o, v, n, t)) in h.iter().enumerate() {
        let part = PARTS.iter().position(|p| *p == ops[*o].part).unwrap();
        let own = u8::from(*t);
        match first.get(o) {
            Some(j) => out += &format!("{part}:{v}:{n}:{own}:={j}\n"),
            None => {
                first.insert(*o, i);
                out += &format!("{part}:{v}:{n}:{own}:{}\n", ops[*o].text.bytes().map(|b| format!("{b:02x}")).collect::<String>());
            }
        }
    }
    out
}

/// The child: makes the calls and writes a hash per step.
pub fn child() {
    let mut input = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut input).unwrap();
    let hash = |s: &str| {
        let mut h = DefaultHasher::new();
        s.hash(&mut h);
        h.finish()
    };
    let mut texts: Vec<String> = Vec::new();
    let mut kept: Vec<(Val, u8, Option<String>)> = Vec::new();
    let long = input.lines().count() > 2000;
    let mut out = String::new();
    for (step, s) in input.lines().enumerate() {
        let f: Vec<&str> = s.split(':').collect();
        let text = match f[4].strip_prefix('=') {
            Some(j) => texts[j.parse::<usize>().unwrap()].clone(),
            None => String::from_utf8((0..f[4].len() / 2).map(|i| u8::from_str_radix(&f[4][2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap(),
        };
        texts.push(text.clone());
        let o = &Op { part: PARTS[f[0].parse::<usize>().unwrap()], text };
        let (v, n, own) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3] == "1");
        let mut run = || {
            let mut keep = Vec::new();
            let first = digest(o, v, &mut keep);
            for i in 1..n {
                let d = digest(o, v, &mut Vec::new());
                if d != first {
                    return (format!("call {} differs: {d}", i + 1), keep);
                }
            }
            (first, keep)
        };
        let (d, keep) = if own { std::thread::scope(|s| s.spawn(&mut run).join().unwrap()) } else { run() };
        out += &format!("{:016x}\n", hash(&d));
        for k in keep {
            let p = k.print(v);
            if kept.len() < 8 {
                kept.push((k, v, p));
            }
        }
        // the values of the earlier steps
        for (k, v, p) in kept.iter().filter(|_| !long || step % 64 == 0) {
            if k.print(*v) != *p {
                out += "a value that was read earlier is printed differently\n";
            }
        }
    }
    print!("{out}");
}

struct Children {
    exe: std::path::PathBuf,
    single: Mutex<HashMap<(usize, u8), String>>,
}

impl Children {
    fn run(&self, ops: &[Op], h: &[Step]) -> Result<Vec<String>, Fail> {
        let fail = |m: String| Fail::Violation(m);
        use std::process::Stdio;
        let out = (|| {
            let mut c = std::process::Command::new(&self.exe).arg("--history").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
            std::io::Write::write_all(&mut c.stdin.take().unwrap(), encode(ops, h).as_bytes())?;
            c.wait_with_output()
        })()
        .map_err(|e: std::io::Error| fail(e.to_string()))?;
        let lines: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(str::to_string).collect();
        if !out.status.success() {
            return Err(fail(format!("a call panicked: {}", String::from_utf8_lossy(&out.stderr).trim())));
        }
        Ok(lines)
    }

    /// What a call gives as the first of its process.
    fn alone(&self, ops: &[Op], o: usize, v: u8) -> Result<String, Fail> {
        if let Some(x) = self.single.lock().unwrap().get(&(o, v)) {
            return Ok(x.clone());
        }
        let x = self.run(ops, &[(o, v, 1, false)])?.join(" ");
        self.single.lock().unwrap().insert((o, v), x.clone());
        Ok(x)
    }

    /// The first call that does not give what it gives alone.
    fn wrong(&self, ops: &[Op], h: &[Step]) -> Result<Option<usize>, Fail> {
        let got = self.run(ops, h)?;
        let mut want = Vec::new();
        for s in h {
            want.push(self.alone(ops, s.0, s.1)?);
        }
        Ok(if got == want { None } else { Some((0..h.len()).find(|i| got.get(*i) != want.get(*i)).unwrap_or(h.len() - 1)) })
    }

    fn check(&self, ch: &mut Ch, ops: &[Op], h: &[Step]) -> R {
        let text = |h: &[Step]| h.iter().map(|(o, v, n, t)| format!("{:?} as {} at version {v}, {n} times{}", ops[*o].text, ops[*o].part.name(), if *t { " in a thread of its own" } else { "" })).collect::<Vec<_>>().join(", then ");
        ch.note(|| text(h));
        let Some(i) = self.wrong(ops, h)? else { return Ok(()) };
        // a shorter history
        for j in 0..i {
            let pair = [h[j], h[i]];
            if self.wrong(ops, &pair)?.is_some() {
                return Err(Fail::Violation(format!("reading {}: the second does not give what it gives in a process of its own", text(&pair))));
            }
        }
        Err(Fail::Violation(format!("reading {}: call {} does not give what it gives in a process of its own", text(h), i + 1)))
    }
}

/// Texts that differ in a number: {i} is any, {b} below 256.
const NUMBERED: &[(Part, &str)] = &[
    (Hits, "{i},192,{i},1,0,0:0:{i}:50:f{i}.wav"),
    (Hits, "1,2,{i},6,0,B|{i}:5|7:{i}.5,1,{i}.25,2|{b},0:0|1:2"),
    (Hits, "1,2,3,12,{b},{i}"),
    (Hits, "1,2,{i},128,0,{i}:0:0:0:0:"),
    (Timing, "{i},{i}.25,4,2,{i},{b},1,{b}"),
    (Events, "0,0,\"bg {i}.png\",{i},0"),
    (Events, "Video,{i},v{i}.avi\n//{i}"),
    (Events, "2,{i},{i}0\n3,{i},{b},1,2"),
    (Events, "Sprite,Pass,Centre,s{i}.png,{i},0\n F,0,{i},,0.{i},x{i}\n L,{i},2\n  P,0,1,,H"),
    (Events, "Animation,Fail,TopLeft,a{i}.png,0,{i},{i},2,LoopOnce\n T,HitSound,{i},{i},{i}\n  C,0,1,2,{b},0,0"),
    (Events, "Sample,{i},0,\"s{i}\",40\n4,0,1,a{i},1,{i}"),
    (Colours, "Combo{i} : {b},1,2\nSliderBorder:1,{b},3"),
    (General, "AudioFilename: a{i}\nAudioLeadIn: {i}\nStackLeniency: 0.{i}\nSkinPreference:s{i}"),
    (Editor, "Bookmarks: {i},{b},1\nDistanceSpacing: {i}.5"),
    (Metadata, "Title:t{i}\nTags:a{i} b {i}\nBeatmapID:{i}"),
    (Difficulty, "SliderMultiplier:{i}.0\nHPDrainRate:x{i}"),
    (Osb, "[Variables]\n$v{i}={i}\n\n[Events]\nSprite,Pass,Centre,a,0,0\n F,0,$v{i},9,0.{i}"),
    (Osu, "osu file format v14\n\n[Metadata]\nTitle:t{i}\n\n[HitObjects]\n{i},2,3,1,0"),
];

pub fn c32(ctx: &mut Ctx) {
    let (ops, fam, n) = ops();
    let (ops, fam) = (&ops, &fam);
    let c = Children { exe: std::env::current_exe().unwrap(), single: Default::default() };
    let c = &c;
    // the first of every four is the record itself
    let whole: Vec<usize> = (0..n).step_by(4).chain([n - 1]).collect();
    let whole = &whole;
    let of = |p: Part| -> Vec<usize> { (0..n).filter(|i| ops[*i].part == p).collect() };
    let by_part: Vec<Vec<usize>> = PARTS.iter().map(|p| of(*p)).collect();
    let by_part = &by_part;
    ctx.space("the same call again and again", 0, &|ch| {
        let o = ch.free(n);
        let v = *ch.of(if thorough() { &VERSIONS[..] } else { &[3u8, 14] });
        let n = if thorough() { 3000 } else { 500 };
        c.check(ch, ops, &[(o, v, n, false)])
    });
    ctx.space("the same text at two versions", 0, &|ch| {
        let o = *ch.of(whole);
        let vs = if thorough() { &VERSIONS[..] } else { &[3u8, 4, 5, 9, 12, 14] };
        let (v, w) = (*ch.of(vs), *ch.of(vs));
        let own = thorough() && ch.free_flag();
        c.check(ch, ops, &[(o, v, 1, false), (o, w, 1, own), (o, v, 1, false)])
    });
    ctx.space("every record after every other of its section", 0, &|ch| {
        let l = ch.of(by_part);
        let step = if thorough() { 1 } else { 4 };
        let i = ch.free(l.len().div_ceil(step)) * step;
        let j = ch.free(l.len().div_ceil(step)) * step;
        let v = *ch.of(if thorough() { &[3u8, 10, 14][..] } else { &[14] });
        c.check(ch, ops, &[(l[i], v, 1, false), (l[j], v, 2, false), (l[i], v, 1, false)])
    });
    ctx.space("malformed records before and after sound ones", 0, &|ch| {
        let l = ch.of(by_part);
        let i = ch.free(l.len().div_ceil(4)) * 4;
        let bad = (i + 1 + ch.free(2)).min(l.len() - 1);
        let v = *ch.of(&[3u8, 14]);
        let own = ch.free_flag();
        c.check(ch, ops, &[(l[bad], v, 1, own), (l[i], v, 1, own), (l[bad], v, 1, own), (l[i], v, 1, own)])
    });
    ctx.space("sections after each other", 0, &|ch| {
        // the richest and the first text of each kind
        let n = if thorough() { 4 } else { 3 };
        let mut h = Vec::new();
        for _ in 0..n {
            let l = ch.of(by_part);
            let o = if n == 3 && ch.free_flag() { l[l.len() - 1] } else { l[0] };
            h.push((o, 14u8, 1, false));
        }
        c.check(ch, ops, &h)
    });
    ctx.space("every variant of a record before every other", 0, &|ch| {
        // one process per first variant
        let f = ch.of(fam);
        let a = f.ops.start + ch.free(f.ops.len());
        let v = *ch.of(if thorough() { &[14u8, 3, 4, 5, 10][..] } else { &[14, 4] });
        if v < f.from || v > f.to {
            return Ok(());
        }
        let own = thorough() && ch.free_flag();
        let mut h: Vec<Step> = vec![(a, v, 1, false)];
        for b in f.ops.clone() {
            h.push((b, v, 1, own));
            h.push((a, v, 1, false));
        }
        c.check(ch, ops, &h)
    });
    ctx.space("many different texts, forwards and backwards", 0, &|ch| {
        let (part, body) = *ch.of(NUMBERED);
        let n = *ch.of(if thorough() { &[300usize, 1100, 5000, 17000, 66000, 140_000][..] } else { &[300, 5000, 66000] });
        let v = *ch.of(if thorough() { &[14u8, 3, 10][..] } else { &[14] });
        ch.note(|| format!("{body:?} as {} at version {v} with the numbers 0 to {n}, in one order and in the other", part.name()));
        let ops: Vec<Op> = (0..n).map(|i| Op { part, text: body.replace("{i}", &i.to_string()).replace("{b}", &(i % 256).to_string()) }).collect();
        let up: Vec<Step> = (0..n).map(|i| (i, v, 1, false)).collect();
        let down: Vec<Step> = up.iter().rev().copied().collect();
        // a step that differs is shown with what it gives alone
        let show = |i: usize, how: &str| Fail::Violation(format!("reading {:?} as {} at version {v} {how} {n} texts of the kind {body:?} does not give what it gives in a process of its own", ops[i].text, part.name()));
        let (a, mut b) = (c.run(&ops, &up)?, c.run(&ops, &down)?);
        b.reverse();
        if a.len() != n || b.len() != n {
            return Err(Fail::Violation(format!("a value that was read before is printed differently while {n} texts of the kind {body:?} are read")));
        }
        if let Some(i) = (0..n).find(|i| a[*i] != b[*i]) {
            let alone = c.run(&ops, &[(i, v, 1, false)])?.join(" ");
            return Err(show(i, if alone == a[i] { "before" } else { "among" }));
        }
        for i in [0, 1, 2, 9, 10, 100, 255, 256, n / 2, n - 2, n - 1] {
            if c.run(&ops, &[(i, v, 1, false)])?.join(" ") != a[i] {
                return Err(show(i, "among"));
            }
        }
        Ok(())
    });
    if thorough() {
        ctx.space("every pair of records", 0, &|ch| {
            let (i, j) = (*ch.of(whole), *ch.of(whole));
            let v = *ch.of(&[4u8, 14]);
            c.check(ch, ops, &[(i, v, 1, false), (j, v, 1, true)])
        });
    }
}
