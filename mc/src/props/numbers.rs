//! C08, C19: times of the old versions, and numbers kept as written.

use crate::engine::{Ch, Ctx, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::num::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum NK {
    /// a decimal or any text
    Dec,
    /// a decimal
    Num,
    /// an integer of a range
    Int(i128, i128),
}
const I32: NK = NK::Int(i32::MIN as i128, i32::MAX as i128);
const U32: NK = NK::Int(0, u32::MAX as i128);
const U64: NK = NK::Int(0, u64::MAX as i128);
const U8: NK = NK::Int(0, 255);
const PERCENT: NK = NK::Int(0, 100);

/// A number field of a record.
pub struct Slot {
    pub name: String,
    pub part: Part,
    pub kind: NK,
    /// stored 24 ms early by old versions
    pub time: bool,
    /// versions that have the field
    pub since: u8,
    pub until: u8,
    make: Box<dyn Fn(&D) -> MFile + Sync + Send>,
}

/// Stands for the number while a line is built.
const MARK: i128 = 64;

fn i(d: &D) -> i128 {
    match d {
        D::N(m, 0) => *m,
        d => panic!("{d:?} is no integer"),
    }
}

impl Slot {
    /// The text of a record at a version, with a token as the number.
    pub fn text(&self, v: u8, token: &str) -> String {
        // a slider's version 3 line repeats the position
        let marked = match self.kind {
            NK::Int(..) => D::int(MARK),
            _ => D::new("777777.25"),
        };
        let (a, b) = match self.kind {
            NK::Int(..) => (D::int(MARK + if self.time { early(v) } else { 0 }), MARK.to_string()),
            _ => (marked.shift(if self.time { early(v) } else { 0 }), "777777.25".to_string()),
        };
        let t = self.plain(v, &a);
        assert!(t.contains(&b), "{}: {t:?}", self.name);
        t.replace(&b, token)
    }
    pub fn model(&self, v: u8, d: &D) -> MFile {
        let m = (self.make)(d);
        let mut r = m.value();
        r.hits = m.hits.map(|h| h.iter().map(|h| h.at(v).value()).collect());
        r.timing = m.timing.map(|h| h.iter().map(|h| h.at(v).value()).collect());
        r
    }
    /// The record as written at a version.
    fn plain(&self, v: u8, d: &D) -> String {
        let mut m = (self.make)(d);
        if let Some(e) = &m.events {
            // version 14 reads colour transformations but does not write them
            return e.iter().flat_map(|e| e.lines(v)).collect::<Vec<_>>().join("\n");
        }
        if self.part.kv().is_some() {
            // versions read fields they do not write
            let (s, f) = self.part.kv().map(|s| (s, s.fields())).unwrap();
            let vals = m.kv[s as usize].as_ref().unwrap();
            return f
                .iter()
                .zip(vals)
                .filter_map(|(f, x)| x.as_ref().map(|x| format!("{}: {}", f.key, f.text(x))))
                .collect::<Vec<_>>()
                .join("\n");
        }
        if let Some(h) = &mut m.hits {
            return join(h, |h| h.print(v));
        }
        m.sections(v).remove(0).1
    }
    /// The record as printed at a version after it was read at another.
    pub fn printed(&self, v: u8, w: u8, d: &D) -> Option<String> {
        let mut m = (self.make)(d);
        m.hits = m.hits.map(|h| h.iter().map(|h| h.at(v)).collect());
        m.timing = m.timing.map(|h| h.iter().map(|h| h.at(v)).collect());
        m.sections(w).pop().map(|x| x.1)
    }
}

pub fn slots() -> Vec<Slot> {
    let mut out: Vec<Slot> = Vec::new();
    macro_rules! slot {
        ($name:expr, $part:expr, $kind:expr, $time:expr, $since:expr, $until:expr, $make:expr) => {
            out.push(Slot {
                name: $name.to_string(),
                part: $part,
                kind: $kind,
                time: $time,
                since: $since,
                until: $until,
                make: Box::new($make),
            })
        };
    }
    let one_hit = |h: MHit| MFile { hits: Some(vec![h]), ..Default::default() };
    for k in 0..4 {
        let n = ["circle", "slider", "spinner", "hold"][k];
        slot!(format!("{n} x"), Hits, NK::Dec, false, 3, 14, move |d: &D| one_hit(MHit { x: d.clone(), ..gen::default_hit(k) }));
        slot!(format!("{n} y"), Hits, NK::Dec, false, 3, 14, move |d: &D| one_hit(MHit { y: d.clone(), ..gen::default_hit(k) }));
        slot!(format!("{n} time"), Hits, NK::Dec, true, 3, 14, move |d: &D| one_hit(MHit { time: d.clone(), ..gen::default_hit(k) }));
        for j in 0..4usize {
            let since = if j < 3 { 10 } else { 12 };
            let kind = if j < 3 { U64 } else { PERCENT };
            slot!(format!("{n} sample field {j}"), Hits, kind, false, since, 14, move |d: &D| {
                let mut s = MSample { normal: 1, addition: 2, index: 3, volume: 40, file: "a.wav".into() };
                let x = i(d);
                match j {
                    0 => s.normal = x as u64,
                    1 => s.addition = x as u64,
                    2 => s.index = x as u64,
                    _ => s.volume = x as u8,
                }
                one_hit(MHit { sample: Some(s), ..gen::default_hit(k) })
            });
        }
    }
    fn slider(f: impl Fn(&mut MSlider)) -> MFile {
        let mut h = gen::default_hit(1);
        if let MKind::Slider(s) = &mut h.kind {
            f(s);
        }
        MFile { hits: Some(vec![h]), ..Default::default() }
    }
    for j in 0..2usize {
        slot!(format!("slider point {j} x"), Hits, NK::Dec, false, 3, 14, move |d: &D| slider(|s| s.points[j].0 = d.clone()));
        slot!(format!("slider point {j} y"), Hits, NK::Dec, false, 3, 14, move |d: &D| slider(|s| s.points[j].1 = d.clone()));
    }
    slot!("slider length", Hits, NK::Dec, false, 3, 14, |d: &D| slider(|s| s.length = d.clone()));
    slot!("slider slides", Hits, I32, false, 3, 14, |d: &D| slider(|s| s.slides = i(d) as i32));
    for j in 0..4usize {
        slot!(format!("slider edge set {j}"), Hits, U64, false, 3, 14, move |d: &D| slider(|s| s.edge_sets[j].0 = i(d) as u64));
        slot!(format!("slider edge addition {j}"), Hits, U64, false, 3, 14, move |d: &D| slider(|s| s.edge_sets[j].1 = i(d) as u64));
    }
    for k in 2..4 {
        slot!(["spinner end", "hold end"][k - 2], Hits, NK::Dec, true, 3, 14, move |d: &D| {
            let mut h = gen::default_hit(k);
            h.kind = if k == 2 { MKind::Spinner(d.clone()) } else { MKind::Hold(d.clone()) };
            one_hit(h)
        });
    }
    for k in 0..2 {
        let base = move || gen::default_timing(k);
        let one = |t: MTiming| MFile { timing: Some(vec![t]), ..Default::default() };
        let n = ["timing point", "inherited timing point"][k];
        slot!(format!("{n} time"), Timing, NK::Dec, true, 3, 14, move |d: &D| one(MTiming { time: d.clone(), ..base() }));
        slot!(format!("{n} beat length"), Timing, NK::Dec, false, 3, 14, move |d: &D| one(MTiming { beat: d.clone(), ..base() }));
        slot!(format!("{n} meter"), Timing, I32, false, 4, 14, move |d: &D| one(MTiming { meter: i(d) as i32, ..base() }));
        slot!(format!("{n} sample set"), Timing, I32, false, 4, 14, move |d: &D| one(MTiming { set: i(d) as i32, ..base() }));
        slot!(format!("{n} sample index"), Timing, U32, false, 4, 14, move |d: &D| one(MTiming { index: i(d) as u32, ..base() }));
        slot!(format!("{n} volume"), Timing, I32, false, 5, 14, move |d: &D| one(MTiming { volume: i(d) as i32, ..base() }));
        slot!(format!("{n} effects"), Timing, U32, false, 5, 14, move |d: &D| one(MTiming { effects: Some(i(d) as u32), ..base() }));
    }
    for k in 0..3usize {
        let one = |c: MColour| MFile { colours: Some(vec![c]), ..Default::default() };
        for j in 0..3usize {
            slot!(format!("colour {k} component {j}"), Colours, U8, false, 5, 14, move |d: &D| {
                let mut c = [1u8, 2, 3];
                c[j] = i(d) as u8;
                one([MColour::Combo(1, c), MColour::Track(c), MColour::Border(c)][k].clone())
            });
        }
    }
    slot!("combo number", Colours, NK::Int(0, i32::MAX as i128), false, 5, 14, |d: &D| MFile {
        colours: Some(vec![MColour::Combo(i(d) as i32, [1, 2, 3])]),
        ..Default::default()
    });
    fn ev(k: MEventKind) -> MFile {
        MFile { events: Some(vec![MEvent::new(k)]), ..Default::default() }
    }
    let f = || "bg.jpg".to_string();
    use MEventKind::*;
    for k in 0..4usize {
        for y in 0..2usize {
            let n = ["background", "video", "legacy sprite", "legacy animation"][k];
            slot!(format!("{n} {}", ["x", "y"][y]), Events, NK::Dec, false, 3, 14, move |d: &D| {
                let pos = Some(if y == 0 { (d.clone(), D::int(5)) } else { (D::int(5), d.clone()) });
                ev(match k {
                    0 => Background { time: 7, file: f(), pos },
                    1 => Video { long: true, time: 700, file: f(), pos },
                    2 => SpriteLegacy { layer: 1, origin: 2, file: f(), pos },
                    _ => AnimationLegacy { layer: 1, origin: 2, file: f(), pos },
                })
            });
        }
    }
    slot!("background time", Events, I32, false, 3, 14, move |d: &D| ev(Background { time: i(d) as i32, file: f(), pos: None }));
    for long in [false, true] {
        slot!(format!("video time {long}"), Events, I32, true, 3, 14, move |d: &D| ev(Video { long, time: i(d) as i32, file: f(), pos: None }));
        slot!(format!("break start {long}"), Events, I32, true, 3, 14, move |d: &D| ev(Break { long, start: i(d) as i32, end: 9999 }));
        slot!(format!("break end {long}"), Events, I32, true, 3, 14, move |d: &D| ev(Break { long, start: -9999, end: i(d) as i32 }));
    }
    slot!("colour transformation time", Events, I32, true, 3, 14, |d: &D| ev(Colour { time: i(d) as i32, rgb: [1, 2, 3] }));
    for j in 0..3usize {
        slot!(format!("colour transformation component {j}"), Events, U8, false, 3, 14, move |d: &D| {
            let mut rgb = [1, 2, 3];
            rgb[j] = i(d) as u8;
            ev(Colour { time: 999, rgb })
        });
    }
    slot!("legacy sample time", Events, NK::Dec, false, 3, 14, move |d: &D| ev(SampleLegacy { time: d.clone(), layer: 1, file: f(), volume: Some(50) }));
    slot!("legacy sample volume", Events, PERCENT, false, 3, 14, move |d: &D| ev(SampleLegacy {
        time: D::int(900),
        layer: 1,
        file: f(),
        volume: Some(i(d) as u8)
    }));
    slot!("audio sample time", Events, I32, false, 3, 14, move |d: &D| ev(Audio { time: i(d) as i32, layer: 1, file: f(), volume: 50 }));
    slot!("audio sample volume", Events, PERCENT, false, 3, 14, move |d: &D| ev(Audio { time: 900, layer: 1, file: f(), volume: i(d) as u8 }));
    for y in 0..2usize {
        let p = move |d: &D| if y == 0 { (d.clone(), D::int(5)) } else { (D::int(5), d.clone()) };
        slot!(format!("sprite {}", ["x", "y"][y]), Events, NK::Dec, false, 3, 14, move |d: &D| {
            let (x, y) = p(d);
            ev(Sprite { layer: 1, origin: MOrigin::Name(1), file: f(), x, y })
        });
        slot!(format!("animation {}", ["x", "y"][y]), Events, NK::Dec, false, 3, 14, move |d: &D| {
            let (x, y) = p(d);
            ev(Animation { layer: 1, origin: MOrigin::Name(1), file: f(), x, y, count: 3, delay: D::int(50), once: false })
        });
    }
    slot!("animation frame count", Events, U32, false, 3, 14, move |d: &D| ev(Animation {
        layer: 1,
        origin: MOrigin::Name(1),
        file: f(),
        x: D::int(1),
        y: D::int(2),
        count: i(d) as u32,
        delay: D::int(50),
        once: false
    }));
    slot!("animation frame delay", Events, NK::Num, false, 3, 14, move |d: &D| ev(Animation {
        layer: 1,
        origin: MOrigin::Name(1),
        file: f(),
        x: D::int(1),
        y: D::int(2),
        count: 3,
        delay: d.clone(),
        once: false
    }));
    fn cmd(c: MCmd, deep: bool) -> MFile {
        let mut e = gen::default_event(7);
        if deep {
            let mut l = gen::default_cmd(9, 10);
            *l.sub_mut().unwrap() = vec![c];
            e.cmds = vec![l];
        } else {
            e.cmds = vec![c];
        }
        MFile { events: Some(vec![e]), ..Default::default() }
    }
    for k in 0..gen::CMD_KINDS {
        let n = ["F", "MX", "MY", "S", "R", "M", "V", "C", "P", "L", "T"][k];
        for deep in [false, true] {
            if deep && k >= 9 {
                continue;
            }
            let n = format!("{n}{}", if deep { " in a loop" } else { "" });
            slot!(format!("{n} start"), Events, I32, false, 3, 14, move |d: &D| cmd(
                MCmd { start: Some(i(d) as i32), ..gen::default_cmd(k, 5) },
                deep
            ));
            if k != 9 {
                slot!(format!("{n} end"), Events, I32, false, 3, 14, move |d: &D| cmd(
                    MCmd { end: Some(i(d) as i32), ..gen::default_cmd(k, 5) },
                    deep
                ));
            }
            for j in 0..(match k {
                0..=4 => 2usize,
                5 | 6 => 4,
                _ => 0,
            }) {
                slot!(format!("{n} value {j}"), Events, NK::Dec, false, 3, 14, move |d: &D| {
                    let mut c = gen::default_cmd(k, 5);
                    match &mut c.p {
                        MProp::One(_, v) | MProp::Two(_, v) => v[j] = d.clone(),
                        _ => unreachable!(),
                    }
                    cmd(c, deep)
                });
            }
            if k == 7 {
                for j in 0..6usize {
                    slot!(format!("{n} value {j}"), Events, U8, false, 3, 14, move |d: &D| {
                        let mut c = gen::default_cmd(7, 5);
                        if let MProp::Colour(v) = &mut c.p {
                            v[j] = i(d) as u8;
                        }
                        cmd(c, deep)
                    });
                }
            }
        }
    }
    slot!("loop count", Events, U32, false, 3, 14, |d: &D| cmd(MCmd { p: MProp::Loop(i(d) as u32, vec![]), ..gen::default_cmd(9, 5) }, false));
    slot!("trigger group", Events, I32, false, 3, 14, |d: &D| cmd(
        MCmd { p: MProp::Trigger(MTrig::Passing, Some(i(d) as i32), vec![]), ..gen::default_cmd(10, 5) },
        false
    ));
    for (s, sec) in SECS.into_iter().enumerate() {
        for (j, fd) in sec.fields().iter().enumerate() {
            let kind = match fd.kind {
                FK::Dec => NK::Dec,
                FK::Int | FK::Ints => I32,
                _ => continue,
            };
            slot!(fd.key, SECTIONS[s], kind, false, 3, 14, move |d: &D| {
                let mut vals = no_vals(sec);
                vals[j] = Some(match fd.kind {
                    FK::Dec => KV::D(d.clone()),
                    FK::Int => KV::I(i(d) as i32),
                    _ => KV::L(vec![5, i(d) as i32, 6]),
                });
                m_kv(sec, vals)
            });
        }
    }
    out
}

pub fn all_slots() -> &'static [Slot] {
    static CELL: std::sync::OnceLock<Vec<Slot>> = std::sync::OnceLock::new();
    CELL.get_or_init(slots)
}

/// Whether 24 can be added to a number without losing digits.
fn fits(d: &D, k: i128) -> bool {
    match d {
        D::R(_) => true,
        D::N(m, s) => 10i128
            .checked_pow(*s)
            .and_then(|p| p.checked_mul(24))
            .is_some_and(|q| q <= MAX_MANTISSA && (m + k.signum() * q).abs() <= MAX_MANTISSA),
    }
}

/// Reads a slot's record with a number written at `v` and prints it at `w`.
fn read(ch: &mut Ch, s: &Slot, v: u8, w: u8, token: &str, value: &D) -> R {
    let text = s.text(v, token);
    ch.note(|| format!("{}: v{v} {text:?} printed at v{w}", s.name));
    let x = must(s.part, &text, v)?;
    same(&s.name, &text, v, &x.view(), &s.model(v, value))?;
    if s.time && early(w) > 0 && !fits(value, -24) {
        return Ok(());
    }
    match s.printed(v, w, value) {
        Some(p) => prints(&s.name, &text, w, x.print(w), &p),
        None => Ok(()),
    }
}

fn times() -> Vec<D> {
    let mut v: Vec<D> = (-120..=120).map(D::int).collect();
    for i in -60i128..=60 {
        v.push(D::N(i * 10 + 5, 1));
        v.push(D::N(i, 2));
        v.push(D::N(i * 100, 2));
        v.push(D::N(i, 3));
    }
    for x in int_points(-(1i128 << 70), 1i128 << 70) {
        v.push(D::int(x));
    }
    for k in -50i128..=50 {
        v.push(D::int(MAX_MANTISSA - 60 + k));
        v.push(D::int(-MAX_MANTISSA + 60 + k));
        v.push(D::int(i32::MAX as i128 + k));
        v.push(D::int(i32::MIN as i128 + k));
        v.push(D::int(i64::MAX as i128 + k));
        v.push(D::int(i64::MIN as i128 + k));
        v.push(D::int(u32::MAX as i128 + k));
    }
    for s in 1..=26 {
        v.push(D::N(1, s));
        v.push(D::N(-1, s));
        v.push(D::N(0, s));
        v.push(D::N(10i128.pow(s) * 24, s));
        v.push(D::N(10i128.pow(s) * -24, s));
        v.push(D::N(10i128.pow(s) * 23 + 1, s));
        v.push(D::N(12345678901234567890123456 / 10i128.pow(s - 1) * 10i128.pow(s - 1) + 7, s));
    }
    v.extend(["x", "1e5", "NaN", "--1", "é", "1 2", "1.2.3"].iter().map(|s| D::new(s)));
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

pub fn c08(ctx: &mut Ctx) {
    let all = all_slots();
    let values = times();
    let values = &values;
    // numbers other than times are sampled less densely
    let few: Vec<D> = ["0", "1", "24", "-24", "23", "-1", "100", "48"].iter().map(|s| D::new(s)).collect();
    let few = &few;
    ctx.space("every time at every pair of versions", 0, &|ch| {
        let times: Vec<&Slot> = all.iter().filter(|s| s.time).collect();
        let s = *ch.of(&times);
        let (v, w) = (gen::version(ch), gen::version(ch));
        let d = ch.of(values).clone();
        // written without the shift: the number in the text
        match s.kind {
            NK::Int(min, max) => {
                let D::N(x, 0) = d else { return Ok(()) };
                if x.abs() > 1 << 66 {
                    return Ok(());
                }
                let value = x + early(v);
                if !(min..=max).contains(&value) {
                    let text = s.text(v, &x.to_string());
                    ch.note(|| format!("v{v} {text:?} rejected"));
                    must_fail(s.part, &text, v, "a time is out of range")?;
                    return Ok(());
                }
                read(ch, s, v, w, &x.to_string(), &D::int(value))
            }
            _ => {
                if early(v) > 0 && !fits(&d, 24) {
                    if let D::N(_, 0) = d {
                        let text = s.text(v, &d.text());
                        ch.note(|| format!("v{v} {text:?} rejected"));
                        must_fail(s.part, &text, v, "a time is out of range")?;
                    }
                    return Ok(());
                }
                read(ch, s, v, w, &d.text(), &d.shift(early(v)))
            }
        }
    });
    ctx.space("every other number at every pair of versions", 0, &|ch| {
        let others: Vec<&Slot> = all.iter().filter(|s| !s.time).collect();
        let s = *ch.of(&others);
        let (v, w) = (gen::version(ch), gen::version(ch));
        if v < s.since || v > s.until {
            return Ok(());
        }
        let n = if crate::engine::thorough() { values } else { few };
        let d = ch.of(n).clone();
        let ok = match (s.kind, &d) {
            (NK::Int(min, max), D::N(x, 0)) => (min..=max).contains(x),
            (NK::Int(..), _) => false,
            (NK::Num, d) => d.is_num(),
            (NK::Dec, D::R(t)) => !t.contains(' ') || s.part != Events,
            (NK::Dec, _) => true,
        };
        if ok {
            read(ch, s, v, w, &d.text(), &d)
        } else {
            Ok(())
        }
    });
    let depth = if ctx.thorough() { 4 } else { 3 };
    ctx.space("chains of versions", 0, &|ch| {
        // a record is converted again and again; its times do not drift
        let times: Vec<&Slot> = all.iter().filter(|s| s.time).collect();
        let s = *ch.of(&times);
        let mut v = gen::version(ch);
        let value = D::int(1000);
        let mut text = s.plain(v, &value);
        for _ in 0..depth {
            let x = must(s.part, &text, v)?;
            let got = x.view();
            let show = |t: String| t;
            let want = s.model(v, &value);
            // what old versions lose is the subject of C07
            let got_times = times_of(&got);
            if got_times != times_of(&want) {
                return Err(crate::engine::Fail::Violation(show(format!(
                    "{}: {text:?} at version {v} has times {got_times:?} instead of {:?}",
                    s.name,
                    times_of(&want)
                ))));
            }
            let w = gen::version(ch);
            let Some(p) = x.print(w) else { return Ok(()) };
            ch.note(|| format!("v{v} {text:?} -> v{w} {p:?}"));
            if p.is_empty() {
                // dropped by version 14
                return Ok(());
            }
            (text, v) = (p, w);
        }
        Ok(())
    });
    let some: Vec<D> = if ctx.thorough() { values.iter().step_by(5).cloned().collect() } else { values.iter().step_by(40).chain(few).cloned().collect() };
    let some = &some;
    ctx.space("whole files at every pair of versions", 1, &|ch| {
        let (v, w) = (gen::version(ch), gen::version(ch));
        let mut m = gen::default_file(v);
        for h in m.hits.as_mut().unwrap() {
            h.time = ch.dev_of(some).clone();
            if !fits(&h.time, 24) || !fits(&h.time, -24) {
                return Ok(());
            }
        }
        let m = m.at(v);
        let text = m.print(v);
        ch.note(|| format!("v{v} {text:?} printed at v{w}"));
        let x = must(Osu, &text, v)?;
        let (got, want) = (times_of(&x.view()), times_of(&m.at(v)));
        same("times", &text, v, &got, &want)?;
        let p = x.print(w).unwrap();
        let y = must(Osu, &p, w)?;
        same("times", &p, w, &times_of(&y.view()), &times_of(&m.at(w)))
    });
}

/// All the times of a value.
fn times_of(m: &MFile) -> Vec<D> {
    let mut out = Vec::new();
    for h in m.hits.iter().flatten() {
        out.push(h.time.clone());
        if let MKind::Spinner(e) | MKind::Hold(e) = &h.kind {
            out.push(e.clone());
        }
    }
    for t in m.timing.iter().flatten() {
        out.push(t.time.clone());
    }
    for e in m.events.iter().flatten() {
        use MEventKind::*;
        match &e.k {
            Background { time, .. } | Video { time, .. } | Colour { time, .. } | Audio { time, .. } => out.push(D::int(*time as i128)),
            Break { start, end, .. } => out.extend([D::int(*start as i128), D::int(*end as i128)]),
            SampleLegacy { time, .. } => out.push(time.clone()),
            _ => {}
        }
    }
    out
}

/// Numbers with `n` digits.
fn digits(n: u32) -> Vec<i128> {
    let p = 10i128.pow(n - 1);
    let mut v = vec![p, p * 10 - 1, p + 1, (p * 10 - 1) / 9, (p * 10 - 1) / 9 * 5];
    let mut x = 0i128;
    let mut y = 0i128;
    for k in 0..n {
        x = x * 10 + [1, 2, 3, 4, 5, 6, 7, 8, 9, 0][k as usize % 10];
        y = y * 10 + [9, 0, 8, 0, 7][k as usize % 5];
    }
    v.extend([x, y, p * 5]);
    if n == 29 {
        v.extend([MAX_MANTISSA, MAX_MANTISSA - 1, MAX_MANTISSA + 1]);
    }
    v.dedup();
    v
}

pub const NOT_NUMBERS: &[&str] = &[
    "1e5", "1E5", "-1.5e-10", "NaN", "nan", "inf", "-Infinity", "abc", "--1", "+-1", "1.2.3", "..", ".", "-", "+", "0x10", "é", "１", "½", "1-",
    "1.5x", "x1", "1..2", "-.", "1 2", "٣", "1'000", "1d", "0b1", "#", "!", "79228162514264337593543950336", "-79228162514264337593543950336",
    "99999999999999999999999999999999999999", "100000000000000000000000000000000000000000000000000000000", "{}", "\\", "~", "1f", "1f32",
];
pub const OTHER_SPELLINGS: &[(&str, &str)] = &[
    ("+5", "5"), (".5", "0.5"), ("5.", "5"), ("007", "7"), ("00.50", "0.50"), ("-007", "-7"), ("+.5", "0.5"), ("-.5", "-0.5"), ("-5.", "-5"),
    ("1_000", "1000"), ("-0", "0"), ("-0.0", "0.0"), ("+0", "0"), ("000", "0"), ("0.", "0"), ("00000000000000000000000000000000001", "1"),
];

pub fn c19(ctx: &mut Ctx) {
    let all = all_slots();
    ctx.space("canonical numbers of every length and scale", 0, &|ch| {
        let s = ch.of(all);
        if let NK::Int(..) = s.kind {
            return Ok(());
        }
        let wide = crate::engine::thorough();
        let v = if wide { gen::version(ch) } else { *ch.of(&[5u8, 14]) };
        if s.time && v < 5 {
            return Ok(());
        }
        let n = 1 + ch.free(29) as u32;
        let scale = ch.free(29) as u32;
        let all = digits(n);
        let m = *ch.of(&all);
        let m = if ch.free_flag() { -m } else { m };
        if m.abs() > MAX_MANTISSA {
            return Ok(());
        }
        let d = D::N(m, scale);
        let w = if s.time { v.max(5) } else { v };
        read(ch, s, v, w, &d.text(), &d)
    });
    ctx.space("zeros and small numbers", 0, &|ch| {
        let s = ch.of(all);
        if let NK::Int(..) = s.kind {
            return Ok(());
        }
        let v = *ch.of(&[5u8, 9, 14]);
        let scale = ch.free(29) as u32;
        let m = ch.free(223) as i128 - 111;
        let d = D::N(m, scale);
        read(ch, s, v, v, &d.text(), &d)
    });
    ctx.space("text that is no number", 0, &|ch| {
        let s = ch.of(all);
        let v = gen::version(ch);
        let t = *ch.of(NOT_NUMBERS);
        match s.kind {
            // no field of an event contains a space
            NK::Dec if t.contains(' ') && s.part == Events => Ok(()),
            NK::Dec => read(ch, s, v, v, t, &D::R(t.to_string())),
            _ if v < s.since || v > s.until => Ok(()),
            _ => {
                let text = s.text(v, t);
                ch.note(|| format!("v{v} {text:?} rejected"));
                must_fail(s.part, &text, v, &format!("{} is {t:?}", s.name))?;
                Ok(())
            }
        }
    });
    ctx.space("long text that is no number", 0, &|ch| {
        // a text of any length is kept whole
        let s = ch.of(all);
        let v = *ch.of(&[3u8, 5, 10, 14]);
        let n = 30 + *ch.of(gen::sizes());
        let t = match ch.free(7) {
            0 => "9".repeat(n),
            1 => format!("-{}", "1234567890".repeat(n / 10 + 3)),
            2 => "x".repeat(n),
            3 => format!("{}x", "1".repeat(n)),
            4 => format!("x{}", "0".repeat(n)),
            5 => "é".repeat(n),
            _ => format!("{}.5.5", "7".repeat(n)),
        };
        match s.kind {
            NK::Dec => read(ch, s, v, v, &t, &D::R(t.clone())),
            _ if v < s.since || v > s.until => Ok(()),
            _ => {
                let text = s.text(v, &t);
                ch.note(|| format!("v{v} {text:?} rejected"));
                must_fail(s.part, &text, v, &format!("{} is {t:?}", s.name))?;
                Ok(())
            }
        }
    });
    ctx.space("white space in a field", 0, &|ch| {
        // within a line it is a part of the text, and no number contains it
        let s = ch.of(all);
        let v = *ch.of(&[5u8, 10, 12, 14]);
        let mut t = String::new();
        for _ in 0..1 + ch.free(if crate::engine::thorough() { 4 } else { 3 }) {
            t += *ch.of(&["1", " ", "\t", "-", "x", "\u{a0}"]);
        }
        if s.kind != NK::Dec || v < s.since || v > s.until || !t.contains(char::is_whitespace) {
            return Ok(());
        }
        // white space next to the ends of a line may be left out
        let around = s.text(v, "\u{1}");
        let line = around.lines().find(|l| l.contains('\u{1}')).unwrap();
        let (l, r) = line.split_once('\u{1}').unwrap();
        let first = l.trim().is_empty() || l.trim_end().ends_with(':') && !l.contains(',');
        if first && t.starts_with(char::is_whitespace) || r.trim().is_empty() && t.ends_with(char::is_whitespace) {
            return Ok(());
        }
        read(ch, s, v, v, &t, &D::R(t.clone()))
    });
    ctx.space("other spellings of numbers", 0, &|ch| {
        // the value is kept, or the text is
        let s = ch.of(all);
        if s.kind != NK::Dec {
            return Ok(());
        }
        let v = *ch.of(&[5u8, 10, 14]);
        let (t, n) = *ch.of(OTHER_SPELLINGS);
        let text = s.text(v, t);
        ch.note(|| format!("v{v} {text:?}"));
        let x = must(s.part, &text, v)?.view();
        let D::N(m, k) = D::new(n) else { unreachable!() };
        // with the same or fewer digits
        let mut as_number = (0..=k.max(2)).map(|j| {
            if j >= k {
                Some(D::N(m * 10i128.pow(j - k), j))
            } else if m % 10i128.pow(k - j) == 0 {
                Some(D::N(m / 10i128.pow(k - j), j))
            } else {
                None
            }
        });
        let ok = as_number.any(|d| d.is_some_and(|d| x == s.model(v, &d))) || x == s.model(v, &D::R(t.to_string()));
        crate::report::ensure(ok, || format!("{}: {text:?} at version {v} is read as {x:?}", s.name))
    });
    ctx.space("integers of every field", 0, &|ch| {
        let s = ch.of(all);
        let NK::Int(min, max) = s.kind else { return Ok(()) };
        let v = if crate::engine::thorough() { gen::version(ch) } else { *ch.of(&[3u8, 4, 5, 10, 12, 14]) };
        if v < s.since || v > s.until {
            return Ok(());
        }
        let near: Vec<i128> = (-40..=300).chain((-2..=2).flat_map(|k| [min + k, max + k])).chain(int_points(-(1i128 << 70), 1i128 << 70)).collect();
        let x = *ch.of(&near);
        let value = if s.time { x + early(v) } else { x };
        if (min..=max).contains(&value) {
            return read(ch, s, v, v, &x.to_string(), &D::int(value));
        }
        let text = s.text(v, &x.to_string());
        ch.note(|| format!("v{v} {text:?} rejected"));
        must_fail(s.part, &text, v, &format!("{} is {x}", s.name))?;
        Ok(())
    });
    ctx.space("numbers built through the interface", 0, &|ch| {
        use osu_file_parser as lib;
        let n = 1 + ch.free(29) as u32;
        let scale = ch.free(29) as u32;
        let all = digits(n);
        let m = *ch.of(&all);
        let m = if ch.free_flag() { -m } else { m };
        if m.abs() > MAX_MANTISSA {
            return Ok(());
        }
        let d = D::N(m, scale);
        let t = d.text();
        ch.note(|| t.clone());
        use crate::report::ensure;
        let r = to_lib(&d).get().clone().left().unwrap();
        for (what, x) in [("new", lib::Decimal::new(r)), ("from decimal", lib::Decimal::from(r)), ("from text", lib::Decimal::from(t.as_str())), ("parse", t.parse().unwrap())] {
            ensure(d_of(&x) == d, || format!("{what}: {t} is kept as {x:?}"))?;
            ensure(x.to_string() == t, || format!("{what}: {t} is printed as {x}"))?;
        }
        let mut x = lib::Decimal::new_from_str(&t);
        ensure(d_of(&x) == D::R(t.clone()) && x.to_string() == t, || format!("new_from_str({t}) is {x:?}"))?;
        let ok = x.try_make_decimal();
        ensure(ok.is_ok() && d_of(&x) == d, || format!("try_make_decimal of {t} gives {x:?}"))?;
        let ok = x.try_make_decimal();
        ensure(ok.is_ok() && d_of(&x) == d, || format!("try_make_decimal twice of {t} gives {x:?}"))?;
        *x.get_mut() = either::Either::Right("kept".into());
        ensure(d_of(&x) == D::R("kept".into()) && x.to_string() == "kept", || format!("get_mut gives {x:?}"))?;
        ensure(x.try_make_decimal().is_err() && d_of(&x) == D::R("kept".into()), || format!("try_make_decimal of text gives {x:?}"))?;
        if scale == 0 && m.abs() < 1 << 31 {
            let x = lib::Decimal::from(m as i32);
            ensure(d_of(&x) == d, || format!("from {m} is {x:?}"))?;
        }
        Ok(())
    });
    ctx.space("text built through the interface", 0, &|ch| {
        use osu_file_parser as lib;
        let t = *ch.of(NOT_NUMBERS);
        ch.note(|| t.to_string());
        for x in [lib::Decimal::from(t), t.parse().unwrap(), lib::Decimal::new_from_str(t)] {
            crate::report::ensure(d_of(&x) == D::R(t.into()) && x.to_string() == t, || format!("{t:?} is kept as {x:?}"))?;
            let mut y = x.clone();
            crate::report::ensure(y.try_make_decimal().is_err() && y == x, || format!("{t:?} becomes {y:?}"))?;
        }
        Ok(())
    });
}
