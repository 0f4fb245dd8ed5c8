//! Generators: every choice is made through [`Ch`], so a generator spans a bounded
//! space of model values that the explorer enumerates completely.
//! Free choices select the shape; other values cost 1 (narrow) or 2 (wide).

use crate::dom;
use crate::engine::{Ch, Dom};
use crate::model::*;
use crate::num::*;

pub fn version(ch: &mut Ch) -> u8 {
    let v = *ch.of(&VERSIONS);
    ch.note(|| format!("version {v}"));
    v
}

pub fn d_x() -> &'static Dom<D> {
    dom!(D, dec_dom("256"))
}
pub fn d_y() -> &'static Dom<D> {
    dom!(D, dec_dom("192"))
}
pub fn d_time() -> &'static Dom<D> {
    dom!(D, dec_dom("1000"))
}
pub fn d_end() -> &'static Dom<D> {
    dom!(D, dec_dom("2500"))
}
pub fn d_num(default: &'static str) -> Dom<D> {
    dec_dom(default)
}
pub fn i_time() -> &'static Dom<i32> {
    // the 24 ms of the old versions can be added and subtracted
    dom!(i32, {
        let ok = |v: Vec<i32>| v.into_iter().filter(|x| *x >= i32::MIN + 24).collect::<Vec<_>>();
        Dom::new(vec![1234], ok(i32_narrow()), ok(i32_wide()))
    })
}
pub fn i_any() -> &'static Dom<i32> {
    dom!(i32, i32_dom(77))
}
pub fn u8_dom() -> &'static Dom<u8> {
    dom!(u8, Dom::new(vec![12], vec![0, 1, 9, 10, 99, 100, 255], (0..=255).collect()))
}

// ------------------------------------------------------------ hit objects

pub fn sample_file() -> &'static Dom<String> {
    dom!(
        String,
        Dom::new(
            vec![String::new()],
            ["hit.wav", "a b.wav", "é.wav", "a,b|c.wav", "a:b.wav"].iter().map(|s| s.to_string()).collect(),
            ["0", ":", "::1", "1:2", " x", "\"q\".wav", "sb\\x.ogg", "//c", "[a]", "$v", "1,2,3", "|", "-1"]
                .iter()
                .map(|s| s.to_string())
                .collect()
        )
    )
}

pub fn sample(ch: &mut Ch) -> MSample {
    let set = || dom!(u64, u64_dom(0));
    MSample {
        normal: *ch.dom(set()),
        addition: *ch.dom(set()),
        index: *ch.dom(set()),
        volume: *ch.dom(dom!(u8, Dom::new(vec![0], vec![1, 50, 99, 100], (0..=100).collect()))),
        file: ch.dom(sample_file()).clone(),
    }
}

pub fn slider(ch: &mut Ch, sample: bool) -> MSlider {
    let curve = *ch.dev_of(&['B', 'C', 'L', 'P']);
    let n = *ch.dev_of(&[1usize, 0, 2, 3]);
    let px = dom!(D, dec_dom("320"));
    let py = dom!(D, dec_dom("48"));
    let points = (0..n).map(|_| (ch.dom(px).clone(), ch.dom(py).clone())).collect();
    let slides = *ch.dom(dom!(i32, i32_dom(1)));
    let length = ch.dom(dom!(D, dec_dom("140"))).clone();
    let (edge_sounds, edge_sets, written);
    let shape = ch.tiers(&[2, 3]);
    let sound = |ch: &mut Ch| ch.dev(16) as u8;
    let set = |ch: &mut Ch| {
        (
            *ch.dom(dom!(u64, u64_dom(0))),
            *ch.dom(dom!(u64, u64_dom(0))),
        )
    };
    match shape {
        // both lists
        0 => {
            let n = *ch.dev_of(&[2usize, 1, 3]);
            edge_sounds = (0..n).map(|_| sound(ch)).collect();
            edge_sets = (0..n).map(|_| set(ch)).collect();
            written = 2;
        }
        // nothing
        1 => {
            edge_sounds = vec![];
            edge_sets = vec![];
            written = if sample { 2 } else { 0 };
        }
        // only sounds
        2 => {
            let n = *ch.dev_of(&[2usize, 1]);
            edge_sounds = (0..n).map(|_| sound(ch)).collect();
            edge_sets = vec![];
            written = if sample { 2 } else { 1 + ch.dev(2) as u8 };
        }
        // only sets
        3 => {
            edge_sounds = vec![];
            edge_sets = vec![set(ch)];
            written = 2;
        }
        // different lengths
        _ => {
            edge_sounds = vec![sound(ch)];
            edge_sets = vec![set(ch), set(ch)];
            written = 2;
        }
    }
    MSlider {
        curve,
        points,
        slides,
        length,
        edge_sounds,
        edge_sets,
        written,
    }
}

pub fn hit(ch: &mut Ch) -> MHit {
    let kind = ch.free(4);
    let has_sample = ch.free_flag();
    let x = ch.dom(d_x()).clone();
    let y = ch.dom(d_y()).clone();
    let time = ch.dom(d_time()).clone();
    let new_combo = ch.flag();
    let skip = ch.dev(8) as u8;
    let sound = ch.dev(16) as u8;
    let kind = match kind {
        0 => MKind::Circle,
        1 => MKind::Slider(slider(ch, has_sample)),
        2 => MKind::Spinner(ch.dom(d_end()).clone()),
        _ => MKind::Hold(ch.dom(d_end()).clone()),
    };
    let sample = has_sample.then(|| sample(ch));
    MHit {
        x,
        y,
        time,
        kind,
        new_combo,
        skip,
        sound,
        sample,
    }
}

pub fn default_hit(kind: usize) -> MHit {
    MHit {
        x: D::int(256),
        y: D::int(192),
        time: D::int(1000),
        kind: match kind {
            0 => MKind::Circle,
            1 => MKind::Slider(MSlider {
                curve: 'B',
                points: vec![(D::int(320), D::int(48)), (D::int(17), D::int(290))],
                slides: 3,
                length: D::new("140.5"),
                edge_sounds: vec![2, 0, 8, 4],
                edge_sets: vec![(0, 1), (2, 3), (0, 0), (1, 0)],
                written: 2,
            }),
            2 => MKind::Spinner(D::int(2500)),
            _ => MKind::Hold(D::int(2500)),
        },
        new_combo: false,
        skip: 0,
        sound: 0,
        sample: None,
    }
}

// ------------------------------------------------------------ timing points

pub fn timing(ch: &mut Ch) -> MTiming {
    let shape = ch.free(4);
    let time = ch.dom(d_time()).clone();
    let beat = ch.dom(dom!(D, dec_dom("-133.75"))).clone();
    MTiming {
        time,
        beat,
        meter: *ch.dom(dom!(i32, i32_dom(5))),
        set: *ch.dom(dom!(i32, i32_dom(2))),
        index: *ch.dom(dom!(u32, u32_dom(7))),
        volume: *ch.dom(dom!(i32, i32_dom(65))),
        uninherited: if shape & 1 == 1 { Some(ch.dev(2) == 1) } else { None },
        effects: if shape & 2 == 2 {
            Some(*ch.dom(dom!(u32, u32_dom(9))))
        } else {
            None
        },
    }
}

// ------------------------------------------------------------ colours

pub fn colour(ch: &mut Ch) -> MColour {
    let kind = ch.free(3);
    let n = if kind == 0 {
        *ch.dom(dom!(
            i32,
            Dom::new(
                vec![1],
                vec![0, 2, 8, 10, i32::MAX],
                int_points(0, i32::MAX as i128).into_iter().map(|x| x as i32).collect()
            )
        ))
    } else {
        0
    };
    let rgb = [*ch.dom(u8_dom()), *ch.dom(u8_dom()), *ch.dom(u8_dom())];
    match kind {
        0 => MColour::Combo(n, rgb),
        1 => MColour::Track(rgb),
        _ => MColour::Border(rgb),
    }
}

// ------------------------------------------------------------ events

fn pos(ch: &mut Ch) -> Pos {
    if ch.free_flag() {
        Some((ch.dom(dom!(D, dec_dom("320"))).clone(), ch.dom(dom!(D, dec_dom("240"))).clone()))
    } else {
        None
    }
}

pub fn file(ch: &mut Ch) -> String {
    ch.dom(dom!(String, path_dom("bg.jpg"))).clone()
}

pub const EVENT_KINDS: usize = 11;

pub fn event_kind(ch: &mut Ch, kind: usize) -> MEventKind {
    use MEventKind::*;
    match kind {
        0 => Background {
            time: *ch.dom(i_any()),
            file: file(ch),
            pos: pos(ch),
        },
        1 => Video {
            long: ch.free_flag(),
            time: *ch.dom(i_time()),
            file: file(ch),
            pos: pos(ch),
        },
        2 => Break {
            long: ch.free_flag(),
            start: *ch.dom(i_time()),
            end: *ch.dom(i_time()),
        },
        3 => Colour {
            time: *ch.dom(i_time()),
            rgb: [*ch.dom(u8_dom()), *ch.dom(u8_dom()), *ch.dom(u8_dom())],
        },
        4 => SpriteLegacy {
            layer: ch.dev(6) as u8,
            origin: ch.dev(10) as u8,
            file: file(ch),
            pos: pos(ch),
        },
        5 => AnimationLegacy {
            layer: ch.dev(6) as u8,
            origin: ch.dev(10) as u8,
            file: file(ch),
            pos: pos(ch),
        },
        6 => SampleLegacy {
            time: ch.dom(d_time()).clone(),
            layer: ch.dev(6) as u8,
            file: file(ch),
            volume: if ch.free_flag() {
                Some(*ch.dom(dom!(u8, Dom::new(vec![70], vec![0, 1, 99, 100], (0..=100).collect()))))
            } else {
                None
            },
        },
        7 => Sprite {
            layer: ch.dev(5) as u8,
            origin: origin(ch),
            file: file(ch),
            x: ch.dom(dom!(D, dec_dom("320"))).clone(),
            y: ch.dom(dom!(D, dec_dom("240"))).clone(),
        },
        8 => Animation {
            layer: ch.dev(5) as u8,
            origin: origin(ch),
            file: file(ch),
            x: ch.dom(dom!(D, dec_dom("320"))).clone(),
            y: ch.dom(dom!(D, dec_dom("240"))).clone(),
            count: *ch.dom(dom!(u32, u32_dom(4))),
            delay: ch.dom(dom!(D, num_dom("50"))).clone(),
            once: ch.flag(),
        },
        9 => Audio {
            time: *ch.dom(i_any()),
            layer: ch.dev(4) as u8,
            file: file(ch),
            volume: *ch.dom(dom!(u8, Dom::new(vec![100], vec![0, 1, 70, 99], (0..=100).collect()))),
        },
        _ => Comment(ch.dom(dom!(String, text_dom("note"))).clone()),
    }
}

fn origin(ch: &mut Ch) -> MOrigin {
    let k = ch.tiers(&[1, 19, 6]);
    match k {
        0..=9 => MOrigin::Name([1u8, 0, 2, 3, 4, 5, 6, 7, 8, 9][k]),
        10..=19 => MOrigin::Num(k as i32 - 10),
        20 => MOrigin::Num(10),
        21 => MOrigin::Num(-1),
        22 => MOrigin::Num(11),
        23 => MOrigin::Num(i32::MAX),
        24 => MOrigin::Num(i32::MIN),
        _ => MOrigin::Num(100),
    }
}

pub const CMD_KINDS: usize = 11;
const NAMES: [&str; 5] = ["F", "MX", "MY", "S", "R"];

pub fn trig_dom() -> &'static Dom<MTrig> {
    static CELL: std::sync::OnceLock<Dom<MTrig>> = std::sync::OnceLock::new();
    CELL.get_or_init(|| {
        let all = MTrig::all(&[None, Some(0), Some(1), Some(10), Some(123), Some(u64::MAX)]);
        Dom::new(
            vec![MTrig::Passing],
            vec![MTrig::Failing, all[2].clone(), all[9].clone(), all[all.len() - 1].clone()],
            all.clone(),
        )
    })
}

fn times(ch: &mut Ch) -> (Option<i32>, Option<i32>) {
    let shape = ch.tiers(&[1, 2]);
    let a = |ch: &mut Ch| *ch.dom(dom!(i32, i32_dom(500)));
    let b = |ch: &mut Ch| *ch.dom(dom!(i32, i32_dom(900)));
    match shape {
        0 => (Some(a(ch)), Some(b(ch))),
        1 => (Some(a(ch)), None),
        _ => (None, None),
    }
}

/// One command without sub-commands.
pub fn cmd(ch: &mut Ch, kind: usize) -> MCmd {
    let easing = if kind < 9 {
        *ch.dom(dom!(
            i32,
            Dom::new(
                vec![0],
                vec![1, 2, 3, 34, 35, -1],
                (-3..=50).chain([i32::MAX, i32::MIN]).collect()
            )
        ))
    } else {
        0
    };
    let value = |ch: &mut Ch| ch.dom(dom!(D, dec_dom("0.75"))).clone();
    let (start, end, p) = match kind {
        0..=4 => {
            let (s, e) = times(ch);
            let n = *ch.dev_of(&[2usize, 1, 3, 4, 5]);
            (s, e, MProp::One(NAMES[kind], (0..n).map(|_| value(ch)).collect()))
        }
        5 | 6 => {
            let (s, e) = times(ch);
            let n = *ch.dev_of(&[4usize, 2, 3, 5, 6, 7]);
            (
                s,
                e,
                MProp::Two(["M", "V"][kind - 5], (0..n).map(|_| value(ch)).collect()),
            )
        }
        7 => {
            let (s, e) = times(ch);
            let n = *ch.dev_of(&[6usize, 3, 4, 5, 7, 8, 9, 10, 11]);
            (s, e, MProp::Colour((0..n).map(|_| *ch.dom(u8_dom())).collect()))
        }
        8 => {
            let (s, e) = times(ch);
            let n = *ch.dev_of(&[1usize, 2, 3, 4]);
            (
                s,
                e,
                MProp::Param((0..n).map(|_| ['A', 'H', 'V'][ch.dev(3)]).collect()),
            )
        }
        9 => {
            let start = if ch.dev(2) == 0 {
                Some(*ch.dom(dom!(i32, i32_dom(500))))
            } else {
                None
            };
            (start, None, MProp::Loop(*ch.dom(dom!(u32, u32_dom(3))), vec![]))
        }
        _ => {
            let t = ch.dom(trig_dom()).clone();
            let shape = ch.tiers(&[1, 7]);
            // 0: start and end
            let shape = [6, 0, 1, 2, 3, 4, 5, 7][shape];
            let start = (shape & 2 != 0).then(|| *ch.dom(dom!(i32, i32_dom(500))));
            let end = (shape & 4 != 0).then(|| *ch.dom(dom!(i32, i32_dom(900))));
            let group = (shape & 1 != 0).then(|| *ch.dom(dom!(i32, i32_dom(1))));
            (start, end, MProp::Trigger(t, group, vec![]))
        }
    };
    MCmd { easing, start, end, p }
}

/// A fixed command of every kind, distinguishable from the others.
pub fn default_cmd(kind: usize, start: i32) -> MCmd {
    let d = |s: &str| D::new(s);
    let p = match kind {
        0..=4 => MProp::One(NAMES[kind], vec![d("0.5"), d("1")]),
        5 | 6 => MProp::Two(["M", "V"][kind - 5], vec![d("1"), d("2.5"), d("3"), d("-4")]),
        7 => MProp::Colour(vec![1, 2, 3, 4, 5, 6]),
        8 => MProp::Param(vec!['H']),
        9 => MProp::Loop(5, vec![]),
        _ => MProp::Trigger(MTrig::Passing, None, vec![]),
    };
    MCmd {
        easing: 0,
        start: Some(start),
        end: if kind == 9 { None } else { Some(start + 50) },
        p,
    }
}

pub fn default_event(kind: usize) -> MEvent {
    use MEventKind::*;
    let f = "bg.jpg".to_string();
    let k = match kind {
        0 => Background { time: 3, file: f, pos: Some((D::int(0), D::int(0))) },
        1 => Video { long: true, time: 300, file: f, pos: None },
        2 => Break { long: false, start: 4000, end: 5000 },
        3 => Colour { time: 100, rgb: [163, 162, 255] },
        4 => SpriteLegacy { layer: 0, origin: 1, file: f, pos: Some((D::int(320), D::int(240))) },
        5 => AnimationLegacy { layer: 3, origin: 9, file: f, pos: None },
        6 => SampleLegacy { time: D::int(1500), layer: 2, file: f, volume: Some(70) },
        7 => Sprite { layer: 1, origin: MOrigin::Name(1), file: f, x: D::int(320), y: D::int(240) },
        8 => Animation {
            layer: 4,
            origin: MOrigin::Num(3),
            file: f,
            x: D::int(320),
            y: D::int(240),
            count: 4,
            delay: D::new("50.5"),
            once: true,
        },
        9 => Audio { time: 600, layer: 3, file: f, volume: 55 },
        _ => Comment("Background and Video events".into()),
    };
    MEvent::new(k)
}

pub fn default_timing(kind: usize) -> MTiming {
    MTiming {
        time: D::int(1000),
        beat: D::new(if kind == 0 { "333.33" } else { "-50" }),
        meter: 3,
        set: 2,
        index: 1,
        volume: 60,
        uninherited: Some(kind == 0),
        effects: Some(1),
    }
}

// ------------------------------------------------------------ key-value sections

pub fn kv_value(ch: &mut Ch, f: &Field) -> KV {
    match f.kind {
        FK::Text => KV::S(ch.dom(dom!(String, text_dom("Some Text"))).clone()),
        FK::Int => KV::I(*ch.dom(dom!(i32, i32_dom(1)))),
        FK::Dec => KV::D(ch.dom(dom!(D, dec_dom("1.4"))).clone()),
        FK::Bool => KV::B(ch.dev(2) == 0),
        FK::Ints => {
            let n = *ch.dev_of(&[2usize, 0, 1, 3, 4]);
            KV::L((0..n).map(|_| *ch.dom(dom!(i32, i32_dom(100)))).collect())
        }
        FK::Tags => {
            let n = *ch.dev_of(&[2usize, 1, 3, 4]);
            KV::T(
                (0..n)
                    .map(|_| {
                        ch.dom(dom!(
                            String,
                            Dom::new(
                                vec!["tag".into()],
                                vec!["b".into(), "é".into(), "a:b".into(), "x,y".into(), "[c]".into()],
                                vec!["//".into(), "0".into(), "日本".into(), "-".into(), "\"q\"".into()]
                            )
                        ))
                        .clone()
                    })
                    .collect(),
            )
        }
        FK::Num(n) | FK::Name(n) => KV::E(ch.dev(n.len()) as u8),
    }
}

pub fn default_value(f: &Field) -> KV {
    match f.kind {
        FK::Text => KV::S(format!("My {}", f.key)),
        FK::Int => KV::I(f.key.len() as i32 * 100),
        FK::Dec => KV::D(D::N(f.key.len() as i128 * 10 + 5, 1)),
        FK::Bool => KV::B(true),
        FK::Ints => KV::L(vec![1, 22, 333]),
        FK::Tags => KV::T(vec!["one".into(), "two".into()]),
        FK::Num(_) | FK::Name(_) => KV::E(1),
    }
}

pub fn full(sec: Sec) -> Vals {
    sec.fields().iter().map(|f| Some(default_value(f))).collect()
}

/// A file with one of everything.
pub fn default_file(version: u8) -> MFile {
    let mut ev: Vec<MEvent> = (0..EVENT_KINDS).map(default_event).collect();
    for k in [0usize, 4, 7, 8] {
        let mut l = default_cmd(9, 100);
        *l.sub_mut().unwrap() = vec![default_cmd(0, 1), default_cmd(5, 2)];
        ev[k].cmds = vec![default_cmd(k, 10), l, default_cmd(8, 20)];
    }
    // comments between events
    ev.insert(0, MEvent::new(MEventKind::Comment("first".into())));
    let mut hits: Vec<MHit> = (0..4).map(default_hit).collect();
    hits[0].sample = Some(MSample { normal: 1, addition: 2, index: 3, volume: 40, file: "a.wav".into() });
    hits[1].sample = Some(MSample { normal: 0, addition: 0, index: 0, volume: 0, file: String::new() });
    hits[3].new_combo = true;
    hits[3].skip = 2;
    MFile {
        version,
        kv: [
            Some(full(Sec::General)),
            Some(full(Sec::Editor)),
            Some(full(Sec::Metadata)),
            Some(full(Sec::Difficulty)),
        ],
        events: Some(ev),
        timing: Some(vec![default_timing(0), default_timing(1)]),
        colours: Some(vec![
            MColour::Combo(1, [255, 0, 1]),
            MColour::Combo(2, [2, 3, 4]),
            MColour::Track([5, 6, 7]),
            MColour::Border([8, 9, 10]),
        ]),
        hits: Some(hits),
        osb: None,
    }
}

/// Lengths around the places where counters, tables and buffers have their limits.
pub fn sizes() -> &'static [usize] {
    if crate::engine::thorough() {
        &[1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097]
    } else {
        &[5, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 300, 513]
    }
}
