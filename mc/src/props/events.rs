//! C14, C15, C16, C17: events, storyboard commands and variables.

use crate::dom;
use crate::engine::{Fail, Ch, Ctx, Dom, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::num::*;
use crate::report::ensure;
use crate::view;
use osu_file_parser as lib;
use osu_file_parser::VersionedToString;

fn read(ch: &mut Ch, text: &str, v: u8, want: &[MEvent]) -> R {
    ch.note(|| format!("v{v} {text:?}"));
    check(Events, text, v, &m_events(want.to_vec()), &print_events(want, v))?;
    Ok(())
}
fn rejected(ch: &mut Ch, text: &str, v: u8, why: &str) -> R {
    ch.note(|| format!("v{v} {text:?} rejected: {why}"));
    must_fail(Events, text, v, why)?;
    Ok(())
}

const PLAIN: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 9, 10];

pub fn c14(ctx: &mut Ctx) {
    ctx.space("fields", ctx.b(2, 3), &|ch| {
        let v = gen::version(ch);
        let kind = *ch.of(&PLAIN);
        let e = MEvent::new(gen::event_kind(ch, kind));
        read(ch, &e.head(v), v, &[e])
    });
    ctx.space("times around the offset", ctx.b(2, 4), &|ch| {
        let v = *ch.of(&[3u8, 4, 5, 14]);
        let e = match ch.free(3) {
            0 => MEventKind::Break { long: ch.free_flag(), start: *ch.dom(gen::i_time()), end: *ch.dom(gen::i_time()) },
            1 => MEventKind::Video {
                long: ch.free_flag(),
                time: *ch.dom(gen::i_time()),
                file: "v.avi".into(),
                pos: None,
            },
            _ => MEventKind::Colour { time: *ch.dom(gen::i_time()), rgb: [1, 2, 3] },
        };
        let e = MEvent::new(e);
        read(ch, &e.head(v), v, &[e])
    });
    ctx.space("every colour component", 0, &|ch| {
        let v = gen::version(ch);
        let at = ch.free(3);
        let n = ch.free(258) as i32 - 1;
        let mut rgb = [10i32, 20, 30];
        rgb[at] = n;
        let text = format!("3,{},{},{},{}", time_i(500, v), rgb[0], rgb[1], rgb[2]);
        if (0..=255).contains(&n) {
            let e = MEventKind::Colour { time: 500, rgb: rgb.map(|x| x as u8) };
            read(ch, &text, v, &[MEvent::new(e)])
        } else {
            rejected(ch, &text, v, "a colour component is outside 0 to 255")
        }
    });
    ctx.space("layers and origins", 0, &|ch| {
        let v = gen::version(ch);
        let n = ch.free(14) as i32 - 2;
        let f = "x.png".to_string();
        let (text, ok) = match ch.free(6) {
            0 => (format!("4,{n},1,{f}"), (0..6).contains(&n)),
            1 => (format!("5,{n},1,{f}"), (0..6).contains(&n)),
            2 => (format!("6,10,{n},{f}"), (0..6).contains(&n)),
            3 => (format!("4,1,{n},{f}"), (0..10).contains(&n)),
            4 => (format!("5,1,{n},{f}"), (0..10).contains(&n)),
            _ => (format!("Sample,10,{n},{f},30"), (0..4).contains(&n)),
        };
        if !ok {
            return rejected(ch, &text, v, "the layer or origin has no such number");
        }
        let u = n as u8;
        let k = match text.as_bytes()[0] {
            b'4' if text.starts_with("4,1,") && !text.starts_with("4,1,1,") => {
                MEventKind::SpriteLegacy { layer: 1, origin: u, file: f, pos: None }
            }
            b'5' if text.starts_with("5,1,") && !text.starts_with("5,1,1,") => {
                MEventKind::AnimationLegacy { layer: 1, origin: u, file: f, pos: None }
            }
            b'4' => MEventKind::SpriteLegacy { layer: u, origin: 1, file: f, pos: None },
            b'5' => MEventKind::AnimationLegacy { layer: u, origin: 1, file: f, pos: None },
            b'6' => MEventKind::SampleLegacy { time: D::int(10), layer: u, file: f, volume: None },
            _ => MEventKind::Audio { time: 10, layer: u, file: f, volume: 30 },
        };
        read(ch, &text, v, &[MEvent::new(k)])
    });
    ctx.space("volumes", 0, &|ch| {
        let v = gen::version(ch);
        let n = ch.free(258) as i32 - 1;
        let legacy = ch.free_flag();
        let file = "s.wav".to_string();
        let text = if legacy { format!("6,10,2,s.wav,{n}") } else { format!("Sample,10,2,s.wav,{n}") };
        if (0..=100).contains(&n) {
            let volume = n as u8;
            let k = if legacy {
                MEventKind::SampleLegacy { time: D::int(10), layer: 2, file, volume: Some(volume) }
            } else {
                MEventKind::Audio { time: 10, layer: 2, file, volume }
            };
            read(ch, &text, v, &[MEvent::new(k)])
        } else {
            rejected(ch, &text, v, "the volume is outside 0 to 100")
        }
    });
    ctx.space("volume left out of an audio sample", 1, &|ch| {
        let v = gen::version(ch);
        let k = MEventKind::Audio { time: *ch.dom(gen::i_any()), layer: ch.dev(4) as u8, file: "s.wav".into(), volume: 100 };
        let e = MEvent::new(k);
        let text = e.head(v);
        let short = text.strip_suffix(",100").unwrap();
        ch.note(|| format!("v{v} {short:?}"));
        check(Events, short, v, &m_events(vec![e]), &text)?;
        Ok(())
    });
    ctx.space("headers that are no event", 0, &|ch| {
        let v = gen::version(ch);
        let h = *ch.of(&[
            "", "7", "8", "10", "00", "-1", "+1", "01", "video", "VIDEO", "Videos", "break", "Breaks", "Background", "sample",
            "Samples", "Colour", "sprite", "é", "F", "0x", "1.0", "3 ", "Video ", "2-",
        ]);
        let rest = *ch.of(&[",100,bg.jpg,0,0", ",100,200", ",1,2,x.png", "", ","]);
        let text = format!("{h}{rest}");
        if text.is_empty() {
            return Ok(());
        }
        rejected(ch, &text, v, "no event has this name")
    });
    ctx.space("the number of an event alone", 0, &|ch| {
        let v = gen::version(ch);
        let h = *ch.of(&["0", "1", "2", "3", "4", "5", "6", "Video", "Break", "Sample", "Sprite", "Animation"]);
        let rest = *ch.of(&["", ",", ",100", ",x", ",,", ",,,", ",,,,"]);
        // enough fields of the right type are not there
        let text = format!("{h}{rest}");
        if (matches!(h, "0" | "6") && rest.len() > 3) || (h == "6" && rest == ",,,,") {
            return Ok(());
        }
        rejected(ch, &text, v, "required fields are missing or empty")
    });
}

// ------------------------------------------------------------ nesting

/// Adds a command at a depth, or says that there is no place for it.
fn attach(ev: &mut [MEvent], depth: usize, cmd: MCmd) -> bool {
    let Some(e) = ev.last_mut() else { return false };
    if !e.takes_commands() || depth == 0 {
        return false;
    }
    let mut list = &mut e.cmds;
    for _ in 1..depth {
        match list.last_mut().and_then(|c| c.sub_mut()) {
            Some(l) => list = l,
            None => return false,
        }
    }
    list.push(cmd);
    true
}

fn sequence(ch: &mut Ch, v: u8, events: &[MEvent], cmds: &[MCmd], depths: usize, max: usize, blanks: bool, indent: &mut dyn FnMut(&mut Ch, usize) -> String) -> R {
    let mut model: Vec<MEvent> = Vec::new();
    let mut lines: Vec<String> = Vec::new();
    let n = events.len() + cmds.len() * depths + blanks as usize;
    let mut stamp = 0;
    while lines.len() < max {
        let k = ch.free(n + 1);
        if k == 0 {
            break;
        }
        let k = k - 1;
        if k < events.len() {
            lines.push(events[k].head(v));
            model.push(events[k].clone());
        } else if k < events.len() + cmds.len() * depths {
            let k = k - events.len();
            let depth = k / cmds.len() + 1;
            let mut c = cmds[k % cmds.len()].clone();
            // every command is recognisable
            stamp += 1;
            c.start = Some(stamp);
            lines.push(format!("{}{}", indent(ch, depth), c.line()));
            if !attach(&mut model, depth, c) {
                let text = lines.join("\n");
                ch.note(|| format!("v{v} {text:?} rejected"));
                return misplaced(&text, v, &model, depth);
            }
        } else {
            lines.push(String::new());
        }
    }
    let text = lines.join("\n");
    read(ch, &text, v, &model)
}

pub fn c15(ctx: &mut Ctx) {
    let ev = |k: usize| gen::default_event(k);
    let (f, l, t) = (gen::default_cmd(0, 0), gen::default_cmd(9, 0), gen::default_cmd(10, 0));
    ctx.space("sequences of events and commands", 0, &|ch| {
        let evs = [ev(7), ev(2)];
        let cmds = [gen::default_cmd(0, 0), gen::default_cmd(9, 0), gen::default_cmd(10, 0)];
        sequence(ch, 14, &evs, &cmds, 3, if deep() { 7 } else { 6 }, false, &mut |_, d| " ".repeat(d))
    });
    ctx.space("sequences below one event", 0, &|ch| {
        let e = [ev(0), ev(1), ev(4), ev(5), ev(6), ev(7), ev(8)][ch.free(7)].clone();
        let v = *ch.of(&[3u8, 14]);
        let (f, l) = (gen::default_cmd(0, 0), gen::default_cmd(9, 0));
        // the event is always the first line
        let mut model = vec![e];
        let mut lines = vec![model[0].head(v)];
        let max = if deep() { 8 } else { 6 };
        while lines.len() <= max {
            let k = ch.free(1 + 2 * 5);
            if k == 0 {
                break;
            }
            let (depth, kind) = ((k - 1) / 2 + 1, (k - 1) % 2);
            let mut c = [f.clone(), l.clone()][kind].clone();
            c.start = Some(lines.len() as i32);
            lines.push(format!("{}{}", " ".repeat(depth), c.line()));
            if !attach(&mut model, depth, c) {
                let text = lines.join("\n");
                ch.note(|| format!("v{v} {text:?} rejected"));
                return misplaced(&text, v, &model, depth);
            }
        }
        read(ch, &lines.join("\n"), v, &model)
    });
    let all_kinds: Vec<MCmd> = (0..gen::CMD_KINDS).map(|k| gen::default_cmd(k, 0)).collect();
    let all_kinds = &all_kinds;
    ctx.space("every kind of event followed by every kind of command", 0, &|ch| {
        let v = gen::version(ch);
        let a = ev(ch.free(gen::EVENT_KINDS));
        let b = ev(ch.free(gen::EVENT_KINDS));
        let mut model = vec![a.clone(), b.clone()];
        let mut lines = vec![a.head(v), b.head(v)];
        for i in 0..2 {
            let depth = i + ch.free(2);
            let c = all_kinds[ch.free(all_kinds.len())].clone();
            lines.push(format!("{}{}", " ".repeat(depth.max(1)), c.line()));
            if !attach(&mut model, depth.max(1), c) {
                let text = lines.join("\n");
                ch.note(|| format!("v{v} {text:?} rejected"));
                return misplaced(&text, v, &model, depth.max(1));
            }
        }
        read(ch, &lines.join("\n"), v, &model)
    });
    ctx.space("spaces and underscores", 0, &|ch| {
        let evs = [ev(7)];
        let cmds = [f.clone(), l.clone()];
        sequence(ch, 14, &evs, &cmds, 3, if deep() { 6 } else { 5 }, true, &mut |ch, d| {
            (0..d).map(|_| *ch.of(&[' ', '_'])).collect()
        })
    });
    ctx.space("comments and blank lines between", 0, &|ch| {
        let evs = [ev(7), MEvent::new(MEventKind::Comment("c".into())), ev(9)];
        let cmds = [f.clone(), t.clone()];
        sequence(ch, 14, &evs, &cmds, 2, if deep() { 7 } else { 6 }, true, &mut |_, d| " ".repeat(d))
    });
    ctx.space("commands with nothing before them", 0, &|ch| {
        let v = gen::version(ch);
        let c = all_kinds[ch.free(all_kinds.len())].clone();
        let text = format!("{}{}", [" ", "_", "  ", "__"][ch.free(4)], c.line());
        rejected(ch, &text, v, "no event takes the command")
    });
    ctx.space("deep nesting", 0, &|ch| {
        let e = ev(*ch.of(&[0usize, 7]));
        let depth = ch.free(if deep() { 120 } else { 40 }) + 1;
        let back = ch.free(depth + 2) + 1;
        let trigger = ch.free_flag();
        let mut model = vec![e];
        let mut lines = vec![model[0].head(14)];
        for d in 1..=depth {
            let c = gen::default_cmd(if trigger && d % 2 == 0 { 10 } else { 9 }, d as i32);
            lines.push(format!("{}{}", " ".repeat(d), c.line()));
            assert!(attach(&mut model, d, c));
        }
        // one command at every depth, then another at the same
        for i in 0..2 {
            let c = gen::default_cmd(i, 1000);
            lines.push(format!("{}{}", " ".repeat(back), c.line()));
            if !attach(&mut model, back, c) {
                let text = lines.join("\n");
                return misplaced(&text, 14, &model, back);
            }
        }
        read(ch, &lines.join("\n"), 14, &model)
    });
    ctx.space("commands that are far too deep", 0, &|ch| {
        let e = ev(*ch.of(&[0usize, 1, 4, 5, 6, 7, 8]));
        let open = ch.free(5);
        let far = *ch.of(&[
            open + 1, open + 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 259, 511, 512, 513, 1000, 1024, 1025,
            65534, 65535, 65536, 65537, 65538, 131072, 131073, 1_000_000,
        ]);
        let c = *ch.of(&[' ', '_']);
        let mut model = vec![e];
        let mut lines = vec![model[0].head(14)];
        for d in 1..=open {
            let c = gen::default_cmd(9 + ch.free(2), d as i32);
            lines.push(format!("{}{}", " ".repeat(d), c.line()));
            assert!(attach(&mut model, d, c));
        }
        let cmd = gen::default_cmd(0, 77);
        lines.push(format!("{}{}", c.to_string().repeat(far), cmd.line()));
        let text = lines.join("\n");
        if !attach(&mut model, far, cmd) {
            ch.note(|| format!("{:?} and a command after {far} of {c:?} is rejected", &lines[..lines.len() - 1]));
            return misplaced(&text, 14, &model, far).map_err(|x| match x {
                Fail::Violation(m) if m.len() > 2000 => {
                    Fail::Violation(format!("{:?} and a command after {far} of {c:?} is accepted or gives another error", &lines[..lines.len() - 1]))
                }
                x => x,
            });
        }
        read(ch, &text, 14, &model)
    });
    ctx.space("nesting around powers of two", 0, &|ch| {
        let depth = *ch.of(if deep() { &[127usize, 128, 129, 200, 254, 255, 256, 257, 258, 259, 260, 300, 511, 512, 513][..] } else { &[127, 128, 129, 255, 256, 257, 258, 259] });
        let back = *ch.of(&[1, 2, 3, depth / 2, depth - 1, depth, depth + 1, depth + 2, depth.saturating_sub(128) + 1, depth.saturating_sub(256) + 1]);
        let mut model = vec![ev(7)];
        let mut lines = vec![model[0].head(14)];
        for d in 1..=depth {
            let c = gen::default_cmd(9, d as i32);
            lines.push(format!("{}{}", " ".repeat(d), c.line()));
            assert!(attach(&mut model, d, c));
        }
        let c = gen::default_cmd(0, 1000);
        lines.push(format!("{}{}", " ".repeat(back), c.line()));
        let text = lines.join("\n");
        ch.note(|| format!("{depth} nested loops and a command {back} deep"));
        if !attach(&mut model, back, c) {
            return misplaced(&text, 14, &model, back);
        }
        let x = must(Events, &text, 14)?;
        ensure(x.view() == m_events(model), || format!("{depth} nested loops and a command {back} deep are read differently"))?;
        ensure(x.print(14).as_deref() == Some(&text), || format!("{depth} nested loops and a command {back} deep are printed differently"))
    });
    ctx.space("commands pushed far too deep", 0, &|ch| {
        use lib::events::EventWithCommands;
        let kind = *ch.of(&[0usize, 1, 4, 5, 6, 7]);
        let open = ch.free(4);
        let mut model = vec![gen::default_event(kind)];
        for d in 1..=open {
            assert!(attach(&mut model, d, gen::default_cmd(9 + ch.free(2), d as i32)));
        }
        let far = *ch.of(&[
            0, open + 1, open + 2, 9, 17, 33, 65, 128, 129, 255, 256, 257, 258, 259, 260, 512, 513, 65535, 65536, 65537, 65538, 65539, 1 << 31, (1 << 31) + 1, u32::MAX as usize,
            1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX,
        ]);
        let text = model[0].lines(14).join("\n");
        let mut x = match must(Events, &text, 14)? {
            Val::Events(e) => e,
            _ => unreachable!(),
        };
        ch.note(|| format!("{text:?} and a command pushed {far} deep"));
        let c = gen::default_cmd(0, 77);
        let before = model[0].clone();
        let ok = far > 0 && attach(&mut model, far, c.clone());
        let lc = command(&c);
        use lib::events::Event as E;
        let r = crate::engine::no_panic("try_push_cmd", || match &mut x.0[0] {
            E::Background(e) => e.try_push_cmd(lc, far),
            E::Video(e) => e.try_push_cmd(lc, far),
            E::SpriteLegacy(e) => e.try_push_cmd(lc, far),
            E::AnimationLegacy(e) => e.try_push_cmd(lc, far),
            E::SampleLegacy(e) => e.try_push_cmd(lc, far),
            E::StoryboardObject(e) => e.try_push_cmd(lc, far),
            _ => unreachable!(),
        })?;
        ensure(r.is_ok() == ok, || format!("pushing a command {far} deep on {text:?} gives {r:?}"))?;
        let (got, want) = (view::events(&x), vec![model[0].value()]);
        ensure(got == want, || format!("after pushing a command {far} deep on {text:?}: {got:?} instead of {want:?}"))?;
        match r {
            Err(e) => indentation(&before, far, &e.to_string()),
            Ok(()) => Ok(()),
        }
    });
    ctx.space("commands pushed through the interface", 0, &|ch| push_cmds(ch, if deep() { 6 } else { 5 }));
}

fn deep() -> bool {
    crate::engine::thorough()
}

/// The same through `try_push_cmd`.
fn push_cmds(ch: &mut Ch, max: usize) -> R {
    use lib::events::EventWithCommands;
    let kind = *ch.of(&[0usize, 1, 4, 5, 6, 7]);
    let mut model = vec![gen::default_event(kind)];
    let text = model[0].head(14);
    let mut x = match must(Events, &text, 14)? {
        Val::Events(e) => e,
        _ => unreachable!(),
    };
    for n in 0..max {
        let k = ch.free(1 + 2 * 5);
        if k == 0 {
            break;
        }
        let (depth, kind) = ((k - 1) / 2, [0, 9][(k - 1) % 2]);
        let c = gen::default_cmd(kind, n as i32);
        let before = model.clone();
        let ok = depth > 0 && attach(&mut model, depth, c.clone());
        let lc = command(&c);
        use lib::events::Event as E;
        let r = crate::engine::no_panic("try_push_cmd", || match &mut x.0[0] {
            E::Background(e) => e.try_push_cmd(lc, depth),
            E::Video(e) => e.try_push_cmd(lc, depth),
            E::SpriteLegacy(e) => e.try_push_cmd(lc, depth),
            E::AnimationLegacy(e) => e.try_push_cmd(lc, depth),
            E::SampleLegacy(e) => e.try_push_cmd(lc, depth),
            E::StoryboardObject(e) => e.try_push_cmd(lc, depth),
            _ => unreachable!(),
        })?;
        ensure(r.is_ok() == ok, || format!("pushing {:?} at depth {depth} on {before:?} gives {r:?}", c.line()))?;
        let got = view::events(&x);
        let want: Vec<MEvent> = model.iter().map(|e| e.value()).collect();
        ensure(got == want, || format!("after pushing {:?} at depth {depth}: {got:?} instead of {want:?}", c.line()))?;
        if let Err(e) = r {
            indentation(&before[0], depth, &e.to_string())?;
        }
    }
    let text = print_events(&model, 14);
    ch.note(|| text.clone());
    prints("events", &text, 14, VersionedToString::to_string(&x, 14), &text)
}

/// The error for a misplaced command tells its indentation and one that would do.
fn indentation(e: &MEvent, depth: usize, msg: &str) -> R {
    let mut most = 1;
    let mut last = e.cmds.last();
    while let Some(MCmd { p: MProp::Loop(_, c) | MProp::Trigger(_, _, c), .. }) = last {
        most += 1;
        last = c.last();
    }
    let n: Vec<usize> = msg.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect();
    ensure(n.len() == 2 && n[1] == depth && (1..=most).contains(&n[0]), || {
        format!("a command is {depth} deep where at most {most} is possible, and the error is {msg:?}")
    })
}

/// The last line of a text is a command that has no place.
fn misplaced(text: &str, v: u8, model: &[MEvent], depth: usize) -> R {
    let bad = must_fail(Events, text, v, "its last command has no place")?;
    let at = text.lines().count() - 1;
    ensure(bad.line == at, || format!("{text:?} is rejected on line {} instead of {at}", bad.line))?;
    match model.last() {
        Some(e) if e.takes_commands() => indentation(e, depth, &bad.msg),
        _ => ensure(bad.msg.contains("without defined sprite"), || format!("{text:?}: the command has no event, and the error is {:?}", bad.msg)),
    }
}

/// A library command, read from its line below an event.
pub fn command(c: &MCmd) -> lib::events::storyboard::cmds::Command {
    use osu_file_parser::VersionedFromStr;
    lib::events::storyboard::cmds::Command::from_str(&c.line(), 14).unwrap().unwrap()
}

// ------------------------------------------------------------ objects and commands

pub fn c16(ctx: &mut Ctx) {
    ctx.space("sprites and animations", ctx.b(2, 3), &|ch| {
        let v = gen::version(ch);
        let kind = 7 + ch.free(2);
        let e = MEvent::new(gen::event_kind(ch, kind));
        read(ch, &e.head(v), v, &[e])
    });
    ctx.space("names of layers, origins and loop types", 0, &|ch| {
        let v = gen::version(ch);
        let layers = ["Background", "Fail", "Pass", "Foreground", "Overlay", "background", "0", "", "Video", "Overlay "];
        let l = ch.free(layers.len());
        let origins = [
            "TopLeft", "Centre", "CentreLeft", "TopRight", "BottomCentre", "TopCentre", "Custom", "CentreRight",
            "BottomLeft", "BottomRight", "Center", "", "centre", "x", "1.5",
        ];
        let o = ch.free(origins.len());
        let loops = ["LoopForever", "LoopOnce", "loopforever", "", "Once", "0", "LoopOnce "];
        let p = ch.free(loops.len() + 2);
        let mut text = format!("{},{},{},x.png,1,2", if p == 0 { "Sprite" } else { "Animation" }, layers[l], origins[o]);
        if p > 0 {
            text += ",3,4";
        }
        if p > 1 {
            text += ",";
            text += loops[p - 2];
        }
        let ok = l < 5 && o < 10 && (p < 4);
        if !ok {
            return rejected(ch, &text, v, "a field holds no name");
        }
        let (layer, origin, file, x, y) = (l as u8, MOrigin::Name(o as u8), "x.png".to_string(), D::int(1), D::int(2));
        let k = if p == 0 {
            MEventKind::Sprite { layer, origin, file, x, y }
        } else {
            MEventKind::Animation { layer, origin, file, x, y, count: 3, delay: D::int(4), once: p == 3 }
        };
        let e = MEvent::new(k);
        ch.note(|| format!("v{v} {text:?}"));
        check(Events, &text, v, &m_events(vec![e.clone()]), &e.head(v))?;
        Ok(())
    });
    ctx.space("fields of commands", ctx.b(2, 3), &|ch| {
        let kind = ch.free(gen::CMD_KINDS);
        let v = *ch.of(&[14u8, 3]);
        let mut e = gen::default_event(7);
        e.cmds.push(gen::cmd(ch, kind));
        let text = e.lines(v).join("\n");
        read(ch, &text, v, &[e])
    });
    ctx.space("every easing", 0, &|ch| {
        let kind = ch.free(9);
        let mut c = gen::default_cmd(kind, 10);
        let d = dom!(i32, Dom::new((-60..=120).chain([i32::MIN, i32::MAX, 255, 256, 1000]).collect(), vec![], vec![]));
        c.easing = *ch.dom(d);
        let mut e = gen::default_event(0);
        e.cmds.push(c);
        let text = e.lines(14).join("\n");
        read(ch, &text, 14, &[e])
    });
    ctx.space("every trigger", 0, &|ch| {
        let t = gen::trig_dom();
        let trig = t.all[ch.free(t.all.len())].clone();
        let v = *ch.of(&[14u8, 3]);
        let mut c = gen::default_cmd(10, 10);
        let shape = ch.free(8);
        c.start = (shape & 2 != 0).then_some(-7);
        c.end = (shape & 4 != 0).then_some(88);
        let group = (shape & 1 != 0).then_some(*ch.of(&[0, -1, i32::MAX]));
        c.p = MProp::Trigger(trig, group, vec![gen::default_cmd(0, 1)]);
        let mut e = gen::default_event(8);
        e.cmds.push(c);
        let text = e.lines(v).join("\n");
        read(ch, &text, v, &[e])
    });
    ctx.space("lengths of continuation lists", 0, &|ch| {
        let kind = ch.free(9);
        let n = ch.free(if crate::engine::thorough() { 200 } else { 40 });
        let sub = ch.free_flag();
        let mut c = gen::default_cmd(kind, 10);
        c.start = *ch.of(&[Some(10), None]);
        c.end = if c.start.is_some() { *ch.of(&[Some(20), None]) } else { None };
        match &mut c.p {
            MProp::One(_, v) => *v = (0..n + 1).map(|i| D::N(i as i128 * 3 - 5, 1)).collect(),
            MProp::Two(_, v) => *v = (0..n + 2).map(|i| D::N(i as i128 * 3 - 5, 1)).collect(),
            MProp::Colour(v) => *v = (0..n + 3).map(|i| (i * 37 % 256) as u8).collect(),
            MProp::Param(v) => *v = (0..n + 1).map(|i| ['H', 'V', 'A'][i % 3]).collect(),
            _ => unreachable!(),
        }
        let mut e = gen::default_event(7);
        if sub {
            let mut l = gen::default_cmd(9, 1);
            l.sub_mut().unwrap().push(c);
            e.cmds.push(l);
        } else {
            e.cmds.push(c);
        }
        let text = e.lines(14).join("\n");
        read(ch, &text, 14, &[e])
    });
    ctx.space("chains of loops and triggers", 0, &|ch| {
        let e = *ch.of(&[0usize, 7, 8]);
        let depth = ch.free(if crate::engine::thorough() { 130 } else { 40 }) + 1;
        // which of them are triggers
        let shape = ch.free(4);
        // siblings before the inner one, after it, both or none
        let side = ch.free(4);
        // where the siblings are
        let at = ch.free(3);
        let mut inner = gen::default_cmd(0, 9000);
        for d in (1..=depth).rev() {
            let trigger = match shape {
                0 => false,
                1 => true,
                2 => d % 2 == 0,
                _ => d == depth,
            };
            let mut l = gen::default_cmd(if trigger { 10 } else { 9 }, d as i32);
            let list = l.sub_mut().unwrap();
            let here = match at {
                0 => true,
                1 => d == 1 || d == depth,
                _ => d == depth.div_ceil(2),
            };
            if here && side & 1 != 0 {
                list.push(gen::default_cmd(1, 1000 + d as i32));
            }
            list.push(inner);
            if here && side & 2 != 0 {
                list.push(gen::default_cmd(2, 2000 + d as i32));
            }
            inner = l;
        }
        let mut ev = gen::default_event(e);
        ev.cmds = vec![inner, gen::default_cmd(3, 5)];
        let text = ev.lines(14).join("\n");
        read(ch, &text, 14, &[ev])
    });
    ctx.space("long lists of commands", 0, &|ch| {
        let n = *ch.of(gen::sizes());
        let parent = ch.free(5);
        let kind = ch.free(gen::CMD_KINDS);
        let (odd, at) = (ch.free(gen::CMD_KINDS), *ch.of(&[0, n / 2, n - 1]));
        let list: Vec<MCmd> = (0..n)
            .map(|i| {
                let mut c = gen::default_cmd(if i == at { odd } else { kind }, i as i32);
                if let Some(s) = c.sub_mut() {
                    s.push(gen::default_cmd(i % 9, i as i32));
                }
                c
            })
            .collect();
        let wrap = |kind: usize, list: Vec<MCmd>| {
            let mut l = gen::default_cmd(kind, 3);
            *l.sub_mut().unwrap() = list;
            vec![gen::default_cmd(1, 4), l, gen::default_cmd(2, 5)]
        };
        let mut ev = gen::default_event(7);
        ev.cmds = match parent {
            0 => list,
            1 => wrap(9, list),
            2 => wrap(10, list),
            3 => wrap(9, wrap(10, list)),
            _ => wrap(10, wrap(9, list)),
        };
        let next = gen::default_event(8);
        let text = format!("{}\n{}", ev.lines(14).join("\n"), next.lines(14).join("\n"));
        read(ch, &text, 14, &[ev, next])
    });
    ctx.space("every kind nested in every kind", 0, &|ch| {
        let a = 9 + ch.free(2);
        let b = ch.free(gen::CMD_KINDS);
        let c = ch.free(gen::CMD_KINDS);
        let ev = *ch.of(&[0usize, 1, 4, 5, 6, 7, 8]);
        let v = *ch.of(&[3u8, 14]);
        let mut x = gen::default_cmd(a, 5);
        let mut y = gen::default_cmd(b, 6);
        let z = gen::default_cmd(c, 7);
        let after = gen::default_cmd((b + 1) % 9, 8);
        match y.sub_mut() {
            Some(s) => {
                s.push(z);
                x.sub_mut().unwrap().push(y);
            }
            None => x.sub_mut().unwrap().extend([y, z]),
        }
        x.sub_mut().unwrap().push(after.clone());
        let mut e = gen::default_event(ev);
        e.cmds = vec![after.clone(), x, after];
        let text = e.lines(v).join("\n");
        read(ch, &text, v, &[e])
    });
    ctx.space("malformed commands", 0, &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let l = *ch.of(&[
            "F", "F,", "F,0", "F,0,1", "F,0,1,2", "F,x,1,2,0", "F,0,x,2,0", "F,0,1,x,0", "F,,1,2,0", "F,0.5,1,2,0",
            "F,0,1.5,2,0", "F,0,1,2.5,0", "F,2147483648,1,2,0", "F,0,2147483648,2,0", "F,0,1,-2147483649,0", "f,0,1,2,0",
            "FF,0,1,2,0", "MX,0,1,2", "MY,0,1,2", "M,0,1,2", "M,0,1,2,3", "MZ,0,1,2,3", "m,0,1,2,3,4", "S,0,1,2", "V,0,1,2",
            "V,0,1,2,1", "R,0,1,2", "C,0,1,2", "C,0,1,2,3", "C,0,1,2,3,4", "C,0,1,2,256,0,0", "C,0,1,2,0,-1,0",
            "C,0,1,2,0,0,x", "C,0,1,2,0,0,0,256", "C,0,1,2,0,0,0,1,256", "C,0,1,2,0,0,0,1,2,256", "C,0,1,2,0,0,1.5", "P,0,1,2",
            "P,0,1,2,", "P,0,1,2,X", "P,0,1,2,h", "P,0,1,2,H,X", "P,0,1,2,H,", "L", "L,", "L,x,3", "L,5", "L,5,", "L,5,x",
            "L,5,-1", "L,5,1.5", "L,5,4294967296", "T", "T,", "T,x", "T,passing", "T,HitSounds,1,2", "T,HitSoundX,1,2",
            "T,Passing,x,2", "T,Passing,1,x", "T,Passing,1,2,x", "T,Passing,1.5,2", "T,HitSound-1,1,2",
            "T,HitSoundAllNormalSoft,1,2", "T,HitSoundWhistleAll,1,2", "T,HitSoundWhistleClap,1,2",
            "T,HitSound99999999999999999999,1,2", "X,0,1,2,3", "", ",", "0,1,2", "é,0,1,2,3", "é", "F é,0,1,2,3",
        ]);
        let d = *ch.of(&[" ", "_"]);
        let text = format!("{}\n{d}{l}", gen::default_event(7).head(v));
        if l.is_empty() {
            // only the indentation is left; with a space this is a blank line
            if d == " " {
                return read(ch, &text, v, &[gen::default_event(7)]);
            }
        }
        ch.note(|| format!("v{v} {text:?} rejected"));
        let bad = must_fail(Events, &text, v, "the command is malformed")?;
        ensure(bad.line == 1, || format!("{text:?} is rejected on line {}", bad.line))
    });
}

// ------------------------------------------------------------ variables

/// A library storyboard built from model values.
pub fn c17(ctx: &mut Ctx) {
    let names: &[&str] = &["a", "b", "cd", "X1", "é"];
    // uses of variables: every subset of the fields of a command
    ctx.space("uses in commands", ctx.b(3, 4), &|ch| {
        let kind = ch.free(gen::CMD_KINDS);
        let mut e = gen::default_event(*ch.dev_of(&[7usize, 8, 0, 6]));
        let mut c = gen::default_cmd(kind, 500);
        if kind == 10 {
            c.p = MProp::Trigger(gen::trig_dom().all[ch.dev(40)].clone(), Some(2), vec![]);
        }
        let line = c.line();
        let fields: Vec<String> = line.split(',').map(|s| s.to_string()).collect();
        // which fields are variables, and whether they share one
        let mut vars: Vec<(String, String)> = Vec::new();
        let mut out = fields.clone();
        for i in 1..fields.len() {
            match ch.dev(3) {
                0 => {}
                k => {
                    let known = vars.iter().position(|(_, v)| *v == fields[i]);
                    let j = match (k, known) {
                        (1, Some(j)) => j,
                        _ if vars.len() < names.len() => {
                            vars.push((names[vars.len()].to_string(), fields[i].clone()));
                            vars.len() - 1
                        }
                        (_, Some(j)) => j,
                        _ => continue,
                    };
                    out[i] = format!("${}", vars[j].0);
                }
            }
        }
        // an unused variable, and the order of the definitions
        if ch.flag() {
            vars.push(("unused".into(), "12345".into()));
        }
        if ch.flag() {
            vars.reverse();
        }
        let depth = ch.dev(2);
        let mut lines = vec![e.head(14)];
        if depth == 1 {
            let mut l = gen::default_cmd(9, 3);
            lines.push(format!(" {}", l.line()));
            lines.push(format!("  {}", out.join(",")));
            l.sub_mut().unwrap().push(c);
            e.cmds.push(l);
        } else {
            lines.push(format!(" {}", out.join(",")));
            e.cmds.push(c);
        }
        let text = format!("[Variables]\n{}\n\n[Events]\n{}", join(&vars, |(n, v)| format!("${n}={v}")), lines.join("\n"));
        variables_read(ch, &text, vars, vec![e])
    });
    ctx.space("parts of fields and several fields in one variable", 0, &|ch| {
        // (the line with variables, the values, the line without)
        let cases: &[(&str, &[(&str, &str)], &str)] = &[
            ("F,0,$a0,$b,1", &[("a", "50"), ("b", "900")], "F,0,500,900,1"),
            ("F,$t,0.5,1", &[("t", "0,500,550")], "F,0,500,550,0.5,1"),
            ("F,0$t1", &[("t", ",500,550,0.5,")], "F,0,500,550,0.5,1"),
            ("M,0,500,550,$p", &[("p", "1,2.5,3,-4")], "M,0,500,550,1,2.5,3,-4"),
            ("M,0,500,550,$x,$x,$y,$y", &[("x", "1"), ("y", "-4")], "M,0,500,550,1,1,-4,-4"),
            ("M,0,500,550,$x.$x,1$x,$x$x,-$x", &[("x", "1")], "M,0,500,550,1.1,11,11,-1"),
            ("T,$t,1,2", &[("t", "HitSoundAll")], "T,HitSoundAll,1,2"),
            ("T,HitSound$t,1,2", &[("t", "DrumWhistle5")], "T,HitSoundDrumWhistle5,1,2"),
            ("L,$a,$b", &[("a", "7"), ("b", "9")], "L,7,9"),
            ("P,0,1,2,$p", &[("p", "H,V")], "P,0,1,2,H,V"),
            ("C,0,1,2,$c", &[("c", "255,0,128")], "C,0,1,2,255,0,128"),
            ("S,0,1,2,$é", &[("é", "é")], "S,0,1,2,é"),
            ("S,0,1,2,$ab$a b", &[("a b", "7"), ("ab", "8")], "S,0,1,2,87"),
            ("F,0,$s,$e,1", &[("s", "-5"), ("e", "")], "F,0,-5,,1"),
            ("R,0,1,2,$r", &[("r", "1=2")], "R,0,1,2,1=2"),
        ];
        let (with, vars, plain) = cases[ch.free(cases.len())];
        let mut vars: Vec<(String, String)> = vars.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        if ch.free_flag() {
            vars.reverse();
        }
        if ch.free_flag() {
            vars.insert(0, ("other".into(), "123".into()));
        }
        let twice = ch.free_flag();
        let blank = ch.free_flag();
        let e = gen::default_event(7);
        // the line without variables is read by the library itself
        let plain_text = format!("{}\n {plain}{}", e.head(14), if twice { format!("\n {plain}") } else { String::new() });
        let want = must(Events, &plain_text, 14)?.view().events.unwrap();
        let text = format!(
            "[Variables]\n{}{}[Events]\n{}\n {with}{}",
            join(&vars, |(n, v)| format!("${n}={v}")),
            if blank { "\n\n\n" } else { "\n" },
            e.head(14),
            if twice { format!("\n {with}") } else { String::new() }
        );
        variables_read(ch, &text, vars, want)
    });
    ctx.space("many variables, one or two of them used", 0, &|ch| {
        let max = if deep() { 40 } else { 20 };
        let n = *ch.of(&[1usize, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 20, 26, 31, 32, 33, 40]);
        if n > max {
            return Ok(());
        }
        // one letter each, or names none of which starts with another
        let long = ch.free_flag();
        let vars: Vec<(String, String)> = (0..n)
            .map(|i| {
                let c = char::from_u32('A' as u32 + i as u32 + if i > 25 { 6 } else { 0 }).unwrap();
                (if long { format!("{c}name") } else { c.to_string() }, format!("{}", 100 + i))
            })
            .collect();
        let (i, j) = (ch.free(n), ch.free(n));
        let swapped = ch.free_flag();
        let defs = if swapped { vars.iter().rev().cloned().collect() } else { vars.clone() };
        let mut e = gen::default_event(7);
        let cmd = |a: usize, b: usize| MCmd {
            easing: 0,
            start: Some(100 + a as i32),
            end: Some(5000),
            p: MProp::One("F", vec![D::int(1), D::int(100 + b as i128)]),
        };
        e.cmds = vec![cmd(i, j)];
        let text = format!(
            "[Variables]\n{}\n\n[Events]\n{}\n F,0,${},5000,1,${}",
            join(&defs, |(n, v)| format!("${n}={v}")),
            e.head(14),
            vars[i].0,
            vars[j].0
        );
        variables_read(ch, &text, defs, vec![e])
    });
    ctx.space("long lists of variables", 0, &|ch| {
        // names of the same length, none of which is in another
        let n = *ch.of(gen::sizes());
        let vars: Vec<(String, String)> = (0..n).map(|i| (format!("v{i:04}"), format!("{}", 1000 + i))).collect();
        let down = ch.free_flag();
        let defs: Vec<_> = if down { vars.iter().rev().cloned().collect() } else { vars.clone() };
        // which of them is used first, and how many of those after it
        let from = *ch.of(&[0, n / 2, n - 1]);
        // (every command is searched for every variable)
        let used = *ch.of(&[1, 2, n.min(300)]);
        let sub = ch.free_flag();
        let mut cmds = Vec::new();
        let mut lines = Vec::new();
        for k in 0..used {
            let (a, b) = ((from + k) % n, (from + k * 7 + 1) % n);
            cmds.push(MCmd { easing: 0, start: Some(1000 + a as i32), end: Some(50000), p: MProp::One("F", vec![D::int(1), D::int(1000 + b as i128)]) });
            lines.push(format!("F,0,${},50000,1,${}", vars[a].0, vars[b].0));
        }
        let mut e = gen::default_event(7);
        let mut text = format!("[Variables]\n{}\n\n[Events]\n{}\n", join(&defs, |(n, v)| format!("${n}={v}")), e.head(14));
        if sub {
            let mut l = gen::default_cmd(9, 2);
            text += &format!(" {}\n", l.line());
            text += &join(&lines, |l| format!("  {l}"));
            *l.sub_mut().unwrap() = cmds;
            e.cmds = vec![l];
        } else {
            text += &join(&lines, |l| format!(" {l}"));
            e.cmds = cmds;
        }
        variables_read(ch, &text, defs, vec![e])
    });
    ctx.space("variables put back", 0, &|ch| {
        let kinds: Vec<usize> = (0..gen::EVENT_KINDS).filter(|k| gen::default_event(*k).takes_commands()).collect();
        let head = gen::default_event(*ch.of(&kinds)).head(14);
        // no field of a command is part of another
        let cmds: &[&str] = &[
            "F,9,2222,3333,44", "F,9,2222,3333,44,55,66", "F,9,2222,,0.5", "F,9,,,4.4", "M,9,2222,3333,44,55", "M,9,2222,3333,44,-55,66,7.7", "M,9,2222,3333,44,55,66",
            "MX,9,2222,3333,44,55", "MY,9,-2222,-3333,44", "S,9,2222,3333,44,5.5,66", "V,9,2222,3333,44,55,66,77", "R,9,2222,3333,4.4,55",
            "C,9,2222,3333,44,55,66", "C,9,2222,3333,44,55,66,77,88,111", "P,9,2222,3333,H", "P,9,2222,3333,V,A", "L,2222,33", "T,Passing,2222,3333,44",
            "T,HitSoundDrumWhistle5,2222,3333", "T,HitSound,2222,3333,-44", "T,Failing",
        ];
        let fields: Vec<&str> = ch.of(cmds).split(',').collect();
        let n = fields.len();
        // which fields are variables; two that follow each other may be one
        let mut out: Vec<String> = vec![fields[0].to_string()];
        let mut vars: Vec<(String, String)> = Vec::new();
        let names: &[&str] = if ch.free_flag() { &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"] } else { &["Start1", "sp ace", "_", "Ünï", "x.y", "1", "end", "q-", "ZZ", "k"] };
        let mut i = 1;
        let mut used = 0;
        while i < n {
            let most = if deep() { 4 } else { 3 };
            let pick = if used < most && !fields[i].is_empty() { ch.free(if i + 1 < n && !fields[i + 1].is_empty() { 3 } else { 2 }) } else { 0 };
            let value = match pick {
                0 => None,
                1 => Some(fields[i].to_string()),
                _ => Some(format!("{},{}", fields[i], fields[i + 1])),
            };
            match value {
                None => out.push(fields[i].to_string()),
                Some(v) => {
                    used += 1;
                    out.push(format!("${}", names[vars.len()]));
                    vars.push((names[vars.len()].to_string(), v));
                }
            }
            i += if pick == 2 { 2 } else { 1 };
        }
        if ch.free_flag() {
            vars.insert(0, ("unused".into(), "99999".into()));
        }
        if ch.free_flag() {
            vars.reverse();
        }
        let line = out.join(",");
        let body = match ch.free(4) {
            0 => format!(" {line}"),
            1 => format!(" {line}\n {line}"),
            2 => format!(" L,1010,8\n  {line}"),
            _ => format!(" L,1010,8\n  L,1010,10\n   {line}\n {line}"),
        };
        let text = format!("[Variables]\n{}\n\n[Events]\n{head}\n{body}\n//end", join(&vars, |(n, v)| format!("${n}={v}")));
        ch.note(|| format!("{text:?}"));
        if vars.is_empty() {
            return Ok(());
        }
        let x = must(Osb, &text, 14)?;
        prints("storyboard", &text, 14, x.print(14), &text)
    });
    ctx.space("variables that nothing uses", 0, &|ch| {
        let n = ch.free(4);
        let vals = ["1", "0", "0.5", "500", "F", "", "550,0.5", " ", "$a"];
        let vars: Vec<(String, String)> =
            (0..n).map(|i| (names[i].to_string(), vals[ch.free(vals.len())].to_string())).collect();
        let mut e = gen::default_event(7);
        e.cmds = (0..gen::CMD_KINDS).map(|k| gen::default_cmd(k, 500)).collect();
        let text = format!(
            "[Variables]\n{}\n\n[Events]\n{}",
            join(&vars, |(n, v)| format!("${n}={v}")),
            e.lines(14).join("\n")
        );
        variables_read(ch, &text, vars, vec![e])
    });
    ctx.space("only commands expand variables", 0, &|ch| {
        let kind = *ch.of(&[0usize, 7, 8, 9, 10, 4]);
        let mut e = gen::default_event(kind);
        let f = "a$a.png".to_string();
        use MEventKind as K;
        match &mut e.k {
            K::Background { file, .. }
            | K::Sprite { file, .. }
            | K::Animation { file, .. }
            | K::Audio { file, .. }
            | K::SpriteLegacy { file, .. } => *file = f,
            K::Comment(c) => *c = "uses $a".into(),
            _ => unreachable!(),
        }
        let vars = vec![("a".to_string(), ch.of(&["1", "png", "a"]).to_string())];
        let text = format!("[Variables]\n$a={}\n\n[Events]\n{}", vars[0].1, e.head(14));
        variables_read(ch, &text, vars, vec![e])
    });
    ctx.space("definitions", 0, &|ch| {
        let n = ch.free(5);
        let pool = [
            ("a", "1"), ("", "x"), ("a b", ""), ("a", "2"), ("é", "日本"), ("x", "a=b=c"), ("x", " 1 "), ("$y", "$z"), ("1", "[a]"), ("//", "//"),
        ];
        let vars: Vec<(String, String)> = (0..n)
            .map(|_| {
                let (a, b) = pool[ch.free(pool.len())];
                (a.to_string(), b.to_string())
            })
            .collect();
        let events = ch.free_flag();
        let mut text = format!("[Variables]\n{}", join(&vars, |(n, v)| format!("${n}={v}")));
        if events {
            text += "\n\n[Events]\n";
        }
        ch.note(|| format!("{text:?}"));
        let want = MOsb { variables: Some(vars), events: events.then(Vec::new) };
        let x = must(Osb, &text, 14)?;
        same("storyboard", &text, 14, &x.view().osb.unwrap(), &want)?;
        let printed = x.print(14).unwrap_or_default();
        // without commands nothing can be replaced
        let mut p = want.print();
        if want.variables.as_ref().unwrap().is_empty() && !events {
            p = "[Variables]\n".into();
        }
        ensure(printed == p, || format!("{text:?} is printed as {printed:?}"))
    });
    ctx.space("malformed definitions", 0, &|ch| {
        let bad = *ch.of(&["a=1", "$a", "=1", "$", "x", "a", " $a=1", "\\$a=1", "é", "[", "_$a=1"]);
        let before = ch.free(3);
        let mut lines = vec!["[Variables]".to_string()];
        for i in 0..before {
            lines.push(format!("$v{i}={i}"));
        }
        if ch.free_flag() {
            lines.push(String::new());
        }
        let n = lines.len();
        lines.push(bad.into());
        // blanks between a header and the first line belong to the header
        if bad.starts_with(' ') && before == 0 {
            return Ok(());
        }
        let text = format!("{}\n\n[Events]\n//x", lines.join("\n"));
        ch.note(|| format!("{text:?} rejected"));
        let b = must_fail(Osb, &text, 14, "a variable is malformed")?;
        ensure(b.line == n, || format!("{text:?} is rejected on line {} instead of {n}", b.line))
    });
    ctx.space("printing never changes what is read", 0, &|ch| {
        // values that occur inside fields, are prefixes of each other, or contain separators
        let vals = ["1", "0", "50", "500", "0,500", ",", "", "5", "00", "H", "Pas", "$", "$a", "e", "1,", "F", "L"];
        let names = ["a", "ab", "abc", "", "b"];
        let n = ch.free(3);
        let vars: Vec<(String, String)> = (0..n)
            .map(|_| (names[ch.free(names.len())].to_string(), vals[ch.free(vals.len())].to_string()))
            .collect();
        let kind = ch.free(gen::CMD_KINDS);
        let mut e = gen::default_event(7);
        let c = gen::default_cmd(kind, 500);
        e.cmds.push(c);
        let plain = e.lines(14).join("\n");
        let Val::Events(ev) = must(Events, &plain, 14)? else { unreachable!() };
        let o = lib::Osb {
            variables: Some(
                vars.iter().map(|(n, v)| lib::osb::Variable { name: n.clone(), value: v.clone() }).collect(),
            ),
            events: Some(ev),
        };
        let printed = o.to_string(14).unwrap_or_default();
        ch.note(|| format!("{vars:?} {plain:?} -> {printed:?}"));
        let back = must(Osb, &printed, 14)?;
        let want = MOsb { variables: Some(vars), events: Some(vec![e]) };
        same("storyboard", &printed, 14, &back.view().osb.unwrap(), &want)
    });
    ctx.space("below version 14 there is no storyboard", 0, &|ch| {
        let v = ch.free(11) as u8 + 3;
        let text = ch.of(&["", "[Variables]\n$a=1\n\n[Events]\n//x", "[Events]\n", "[x"]).to_string();
        ch.note(|| format!("v{v} {text:?}"));
        let r = Osb.parse(&text, v);
        ensure(matches!(r, Ok(None)), || format!("{text:?} at version {v} is read as {r:?}"))?;
        let x = must(Osb, "[Variables]\n$a=1\n\n[Events]\n//x", 14)?;
        ensure(x.print(v).is_none(), || format!("a storyboard is printed at version {v}"))
    });
}

/// Reads a storyboard with variables, prints it and reads it again.
fn variables_read(ch: &mut Ch, text: &str, vars: Vec<(String, String)>, events: Vec<MEvent>) -> R {
    ch.note(|| format!("{text:?}"));
    let want = MOsb { variables: Some(vars), events: Some(events.iter().map(|e| e.value()).collect()) };
    let x = must(Osb, text, 14)?;
    same("storyboard", text, 14, &x.view().osb.unwrap(), &want)?;
    let printed = x.print(14).unwrap_or_default();
    ch.note(|| format!("printed {printed:?}"));
    let defs = format!("[Variables]\n{}\n\n[Events]\n", join(want.variables.as_ref().unwrap(), |(n, v)| format!("${n}={v}")));
    ensure(printed.starts_with(&defs), || format!("{text:?} is printed with other definitions: {printed:?}"))?;
    let back = must(Osb, &printed, 14)?;
    same("printed storyboard", &printed, 14, &back.view().osb.unwrap(), &want)
}
