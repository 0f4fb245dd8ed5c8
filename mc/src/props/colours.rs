//! C18: colour lines.

use crate::engine::{Ch, Ctx, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::num::*;
use crate::report::ensure;

fn read(ch: &mut Ch, text: &str, v: u8, want: &[MColour]) -> R {
    ch.note(|| format!("v{v} {text:?}"));
    check(Colours, text, v, &m_colours(want.to_vec()), &join(want, |c| c.print()))?;
    Ok(())
}
fn rejected(ch: &mut Ch, text: &str, v: u8, why: &str) -> R {
    ch.note(|| format!("v{v} {text:?} rejected: {why}"));
    must_fail(Colours, text, v, why)?;
    Ok(())
}
fn kinds(rgb: [u8; 3]) -> [MColour; 4] {
    [MColour::Combo(1, rgb), MColour::Track(rgb), MColour::Border(rgb), MColour::Combo(12, rgb)]
}
fn version(ch: &mut Ch) -> u8 {
    VERSIONS[ch.free(10) + 2]
}

pub fn c18(ctx: &mut Ctx) {
    ctx.space("every component value", 0, &|ch| {
        let v = version(ch);
        let k = ch.free(4);
        let at = ch.free(3);
        let n = ch.free(1100) as i32 - 50;
        let mut c = [7i32, 80, 200];
        c[at] = n;
        let name = kinds([0; 3])[k].name();
        let text = format!("{name} : {},{},{}", c[0], c[1], c[2]);
        if (0..=255).contains(&n) {
            read(ch, &text, v, &[kinds(c.map(|x| x as u8))[k].clone()])
        } else {
            rejected(ch, &text, v, "a component is outside 0 to 255")
        }
    });
    ctx.space("every pair of components", 0, &|ch| {
        let k = ch.free(3);
        let (i, j) = *ch.of(&[(0, 1), (0, 2), (1, 2)]);
        let step = if crate::engine::thorough() { 1 } else { 5 };
        let a = ch.free(255 / step + 1) * step;
        let b = ch.free(255 / step + 1) * step;
        let mut c = [128u8; 3];
        c[i] = a as u8;
        c[j] = b as u8;
        let c = kinds(c)[k].clone();
        read(ch, &c.print(), 14, &[c])
    });
    ctx.space("spacing", ctx.b(4, 6), &|ch| {
        let v = *ch.of(&[5u8, 9, 14]);
        let k = ch.free(4);
        let lines = ch.free(2) + 1;
        let mut text = String::new();
        let mut want = Vec::new();
        let sp = ["", " ", "\t", "   ", " \t "];
        for l in 0..lines {
            let c = kinds([255, l as u8, 33])[(k + l) % 4].clone();
            let s = |ch: &mut Ch| sp[ch.dev(sp.len())];
            let [r, g, b] = c.rgb();
            // blanks before the first line of a section belong to the header
            let lead = if l > 0 { s(ch) } else { "" };
            let t = format!(
                "{lead}{}{}:{}{r}{},{}{g}{},{}{b}{}",
                c.name(),
                s(ch),
                s(ch),
                s(ch),
                s(ch),
                s(ch),
                s(ch),
                s(ch)
            );
            if l > 0 {
                text.push('\n');
            }
            text += &t;
            want.push(c);
        }
        read(ch, &text, v, &want)
    });
    ctx.space("names", 0, &|ch| {
        let v = version(ch);
        let rgb = [9, 8, 7];
        let names: &[(&str, Option<MColour>)] = &[
            ("Combo0", Some(MColour::Combo(0, rgb))),
            ("Combo1", Some(MColour::Combo(1, rgb))),
            ("Combo01", Some(MColour::Combo(1, rgb))),
            ("Combo8", Some(MColour::Combo(8, rgb))),
            ("Combo9", Some(MColour::Combo(9, rgb))),
            ("Combo10", Some(MColour::Combo(10, rgb))),
            ("Combo255", Some(MColour::Combo(255, rgb))),
            ("Combo256", Some(MColour::Combo(256, rgb))),
            ("Combo2147483647", Some(MColour::Combo(i32::MAX, rgb))),
            ("SliderTrackOverride", Some(MColour::Track(rgb))),
            ("SliderBorder", Some(MColour::Border(rgb))),
            ("Combo2147483648", None),
            ("Combo4294967297", None),
            ("Combo", None),
            ("Combo-1", None),
            ("Combo+1", None),
            ("Combo 1", None),
            ("Combo1 2", None),
            ("Combo1x", None),
            ("ComboA", None),
            ("Comb1", None),
            ("combo1", None),
            ("COMBO1", None),
            ("1", None),
            ("", None),
            ("Sliderborders", None),
            ("SliderBorder1", None),
            ("sliderborder", None),
            ("SliderTrack", None),
            ("SliderTrackOverrides", None),
            ("slidertrackoverride", None),
            ("SliderBody", None),
            ("é", None),
            ("//Combo1", None),
        ];
        let (n, c) = &names[ch.free(names.len())];
        let sep = *ch.of(&[" : ", ":", ": "]);
        let text = format!("{n}{sep}9,8,7");
        match c {
            Some(c) => read(ch, &text, v, &[c.clone()]),
            None => rejected(ch, &text, v, "no colour has this name"),
        }
    });
    ctx.space("every combo number", 0, &|ch| {
        let n = ch.free(if crate::engine::thorough() { 100_000 } else { 3000 });
        let c = MColour::Combo(n as i32, [1, 2, 3]);
        read(ch, &c.print(), 14, &[c])
    });
    ctx.space("fields", ctx.b(3, 5), &|ch| {
        let c = gen::colour(ch);
        let v = version(ch);
        read(ch, &c.print(), v, &[c])
    });
    ctx.space("lists", 0, &|ch| {
        let v = *ch.of(&[5u8, 14]);
        let n = ch.free(if crate::engine::thorough() { 7 } else { 6 });
        let alphabet = [
            MColour::Combo(1, [255, 0, 1]),
            MColour::Combo(2, [2, 3, 4]),
            MColour::Combo(1, [9, 9, 9]),
            MColour::Track([5, 6, 7]),
            MColour::Border([5, 6, 7]),
        ];
        let list: Vec<MColour> = (0..n).map(|_| ch.of(&alphabet).clone()).collect();
        read(ch, &join(&list, |c| c.print()), v, &list)
    });
    ctx.space("long lists", 0, &|ch| {
        let n = *ch.of(gen::sizes());
        let v = if n > 300 { *ch.of(&[5u8, 14]) } else { version(ch) };
        // the numbers of the combos: up, down, all the same, two by turns, far apart
        let order = ch.free(5);
        let mut list: Vec<MColour> = (0..n)
            .map(|i| {
                let k = match order {
                    0 => i + 1,
                    1 => n - i,
                    2 => 3,
                    3 => 1 + i % 2,
                    _ => (i * 7919) % 100000,
                };
                MColour::Combo(k as i32, [i as u8, (i >> 8) as u8, 7])
            })
            .collect();
        // and one or two of the others among them
        let at = [0, 1, n / 2, n - 1, n];
        if n > 600 && order > 1 {
            return Ok(());
        }
        for k in 0..2 {
            match ch.free(3) {
                0 => {}
                1 => list.insert(*ch.of(&at), MColour::Track([1, 2, 3 + k])),
                _ => list.insert(*ch.of(&at), MColour::Border([4, 5, 6 + k])),
            }
        }
        read(ch, &join(&list, |c| c.print()), v, &list)
    });
    ctx.space("malformed lines", 0, &|ch| {
        let v = version(ch);
        let k = ch.free(4);
        let name = kinds([0; 3])[k].name();
        let rest = *ch.of(&[
            "", " ", " :", " : ", " : 1", " : 1,", " : 1,2", " : 1,2,", " : ,2,3", " : 1,,3", " : 1,2,3,4", " : 1,2,3,",
            " : 1;2;3", " : 1 2 3", " 1,2,3", " = 1,2,3", " :: 1,2,3", " : x,2,3", " : 1,x,3", " : 1,2,x", " : 1.5,2,3",
            " : 1,2.0,3", " : 1,2,3.0", " : -1,2,3", " : 1,-2,3", " : 1,2,-3", " : 0x1,2,3", " : 1,0x2,3", " : 1,2,0x3",
            " : é,2,3", " : 1,é,3", " : 1,2,é", " : 256,2,3", " : 1,256,3", " : 1,2,256", " : 1,2,3 x", " : 1,2,3 4",
            " : 1 1,2,3", " : 1,2 2,3", " : 99999999999,2,3", " : 1,99999999999,3", " : 1,2,99999999999", ",1,2,3", " : (1,2,3)",
            " : #010203",
        ]);
        // between good lines or alone
        let before = ch.free(3);
        let after = ch.free(2);
        let good = |i: usize| MColour::Combo(i as i32 + 1, [1, 2, 3]).print();
        let mut lines: Vec<String> = (0..before).map(good).collect();
        lines.push(format!("{name}{rest}"));
        lines.extend((0..after).map(good));
        let text = lines.join("\n");
        ch.note(|| format!("v{v} {text:?} rejected"));
        let bad = must_fail(Colours, &text, v, "a line is malformed")?;
        ensure(bad.line == before, || format!("{text:?} at version {v} is rejected on line {} instead of {before}", bad.line))
    });
    ctx.space("other texts of a component", 0, &|ch| {
        // spelled with leading zeros
        let v = version(ch);
        let k = ch.free(4);
        let at = ch.free(3);
        let mut f = ["1".to_string(), "2".into(), "3".into()];
        let n = ch.free(256);
        f[at] = format!("{}{n}", ["0", "00", "000"][ch.free(3)]);
        let mut c = [1u8, 2, 3];
        c[at] = n as u8;
        let c = kinds(c)[k].clone();
        let text = format!("{} : {}", c.name(), f.join(","));
        ch.note(|| format!("v{v} {text:?}"));
        check(Colours, &text, v, &m_colours(vec![c.clone()]), &c.print())?;
        ensure(is_u8(&f[at]).is_some(), || "not a number".into())
    });
}
