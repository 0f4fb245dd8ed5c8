//! C12, C13: timing points.

use crate::dom;
use crate::engine::{Ch, Ctx, Fail, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::num::*;
use crate::report::ensure;
use crate::view;
use osu_file_parser as lib;
use osu_file_parser::timingpoints as tp;
use osu_file_parser::{VersionedFrom, VersionedToString};

/// Whether a line with `n` fields is one of the layouts of the version.
pub fn legal_count(v: u8, n: usize) -> bool {
    match v {
        3 => n == 2,
        4 => n == 5 || n == 6,
        5 => (6..=8).contains(&n),
        _ => n == 6 || n == 8,
    }
}

fn line(ch: &mut Ch, text: &str, v: u8, want: &MTiming) -> R {
    ch.note(|| format!("v{v} {text:?}"));
    check(Timing, text, v, &m_timing(vec![want.clone()]), &want.print(v))?;
    Ok(())
}

fn any_timing(ch: &mut Ch) -> MTiming {
    MTiming {
        time: ch.dom(gen::d_time()).clone(),
        beat: ch.dom(dom!(D, dec_dom("-133.75"))).clone(),
        meter: *ch.dom(dom!(i32, i32_dom(5))),
        set: *ch.dom(dom!(i32, i32_dom(2))),
        index: *ch.dom(dom!(u32, u32_dom(7))),
        volume: *ch.dom(dom!(i32, i32_dom(65))),
        uninherited: Some(ch.dev(2) == 1),
        effects: Some(*ch.dom(dom!(u32, u32_dom(9)))),
    }
}

pub fn c12(ctx: &mut Ctx) {
    ctx.space("number of fields", ctx.b(2, 3), &|ch| {
        let v = gen::version(ch);
        let n = ch.free(9) + 1;
        let m = any_timing(ch);
        let mut f = m.fields(v).to_vec();
        f.push("1".into());
        let text = f[..n].join(",");
        if legal_count(v, n) {
            line(ch, &text, v, &m.first(n))
        } else if v == 3 && n > 2 {
            // the beat length is the rest of the line
            let mut w = m.first(2);
            w.beat = D::R(f[1..n].join(","));
            line(ch, &text, v, &w)
        } else {
            ch.note(|| format!("v{v} {text:?} rejected"));
            must_fail(Timing, &text, v, &format!("a timing point has no layout with {n} fields"))?;
            Ok(())
        }
    });
    ctx.space("printed at every version", ctx.b(2, 2), &|ch| {
        let v = gen::version(ch);
        let n = *ch.of(&[6usize, 7, 8]);
        let m = any_timing(ch);
        let from = if n == 7 { 5 } else { 14 };
        let text = m.fields(from)[..n].join(",");
        let m = m.first(n);
        ch.note(|| format!("v{from} {text:?} printed at v{v}"));
        let x = must(Timing, &text, from)?;
        same("timing point", &text, from, &x.view(), &m_timing(vec![m.clone()]))?;
        prints("timing point", &text, v, x.print(v), &m.print(v))
    });
    ctx.space("malformed fields", 0, &|ch| {
        let v = gen::version(ch);
        let n = ch.free(8) + 1;
        if v == 3 || !legal_count(v, n) {
            return Ok(());
        }
        let m = MTiming { uninherited: Some(true), effects: Some(1), ..gen::default_timing(1) };
        let mut f = m.fields(v).to_vec();
        // time and beat length may be any text
        let i = 2 + ch.free(n - 2);
        let tokens: &[&str] = &[
            "", " ", "x", "1.5", "1.0", " 1", "1 ", "0x1", "1e1", "é", "--1", "-", "+", "4294967296", "99999999999999999999",
            "-4294967297", "-1", "2147483648", "-2147483649", "2", "4294967295", "true",
        ];
        let t = *ch.of(tokens);
        let ok = match i {
            2 | 3 | 5 => is_i32(t).is_some(),
            4 | 7 => is_u32(t).is_some(),
            _ => matches!(is_i32(t), Some(0 | 1)),
        };
        f[i] = t.into();
        let text = f[..n].join(",");
        if ok {
            let mut w = m.first(n);
            match i {
                2 => w.meter = t.parse().unwrap(),
                3 => w.set = t.parse().unwrap(),
                4 => w.index = t.parse().unwrap(),
                5 => w.volume = t.parse().unwrap(),
                7 => w.effects = Some(t.parse().unwrap()),
                _ => unreachable!(),
            }
            line(ch, &text, v, &w)
        } else {
            ch.note(|| format!("v{v} {text:?} rejected"));
            must_fail(Timing, &text, v, &format!("field {i} holds {t:?}"))?;
            Ok(())
        }
    });
    ctx.space("flags in other spellings", 0, &|ch| {
        let v = *ch.of(&[5u8, 6, 10, 14]);
        let (t, b) = *ch.of(&[("0", false), ("1", true), ("00", false), ("01", true), ("+1", true)]);
        let effects = ch.free(300) as u32;
        let m = MTiming { uninherited: Some(b), effects: Some(effects), ..gen::default_timing(1) };
        let mut f = m.fields(v).to_vec();
        f[6] = t.into();
        line(ch, &f.join(","), v, &m)
    });
}

pub fn f(d: &D) -> f64 {
    d.text().parse().unwrap()
}
fn lf(d: &rust_decimal::Decimal) -> f64 {
    d.to_string().parse().unwrap()
}
fn near(got: f64, want: f64) -> bool {
    (got - want).abs() <= 1e-9 * want.abs() + 1e-20
}

fn speed(m: &MTiming, t: &tp::TimingPoint, text: &str) -> R {
    let (bpm, sv) = (t.calc_bpm(), t.calc_slider_velocity_multiplier());
    let uninherited = m.uninherited.unwrap_or(true);
    let usable = matches!(m.beat, D::N(x, _) if x != 0);
    let want_bpm = (uninherited && usable).then(|| 60000.0 / f(&m.beat));
    let want_sv = (!uninherited && usable).then(|| -100.0 / f(&m.beat));
    for (what, got, want) in [("BPM", bpm, want_bpm), ("slider velocity", sv, want_sv)] {
        let ok = match (&got, want) {
            (None, None) => true,
            (Some(g), Some(w)) => near(lf(g), w),
            _ => false,
        };
        ensure(ok, || format!("the {what} of {text:?} is {got:?} instead of {want:?}"))?;
    }
    Ok(())
}

/// Beat lengths for which the quotients are far from the limits of a decimal.
fn beats(thorough: bool) -> Vec<D> {
    let mut v = Vec::new();
    let n = if thorough { 20000 } else { 3000 };
    for m in -n..=n {
        for s in 0..=4u32 {
            v.push(D::N(m, s));
        }
    }
    for e in 0..=12u32 {
        for m in 1..=99 {
            v.push(D::N(m * 10i128.pow(e), 0));
            v.push(D::N(-m * 10i128.pow(e), 0));
        }
    }
    for s in 0..=15u32 {
        let x = 123456789012345678;
        v.push(D::N(x, s));
        v.push(D::N(-x, s));
        if s <= 8 {
            v.push(D::N(1, s));
            v.push(D::N(-1, s));
        }
    }
    for t in ["0.00", "0.0000000000", "333.333333333333", "-133.333333333333", "461.538461538462", "NaN", "1e5", "x", "Infinity"] {
        v.push(D::new(t));
    }
    v.push(D::R(String::new()));
    v
}

fn some_fields() -> (tp::SampleSet, tp::SampleIndex, tp::Volume, tp::Effects) {
    (
        tp::SampleSet::Soft,
        <tp::SampleIndex as VersionedFrom<u32>>::from(3, 14).unwrap(),
        tp::Volume::new(61, 14).unwrap(),
        tp::Effects::new(true, false),
    )
}

pub fn c13(ctx: &mut Ctx) {
    let all = beats(ctx.thorough());
    let all = &all;
    ctx.space("speed of lines", 0, &|ch| {
        let v = gen::version(ch);
        let b = ch.of(all).clone();
        let n = *ch.of(match v {
            3 => &[2][..],
            4 => &[5, 6],
            5 => &[6, 7, 8],
            _ => &[6, 8],
        });
        let mut m = gen::default_timing(0);
        m.beat = b;
        if n > 6 {
            m.uninherited = Some(ch.free_flag());
        }
        let text = m.fields(v)[..n].join(",");
        let m = m.first(n);
        ch.note(|| format!("v{v} {text:?}"));
        match must(Timing, &text, v)? {
            Val::Timing(t) => {
                ensure(t.0.len() == 1, || format!("{text:?} is one timing point"))?;
                speed(&m, &t.0[0], &text)
            }
            _ => unreachable!(),
        }
    });
    ctx.space("the other fields do not matter", ctx.b(2, 3), &|ch| {
        let v = *ch.of(&[5u8, 6, 14]);
        let mut m = any_timing(ch);
        m.beat = D::new("-66.6");
        let text = m.fields(v).join(",");
        ch.note(|| format!("v{v} {text:?}"));
        match must(Timing, &text, v)? {
            Val::Timing(t) => speed(&m, &t.0[0], &text),
            _ => unreachable!(),
        }
    });
    ctx.space("built from a slider velocity", 0, &|ch| {
        let d = ch.of(all).clone();
        let D::N(x, _) = d else { return Ok(()) };
        let sv = f(&d);
        if x == 0 || !(1e-6..=1e6).contains(&sv.abs()) {
            return Ok(());
        }
        let (set, index, volume, effects) = some_fields();
        let time = *ch.of(&[0, -5, 100000]);
        let lib_sv: rust_decimal::Decimal = to_lib(&d).get().clone().left().unwrap();
        let t = tp::TimingPoint::new_inherited(time, lib_sv, 7, set, index, volume, effects);
        ch.note(|| format!("new_inherited({sv})"));
        let got = t.calc_slider_velocity_multiplier();
        ensure(got.as_ref().is_some_and(|g| near(lf(g), sv)), || {
            format!("built from velocity {sv} but has {got:?}")
        })?;
        ensure(t.calc_bpm().is_none(), || "an inherited timing point has a BPM".into())?;
        let w = view::timing(&t);
        let want = MTiming {
            time: D::int(time as i128),
            beat: w.beat.clone(),
            meter: 7,
            set: 2,
            index: 3,
            volume: 61,
            uninherited: Some(false),
            effects: Some(1),
        };
        ensure(w == want, || format!("new_inherited built {w:?} instead of {want:?}"))?;
        ensure(near(f(&w.beat), -100.0 / sv), || {
            format!("beat length {:?} for velocity {sv}", w.beat)
        })
    });
    ctx.space("built from a beat length", 0, &|ch| {
        let d = ch.of(all).clone();
        let (set, index, volume, effects) = some_fields();
        let time = *ch.of(&[0, -5, 100000]);
        let t = tp::TimingPoint::new_uninherited(time, to_lib(&d), 7, set, index, volume, effects);
        ch.note(|| format!("new_uninherited({d:?})"));
        let want = MTiming {
            time: D::int(time as i128),
            beat: d.clone(),
            meter: 7,
            set: 2,
            index: 3,
            volume: 61,
            uninherited: Some(true),
            effects: Some(1),
        };
        let w = view::timing(&t);
        // a raw text is viewed as what it reads as
        ensure(w == want, || format!("new_uninherited built {w:?} instead of {want:?}"))?;
        let text = VersionedToString::to_string(&t, 14).unwrap();
        ensure(text == want.print(14), || format!("prints {text:?}"))?;
        speed(&want, &t, &text)
    });
    ctx.space("conversion functions", 0, &|ch| {
        let d = ch.of(all).clone();
        let D::N(x, _) = d else { return Ok(()) };
        let a = f(&d).abs();
        if x == 0 || !(1e-6..=1e8).contains(&a) {
            return Ok(());
        }
        let l: rust_decimal::Decimal = to_lib(&d).get().clone().left().unwrap();
        let bpm = tp::TimingPoint::beat_duration_ms_to_bpm(l);
        let ms = tp::TimingPoint::bpm_to_beat_duration_ms(l);
        ch.note(|| format!("{d:?}: {bpm} {ms}"));
        ensure(near(lf(&bpm), 60000.0 / f(&d)), || format!("{d:?} ms are {bpm} BPM"))?;
        ensure(near(lf(&ms), 60000.0 / f(&d)), || format!("{d:?} BPM are {ms} ms"))?;
        // to the last digits: the product is 60000, except for what division leaves
        if (1e-3..=1e6).contains(&a) {
            for (what, x) in [("BPM", bpm), ("ms", ms)] {
                let off = (x * l - rust_decimal::Decimal::from(60000)).abs();
                ensure(off < rust_decimal::Decimal::new(1, 12), || format!("{d:?} make {x} {what}, which is {off} off"))?;
            }
        }
        Ok(())
    });
    ctx.space("speed after setters", 0, &|ch| {
        // a timing point changes its kind
        let b = *ch.of(&["-50", "300", "0", "x", "-133.33"]);
        let mut m = gen::default_timing(ch.free(2));
        m.beat = D::new(b);
        let text = m.print(14);
        let mut t = match must(Timing, &text, 14)? {
            Val::Timing(t) => t.0[0].clone(),
            _ => return Err(Fail::from("no timing point")),
        };
        let n = ch.free(4);
        for _ in 0..n {
            let u = ch.free_flag();
            t.set_uninherited(u);
            m.uninherited = Some(u);
            ensure(view::timing(&t) == m, || format!("{:?} after set_uninherited({u}) of {m:?}", view::timing(&t)))?;
            speed(&m, &t, &text)?;
        }
        let _ = lib::Decimal::from(1);
        Ok(())
    });
}
