//! C24: constructors and setters.

use crate::engine::{no_panic, Ch, Ctx, Fail, R};
use crate::model::*;
use crate::num::*;
use crate::report::ensure;
use crate::view;
use osu_file_parser as lib;
use osu_file_parser::events::storyboard::cmds::{Command, CommandProperties, ContinuingFields};
use osu_file_parser::{VersionedFrom, VersionedFromStr, VersionedToString, VersionedTryFrom};

fn fail<T>(msg: String) -> Result<T, Fail> {
    Err(Fail::Violation(msg))
}

/// The implementation and the model after the same operations.
type Pair<I, M> = (I, M);

// ------------------------------------------------------------ single values

fn hit_volume_is(x: &lib::hitobjects::Volume, m: Option<u8>) -> R {
    ensure(
        x.volume() == m && x.use_timing_point_volume() == m.is_none() && *x == lib::hitobjects::Volume::new(m).unwrap_or(*x),
        || format!("hit sample volume {x:?} instead of {m:?}"),
    )?;
    let n = <lib::Integer as VersionedFrom<lib::hitobjects::Volume>>::from(*x, 14);
    ensure(n == Some(m.unwrap_or(0) as i32), || format!("hit sample volume {m:?} is the number {n:?}"))
}

fn hit_volume(ctx: &mut Ctx) {
    use lib::hitobjects::Volume;
    ctx.space("hit sample volume: every value built", 0, &|ch| {
        let m = match ch.free(257) {
            0 => None,
            n => Some((n - 1) as u8),
        };
        ch.note(|| format!("Volume::new({m:?})"));
        match Volume::new(m) {
            Ok(x) => {
                ensure(m.map_or(true, |m| (1..=100).contains(&m)), || format!("hit sample volume {m:?} is accepted"))?;
                hit_volume_is(&x, m)
            }
            Err(_) => ensure(!m.map_or(true, |m| (1..=100).contains(&m)), || format!("hit sample volume {m:?} is refused")),
        }
    });
    ctx.bfs(
        "hit sample volume: every state and operation",
        vec![(Volume::new(None).unwrap(), None)],
        257,
        8,
        |s: &Pair<Volume, Option<u8>>| s.1,
        |s, op| {
            let (mut x, mut m) = *s;
            if op == 256 {
                x.set_use_timing_point_volume();
                m = None;
            } else {
                let ok = (1..=100).contains(&op);
                let r = x.set_volume(op as u8);
                if r.is_ok() != ok {
                    return fail(format!("set_volume({op}) on {m:?} gives {r:?}"));
                }
                if ok {
                    m = Some(op as u8);
                }
            }
            hit_volume_is(&x, m)?;
            Ok(Some((x, m)))
        },
        |s, op| format!("{:?}, operation {op}", s.1),
    );
}

fn audio_volume(ctx: &mut Ctx) {
    use lib::events::audio_sample::Volume;
    let is = |x: &Volume, m: u8| {
        ensure(
            x.get() == m
                && <u8 as VersionedFrom<Volume>>::from(*x, 14) == Some(m)
                && VersionedToString::to_string(x, 3) == Some(m.to_string()),
            || format!("audio sample volume {x:?} instead of {m}"),
        )
    };
    ctx.bfs(
        "audio sample volume: every state and operation",
        (0..=100).filter_map(|m| Volume::new(m, 14).ok().map(|x| (x, m))).collect(),
        256 * 12 * 3,
        8,
        |s: &Pair<Volume, u8>| s.1,
        |s, op| {
            let (n, v, how) = ((op % 256) as u8, 3 + (op / 256 % 12) as u8, op / 256 / 12);
            let (mut x, mut m) = *s;
            is(&x, m)?;
            let r = match how {
                0 => x.set(n, v).is_ok(),
                1 => Volume::new(n, v).map(|y| x = y).is_ok(),
                _ => match <Volume as VersionedTryFrom<u8>>::try_from(n, v) {
                    Ok(Some(y)) => {
                        x = y;
                        true
                    }
                    Ok(None) => return fail(format!("audio sample volume {n} is absent at version {v}")),
                    Err(_) => false,
                },
            };
            if r != (n <= 100) {
                return fail(format!("audio sample volume {n} at version {v}: accepted {r}"));
            }
            if n <= 100 {
                m = n;
            }
            is(&x, m)?;
            Ok(Some((x, m)))
        },
        |s, op| format!("{}, operation {op}", s.1),
    );
}

fn skip_count(ctx: &mut Ctx) {
    use lib::hitobjects::ComboSkipCount;
    let is = |x: &ComboSkipCount, m: u8| {
        ensure(x.get() == m && <u8 as VersionedFrom<ComboSkipCount>>::from(*x, 14) == Some(m), || {
            format!("combo skip count {x:?} instead of {m}")
        })
    };
    ctx.bfs(
        "combo skip count: every state and operation",
        vec![(ComboSkipCount::default(), 0)],
        256 * 12 * 3,
        8,
        |s: &Pair<ComboSkipCount, u8>| s.1,
        |s, op| {
            let (n, v, how) = ((op % 256) as u8, 3 + (op / 256 % 12) as u8, op / 256 / 12);
            let (mut x, mut m) = *s;
            is(&x, m)?;
            let new = |r: Result<Option<ComboSkipCount>, _>, x: &mut ComboSkipCount| match r {
                Ok(Some(y)) => {
                    *x = y;
                    Ok(true)
                }
                Ok(None) => fail(format!("combo skip count {n} is absent at version {v}")),
                Err(lib::hitobjects::ComboSkipCountTooHigh) => Ok(false),
            };
            let r = match how {
                0 => x.set(n, v).is_ok(),
                1 => new(ComboSkipCount::new(n, v), &mut x)?,
                _ => new(<ComboSkipCount as VersionedTryFrom<u8>>::try_from(n, v), &mut x)?,
            };
            if r != (n <= 7) {
                return fail(format!("combo skip count {n} at version {v}: accepted {r}"));
            }
            if n <= 7 {
                m = n;
            }
            is(&x, m)?;
            Ok(Some((x, m)))
        },
        |s, op| format!("{}, operation {op}", s.1),
    );
}

fn flags(ctx: &mut Ctx) {
    use lib::hitobjects::HitSound;
    let is = |x: &HitSound, m: u8| {
        let bit = |i: u8| m >> i & 1 == 1;
        ensure(
            x.whistle() == bit(1) && x.finish() == bit(2) && x.clap() == bit(3) && x.normal() == (bit(0) || m == 0),
            || format!("hit sound flags {x:?} instead of {m:04b}"),
        )?;
        for v in VERSIONS {
            let s = VersionedToString::to_string(x, v);
            ensure(s == Some(m.to_string()), || format!("hit sound {m} is printed as {s:?} at version {v}"))?;
        }
        ensure(*x == HitSound::new(bit(0), bit(1), bit(2), bit(3)), || format!("hit sound {m} differs from the one built"))
    };
    let mut init = Vec::new();
    for n in 0..=255u8 {
        init.push((<HitSound as VersionedFrom<u8>>::from(n, 14).unwrap(), n & 15));
    }
    ctx.bfs(
        "hit sound: every state and operation",
        init,
        8,
        16,
        |s: &Pair<HitSound, u8>| (s.0, s.1),
        |s, op| {
            let (mut x, mut m) = *s;
            is(&x, m)?;
            let on = op % 2 == 1;
            let bit = op / 2;
            match bit {
                0 => x.set_normal(on),
                1 => x.set_whistle(on),
                2 => x.set_finish(on),
                _ => x.set_clap(on),
            }
            m = m & !(1 << bit) | (on as u8) << bit;
            is(&x, m)?;
            Ok(Some((x, m)))
        },
        |s, op| format!("{:04b}, operation {op}", s.1),
    );

    use lib::timingpoints::Effects;
    let is = |x: &Effects, m: u32| {
        ensure(
            x.kiai_time_enabled() == (m & 1 == 1)
                && x.no_first_barline_in_taiko_mania() == (m & 8 == 8)
                && <u32 as VersionedFrom<Effects>>::from(*x, 14) == Some(m)
                && VersionedToString::to_string(x, 14) == Some(m.to_string()),
            || format!("effects {x:?} instead of {m}"),
        )
    };
    let mut init = vec![];
    let mut codes: Vec<u32> = (0..64).collect();
    for b in 0..32 {
        codes.extend([1u32 << b, !(1u32 << b), (1u32 << b) - 1]);
    }
    for m in codes {
        init.push((<Effects as VersionedFrom<u32>>::from(m, 14).unwrap(), m));
    }
    for m in [0u32, 1, 8, 9] {
        init.push((Effects::new(m & 1 == 1, m & 8 == 8), m));
    }
    ctx.bfs(
        "effects: every state and operation",
        init,
        5,
        8,
        |s: &Pair<Effects, u32>| (s.0, s.1),
        |s, op| {
            let (mut x, mut m) = *s;
            is(&x, m)?;
            match op {
                0 | 1 => {
                    x.set_kiai_time_enabled(op == 1);
                    m = m & !1 | op as u32;
                }
                2 | 3 => {
                    x.set_no_first_barline_in_taiko_mania(op == 3);
                    m = m & !8 | (op as u32 - 2) << 3;
                }
                _ => {
                    x.clear_unused_bits();
                    m &= 9;
                }
            }
            is(&x, m)?;
            Ok(Some((x, m)))
        },
        |s, op| format!("{}, operation {op}", s.1),
    );
}

// ------------------------------------------------------------ timing points

fn timing_point(ctx: &mut Ctx) {
    use lib::timingpoints as tp;
    use lib::timingpoints::TimingPoint;
    let sets = [tp::SampleSet::BeatmapDefault, tp::SampleSet::Normal, tp::SampleSet::Soft, tp::SampleSet::Drum, tp::SampleSet::Other(7)];
    let numbers = [0i32, 1, -5, i32::MAX, i32::MIN];
    // every operation sets one part to one value
    let apply = |x: &mut TimingPoint, m: &mut MTiming, op: usize| {
        let (part, i) = (op / 5, op % 5);
        let n = numbers[i];
        match part {
            0 => {
                x.set_time(n);
                m.time = D::int(n as i128);
            }
            1 => {
                x.set_meter(n);
                m.meter = n;
            }
            2 => {
                x.set_sample_set(sets[i]);
                m.set = [0, 1, 2, 3, 7][i];
            }
            3 => {
                let k = [0u32, 1, 2, 77, u32::MAX][i];
                *x.sample_index_mut() = <tp::SampleIndex as VersionedFrom<u32>>::from(k, 14).unwrap();
                m.index = k;
            }
            4 => {
                x.set_volume(tp::Volume::new(n, 14).unwrap());
                m.volume = n;
            }
            5 => {
                let on = i % 2 == 1;
                x.set_uninherited(on);
                m.uninherited = Some(on);
            }
            _ => {
                let k = [None, Some(0u32), Some(1), Some(8), Some(u32::MAX)][i];
                *x.effects_mut() = k.map(|k| <tp::Effects as VersionedFrom<u32>>::from(k, 14).unwrap());
                m.effects = k;
            }
        }
    };
    let is = |x: &TimingPoint, m: &MTiming| -> R {
        let got = view::timing(x).value();
        ensure(got == m.value(), || format!("timing point\n  {got:?}\ninstead of\n  {:?}", m.value()))
    };
    let depth = if ctx.thorough() { 4 } else { 3 };
    ctx.space("timing point: every sequence of setters", 0, &|ch| {
        let start = ch.free(4);
        let (mut x, mut m) = match start {
            0 | 1 => {
                let inherited = start == 0;
                let set = tp::SampleSet::Soft;
                let index = <tp::SampleIndex as VersionedFrom<u32>>::from(3, 14).unwrap();
                let volume = tp::Volume::new(55, 14).unwrap();
                let effects = tp::Effects::new(true, false);
                let x = if inherited {
                    TimingPoint::new_inherited(17, "2".parse().unwrap(), 5, set, index, volume, effects)
                } else {
                    TimingPoint::new_uninherited(17, "-50".into(), 5, set, index, volume, effects)
                };
                // the number of decimal places is not specified
                let beat = view::timing(&x).beat;
                let beat_ok = beat.text().parse() == Ok(rust_decimal::Decimal::from(-50));
                ensure(beat_ok, || format!("the beat length of the timing point built is {beat:?}"))?;
                let mut m = MTiming::defaults(D::int(17), beat);
                m.meter = 5;
                m.set = 2;
                m.index = 3;
                m.volume = 55;
                m.uninherited = Some(!inherited);
                m.effects = Some(1);
                (x, m)
            }
            n => {
                let (v, text) = [(3, "24,-50"), (14, "24,-50,4,1,1,100,1,0")][n - 2];
                let x = TimingPoint::from_str(text, v).unwrap().unwrap();
                let mut m = MTiming::defaults(D::int(if v == 3 { 48 } else { 24 }), D::int(-50));
                if v == 14 {
                    m.uninherited = Some(true);
                    m.effects = Some(0);
                }
                (x, m)
            }
        };
        is(&x, &m)?;
        for _ in 0..depth {
            let op = ch.free(36);
            if op == 35 {
                break;
            }
            apply(&mut x, &mut m, op);
            ch.note(|| format!("operation {} with value {}", op / 5, op % 5));
            is(&x, &m)?;
        }
        // the setters are seen in the printed line and the beat length is kept
        let s = x.to_string(14);
        let back = s.as_ref().and_then(|s| TimingPoint::from_str(s, 14).ok().flatten());
        match back {
            Some(b) => is(&b, &m.at(14)),
            None => fail(format!("timing point is printed as {s:?}, which is rejected")),
        }
    });
}

// ------------------------------------------------------------ continuation lists

trait Item: Copy + PartialEq + std::fmt::Debug + std::fmt::Display {
    fn of(n: i32) -> Self;
}
impl Item for i32 {
    fn of(n: i32) -> Self {
        n
    }
}
impl Item for rust_decimal::Decimal {
    fn of(n: i32) -> Self {
        rust_decimal::Decimal::new(n as i64, 1)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Pairs {
    start: (i32, i32),
    list: Vec<(i32, Option<i32>)>,
}

fn pairs_ok(list: &[(i32, Option<i32>)]) -> bool {
    list.iter().rev().skip(1).all(|p| p.1.is_some())
}

fn conv<T: Item>(p: (i32, Option<i32>)) -> (T, Option<T>) {
    (T::of(p.0), p.1.map(T::of))
}

fn pairs_is<T: Item>(x: &ContinuingFields<T>, m: &Pairs) -> R {
    let want: Vec<(T, Option<T>)> = m.list.iter().map(|p| conv(*p)).collect();
    let start = (T::of(m.start.0), T::of(m.start.1));
    ensure(*x.start_values() == start && x.continuing_fields() == want, || {
        format!("continuation list {x:?} instead of {m:?}")
    })?;
    let mut fields = vec![start.0.to_string(), start.1.to_string()];
    for (a, b) in &want {
        fields.push(a.to_string());
        fields.extend(b.iter().map(|b| b.to_string()));
    }
    let s = std::string::ToString::to_string(x);
    ensure(s == fields.join(","), || format!("continuation list {m:?} is printed as {s:?}"))
}

fn pair_list<T: Item>(ctx: &mut Ctx, name: &str) {
    let vals: &'static [(i32, Option<i32>)] = &[(1, None), (2, None), (1, Some(1)), (1, Some(2)), (2, Some(1)), (2, Some(2))];
    let max = if ctx.thorough() { 6 } else { 5 };
    ctx.space(&format!("pairs of {name}: every list built"), 0, &|ch| {
        let n = ch.free(5);
        let list: Vec<_> = (0..n).map(|_| *ch.of(vals)).collect();
        let m = Pairs { start: (1, 2), list };
        ch.note(|| format!("ContinuingFields::new with {m:?}"));
        let r = ContinuingFields::new((T::of(1), T::of(2)), m.list.iter().map(|p| conv(*p)).collect());
        match r {
            Ok(x) => {
                ensure(pairs_ok(&m.list), || format!("continuation list {m:?} is accepted"))?;
                pairs_is(&x, &m)
            }
            Err(_) => ensure(!pairs_ok(&m.list), || format!("continuation list {m:?} is refused")),
        }
    });
    let sets = 6 * (max + 1);
    ctx.bfs(
        &format!("pairs of {name}: every state and operation"),
        vec![(
            ContinuingFields::new((T::of(1), T::of(2)), vec![]).unwrap(),
            Pairs { start: (1, 2), list: vec![] },
        )],
        6 + sets + 4,
        64,
        |s: &Pair<ContinuingFields<T>, Pairs>| s.1.clone(),
        |s, op| {
            let (mut x, mut m) = s.clone();
            if op < 6 {
                if m.list.len() == max {
                    return Ok(None);
                }
                // an incomplete last entry takes the value before it
                let before = m.list.iter().rev().nth(1).map_or(m.start.1, |p| p.1.unwrap());
                if let Some(last) = m.list.last_mut() {
                    last.1.get_or_insert(before);
                }
                m.list.push(vals[op]);
                no_panic("push_continuing_fields", || x.push_continuing_fields(conv(vals[op])))?;
            } else if op < 6 + sets {
                let (i, f) = ((op - 6) / 6, vals[(op - 6) % 6]);
                let mut list = m.list.clone();
                let ok = match list.get_mut(i) {
                    Some(p) => {
                        *p = f;
                        pairs_ok(&list)
                    }
                    None => false,
                };
                let r = no_panic("set_continuing_fields", || x.set_continuing_fields(i, conv(f)))?;
                if r.is_ok() != ok {
                    return fail(format!("set_continuing_fields({i}, {f:?}) on {m:?}: {r:?}"));
                }
                if let (Err(e), true) = (r, i < m.list.len() || f.1.is_some()) {
                    let word = if i < m.list.len() { "2nd field" } else { "index" };
                    ensure(e.to_string().contains(word), || format!("set_continuing_fields({i}, {f:?}) on {m:?}: {e}"))?;
                }
                if ok {
                    m.list = list;
                }
            } else {
                let k = op - 6 - sets;
                let n = 1 + (k % 2) as i32;
                if k / 2 == 0 {
                    x.start_values_mut().0 = T::of(n);
                    m.start.0 = n;
                } else {
                    x.start_values_mut().1 = T::of(n);
                    m.start.1 = n;
                }
            }
            pairs_is(&x, &m)?;
            Ok(Some((x, m)))
        },
        |s, op| format!("{:?}, operation {op}", s.1),
    );
}

type Rest = (u8, Option<u8>, Option<u8>);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Cols {
    start: (u8, u8, u8),
    list: Vec<Rest>,
}

fn cols_ok(list: &[Rest]) -> bool {
    list.iter().rev().enumerate().all(|(i, c)| match (c.1, c.2) {
        (Some(_), Some(_)) => true,
        (None, Some(_)) => false,
        _ => i == 0,
    })
}

/// The error of a refused list names what is missing.
fn cols_blame(list: &[Rest], e: &str) -> R {
    let last = list.len().saturating_sub(1);
    let at = (0..list.len()).find(|i| match list[*i] {
        (_, Some(_), Some(_)) => false,
        (_, None, Some(_)) => true,
        _ => *i != last,
    });
    let e = e.to_lowercase();
    let ok = match at.map(|i| (i, list[i])) {
        // blue without green
        Some((i, (_, None, Some(_)))) if i == last => e.contains("green") || e.contains("blue"),
        Some((_, (_, None, _))) => e.contains("green"),
        Some(_) => e.contains("blue"),
        None => e.contains("index"),
    };
    ensure(ok, || format!("the error for the colour list {list:?} is {e:?}"))
}

fn cols_is(x: &lib::events::storyboard::cmds::Colours, m: &Cols) -> R {
    ensure(*x.start_rgb() == m.start && x.continuing_fields() == m.list, || {
        format!("colour list {x:?} instead of {m:?}")
    })?;
    let mut fields = vec![m.start.0, m.start.1, m.start.2];
    for (r, g, b) in &m.list {
        fields.push(*r);
        fields.extend(g.iter().chain(b));
    }
    let want = join_nums(&fields);
    let s = VersionedToString::to_string(x, 14);
    ensure(s.as_ref() == Some(&want), || format!("colour list {m:?} is printed as {s:?}"))?;
    // the same list in a command, printed and read again
    let c = Command {
        start_time: Some(0),
        properties: CommandProperties::Colour {
            easing: lib::events::storyboard::types::Easing::Linear,
            end_time: None,
            colours: x.clone(),
        },
    };
    let line = VersionedToString::to_string(&c, 14);
    let back = line.as_ref().and_then(|l| Command::from_str(l, 14).ok().flatten());
    ensure(back.as_ref() == Some(&c), || format!("colour command {c:?} is printed as {line:?}, which is read as {back:?}"))
}

fn join_nums(f: &[u8]) -> String {
    f.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn colour_list(ctx: &mut Ctx) {
    use lib::events::storyboard::cmds::Colours;
    // all with components 1 and 2
    let mut vals: Vec<Rest> = Vec::new();
    for r in [1, 2] {
        vals.push((r, None, None));
        for g in [1, 2] {
            vals.push((r, Some(g), None));
            for b in [1, 2] {
                vals.push((r, Some(g), Some(b)));
            }
        }
    }
    // blue without green
    let odd: Vec<Rest> = vec![(1, None, Some(2)), (2, None, Some(1))];
    let all: Vec<Rest> = vals.iter().chain(&odd).cloned().collect();
    let (vals, all) = (&vals, &all);
    let (nv, na) = (vals.len(), all.len());
    let longest = if ctx.thorough() { 5 } else { 4 };
    ctx.space("colours: every list built", 0, &|ch| {
        let n = ch.free(longest);
        let list: Vec<_> = (0..n).map(|_| *ch.of(all)).collect();
        let m = Cols { start: (3, 4, 5), list };
        ch.note(|| format!("Colours::new with {m:?}"));
        match Colours::new(m.start, m.list.clone()) {
            Ok(x) => {
                ensure(cols_ok(&m.list), || format!("colour list {m:?} is accepted"))?;
                cols_is(&x, &m)
            }
            Err(e) => {
                ensure(!cols_ok(&m.list), || format!("colour list {m:?} is refused"))?;
                cols_blame(&m.list, &e.to_string())
            }
        }
    });
    let max = 3;
    let sets = na * (max + 1);
    ctx.bfs(
        "colours: every state and operation",
        vec![(Colours::new((1, 2, 1), vec![]).unwrap(), Cols { start: (1, 2, 1), list: vec![] })],
        nv + sets + 6,
        64,
        |s: &Pair<Colours, Cols>| s.1.clone(),
        |s, op| {
            let (mut x, mut m) = s.clone();
            if op < nv {
                if m.list.len() == max {
                    return Ok(None);
                }
                let before = m.list.iter().rev().nth(1).map_or((m.start.1, m.start.2), |p| (p.1.unwrap(), p.2.unwrap()));
                if let Some(last) = m.list.last_mut() {
                    last.1.get_or_insert(before.0);
                    last.2.get_or_insert(before.1);
                }
                m.list.push(vals[op]);
                no_panic("push_continuing_rgbs", || x.push_continuing_rgbs(vals[op]))?;
            } else if op < nv + sets {
                let (i, f) = ((op - nv) / na, all[(op - nv) % na]);
                let mut list = m.list.clone();
                let ok = match list.get_mut(i) {
                    Some(p) => {
                        *p = f;
                        cols_ok(&list)
                    }
                    None => false,
                };
                let r = no_panic("set_continuing_rgbs", || x.set_continuing_rgbs(i, f))?;
                if r.is_ok() != ok {
                    return fail(format!("set_continuing_rgbs({i}, {f:?}) on {m:?}: {r:?}"));
                }
                if let (Err(e), true) = (r, i < m.list.len() || cols_ok(&[f])) {
                    cols_blame(&list, &e.to_string())?;
                }
                if ok {
                    m.list = list;
                }
            } else {
                let k = op - nv - sets;
                let n = 1 + (k % 2) as u8;
                let (s, t) = (x.start_rgb_mut(), &mut m.start);
                match k / 2 {
                    0 => (s.0, t.0) = (n, n),
                    1 => (s.1, t.1) = (n, n),
                    _ => (s.2, t.2) = (n, n),
                }
            }
            cols_is(&x, &m)?;
            Ok(Some((x, m)))
        },
        |s, op| format!("{:?}, operation {op}", s.1),
    );
}

// ------------------------------------------------------------ paths and decimals

fn paths(ctx: &mut Ctx) {
    use lib::events::storyboard::sprites::Sprite;
    use lib::FilePath;
    use std::path::Path;
    let parts = ["", "a", "/", ".", "..", " ", "\"", "é", "\\", "C:"];
    ctx.space("file paths", 0, &|ch| {
        let n = ch.free(if crate::engine::thorough() { 6 } else { 5 });
        let text: String = (0..n).map(|_| *ch.of(&parts)).collect();
        ch.note(|| format!("path {text:?}"));
        let absolute = text.starts_with('/');
        match Sprite::new(Path::new(&text)) {
            Ok(s) => {
                ensure(!absolute, || format!("absolute sprite path {text:?} is accepted"))?;
                ensure(s.filepath.get().as_os_str() == text.as_str(), || format!("sprite path {text:?} is {:?}", s.filepath))?;
            }
            Err(_) => ensure(absolute, || format!("relative sprite path {text:?} is refused"))?,
        }
        let mut p = FilePath::from("old name");
        p.set(&text);
        let q = FilePath::from(&text);
        ensure(p == q && p.get().as_os_str() == text.as_str(), || format!("path set to {text:?} is {p:?}"))?;
        let quoted = text.len() > 1 && text.starts_with('"') && text.ends_with('"');
        // a lone quotation mark is not specified
        if text.contains(' ') && !quoted && text != "\"" {
            let want = Some(format!("\"{text}\""));
            ensure(VersionedToString::to_string(&p, 14) == want, || format!("path {text:?} is printed as {:?}", VersionedToString::to_string(&p, 14)))
        } else {
            ensure(VersionedToString::to_string(&p, 14).as_ref() == Some(&text), || format!("path {text:?} is printed as {:?}", VersionedToString::to_string(&p, 14)))
        }
    });
    ctx.space("decimals", 0, &|ch| {
        use either::Either;
        use lib::Decimal;
        let words = ["0", "1", "-1", "1.50", "-0.25", "x", "", "1e5", " 1", "1,5", "2147483648", "79228162514264337593543950335", "79228162514264337593543950336"];
        let text = *ch.of(&words);
        let canonical = D::canonical(text).is_some();
        let is = |d: &Decimal, number: bool| {
            let left = matches!(d.get(), Either::Left(_));
            ensure(left == number && std::string::ToString::to_string(d) == text, || {
                format!("decimal {text:?} is {d:?}, printed {d}")
            })
        };
        // text stays text until it is converted
        let mut d = Decimal::new_from_str(text);
        is(&d, false)?;
        let parsed: Result<rust_decimal::Decimal, _> = text.parse();
        if canonical || parsed.is_err() {
            let ok = d.try_make_decimal().is_ok();
            ensure(ok == parsed.is_ok(), || format!("converting {text:?} gives {ok}"))?;
            is(&d, ok)?;
            ensure(d.try_make_decimal().is_ok() == ok, || format!("converting {text:?} twice differs"))?;
            is(&d, ok)?;
            is(&Decimal::from(text), ok)?;
            is(&text.parse::<Decimal>().unwrap(), ok)?;
            if let Ok(n) = parsed {
                is(&Decimal::new(n), true)?;
                is(&Decimal::from(n), true)?;
                let mut e = Decimal::default();
                *e.get_mut() = Either::Left(n);
                is(&e, true)?;
            }
        }
        if let Some(n) = is_i32(text) {
            if n.to_string() == text {
                is(&Decimal::from(n), true)?;
            }
        }
        Ok(())
    });
}

fn frame_names(ch: &mut Ch) -> R {
    use lib::events::storyboard::sprites::{Animation, LoopType};
    let (path, stem, ext) = *ch.of(&[
        ("a.png", "a", ".png"),
        ("dir/a.png", "a", ".png"),
        ("a", "a", ""),
        ("a.b.png", "a.b", ".png"),
        ("dir.x/a", "a", ""),
        (".png", ".png", ""),
        ("a b é.jpg", "a b é", ".jpg"),
        ("a.png.png", "a.png", ".png"),
    ]);
    let n = *ch.of(&[0u32, 1, 2, 3, 10, 11, 100]);
    let a = Animation { frame_count: n, frame_delay: "1".parse().unwrap(), loop_type: LoopType::LoopOnce, filepath: path.into() };
    let got: Vec<String> = no_panic("frame_file_names", || a.frame_file_names())?
        .iter()
        .map(|p| p.file_name().map_or(String::new(), |n| n.to_string_lossy().to_string()))
        .collect();
    let want: Vec<String> = (0..n).map(|i| format!("{stem}{i}{ext}")).collect();
    ensure(got == want, || format!("the frames of {path:?} are {got:?}"))
}

pub fn c24(ctx: &mut Ctx) {
    hit_volume(ctx);
    audio_volume(ctx);
    skip_count(ctx);
    flags(ctx);
    timing_point(ctx);
    pair_list::<i32>(ctx, "integers");
    pair_list::<rust_decimal::Decimal>(ctx, "decimals");
    colour_list(ctx);
    paths(ctx);
    ctx.space("frame names of animations", 0, &frame_names);
    ctx.space("slider parameters, videos and breaks", 0, &|ch| {
        use lib::events::{Break, Video};
        use lib::hitobjects::{CurveType, EdgeSet, HitSound, SampleSet, SlideParams};
        let curve = *ch.of(&[CurveType::Bezier, CurveType::Centripetal, CurveType::Linear, CurveType::PerfectCircle]);
        let n = *ch.of(&[0i32, 1, -1, i32::MAX]);
        let (sounds, sets) = (ch.free(3), ch.free(3));
        let s = SlideParams::new(
            curve,
            vec![],
            n,
            n.into(),
            vec![HitSound::new(true, false, true, false); sounds],
            vec![EdgeSet { normal_set: SampleSet::SoftSet, addition_set: SampleSet::Other(9) }; sets],
        );
        ensure(
            s.curve_type == curve && s.curve_points.is_empty() && s.slides == n && s.length == n.into() && s.edge_sounds.len() == sounds && s.edge_sets.len() == sets,
            || format!("slider built is {s:?}"),
        )?;
        let v = Video::new(n, "a".into(), None);
        ensure(v.start_time == n && v.file_name == "a".into() && v.position.is_none() && v.commands.is_empty(), || format!("video built is {v:?}"))?;
        let b = Break::new(n, n.wrapping_sub(1));
        ensure(b.start_time == n && b.end_time == n.wrapping_sub(1), || format!("break built is {b:?}"))?;
        let (vs, bs) = (VersionedToString::to_string(&v, 14), VersionedToString::to_string(&b, 14));
        ensure(
            [Some(format!("1,{n},a")), Some(format!("Video,{n},a"))].contains(&vs),
            || format!("video is printed as {vs:?}"),
        )?;
        let tail = format!("{n},{}", n.wrapping_sub(1));
        ensure([Some(format!("2,{tail}")), Some(format!("Break,{tail}"))].contains(&bs), || format!("break is printed as {bs:?}"))
    });
}
