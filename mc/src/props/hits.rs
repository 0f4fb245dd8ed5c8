//! C09, C10, C11: hit object lines.

use crate::engine::{Ch, Ctx, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::num::*;
use crate::report::ensure;

/// Reads one line, compares the value and what is printed for it.
fn line(ch: &mut Ch, text: &str, v: u8, want: &MHit) -> R {
    ch.note(|| format!("v{v} {text:?}"));
    check(Hits, text, v, &m_hits(vec![want.clone()]), &want.print(v))?;
    Ok(())
}
fn rejected(ch: &mut Ch, text: &str, v: u8, why: &str) -> R {
    ch.note(|| format!("v{v} {text:?} rejected: {why}"));
    must_fail(Hits, text, v, why)?;
    Ok(())
}

pub fn kind_of(t: i64) -> Option<usize> {
    [(1, 0), (2, 1), (8, 2), (128, 3)].iter().find(|(b, _)| t & b != 0).map(|(_, k)| *k)
}

pub fn some_sample() -> MSample {
    MSample { normal: 1, addition: 2, index: 3, volume: 44, file: "f.wav".into() }
}

pub fn c09(ctx: &mut Ctx) {
    let mut types: Vec<i32> = (0..=1023).collect();
    types.extend(int_points(i32::MIN as i128, i32::MAX as i128).into_iter().map(|x| x as i32));
    types.sort();
    types.dedup();
    let types = &types;
    ctx.space("every type number", 0, &|ch| {
        let v = gen::version(ch);
        let t = *ch.of(types);
        match kind_of(t as i64) {
            Some(k) => {
                let mut m = gen::default_hit(k);
                if ch.free_flag() {
                    m.sample = Some(some_sample());
                }
                m.new_combo = t & 4 != 0;
                m.skip = (t >> 4 & 7) as u8;
                let text = m.line(v, &t.to_string(), "0");
                line(ch, &text, v, &m.at(v))
            }
            None => {
                let k = ch.free(4);
                let text = gen::default_hit(k).line(v, &t.to_string(), "0");
                rejected(ch, &text, v, "its type number names no kind")
            }
        }
    });
    ctx.space("type numbers in other spellings", 0, &|ch| {
        let v = gen::version(ch);
        let k = ch.free(4);
        let m = gen::default_hit(k);
        let n = m.type_number();
        let (text, ok) = match ch.free(9) {
            0 => (format!("+{n}"), true),
            1 => (format!("00{n}"), true),
            2 => (String::new(), false),
            3 => (format!("{n} "), false),
            4 => (format!("{n}.0"), false),
            5 => ("x".into(), false),
            6 => (format!("0x{n}"), false),
            7 => ((1i64 << 32 | n as i64).to_string(), false),
            _ => ("-2147483649".into(), false),
        };
        let l = m.line(v, &text, "0");
        if ok {
            line(ch, &l, v, &m.at(v))
        } else {
            rejected(ch, &l, v, "its type number is no integer")
        }
    });
    ctx.space("every hit sound", 0, &|ch| {
        let v = gen::version(ch);
        let k = ch.free(4);
        let n = ch.free(300);
        let mut m = gen::default_hit(k);
        if n < 256 {
            m.sound = (n & 15) as u8;
            let l = m.line(v, &m.type_number().to_string(), &n.to_string());
            line(ch, &l, v, &m.at(v))
        } else {
            let s = match n {
                256 => "-1".to_string(),
                257 => String::new(),
                258 => "x".into(),
                259 => "1.0".into(),
                260 => "1 ".into(),
                _ => (n - 5).to_string(),
            };
            let l = m.line(v, &m.type_number().to_string(), &s);
            rejected(ch, &l, v, "its hit sound is no number from 0 to 255")
        }
    });
    ctx.space("kind and flags together", 0, &|ch| {
        let v = gen::version(ch);
        let k = ch.free(4);
        let mut m = gen::default_hit(k);
        m.new_combo = ch.free_flag();
        m.skip = ch.free(8) as u8;
        m.sound = ch.free(16) as u8;
        if ch.free_flag() {
            m.sample = Some(some_sample());
        }
        line(ch, &m.print(v), v, &m.at(v))
    });
    ctx.space("the rest of the line fits another kind", 0, &|ch| {
        let v = gen::version(ch);
        let combo = ch.free(16) as u32;
        // the kind the number says, the kind the rest has
        let (a, b) = *ch.of(&[(0, 1), (1, 0), (1, 2), (1, 3), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)]);
        let (a, b) = (gen::default_hit(a), gen::default_hit(b));
        let t = a.type_number() | (combo & 1) << 2 | (combo >> 1) << 4;
        let mut l = b.line(v, &t.to_string(), "0");
        if v == 3 && b.kind == MKind::Circle {
            l.pop();
        }
        rejected(ch, &l, v, "the rest of the line does not fit its kind")
    });
    ctx.space("fields", ctx.b(2, 3), &|ch| {
        let m = gen::hit(ch);
        let v = gen::version(ch);
        line(ch, &m.print(v), v, &m.at(v))
    });
    ctx.space("position and times, every pair", ctx.b(2, 4), &|ch| {
        let v = *ch.of(&[3u8, 4, 5, 14]);
        let k = ch.free(4);
        let mut m = gen::default_hit(k);
        m.x = ch.dom(gen::d_x()).clone();
        m.y = ch.dom(gen::d_y()).clone();
        m.time = ch.dom(gen::d_time()).clone();
        if let MKind::Spinner(e) | MKind::Hold(e) = &mut m.kind {
            *e = ch.dom(gen::d_end()).clone();
        }
        line(ch, &m.print(v), v, &m.at(v))
    });
}

fn numbered_slider(curve: char, n: usize, sounds: usize, sets: usize) -> MSlider {
    MSlider {
        curve,
        points: (0..n).map(|i| (D::int(i as i128 * 7 - 3), D::N(10 * i as i128 + 5, 1))).collect(),
        slides: sounds as i32,
        length: D::new("77.25"),
        edge_sounds: (0..sounds).map(|i| ((i * 5 + 1) % 16) as u8).collect(),
        edge_sets: (0..sets).map(|i| ((i * 3 % 7) as u64, (i % 5) as u64)).collect(),
        written: 0,
    }
}

pub fn c10(ctx: &mut Ctx) {
    let long: &[usize] = if ctx.thorough() {
        &[0, 1, 2, 3, 4, 5, 9, 10, 11, 64, 255, 256, 257, 1000, 5000]
    } else {
        &[0, 1, 2, 3, 4, 10, 255, 256, 300]
    };
    ctx.space("curve types and list lengths", 0, &|ch| {
        let v = gen::version(ch);
        let curve = *ch.of(&['B', 'C', 'L', 'P']);
        let n = *ch.of(long);
        let sounds = *ch.of(&[0usize, 1, 2, 3, 11]);
        let sets = *ch.of(&[0usize, 1, 2, 3, 11]);
        let mut m = gen::default_hit(1);
        let mut s = numbered_slider(curve, n, sounds, sets);
        s.written = ch.free(3) as u8;
        m.kind = MKind::Slider(s);
        if ch.free_flag() {
            m.sample = Some(some_sample());
        }
        line(ch, &m.print(v), v, &m.at(v))
    });
    ctx.space("long edge lists", 0, &|ch| {
        let v = *ch.of(&[3u8, 4, 9, 10, 12, 14]);
        let sounds = *ch.of(long);
        let sets = *ch.of(long);
        let mut m = gen::default_hit(1);
        m.kind = MKind::Slider(numbered_slider('P', 2, sounds, sets));
        line(ch, &m.print(v), v, &m.at(v))
    });
    ctx.space("very long lists of a slider", 0, &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let n = *ch.of(&[511usize, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537]);
        let (points, sounds, sets) = match ch.free(4) {
            0 => (n, 0, 0),
            1 => (1, n, 0),
            2 => (1, 2, n),
            _ => (n, n, n),
        };
        let mut m = gen::default_hit(1);
        m.kind = MKind::Slider(numbered_slider(*ch.of(&['B', 'C', 'L', 'P']), points, sounds, sets));
        let text = m.print(v);
        ch.note(|| format!("v{v} a slider with {points} curve points, {sounds} edge sounds and {sets} edge sets"));
        let x = must(Hits, &text, v)?;
        ensure(x.view() == m_hits(vec![m.at(v)]), || {
            format!("a slider with {points} curve points, {sounds} edge sounds and {sets} edge sets is read differently at version {v}")
        })?;
        ensure(x.print(v).as_deref() == Some(&text), || {
            format!("a slider with {points} curve points, {sounds} edge sounds and {sets} edge sets is printed differently at version {v}")
        })
    });
    ctx.space("every combination of edge sounds", 0, &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let mut m = gen::default_hit(1);
        let mut s = numbered_slider('L', 1, 0, 0);
        s.edge_sounds = (0..ch.free(4)).map(|_| ch.free(16) as u8).collect();
        m.kind = MKind::Slider(s);
        line(ch, &m.print(v), v, &m.at(v))
    });
    ctx.space("every combination of edge sets", 0, &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let mut m = gen::default_hit(1);
        let mut s = numbered_slider('L', 1, 2, 0);
        s.edge_sets = (0..ch.free(4)).map(|_| (ch.free(5) as u64, ch.free(5) as u64)).collect();
        m.kind = MKind::Slider(s);
        line(ch, &m.print(v), v, &m.at(v))
    });
    ctx.space("edge sound numbers", 0, &|ch| {
        let v = gen::version(ch);
        let at = ch.free(3);
        let n = ch.free(260);
        let mut m = gen::default_hit(1);
        let s = numbered_slider('L', 1, 3, 3);
        m.kind = MKind::Slider(s.clone());
        let mut texts: Vec<String> = s.edge_sounds.iter().map(|x| x.to_string()).collect();
        let all = texts.join("|");
        let n_text = match n {
            256 => "256".to_string(),
            257 => "-1".into(),
            258 => "x".into(),
            259 => "1.5".into(),
            n => n.to_string(),
        };
        texts[at] = n_text;
        let l = m.print(v).replacen(&format!(",{all},"), &format!(",{},", texts.join("|")), 1);
        if n < 256 {
            if let MKind::Slider(s) = &mut m.kind {
                s.edge_sounds[at] = (n & 15) as u8;
            }
            line(ch, &l, v, &m.at(v))
        } else {
            rejected(ch, &l, v, "an edge sound is no number from 0 to 255")
        }
    });
    ctx.space("values", ctx.b(2, 3), &|ch| {
        let v = gen::version(ch);
        let has = ch.free_flag();
        let mut m = gen::default_hit(1);
        m.x = ch.dom(gen::d_x()).clone();
        m.y = ch.dom(gen::d_y()).clone();
        m.kind = MKind::Slider(gen::slider(ch, has));
        m.sample = has.then(some_sample);
        line(ch, &m.print(v), v, &m.at(v))
    });
    ctx.space("malformed parts", 0, &|ch| {
        let v = gen::version(ch);
        let mut m = gen::default_hit(1);
        m.kind = MKind::Slider(MSlider { written: 2, ..numbered_slider('B', 3, 2, 2) });
        let text = m.print(v);
        let f: Vec<&str> = text.split(',').collect();
        // fields 5: curve, 6: slides, 7: length, 8: sounds, 9: sets
        let mut g: Vec<String> = f.iter().map(|s| s.to_string()).collect();
        match ch.free(26) {
            0 => g[5] = g[5].replacen('B', "X", 1),
            1 => g[5] = g[5].replacen('B', "b", 1),
            2 => g[5] = g[5].replacen('B', "", 1),
            3 => g[5] = g[5].replacen('B', "BB", 1),
            4 => g[5] = g[5].replacen('B', "B ", 1),
            5 => g[5] += "|",
            6 => g[5] += "|5",
            7 => g[5] = g[5].replacen('|', "||", 1),
            8 => g[5] = g[5].replacen("|4:", "|4;", 1),
            9 => g[6] = "".into(),
            10 => g[6] = "1.5".into(),
            11 => g[6] = "x".into(),
            12 => g[6] = "2147483648".into(),
            13 => g[8] = "0|x".into(),
            14 => g[8] = "x".into(),
            15 => g[8] = "0||0".into(),
            16 => g[8] = "0|".into(),
            17 => g[9] = "0".into(),
            18 => g[9] = "0:0|".into(),
            19 => g[9] = "0:0|1".into(),
            20 => g[9] = "x:0".into(),
            21 => g[9] = "0:-1".into(),
            22 => g[9] = "0:".into(),
            23 => g[9] = ":0".into(),
            24 => g.truncate(6),
            _ => g.truncate(7),
        }
        let l = g.join(",");
        rejected(ch, &l, v, "a part of the slider is malformed")
    });
}

pub fn c11(ctx: &mut Ctx) {
    ctx.space("number of fields and separators", ctx.b(2, 3), &|ch| {
        let v = gen::version(ch);
        let k = ch.free(4);
        let mut m = gen::default_hit(k);
        let full = gen::sample(ch);
        let n = ch.free(6);
        let trailing = n > 0 && n < 5 && ch.free_flag();
        let f = full.fields();
        let mut text = f[..n].join(":");
        if trailing {
            text.push(':');
        }
        let want = MSample {
            normal: if n > 0 { full.normal } else { 0 },
            addition: if n > 1 { full.addition } else { 0 },
            index: if n > 2 { full.index } else { 0 },
            volume: if n > 3 { full.volume } else { 0 },
            file: if n > 4 { full.file } else { String::new() },
        };
        let mut head = m.print(v);
        if v == 3 && k == 0 {
            head.pop();
        }
        let sep = if k == 3 { "" } else { "," };
        m.sample = Some(want);
        line(ch, &format!("{head}{sep}{text}"), v, &m)
    });
    ctx.space("absent", 0, &|ch| {
        let v = gen::version(ch);
        let k = ch.free(3);
        let mut m = gen::default_hit(k);
        if let MKind::Slider(s) = &mut m.kind {
            match ch.free(3) {
                0 => {}
                1 => {
                    s.edge_sets.clear();
                    s.written = 1;
                }
                _ => {
                    s.edge_sets.clear();
                    s.edge_sounds.clear();
                    s.written = ch.free(3) as u8;
                }
            }
        }
        let mut l = m.print(v);
        if v == 3 && k == 0 {
            l.pop();
        }
        line(ch, &l, v, &m)
    });
    ctx.space("all small samples at every pair of versions", 0, &|ch| {
        let v = gen::version(ch);
        let k = ch.free(4);
        let mut m = gen::default_hit(k);
        m.sample = Some(MSample {
            normal: ch.free(5) as u64,
            addition: ch.free(5) as u64,
            index: ch.free(3) as u64,
            volume: *ch.of(&[0u8, 1, 100]),
            file: ch.of(&["", "x.wav"]).to_string(),
        });
        let text = m.print(14);
        ch.note(|| text.clone());
        let x = must(Hits, &text, 14)?;
        same("hit object", &text, 14, &x.view(), &m_hits(vec![m.clone()]))?;
        prints("hit object", &text, v, x.print(v), &m.print(v))
    });
    ctx.space("malformed fields", 0, &|ch| {
        let v = gen::version(ch);
        let k = ch.free(4);
        let m = gen::default_hit(k);
        let mut f: Vec<String> = some_sample().fields().to_vec();
        let i = ch.free(4);
        let bad: &[&str] = if i == 3 {
            &["", "-1", "101", "255", "256", "x", "1.0", " 5", "18446744073709551616"]
        } else {
            &["", "-1", "x", "1.0", " 1", "1 ", "0x1", "18446744073709551616", "é"]
        };
        f[i] = ch.of(bad).to_string();
        // the malformed field followed by others or not
        let n = 5 - ch.free(5 - i);
        if f[i].is_empty() && n == i + 1 {
            return Ok(());
        }
        let mut head = m.print(v);
        if v == 3 && k == 0 {
            head.pop();
        }
        let sep = if k == 3 { "" } else { "," };
        let l = format!("{head}{sep}{}", f[..n].join(":"));
        rejected(ch, &l, v, "a field of its hit sample is malformed")
    });
    ctx.space("volumes", 0, &|ch| {
        let v = gen::version(ch);
        let k = ch.free(4);
        let n = ch.free(257);
        let mut m = gen::default_hit(k);
        m.sample = Some(some_sample());
        let text = m.print(14).replace(":44:", &format!(":{n}:"));
        if n <= 100 {
            m.sample.as_mut().unwrap().volume = n as u8;
            ch.note(|| text.clone());
            let x = must(Hits, &text, 14)?;
            same("hit object", &text, 14, &x.view(), &m_hits(vec![m.clone()]))?;
            prints("hit object", &text, v, x.print(v), &m.print(v))
        } else {
            rejected(ch, &text, 14, "the volume is above 100")
        }
    });
}
