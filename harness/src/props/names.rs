//! C08, C09: listings, object names and paths.
use super::common::*;
use super::Regress;
use crate::engine::{Cx, Property, Res, Source};
use crate::foreign::{describe, encode, gen_file, FCfg, FFile, FIdx, FObj, FSeg};
use crate::hist::*;
use crate::model::*;
use crate::parser::split_path;
use crate::ty::Ty;
use crate::{ensure, fail};
use tedium::{ChannelPath, PropertyPath, TdmsError};

// ---------------------------------------------------------------- C08

/// A universe of many related names.
fn name_universe(s: &mut Source) -> Universe {
    let mut u = Universe { groups: vec![gen_name(s)], chans: vec![], props: vec!["p".into()] };
    while s.more(u.groups.len(), 1, 9, 4) {
        let base = s.pick(&u.groups).clone();
        let g = related(s, base);
        u.groups.push(g);
    }
    let mut chans: Vec<String> = vec!["c".into()];
    while s.more(u.chans.len(), 1, 12, 5) {
        let g = s.pick(&u.groups).clone();
        let base = if s.chance(30) { s.pick(&u.groups).clone() } else { s.pick(&chans).clone() };
        let c = if s.chance(40) { base } else { related(s, base) };
        chans.push(c.clone());
        u.chans.push((g, c));
    }
    u
}

fn related(s: &mut Source, base: String) -> String {
    match s.below(9) {
        0 => gen_name(s),
        1 => base + "1",
        2 => base + "'",
        3 => base + "/",
        4 => base + "'/'x",
        5 => base + "\"/\"x",
        6 => format!("x{base}"),
        7 => base.chars().take(base.chars().count().saturating_sub(1)).collect(),
        _ => base.to_uppercase(),
    }
}

fn c08(s: &mut Source, cx: &mut Cx) -> Res {
    if s.chance(40) {
        let (u, f) = gen_file(s, &FCfg { quotes: true, big: false, avg_segs: 3, ..FCfg::default() });
        cx.note(|| describe(&f));
        label_foreign(cx, &f);
        let e = encode(&f, false);
        let m = e.model();
        cx.label_if(m.groups().iter().any(|g| g.contains('\'')), "foreign group name with a quote");
        cx.nontrivial = m.groups().len() > 1;
        let mut file = must_open(e.bytes, "well-formed file")?;
        check_listing(&file, &m, &u.universe())?;
        return check_listed_usable(&mut file, &m);
    }
    let uni = name_universe(s);
    let ops = gen_ops(s, &uni, &HCfg { avg_ops: if cx.thorough { 14 } else { 9 }, props: 10, writes: 8, big: false, reads: false, ..HCfg::default() });
    let h = Hist { uni, ops };
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);
    let (mut f, d) = new_file()?;
    let mut m = Model::default();
    check_listing(&f, &m, &h.uni)?;
    run_on_disk(&mut f, &d, &h, &mut m, |ev, m| {
        if let Event::Closed(f) = ev {
            check_listing(f, m, &h.uni).map_err(|e| format!("in session: {e}"))?;
            check_listed_usable(f, m).map_err(|e| format!("in session: {e}"))?;
        }
        Ok(())
    })?;
    cx.nontrivial = m.groups().len() > 1;
    let mut g = reopen_copy(&d, "fresh open")?;
    check_listing(&g, &m, &h.uni).map_err(|e| format!("fresh open: {e}"))?;
    check_listed_usable(&mut g, &m).map_err(|e| format!("fresh open: {e}"))
}

// ---------------------------------------------------------------- C09

fn check_names(group: &str, chan: &str) -> Res {
    let (cg, cc) = (canon(group), canon(chan));
    let f = PropertyPath::file();
    ensure!(f.path() == "/" && f.group_name().is_none() && f.channel_name().is_none(), "the file path is {f} with names {:?} {:?}", f.group_name(), f.channel_name());
    let g = PropertyPath::group(group);
    let gt = path_text(Some(&cg), None);
    ensure!(g.path() == gt, "group({group:?}) has the path {:?}, expected {gt:?}", g.path());
    ensure!(g.group_name() == Some(cg.as_str()), "group({group:?}) reports the group {:?}", g.group_name());
    ensure!(g.channel_name().is_none(), "group({group:?}) reports the channel {:?}", g.channel_name());
    ensure!(matches!(ChannelPath::try_from(g.clone()), Err(TdmsError::InvalidChannelPath(_))), "group({group:?}) converts to a channel path");
    let c = PropertyPath::channel(group, chan);
    let ct = path_text(Some(&cg), Some(&cc));
    let cp = ChannelPath::new(group, chan);
    ensure!(c.path() == ct && cp.path() == ct, "channel({group:?}, {chan:?}) has the path {:?} / {:?}, expected {ct:?}", c.path(), cp.path());
    ensure!(c.group_name() == Some(cg.as_str()) && cp.group_name() == cg, "channel({group:?}, {chan:?}) reports the group {:?}", c.group_name());
    ensure!(c.channel_name() == Some(cc.as_str()) && cp.channel_name() == cc, "channel({group:?}, {chan:?}) reports the channel {:?}", c.channel_name());
    ensure!(format!("{cp}") == ct && format!("{c}") == ct, "channel({group:?}, {chan:?}) displays as {cp}");
    match ChannelPath::try_from(c.clone()) {
        Ok(x) => ensure!(x == cp, "channel({group:?}, {chan:?}) converts to {x}"),
        Err(e) => fail!("channel({group:?}, {chan:?}) does not convert to a channel path: {e:?}"),
    }
    let p: &PropertyPath = cp.as_ref();
    ensure!(*p == c, "{cp} as a property path is {p}");
    for t in ["/", gt.as_str(), ct.as_str()] { check_text(t)?; }
    Ok(())
}

fn check_text(t: &str) -> Res {
    match (split_path(t), PropertyPath::try_from(t)) {
        (Some((g, c)), Ok(p)) => {
            ensure!(p.path() == t, "path text {t:?} became {:?}", p.path());
            // Names that hold a quote have it doubled in the text; whether the doubled or the plain form is reported is not pinned down.
            let same = |got: Option<&str>, want: &Option<String>| match (got, want) {
                (None, None) => true,
                (Some(a), Some(b)) => a == b || a == b.replace("''", "'"),
                _ => false,
            };
            ensure!(same(p.group_name(), &g), "path text {t:?} reports the group {:?}", p.group_name());
            ensure!(same(p.channel_name(), &c), "path text {t:?} reports the channel {:?}", p.channel_name());
            let a = ChannelPath::try_from(t);
            let b = ChannelPath::try_from(p);
            match (a, b, c.is_some()) {
                (Ok(a), Ok(b), true) => {
                    ensure!(a.path() == t && b.path() == t, "path text {t:?} as a channel path is {a} / {b}");
                    ensure!(same(Some(a.group_name()), &g) && same(Some(a.channel_name()), &c), "path text {t:?} as a channel path reports {:?} {:?}", a.group_name(), a.channel_name());
                }
                (Err(TdmsError::InvalidChannelPath(_)), Err(TdmsError::InvalidChannelPath(_)), false) => {}
                (a, b, want) => fail!("path text {t:?} as a channel path: {a:?} / {b:?}, expected {}", if want { "success" } else { "InvalidChannelPath" }),
            }
        }
        (None, Err(TdmsError::InvalidObjectPath(_))) => {
            let c = ChannelPath::try_from(t);
            ensure!(matches!(c, Err(TdmsError::InvalidObjectPath(_))), "malformed path text {t:?} as a channel path gives {c:?}");
        }
        (Some(_), Err(e)) => fail!("well-formed path text {t:?} is refused: {e:?}"),
        (None, r) => fail!("malformed path text {t:?} gives {r:?}"),
    }
    Ok(())
}

pub fn random_text(s: &mut Source) -> String {
    match s.weighted(&[8, 6, 6, 1]) {
        3 => {
            // long, with wide characters at any offset, with or without the marks of a path
            let mut t = "x".repeat(s.below(5));
            let part = *s.pick(&["é", "日", "😀", "a", "日a", "/'é'", "''", "é'"]);
            t.push_str(&part.repeat(s.range(10, 400) as usize));
            match s.below(5) { 0 => path_text(Some(&t), None), 1 => path_text(Some("g"), Some(&t)), 2 => format!("/{t}"), 3 => format!("/'{t}"), _ => t }
        }
        0 => {
            let mut t = String::new();
            while s.more(t.chars().count(), 0, 24, 9) {
                let c = match s.weighted(&[6, 5, 3, 1, 1]) {
                    0 => '\'', 1 => '/', 2 => (b'a' + s.below(3) as u8) as char, 3 => *s.pick(&['"', ' ', '\0', 'é', '日', '\\', '\u{10ffff}']),
                    _ => char::from_u32(s.draw(0x10ffff) as u32).unwrap_or('x'),
                };
                t.push(c);
            }
            t
        }
        1 => {
            // well-formed with doubled quotes
            let a = gen_name(s).replace('\'', "''");
            let b = gen_name(s).replace('\'', "''");
            if s.chance(50) { path_text(Some(&a), Some(&b)) } else { path_text(Some(&a), None) }
        }
        _ => {
            // a well-formed text with one edit
            let a = gen_name(s).replace('\'', "''");
            let b = gen_name(s).replace('\'', "''");
            let mut v: Vec<char> = path_text(Some(&a), Some(&b)).chars().collect();
            let i = match s.below(6) { 0 => 0, 1 => v.len() - 1, _ => s.below(v.len()) };
            match s.below(4) {
                0 => { v.remove(i); }
                1 => v.insert(i, *s.pick(&['/', '\'', '"', 'a'])),
                2 => v[i] = *s.pick(&['/', '\'', '"', 'a']),
                _ => v.truncate(i),
            }
            v.into_iter().collect()
        }
    }
}

fn c09(s: &mut Source, cx: &mut Cx) -> Res {
    let (g, c) = (gen_name(s), gen_name(s));
    let t = random_text(s);
    cx.note(|| format!("names {g:?} {c:?}; text {t:?}"));
    cx.label_if(g.contains('/') || c.contains('/'), "name with a slash");
    cx.label_if(g.contains('\'') || c.contains('\''), "name with a single quote");
    cx.label_if(g.is_empty() || c.is_empty(), "empty name");
    cx.label_if(split_path(&t).is_some(), "well-formed text");
    cx.label_if(split_path(&t).is_none(), "malformed text");
    cx.nontrivial = g.chars().chain(c.chars()).any(|x| !x.is_alphanumeric()) || t.len() > 2;
    cx.evals = 2;
    check_names(&g, &c)?;
    check_text(&t)
}

fn r09() -> Regress {
    // every text over the four interesting characters up to a length
    fn all_texts(cx: &mut Cx) -> Res {
        let max = if cx.thorough { 11 } else { 8 };
        for n in 0..=max {
            for k in 0..4u64.pow(n) {
                let t: String = (0..n).map(|i| ['/', '\'', 'a', '"'][(k >> (2 * i) & 3) as usize]).collect();
                check_text(&t)?;
                cx.evals += 1;
            }
        }
        Ok(())
    }
    fn all_names(cx: &mut Cx) -> Res {
        let mut names = vec![String::new()];
        for n in 1..=3u32 {
            for k in 0..4u64.pow(n) { names.push((0..n).map(|i| ['/', '\'', 'a', '"'][(k >> (2 * i) & 3) as usize]).collect()); }
        }
        for a in &names { for b in &names { check_names(a, b)?; cx.evals += 1; } }
        Ok(())
    }
    vec![("all_texts", all_texts), ("all_names", all_names)]
}

fn r08() -> Regress {
    // an empty file, a quoted foreign group that is a prefix of another, an implicit group
    fn quoted_prefix(_: &mut Cx) -> Res {
        let mk = |g: &str, c: &str| FObj { group: Some(g.into()), chan: Some(c.into()), idx: FIdx::Raw { ty: Ty::I32, n: 2, total: None }, props: vec![] };
        let f = FFile { segs: vec![FSeg { be: false, inter: false, new_list: true, meta: Some(vec![mk("g", "c"), mk("g''x", "c"), mk("g''", "d"), mk("g'' / ''h", "d"), mk("g/", "c")]), raw: Some((1, 3)), version: 4713, pad: 0 }] };
        let e = encode(&f, false);
        let mut file = must_open(e.bytes.clone(), "well-formed file")?;
        check_listing(&file, &e.model(), &Universe::default())?;
        check_listed_usable(&mut file, &e.model())
    }
    vec![("quoted_prefix", quoted_prefix)]
}

pub fn all() -> Vec<Property> {
    let level = "exploration";
    vec![
        Property { id: "C08", level, rule: "60%: generated histories over up to nine related group names (prefixes, suffixes, quote and slash variants, case, empty, unicode) and twelve channels; 40%: encoded foreign files whose names hold doubled quotes. Group and channel listings are compared with the model in session and reopened, for present and absent groups, and every listed path is used to read names, properties, length and data. Non-trivial: at least two groups.", run: c08, quick: 900000, thorough: 22500000, regress: r08,
            assumptions: &["a group whose stored name holds a single quote (only other producers write those) is addressed by its path text"] },
        Property { id: "C09", level, rule: "names from a pool of special names and random unicode, and path texts that are random over / ' letters and unicode, well-formed with doubled quotes, or well-formed with one edit; every text over {/ ' a \"} up to length 8 (thorough: 11) and every pair of names up to length 3 is enumerated. Oracle: an independent path tokenizer. Non-trivial: a name with a non-alphanumeric character or a text longer than two.", run: c09, quick: 4000000, thorough: 100000000, regress: r09, assumptions: &[] },
    ]
}
