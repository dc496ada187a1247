//! C12, C13, C22: GTID positions as text and as sets, against independent models.
use super::part;
use crate::enc::*;
use crate::engine::*;
use crate::{ensure, fail, same};
use mysql_cdc::providers::mariadb::gtid::gtid::Gtid as MaGtid;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid::Gtid;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::providers::mysql::gtid::interval::Interval;
use mysql_cdc::providers::mysql::gtid::uuid::Uuid;
use mysql_cdc::providers::mysql::gtid::uuid_set::UuidSet;
use std::collections::BTreeMap;

/// Highest transaction id of a server
const MAX: u64 = i64::MAX as u64;

/// The denoted set: for each source the sorted, disjoint, non-adjacent intervals.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model(pub BTreeMap<Sid, Vec<(u64, u64)>>);

impl Model {
    pub fn add(&mut self, sid: Sid, a: u64, b: u64) -> bool {
        let v = self.0.entry(sid).or_default();
        let new = !v.iter().any(|x| x.0 <= a && b <= x.1);
        v.push((a, b));
        v.sort();
        let mut out: Vec<(u64, u64)> = vec![];
        for &(a, b) in v.iter() {
            match out.last_mut() {
                Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
                _ => out.push((a, b)),
            }
        }
        *v = out;
        new
    }
    pub fn text(&self) -> String {
        self.0
            .iter()
            .map(|(sid, v)| {
                let mut s = uuid_text(sid);
                for (a, b) in v {
                    s.push_str(&if a == b { format!(":{}", a) } else { format!(":{}-{}", a, b) });
                }
                s
            })
            .collect::<Vec<_>>()
            .join(",")
    }
    pub fn contains(&self, sid: &Sid, n: u64) -> bool {
        self.0.get(sid).map(|v| v.iter().any(|x| x.0 <= n && n <= x.1)).unwrap_or(false)
    }
    pub fn of(v: &[(Sid, Vec<(u64, u64)>)]) -> Model {
        let mut m = Model::default();
        for (sid, iv) in v {
            for (a, b) in iv {
                m.add(*sid, *a, *b);
            }
        }
        m
    }
}

pub fn check_set(g: &GtidSet, m: &Model, what: &str) -> Res {
    let text = sut(|| g.to_string());
    same!(text, m.text(), "{}: printed set", what);
    same!(g.uuid_sets.len(), m.0.len(), "{}: number of sources", what);
    for (sid, iv) in &m.0 {
        let k = uuid_text(sid);
        let u = match g.uuid_sets.get(&k) {
            Some(u) => u,
            None => fail!("{}: source {} is missing in {:?}", what, k, g),
        };
        same!(u.source_id.data, *sid, "{}: source id", what);
        let got: Vec<_> = u.intervals.iter().map(|i| (i.start, i.end)).collect();
        same!(got, *iv, "{}: intervals of {}", what, k);
    }
    Ok(())
}

fn near(s: &mut Src, m: &Model, sid: &Sid) -> u64 {
    let edges: Vec<u64> = m.0.get(sid).map(|v| v.iter().flat_map(|x| [x.0, x.1]).collect()).unwrap_or_default();
    if !edges.is_empty() && s.chance(3, 4) {
        let e = *s.pick(&edges);
        let d = s.draw(5) as i64 - 2;
        (e as i64).saturating_add(d).max(1) as u64
    } else if s.chance(1, 3) {
        1 + s.edge(MAX - 1)
    } else {
        1 + s.draw(30)
    }
}

fn interval(s: &mut Src, m: &Model, sid: &Sid) -> (u64, u64) {
    let a = near(s, m, sid).min(MAX);
    let len = match s.weighted(&[4, 4, 1]) {
        0 => 0,
        1 => s.draw(12),
        _ => s.edge(MAX),
    };
    (a, a.saturating_add(len).min(MAX))
}

fn case(s: &mut Src, t: &str) -> String {
    match s.weighted(&[4, 1, 1]) {
        0 => t.to_string(),
        1 => t.to_uppercase(),
        _ => t.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

/// A text form and the set it denotes.
fn set_text(s: &mut Src, c: &mut Case) -> (String, Model) {
    let mut m = Model::default();
    let mut parts: Vec<String> = vec![];
    let n_src = 1 + s.below(5);
    let sids: Vec<Sid> = (0..n_src).map(|_| gen_sid(s)).collect();
    let mut reps = false;
    let mut unsorted = false;
    while parts.len() < 40 && s.more(12) {
        let sid = *s.pick(&sids);
        reps |= m.0.contains_key(&sid);
        let mut t = case(s, &uuid_text(&sid));
        let mut n = 0;
        let mut last = 0;
        loop {
            let (a, b) = interval(s, &m, &sid);
            unsorted |= a <= last;
            last = b;
            m.add(sid, a, b);
            t.push_str(&if a == b && !s.chance(1, 8) { format!(":{}", a) } else { format!(":{}-{}", a, b) });
            n += 1;
            if n >= 60 || !s.more(9) {
                break;
            }
        }
        let (pre, post) = *s.pick(&[("", ""), (" ", ""), ("\n", ""), ("", " "), (" ", " \n"), ("", "\r\n"), ("\t", "")]);
        parts.push(format!("{}{}{}", pre, t, post));
    }
    c.label_if(reps, "repeated source");
    c.label_if(unsorted, "unordered or overlapping intervals");
    c.label_if(m.0.len() > 1, "several sources");
    c.nontrivial = m.0.values().any(|v| v.len() > 1) || m.0.len() > 1;
    (parts.join(","), m)
}

fn parse_set(t: &str, what: &str) -> Result<GtidSet, Fail> {
    sut(|| GtidSet::parse(t)).map_err(|e| Fail::new(format!("{} {:?} is refused: {:?}", what, clip(t, 300), e)))
}

fn c12_parse(s: &mut Src, c: &mut Case) -> Res {
    let (t, m) = set_text(s, c);
    c.note(|| format!("{:?}", t));
    let g = parse_set(&t, "the set")?;
    check_set(&g, &m, &format!("parsing {:?}", clip(&t, 300)))?;
    let again = parse_set(&g.to_string(), "the printed set")?;
    check_set(&again, &m, "printing and parsing")
}

fn c12_add(s: &mut Src, c: &mut Case) -> Res {
    let mut m = Model::default();
    let mut g = GtidSet::new();
    if s.chance(2, 3) {
        let (t, m2) = set_text(s, c);
        c.note(|| format!("start {:?}", t));
        g = parse_set(&t, "the set")?;
        m = m2;
    }
    let mut sids: Vec<Sid> = m.0.keys().copied().collect();
    for _ in 0..1 + s.below(3) {
        sids.push(gen_sid(s));
    }
    let (mut dup, mut new, mut merged) = (0, 0, 0);
    let mut n = 0;
    loop {
        let sid = *s.pick(&sids);
        let id = near(s, &m, &sid).min(MAX);
        let uuid = if s.flip() {
            Uuid::new(sid)
        } else {
            let t = case(s, &uuid_text(&sid));
            sut(|| Uuid::parse(t.clone())).map_err(|e| Fail::new(format!("uuid {} refused: {:?}", t, e)))?
        };
        c.note(|| format!("add {}:{}", uuid_text(&sid), id));
        let before = m.0.get(&sid).map(|v| v.len()).unwrap_or(0);
        let want = m.add(sid, id, id);
        let got = sut(|| g.add_gtid(Gtid::new(uuid, id)));
        match got {
            Ok(x) => same!(x, want, "reported as new when adding {}:{}", uuid_text(&sid), id),
            Err(e) => fail!("adding {}:{} failed: {:?}", uuid_text(&sid), id, e),
        }
        if m.0[&sid].len() < before {
            merged += 1;
        }
        if want {
            new += 1
        } else {
            dup += 1
        }
        check_set(&g, &m, &format!("after adding {}:{}", uuid_text(&sid), id))?;
        n += 1;
        if n >= 60 || !s.more(14) {
            break;
        }
    }
    let again = parse_set(&g.to_string(), "the printed set")?;
    check_set(&again, &m, "printing and parsing")?;
    c.label_if(merged > 0, "two intervals joined");
    c.label_if(dup > 0, "id already present");
    c.nontrivial = new >= 2 && (dup > 0 || merged > 0);
    Ok(())
}

/// Every subset of small ids by additions in every order: all shapes of joining intervals.
fn c12_small(s: &mut Src, c: &mut Case) -> Res {
    let k = 3 + s.below(6) as u64;
    let base = *s.pick(&[1u64, 2, 100, MAX - 10]);
    let sid = gen_sid(s);
    let mut ids: Vec<u64> = (0..k).map(|i| base + i).collect();
    s.shuffle(&mut ids);
    let mut g = GtidSet::new();
    let mut m = Model::default();
    for id in ids {
        c.note(|| format!("add {}", id));
        let want = m.add(sid, id, id);
        let got = sut(|| g.add_gtid(Gtid::new(Uuid::new(sid), id)));
        ensure!(matches!(got, Ok(x) if x == want), "adding {}: {:?}", id, got);
        check_set(&g, &m, &format!("after adding {}", id))?;
    }
    c.nontrivial = true;
    Ok(())
}

/// Sets of very many intervals, or of very many sources.
fn c12_long(s: &mut Src, c: &mut Case) -> Res {
    let top = if c.thorough { 40_000 } else { 6_000 };
    let n = 2 + s.len(700, top);
    let sources = match s.draw(3) {
        0 => n,
        1 => 2 + s.below(n - 1),
        k => k as usize - 1,
    };
    let seed = s.draw(u64::MAX);
    let mut r = Rng::new(seed);
    let sids: Vec<Sid> = (0..sources as u64)
        .map(|i| {
            let mut x = [0x24u8; 16];
            x[8..].copy_from_slice(&i.wrapping_mul(0x9e37_79b9_7f4a_7c15).to_be_bytes());
            x
        })
        .collect();
    let mut iv: Vec<(usize, (u64, u64))> = vec![];
    let mut m = Model::default();
    let mut at = vec![1 + s.draw(3); sources];
    for i in 0..n {
        let k = if i < sources { i } else { r.below(sources as u64) as usize };
        let b = at[k] + r.below(3);
        iv.push((k, (at[k], b)));
        m.0.entry(sids[k]).or_default().push((at[k], b));
        at[k] = b + 2 + r.below(2);
    }
    if s.flip() {
        for i in (1..iv.len()).rev() {
            iv.swap(i, r.below(i as u64 + 1) as usize);
        }
    } else {
        iv.sort();
    }
    let mut t = String::new();
    let mut last = usize::MAX;
    for (k, (a, b)) in &iv {
        if *k != last || r.below(40) == 0 {
            t.push_str(if t.is_empty() { "" } else { "," });
            t.push_str(&uuid_text(&sids[*k]));
            last = *k;
        }
        t.push_str(&if a == b { format!(":{}", a) } else { format!(":{}-{}", a, b) });
    }
    c.note(|| format!("{} intervals of {} sources (choice {:#x}), {} bytes of text", n, sources, seed, t.len()));
    // not to be printed in full
    let short = |r: Res| r.map_err(|f| Fail { msg: clip(&f.msg, 600), ..f });
    let mut g = parse_set(&t, "the set")?;
    short(check_set(&g, &m, "parsing"))?;
    let mut joined = 0;
    for _ in 0..1 + s.below(12) {
        let sid = sids[s.below(sources)];
        let v = &m.0[&sid];
        let e = v[s.below(v.len())];
        let id = (*s.pick(&[e.1 + 1, e.0, e.1, e.0 - 1, e.1 + 2])).max(1);
        let before = v.len();
        c.note(|| format!("add {}:{}", uuid_text(&sid), id));
        let want = m.add(sid, id, id);
        joined += (m.0[&sid].len() < before) as u32;
        let got = sut(|| g.add_gtid(Gtid::new(Uuid::new(sid), id)));
        ensure!(matches!(got, Ok(x) if x == want), "adding {}:{}: {:?} instead of {}", uuid_text(&sid), id, got, want);
        short(check_set(&g, &m, &format!("after adding {}:{}", uuid_text(&sid), id)))?;
    }
    let again = parse_set(&g.to_string(), "the printed set")?;
    short(check_set(&again, &m, "printing and parsing"))?;
    c.label_if(sources > 100, "more than 100 sources");
    c.label_if(n / sources > 100, "more than 100 intervals of a source");
    c.label_if(joined > 0, "two intervals joined");
    c.nontrivial = n > 50;
    Ok(())
}

/// The part of a set that belongs to one source.
fn c12_source(s: &mut Src, c: &mut Case) -> Res {
    let sid = gen_sid(s);
    let mut m = Model::default();
    let mut iv = vec![];
    for _ in 0..s.below(6) {
        let (a, b) = interval(s, &m, &sid);
        m.add(sid, a, b);
        iv.push((a, b));
    }
    c.note(|| format!("{} {:?}", uuid_text(&sid), iv));
    c.nontrivial = iv.len() > 1;
    let mut u = sut(|| UuidSet::new(Uuid::new(sid), iv.iter().map(|x| Interval::new(x.0, x.1)).collect()));
    let check = |u: &UuidSet, m: &Model, what: &str| -> Res {
        let got: Vec<_> = u.intervals.iter().map(|i| (i.start, i.end)).collect();
        same!(got, m.0.get(&sid).cloned().unwrap_or_default(), "{}: intervals", what);
        same!(u.source_id.data, sid, "{}: source", what);
        if !m.0.is_empty() {
            same!(sut(|| u.to_string()), m.text(), "{}: printed", what);
        }
        Ok(())
    };
    check(&u, &m, "made of intervals")?;
    loop {
        let id = near(s, &m, &sid).min(MAX);
        if s.chance(1, 4) {
            let mut other = sid;
            other[s.below(16)] ^= 1 << s.below(8);
            c.note(|| format!("add {}:{}", uuid_text(&other), id));
            let r = sut(|| u.add_gtid(Gtid::new(Uuid::new(other), id)));
            ensure!(r.is_err(), "a transaction of another source is added: {:?}", r);
        } else {
            c.note(|| format!("add {}", id));
            let want = m.add(sid, id, id);
            let r = sut(|| u.add_gtid(Gtid::new(Uuid::new(sid), id)));
            ensure!(matches!(r, Ok(x) if x == want), "adding {}: {:?} instead of {}", id, r, want);
        }
        check(&u, &m, "after an addition")?;
        if !s.more(8) {
            return Ok(());
        }
    }
}

// ----------------------------------------------------------------------------------------- C13

fn gen_domain(s: &mut Src, pool: &[u32]) -> u32 {
    if !pool.is_empty() && s.chance(2, 3) {
        *s.pick(pool)
    } else if s.flip() {
        s.draw(5) as u32
    } else {
        s.uint(32) as u32
    }
}

pub fn list_text(v: &[(u32, u32, u64)]) -> String {
    v.iter().map(|(a, b, q)| format!("{}-{}-{}", a, b, q)).collect::<Vec<_>>().join(",")
}

/// The entries of a canonical text.
pub fn list_of(text: &str) -> Vec<(u32, u32, u64)> {
    let part = |x: &str| -> Vec<u64> { x.split('-').map(|n| n.parse().unwrap()).collect() };
    text.split(',').filter(|x| !x.is_empty()).map(part).map(|n| (n[0] as u32, n[1] as u32, n[2])).collect()
}

pub fn check_list(g: &GtidList, m: &[(u32, u32, u64)], what: &str) -> Res {
    same!(sut(|| g.to_string()), list_text(m), "{}: printed list", what);
    let got: Vec<_> = g.gtids.iter().map(|x| (x.domain_id, x.server_id, x.sequence)).collect();
    same!(got, m.to_vec(), "{}: entries", what);
    Ok(())
}

fn c13(s: &mut Src, c: &mut Case) -> Res {
    let mut m: Vec<(u32, u32, u64)> = vec![];
    let many = s.chance(1, 10);
    let least = if many { s.draw(250) as usize } else { 0 };
    let mut tries = 0;
    while m.len() < 300 && tries < 1000 && (m.len() < least || s.more(10)) {
        tries += 1;
        let d = if m.len() < least { s.uint(32) as u32 } else { gen_domain(s, &[]) };
        if m.iter().all(|x| x.0 != d) {
            m.push((d, s.uint(32) as u32, s.uint(64)));
        }
    }
    let mut t = String::new();
    for (i, x) in m.iter().enumerate() {
        if i > 0 {
            t.push(',');
        }
        let (pre, post) = *s.pick(&[("", ""), ("", ""), (" ", ""), ("\n", ""), ("", " "), ("\t", "\r\n")]);
        t.push_str(&format!("{}{}-{}-{}{}", pre, x.0, x.1, x.2, post));
    }
    c.note(|| format!("{:?}", t));
    let mut g = sut(|| GtidList::parse(&t)).map_err(|e| Fail::new(format!("list {:?} refused: {:?}", t, e)))?;
    check_list(&g, &m, "parsing")?;
    if m.len() > 0 {
        // the same domain twice, wherever the copy is
        let mut v = m.clone();
        let x = s.pick(&m).0;
        let at = s.below(v.len() + 1);
        v.insert(at, (x, s.uint(32) as u32, s.uint(64)));
        let t = list_text(&v);
        ensure!(sut(|| GtidList::parse(&t)).is_err(), "a list with domain {} twice was accepted: {}", x, clip(&t, 300));
    }
    let (mut new, mut old) = (0, 0);
    let mut n = 0;
    while n < 200 && s.more(13) {
        let pool: Vec<u32> = m.iter().map(|x| x.0).collect();
        let d = gen_domain(s, &pool);
        let e = (d, s.uint(32) as u32, s.uint(64));
        c.note(|| format!("add {:?}", e));
        let got = sut(|| g.add_gtid(MaGtid::new(e.0, e.1, e.2)));
        let want = match m.iter_mut().find(|x| x.0 == d) {
            Some(x) => {
                *x = e;
                old += 1;
                false
            }
            None => {
                m.push(e);
                new += 1;
                true
            }
        };
        same!(got, want, "domain reported as new when adding {:?}", e);
        check_list(&g, &m, "after an addition")?;
        n += 1;
    }
    let t = sut(|| g.to_string());
    let g = sut(|| GtidList::parse(&t)).map_err(|e| Fail::new(format!("printed list {:?} refused: {:?}", t, e)))?;
    check_list(&g, &m, "printing and parsing")?;
    c.label_if(m.len() > 50, "more than 50 domains");
    c.label_if(old > 0, "domain replaced");
    c.label_if(new > 0, "domain added");
    c.nontrivial = old > 0 && new > 0;
    Ok(())
}

/// Lists of very many domains.
fn c13_long(s: &mut Src, c: &mut Case) -> Res {
    let n = 2 + s.len(300, if c.thorough { 10_000 } else { 1_800 });
    let seed = s.draw(u64::MAX);
    let mut r = Rng::new(seed);
    let step = *s.pick(&[1u32, 7, 0x9e37_79b1, 1 << 20]);
    let base = s.uint(32) as u32;
    let n = if step == 1 << 20 { n.min(4_000) } else { n };
    let mut m: Vec<(u32, u32, u64)> =
        (0..n as u32).map(|i| (base.wrapping_add(i.wrapping_mul(step)), r.next() as u32, r.next() >> r.below(64))).collect();
    let t = list_text(&m);
    c.note(|| format!("{} domains from {} by {} (choice {:#x})", n, base, step, seed));
    let short = |r: Res| r.map_err(|f| Fail { msg: clip(&f.msg, 600), ..f });
    let refused = |e| Fail::new(format!("a list of {} domains is refused: {:?}", n, e));
    let mut g = sut(|| GtidList::parse(&t)).map_err(refused)?;
    short(check_list(&g, &m, "parsing"))?;
    let (mut new, mut old) = (0, 0);
    for _ in 0..1 + s.below(30) {
        let e = match s.draw(2) {
            0 => {
                let d = m[s.below(m.len())].0;
                (d, s.uint(32) as u32, s.uint(64))
            }
            1 => (m[m.len() - 1 - s.below(3.min(m.len()))].0, s.uint(32) as u32, s.uint(64)),
            _ => (s.uint(32) as u32, s.uint(32) as u32, s.uint(64)),
        };
        c.note(|| format!("add {:?}", e));
        let got = sut(|| g.add_gtid(MaGtid::new(e.0, e.1, e.2)));
        let want = match m.iter_mut().find(|x| x.0 == e.0) {
            Some(x) => {
                *x = e;
                old += 1;
                false
            }
            None => {
                m.push(e);
                new += 1;
                true
            }
        };
        same!(got, want, "domain reported as new when adding {:?}", e);
        short(check_list(&g, &m, "after an addition"))?;
    }
    let mut v = m.clone();
    let (i, j) = (s.below(v.len()), s.below(v.len() + 1));
    v.insert(j, (v[i].0, 1, 2));
    ensure!(sut(|| GtidList::parse(&list_text(&v))).is_err(), "a list with domain {} at {} and at {} was accepted", v[j].0, i, j);
    let t = sut(|| g.to_string());
    let g = sut(|| GtidList::parse(&t)).map_err(refused)?;
    short(check_list(&g, &m, "printing and parsing"))?;
    c.label_if(n > 1000, "more than 1000 domains");
    c.label_if(old > 0, "domain replaced");
    c.label_if(new > 0, "domain added");
    c.nontrivial = n > 50 && old > 0;
    Ok(())
}

// ----------------------------------------------------------------------------------------- C22

fn mutate_text(s: &mut Src, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let bits: [&str; 26] = [
        ":", "-", ",", " ", "\n", "0", "1", "9", "a", "F", "g", "+", ".", "", "\u{e9}", "\u{1F600}", "\u{0}", "\u{FF11}",
        "99999999999999999999999", "18446744073709551615", "18446744073709551616", "4294967295", "4294967296", "--", "::",
        "24bc7850-2c16-11e6-a073-0242ac110001",
    ];
    loop {
        let n = v.len();
        match s.below(7) {
            0 if n > 0 => {
                let i = s.below(n);
                v.remove(i);
            }
            1 => {
                let i = s.below(n + 1);
                let b = *s.pick(&bits);
                v.splice(i..i, b.chars());
            }
            2 if n > 0 => {
                let i = s.below(n);
                let b = *s.pick(&bits);
                v.splice(i..i + 1, b.chars());
            }
            3 => {
                let k = s.below(n + 1);
                v.truncate(k);
            }
            4 if n > 0 => {
                let i = s.below(n);
                v.drain(..i);
            }
            5 if n > 0 => {
                let i = s.below(n);
                let k = (1 + s.below(12)).min(n - i);
                let d = v[i..i + k].to_vec();
                let j = s.below(n + 1);
                v.splice(j..j, d);
            }
            6 if n > 1 => {
                let (i, j) = (s.below(n), s.below(n));
                v.swap(i, j);
            }
            _ => {}
        }
        if !s.more(7) {
            return v.into_iter().collect();
        }
    }
}

fn noise_text(s: &mut Src) -> String {
    let alphabet: Vec<char> = "0123456789abcdefABCDEF-:, \nxg.+\u{e9}".chars().collect();
    let n = s.len(50, 120);
    (0..n).map(|_| *s.pick(&alphabet)).collect()
}

/// Runs of digits in a text, as numbers (None if larger than 64 bits)
fn digit_runs(t: &str) -> Vec<Option<u64>> {
    let mut v = vec![];
    let mut cur = String::new();
    for ch in t.chars().chain(std::iter::once(' ')) {
        if ch.is_ascii_digit() {
            cur.push(ch);
        } else if !cur.is_empty() {
            v.push(cur.parse().ok());
            cur.clear();
        }
    }
    v
}

fn c22_set(s: &mut Src, c: &mut Case) -> Res {
    let t = if s.chance(1, 8) {
        noise_text(s)
    } else {
        let (t, _) = set_text(s, &mut Case::default());
        mutate_text(s, &t)
    };
    c.note(|| format!("{:?}", t));
    c.nontrivial = !t.trim().is_empty();
    let g = match sut(|| GtidSet::parse(&t)) {
        Err(_) => {
            c.label("refused");
            return Ok(());
        }
        Ok(g) => g,
    };
    c.label("accepted");
    let printed = sut(|| g.to_string());
    let again = match sut(|| GtidSet::parse(&printed)) {
        Ok(g) => g,
        Err(e) => fail!("{:?} is accepted but its printed form {:?} is not: {:?}", t, printed, e),
    };
    same!(sut(|| again.to_string()), printed, "{:?}: printed form parsed and printed again", t);
    // nothing in the text may have been dropped
    let mut members: BTreeMap<String, Vec<(u64, u64)>> = BTreeMap::new();
    for u in g.uuid_sets.values() {
        members.insert(hex(&u.source_id.data), u.intervals.iter().map(|i| (i.start, i.end)).collect());
    }
    for p in t.split(',') {
        let p: String = p.chars().filter(|c| !c.is_whitespace()).collect();
        if p.is_empty() {
            continue;
        }
        let (sid, ids) = p.split_once(':').unwrap_or((&p, ""));
        let sid: String = sid.chars().filter(|c| c.is_ascii_hexdigit()).collect::<String>().to_lowercase();
        let iv = match members.get(&sid) {
            Some(iv) => iv,
            None => fail!("{:?} is accepted but {:?} is not in {:?}", t, p, printed),
        };
        for n in digit_runs(ids) {
            ensure!(
                n.map(|n| iv.iter().any(|x| x.0 <= n && n <= x.1)).unwrap_or(false),
                "{:?} is accepted but {:?} of {:?} is not in {:?}",
                t,
                n,
                p,
                printed
            );
        }
    }
    Ok(())
}

fn c22_list(s: &mut Src, c: &mut Case) -> Res {
    let t = if s.chance(1, 8) {
        noise_text(s)
    } else {
        let mut v = vec![];
        while v.len() < 20 && s.more(11) {
            v.push((s.draw(40) as u32, s.uint(32) as u32, s.uint(64)));
        }
        mutate_text(s, &list_text(&v))
    };
    c.note(|| format!("{:?}", t));
    c.nontrivial = !t.trim().is_empty();
    let g = match sut(|| GtidList::parse(&t)) {
        Err(_) => {
            c.label("refused");
            return Ok(());
        }
        Ok(g) => g,
    };
    c.label("accepted");
    let printed = sut(|| g.to_string());
    match sut(|| GtidList::parse(&printed)) {
        Ok(g) => same!(sut(|| g.to_string()), printed, "{:?}: printed form parsed and printed again", t),
        Err(e) => fail!("{:?} is accepted but its printed form {:?} is not: {:?}", t, printed, e),
    }
    let mut want = vec![];
    for p in t.split(',') {
        let p: String = p.chars().filter(|c| !c.is_whitespace()).collect();
        if !p.is_empty() {
            want.push(digit_runs(&p));
        }
    }
    let got: Vec<Vec<Option<u64>>> =
        g.gtids.iter().map(|x| vec![Some(x.domain_id as u64), Some(x.server_id as u64), Some(x.sequence)]).collect();
    same!(got, want, "{:?} is accepted: its components", t);
    Ok(())
}

fn c22_uuid(s: &mut Src, c: &mut Case) -> Res {
    let t = if s.chance(1, 8) {
        noise_text(s)
    } else {
        let sid = gen_sid(s);
        let t = case(s, &uuid_text(&sid));
        if s.chance(1, 8) { t } else { mutate_text(s, &t) }
    };
    c.note(|| format!("{:?}", t));
    c.nontrivial = !t.trim().is_empty();
    match sut(|| Uuid::parse(t.clone())) {
        Err(_) => c.label("refused"),
        Ok(u) => {
            c.label("accepted");
            let h: String = t.chars().filter(|c| c.is_ascii_hexdigit()).collect::<String>().to_lowercase();
            same!(hex(&u.data), h, "{:?} is accepted: its digits", t);
            let printed = sut(|| u.to_string());
            match sut(|| Uuid::parse(printed.clone())) {
                Ok(v) => {
                    same!(v.data, u.data, "{:?}: printed form parsed", t);
                    same!(sut(|| v.to_string()), printed, "{:?}: printed form parsed and printed", t);
                }
                Err(e) => fail!("{:?} is accepted but its printed form {:?} is not: {:?}", t, printed, e),
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            level: "exploration",
            rule: "a case is non-trivial if the set has several sources or intervals (part add: two new ids at least, and one that was present or joined two intervals)",
            assumptions: &["Transaction ids are 1 to 2^63-1, as in a server.", "Blanks stand around the sources, as servers print them."],
            parts: vec![part("parse", 700_000, 20_000_000, c12_parse), part("add", 250_000, 8_000_000, c12_add), part("small", 300_000, 5_000_000, c12_small), part("source", 200_000, 5_000_000, c12_source), part("long", 3_000, 20_000, c12_long)],
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: "a case is non-trivial if additions both replace a domain and add one",
            assumptions: &[],
            parts: vec![part("lists", 500_000, 15_000_000, c13), part("long", 4_000, 30_000, c13_long)],
        },
        Prop {
            id: "C22",
            level: "exploration",
            rule: "a case is non-trivial if the text is not blank",
            assumptions: &["A number or source of the text counts as dropped if it is not in the accepted position; the grammar is not prescribed beyond that."],
            parts: vec![part("set", 1_000_000, 30_000_000, c22_set), part("list", 1_000_000, 30_000_000, c22_list), part("uuid", 1_000_000, 30_000_000, c22_uuid)],
        },
    ]
}
