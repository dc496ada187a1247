//! C06, C08, C10, C11 and the file half of C09: histories of whole events through the parser and
//! the file reader.
use super::part;
use crate::enc::*;
use crate::engine::*;
use crate::{ensure, fail};
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::events::event_type::EventType;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::sync::Arc;

const VAL: ValOpt = ValOpt { bad: false, big: false };
pub const ROWS: RowOpt = RowOpt { val: VAL, max_rows: 4, subset: true, nulls: true, extra: true };

pub fn small_table(s: &mut Src, id: u64, max: usize) -> Arc<Table> {
    let mut cols = vec![Col::gen(s, Family::Any)];
    while cols.len() < max && s.more(10) {
        cols.push(Col::gen(s, Family::Any));
    }
    let mut t = Table::gen(s, cols, s_chance_opts());
    t.id = id;
    Arc::new(t)
}
fn s_chance_opts() -> bool {
    false
}

// ----------------------------------------------------------------------------------------- C06

fn c06(s: &mut Src, c: &mut Case) -> Res {
    let mut p = EventParser::new();
    let mut crc = s.chance(1, 8);
    if crc {
        feed_cmp(&mut p, &Ev::fde(Some(1)), &Hdr::default(), true)?;
    }
    // ids that are equal in their low bytes
    let base = s.uint(48);
    let mut ids = vec![base];
    for k in [8u32, 16, 24, 32, 40] {
        ids.push((base ^ 1 << k) & 0xffff_ffff_ffff);
    }
    ids.push((base + 1) & 0xffff_ffff_ffff);
    ids.sort();
    ids.dedup();
    s.shuffle(&mut ids);
    let n_ids = 1 + s.below(ids.len().min(5));
    ids.truncate(n_ids);
    let mut defs: BTreeMap<u64, Arc<Table>> = BTreeMap::new();
    let (mut redefined, mut switches, mut unknown, mut rejected, mut formats) = (0, 0, 0, 0, 0);
    let mut last = None;
    let mut n = 0;
    loop {
        let id = *s.pick(&ids);
        let h = Hdr::gen(s);
        match s.weighted(&[6, 4, 1, 2, 1]) {
            0 | 1 if !defs.contains_key(&id) => {
                if s.chance(1, 4) {
                    // rows of a table without a definition
                    let t = small_table(s, id, 4);
                    let r = Arc::new(Rows::gen(s, &t, ROWS));
                    let w = Ev::Rows(r).wire(&h, crc);
                    c.note(|| format!("rows of the undefined table {:#x}", id));
                    ensure!(feed(&mut p, &w).is_err(), "rows of the undefined table {:#x} must be an error", id);
                    unknown += 1;
                } else {
                    define(s, c, &mut p, &mut defs, id, &h, crc)?;
                }
            }
            0 => {
                let t = defs[&id].clone();
                let ev = Ev::Rows(Arc::new(Rows::gen(s, &t, ROWS)));
                c.note(|| ev.describe());
                feed_cmp(&mut p, &ev, &h, crc)?;
                if last.is_some() && last != Some(id) {
                    switches += 1;
                }
                last = Some(id);
            }
            1 => {
                redefined += 1;
                define(s, c, &mut p, &mut defs, id, &h, crc)?;
            }
            2 if s.chance(1, 10) => {
                // the next file of the same server, or another connection's
                let alg = *s.pick(&[Some(crc as u8), Some(crc as u8), Some(0), Some(1), None]);
                let ev = Ev::gen_fde(s, alg);
                c.note(|| ev.describe());
                feed_cmp(&mut p, &ev, &h, false)?;
                crc = alg == Some(1);
                formats += 1;
            }
            2 => {
                let ev = Ev::gen_plain(s, false);
                c.note(|| ev.describe());
                feed_cmp(&mut p, &ev, &h, crc)?;
            }
            3 => {
                // an event that is rejected: rows cut short
                if let Some(t) = defs.get(&id).cloned() {
                    let mut r = Rows::gen(s, &t, ROWS);
                    r.rows.truncate(1);
                    let full = r.payload();
                    r.rows.clear();
                    let head = r.payload().len();
                    if full.len() > head + 1 {
                        // all but the last byte of a row: it cannot be decoded
                        let cut = full.len() - 1;
                        let w = wire(r.code(), &h, &full[..cut], crc);
                        c.note(|| format!("cut rows of {:#x}: {}", id, hex(&full[..cut])));
                        ensure!(feed(&mut p, &w).is_err(), "a row cut short must be an error");
                        rejected += 1;
                    }
                }
            }
            _ => {
                // the definition of another table, rejected
                let other = (base ^ 0x5555) & 0xffff_ffff_ffff;
                if !ids.contains(&other) {
                    let t = small_table(s, other, 3);
                    let full = t.payload();
                    let cut = s.below(full.len() - (t.cols.len() + 7) / 8);
                    let w = wire(19, &h, &full[..cut], crc);
                    c.note(|| format!("cut table map: {}", hex(&full[..cut])));
                    ensure!(feed(&mut p, &w).is_err(), "a table map cut short must be an error");
                    rejected += 1;
                }
            }
        }
        n += 1;
        if n >= 40 || !s.more(15) {
            break;
        }
    }
    c.label_if(redefined > 0, "redefinition");
    c.label_if(switches > 0, "interleaved tables");
    c.label_if(unknown > 0, "unknown table id");
    c.label_if(rejected > 0, "rejected events");
    c.label_if(crc, "checksums");
    c.label_if(formats > 0, "format descriptions in between");
    c.nontrivial = redefined > 0 && switches > 0;
    Ok(())
}

/// Many tables at once: definitions stay in force however many others there are.
fn c06_many(s: &mut Src, c: &mut Case) -> Res {
    let mut p = EventParser::new();
    let n = 20 + match s.draw(7) {
        0 => s.below(40),
        1..=5 => s.len(1_200, 4_000),
        _ => s.len(4_000, if c.thorough { 100_000 } else { 20_000 }),
    };
    let start = s.uint(47);
    let step = *s.pick(&[1u64, 1, 2, 256, 65536, 1 << 24]);
    let ids: Vec<u64> = (0..n as u64).map(|i| (start + i * step) & 0xffff_ffff_ffff).collect();
    let h = Hdr::default();
    // a few layouts, so that a wrong definition shows
    let shapes: Vec<Arc<Table>> = (0..5).map(|_| small_table(s, 0, 3)).collect();
    let mut r = Rng::new(s.draw(u64::MAX));
    let mut of: Vec<usize> = vec![];
    let table = |shape: usize, id: u64| {
        let mut t = (*shapes[shape]).clone();
        t.id = id;
        Arc::new(t)
    };
    for &id in &ids {
        let k = r.below(shapes.len() as u64) as usize;
        of.push(k);
        feed_cmp(&mut p, &Ev::Table(table(k, id)), &h, false)?;
    }
    c.note(|| format!("{} tables with ids from {:#x} by {}, layouts {:?}", n, start, step, shapes.iter().map(|x| Ev::Table(x.clone()).describe()).collect::<Vec<_>>()));
    // the oldest, the newest and some others, some of them described anew
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..30 {
        let i = match s.draw(3) {
            0 => 0,
            1 => n - 1,
            _ => s.below(n),
        };
        if s.chance(1, 5) {
            of[i] = s.below(shapes.len());
            feed_cmp(&mut p, &Ev::Table(table(of[i], ids[i])), &h, false)?;
        }
        let t = table(of[i], ids[i]);
        let ev = Ev::Rows(Arc::new(Rows::gen(s, &t, ROWS)));
        feed_cmp(&mut p, &ev, &h, false).map_err(|f| Fail { msg: format!("table {} of {}: {}", i, n, f.msg), ..f })?;
        seen.insert(i);
    }
    c.label_if(n > 1000, "more than 1000 tables");
    c.nontrivial = seen.len() > 5;
    Ok(())
}

fn define(
    s: &mut Src,
    c: &mut Case,
    p: &mut EventParser,
    defs: &mut BTreeMap<u64, Arc<Table>>,
    id: u64,
    h: &Hdr,
    crc: bool,
) -> Res {
    let t = match defs.get(&id) {
        // a change in types only, or another table altogether
        Some(t) if s.flip() => {
            let mut t = (**t).clone();
            let i = s.below(t.cols.len());
            t.cols[i] = Col::gen(s, Family::Any);
            Arc::new(t)
        }
        _ => small_table(s, id, 6),
    };
    let ev = Ev::Table(t.clone());
    c.note(|| ev.describe());
    feed_cmp(p, &ev, h, crc)?;
    defs.insert(id, t);
    Ok(())
}

// ----------------------------------------------------------------------------------------- C08

pub fn label_ev(c: &mut Case, e: &Ev) {
    c.label(match e {
        Ev::Fde { .. } => "format description",
        Ev::Table(_) => "table map",
        Ev::Rows(_) => "rows",
        Ev::Query { .. } => "query",
        Ev::Rotate { .. } => "rotate",
        Ev::Xid(_) => "xid",
        Ev::IntVar(..) => "intvar",
        Ev::UserVar { .. } => "user variable",
        Ev::RowsQuery(_) => "rows query",
        Ev::Annotate(_) => "annotate rows",
        Ev::Heartbeat(_) => "heartbeat",
        Ev::MyGtid { .. } => "mysql gtid",
        Ev::PrevGtids(_) => "mysql previous gtids",
        Ev::MaGtid { .. } => "mariadb gtid",
        Ev::GtidList { .. } => "mariadb gtid list",
        Ev::Unknown(..) => "undecoded type",
    });
}

fn c08(s: &mut Src, c: &mut Case) -> Res {
    let mut p = EventParser::new();
    let mut crc = false;
    if s.chance(1, 3) {
        let alg = *s.pick(&[Some(1u8), Some(0), None]);
        let ev = Ev::gen_fde(s, alg);
        let h = Hdr::gen(s);
        c.note(|| ev.describe());
        label_ev(c, &ev);
        feed_cmp(&mut p, &ev, &h, false)?;
        crc = alg == Some(1);
    }
    let mut sizes = 0;
    loop {
        let ev = Ev::gen_plain(s, true);
        let h = Hdr::gen(s);
        c.note(|| ev.describe());
        label_ev(c, &ev);
        sizes += ev.payload().len();
        feed_cmp(&mut p, &ev, &h, crc)?;
        if !s.more(6) {
            break;
        }
    }
    c.label_if(crc, "checksums");
    c.nontrivial = sizes > 8;
    Ok(())
}

/// Events of more than 64 KB.
fn c08_large(s: &mut Src, c: &mut Case) -> Res {
    let mut r = Rng::new(s.draw(u64::MAX));
    let n = match s.below(4) {
        0 => s.range(65_400, 65_700) as usize,
        1 => s.range(131_000, 131_200) as usize,
        2 => s.range(1, 400_000) as usize,
        _ => *s.pick(&[65_535usize, 65_536, 65_537, 1 << 20, (1 << 20) + 1]),
    };
    let mut text = |n: usize| -> String { (0..n).map(|_| (b' ' + r.below(90) as u8) as char).collect() };
    let ev = match s.below(7) {
        0 => {
            let k = s.len(60, 65_535);
            Ev::Query { thread: 1, dur: 1, err: 0, status: s.bytes(k), db: s.name(3), sql: text(n) }
        }
        1 => Ev::RowsQuery(text(n)),
        2 => Ev::Annotate(text(n)),
        3 => Ev::UserVar { name: s.name(4), value: Some((0, 45, text(n), if s.flip() { Some(1) } else { None })) },
        4 => {
            // lists are shorter than texts
            let list = (0..n / 4).map(|i| (i as u32, (i as u32).wrapping_mul(2_654_435_761), (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15))).collect();
            Ev::GtidList { flags: s.draw(15) as u8, list }
        }
        5 => {
            let per = 1 + s.below(3);
            let v = (0..(n / 32) as u64)
                .map(|i| {
                    let mut sid = [7u8; 16];
                    sid[..8].copy_from_slice(&i.to_be_bytes());
                    (sid, (0..per as u64).map(|k| (i + 1 + 10 * k, i + 1 + 10 * k + 3)).collect())
                })
                .collect();
            Ev::PrevGtids(v)
        }
        _ => {
            let mut sid = [7u8; 16];
            sid[3] = 9;
            Ev::PrevGtids(vec![(sid, (0..n as u64 / 8).map(|k| (5 * k + 1, 5 * k + 2)).collect())])
        }
    };
    label_ev(c, &ev);
    let size = ev.payload().len();
    c.note(|| format!("{} ({} bytes)", clip(&ev.describe(), 60), size));
    c.label_if(size > 0xffff, "more than 64 KB");
    c.nontrivial = size > 0xffff;
    let h = Hdr::gen(s);
    feed_cmp(&mut EventParser::new(), &ev, &h, false).map_err(|f| Fail::new(clip(&f.msg, 600).to_string()))
}

/// All type codes: decoded ones apart, every code is an unknown event whatever its body.
/// The codes of the protocol that the library has names for, by the names' numbers.
const NAMED: [(EventType, u8); 32] = [
    (EventType::QueryEvent, 2),
    (EventType::StopEvent, 3),
    (EventType::RotateEvent, 4),
    (EventType::IntvarEvent, 5),
    (EventType::RandEvent, 13),
    (EventType::UserVarEvent, 14),
    (EventType::FormatDescriptionEvent, 15),
    (EventType::XidEvent, 16),
    (EventType::TableMapEvent, 19),
    (EventType::WriteRowsEventV1, 23),
    (EventType::UpdateRowsEventV1, 24),
    (EventType::DeleteRowsEventV1, 25),
    (EventType::HeartbeatEvent, 27),
    (EventType::MySqlRowsQueryEvent, 29),
    (EventType::MySqlWriteRowsEventV2, 30),
    (EventType::MySqlUpdateRowsEventV2, 31),
    (EventType::MySqlDeleteRowsEventV2, 32),
    (EventType::MySqlGtidEvent, 33),
    (EventType::MySqlPreviousGtidsEvent, 35),
    (EventType::MySqlXaPrepare, 38),
    (EventType::MySqlPartialUpdateRowsEvent, 39),
    (EventType::MySqlTransactionPayloadEvent, 40),
    (EventType::MariaDbAnnotateRowsEvent, 160),
    (EventType::MariaDbBinlogCheckpointEvent, 161),
    (EventType::MariaDbGtidEvent, 162),
    (EventType::MariaDbGtidListEvent, 163),
    (EventType::MariaDbStartEncryptionEvent, 164),
    (EventType::MariaDbQueryCompressedEvent, 165),
    (EventType::MariaDbWriteRowsCompressedEventV1, 166),
    (EventType::MariaDbUpdateRowsCompressedEventV1, 167),
    (EventType::MariaDbDeleteRowsCompressedEventV1, 168),
    (EventType::MariaDbWriteRowsCompressedEvent, 169),
];

fn c08_names(s: &mut Src, c: &mut Case) -> Res {
    let code = s.draw(255) as u8;
    c.note(|| format!("event type code {}", code));
    c.nontrivial = NAMED.iter().any(|x| x.1 == code);
    let got = sut(|| EventType::from_code(code)) as u8;
    for (t, n) in NAMED {
        let t = t as u8;
        ensure!(t == n, "the name of the event type {} stands for {}", n, t);
        if n == code {
            ensure!(got == n, "event type {} is taken for {}", code, got);
        }
    }
    ensure!(got == code || got == EventType::Unknown as u8, "event type {} is taken for {}", code, got);
    Ok(())
}

fn c08_codes(s: &mut Src, c: &mut Case) -> Res {
    let mut p = EventParser::new();
    let t = loop_unknown(s);
    let n = s.len(30, 400);
    let body = s.bytes(n);
    let ev = Ev::Unknown(t, body);
    let h = Hdr::gen(s);
    c.note(|| ev.describe());
    c.nontrivial = n > 0;
    feed_cmp(&mut p, &ev, &h, false)
}

/// Texts that are not UTF-8: known findings K2 and K3.
fn c08_findings(s: &mut Src, c: &mut Case) -> Res {
    let _ = s;
    let h = Hdr::default();
    // SET @a = x'ff'
    let mut w = W::new();
    w.u32(1).b(b"a").u8(0).u8(0).u32(63).u32(1).b(&[0xff]).u8(0);
    match feed(&mut EventParser::new(), &wire(14, &h, &w.0, false)) {
        Err(_) => c.known.push(("user-variable-not-utf8", "the user variable event of SET @a = x'ff' is rejected".into())),
        Ok((_, BinlogEvent::UserVarEvent(e))) => {
            // no String holds the byte, so an event is only right if its type can
            let v = format!("{:?}", e.value);
            ensure!(!v.contains('\u{fffd}'), "the user variable value x'ff' was altered: {}", v);
        }
        Ok((_, e)) => fail!("expected a user variable event, got {:?}", e),
    }
    let sql = b"INSERT INTO t VALUES ('\xe9')";
    let mut w = W::new();
    w.u32(1).u32(0).u8(2).u16(0).u16(0).b(b"db\0").b(sql);
    let q = feed(&mut EventParser::new(), &wire(2, &h, &w.0, false));
    let mut w = W::new();
    w.u8(sql.len() as u8).b(sql);
    let r = feed(&mut EventParser::new(), &wire(29, &h, &w.0, false));
    if q.is_err() || r.is_err() {
        c.known.push((
            "statement-text-not-utf8",
            "a query or rows query event with a statement text in latin1 (byte 0xe9) is rejected".into(),
        ));
    }
    for e in [q, r].into_iter().flatten() {
        ensure!(!format!("{:?}", e.1).contains('\u{fffd}'), "statement text altered: {:?}", e.1);
    }
    c.note(|| "user variable x'ff', statement text with byte 0xe9".into());
    c.nontrivial = true;
    Ok(())
}

// --------------------------------------------------------------------------------------- files

pub fn memfile(data: &[u8]) -> File {
    unsafe {
        let fd = libc::memfd_create(b"binlog\0".as_ptr() as *const libc::c_char, 0);
        assert!(fd >= 0, "memfd_create");
        let mut f = File::from_raw_fd(fd);
        f.write_all(data).expect("memfd write");
        f.seek(SeekFrom::Start(0)).expect("memfd seek");
        f
    }
}

pub const MAGIC: [u8; 4] = [0xfe, 0x62, 0x69, 0x6e];

pub type Item = Result<(EventHeader, BinlogEvent), String>;

/// All items of a file, or why it was refused. More items than can be in it is endless reading.
pub fn read_file(data: &[u8]) -> Result<Result<Vec<Item>, String>, Fail> {
    let max = data.len() / 19 + 3;
    let f = memfile(data);
    let r = sut(|| match BinlogReader::new(f) {
        Err(e) => Ok(Err(format!("{:?}", e))),
        Ok(r) => {
            let mut v: Vec<Item> = vec![];
            let mut it = r.read_events();
            while let Some(x) = it.next() {
                v.push(x.map_err(|e| format!("{:?}", e)));
                if v.len() > max {
                    return Err(v.len());
                }
            }
            // and it stays at its end
            if let Some(x) = it.next() {
                v.push(x.map_err(|e| format!("{:?}", e)));
            }
            Ok(Ok(v))
        }
    });
    r.map_err(|n| Fail::new(format!("{} items and no end of a file of {} bytes", n, data.len())))
}

/// One element of a history: an event and whether it has to be an error.
pub struct Step {
    pub ev: Ev,
    pub h: Hdr,
    pub bytes: Vec<u8>,
    pub bad: bool,
}

pub struct History {
    pub steps: Vec<Step>,
    pub crc: bool,
}

/// A history with table maps, rows, and everything else; optionally with undecodable events.
/// `fde`: the algorithm at the start. Rows only use defined tables.
pub fn history(s: &mut Src, alg: Option<u8>, max: usize, bad: bool, large: bool) -> History {
    let mut crc = alg == Some(1);
    let mut steps = vec![];
    let push = |steps: &mut Vec<Step>, ev: Ev, h: Hdr, crc: bool| {
        let bytes = ev.wire(&h, crc);
        steps.push(Step { ev, h, bytes, bad: false });
    };
    let ev = Ev::gen_fde(s, alg);
    let h = Hdr::gen(s);
    push(&mut steps, ev, h, false);
    let mut tables: Vec<Arc<Table>> = vec![];
    while steps.len() < max && s.more(14) {
        let h = Hdr::gen(s);
        match s.weighted(&[4, 2, 4, 1, 1, 1]) {
            0 => {
                let ev = Ev::gen_plain(s, large);
                push(&mut steps, ev, h, crc);
            }
            1 => {
                let id = s.draw(3);
                let t = small_table(s, id, 5);
                tables.retain(|x| x.id != id);
                tables.push(t.clone());
                push(&mut steps, Ev::Table(t), h, crc);
            }
            2 => {
                if !tables.is_empty() {
                    let t = s.pick(&tables).clone();
                    let r = Arc::new(Rows::gen(s, &t, ROWS));
                    push(&mut steps, Ev::Rows(r), h, crc);
                }
            }
            3 if bad => {
                // undecodable: rows of a table never defined, or a query cut in its header
                let mut st = if s.flip() {
                    let t = small_table(s, 0x7777_0000, 3);
                    let ev = Ev::Rows(Arc::new(Rows::gen(s, &t, ROWS)));
                    Step { bytes: ev.wire(&h, crc), ev, h, bad: true }
                } else {
                    let ev = Ev::query("SELECT 1");
                    let n = s.below(13);
                    let bytes = wire(2, &h, &ev.payload()[..n], crc);
                    Step { ev, h, bytes, bad: true }
                };
                st.bad = true;
                steps.push(st);
            }
            4 if large => {
                // around the 32 KiB buffer of the reader and far above
                let edge = 32 * 1024i64;
                let n = match s.below(4) {
                    0 => edge + s.draw(10) as i64 - 5,
                    1 => edge - 19 + s.draw(10) as i64 - 5,
                    2 => edge - 23 + s.draw(10) as i64 - 5,
                    _ => s.range(edge as u64, 200_000) as i64,
                } as usize;
                let b = s.bytes(n);
                let ev = if s.flip() {
                    Ev::Unknown(34, b)
                } else {
                    let sql = s.text(n - 16.min(n));
                    Ev::query(&sql)
                };
                push(&mut steps, ev, h, crc);
            }
            _ => {
                // a new format in mid-history
                if s.chance(1, 3) {
                    let alg = *s.pick(&[alg, Some(1), Some(0), None]);
                    let ev = Ev::gen_fde(s, alg);
                    push(&mut steps, ev, h, false);
                    crc = alg == Some(1);
                }
            }
        }
    }
    History { steps, crc }
}

pub fn file_of(h: &History) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    for s in &h.steps {
        v.extend_from_slice(&s.bytes);
    }
    v
}

pub fn describe(h: &History) -> String {
    let mut o = String::new();
    for (i, s) in h.steps.iter().enumerate() {
        o.push_str(&format!("{}: {} bytes{} {}\n", i, s.bytes.len(), if s.bad { " BAD" } else { "" }, s.ev.describe()));
    }
    o
}

pub fn check_items(steps: &[Step], items: Vec<Item>) -> Res {
    let n = items.len();
    for (i, (st, it)) in steps.iter().zip(items).enumerate() {
        if st.bad {
            ensure!(it.is_err(), "event {} is undecodable but was not reported as an error", i);
        } else {
            check_item(&st.ev, &st.h, st.bytes.len(), it).map_err(|f| Fail::new(format!("event {}: {}", i, f.msg)))?;
        }
    }
    ensure!(n == steps.len(), "{} items, expected {}", n, steps.len());
    Ok(())
}

// ----------------------------------------------------------------------------------------- C10

fn c10(s: &mut Src, c: &mut Case) -> Res {
    let large = s.chance(1, 4);
    let alg = *s.pick(&[Some(1u8), Some(0), None]);
    let hist = history(s, alg, 25, true, large);
    let data = file_of(&hist);
    c.note(|| describe(&hist));
    let bad = hist.steps.iter().any(|x| x.bad);
    c.label_if(bad, "undecodable event");
    c.label_if(hist.steps.iter().any(|x| x.bytes.len() > 32 * 1024), "event above the buffer size");
    let cut = if s.chance(1, 2) {
        // at any byte, with the boundaries of events more often
        let mut bounds = vec![4usize];
        for st in &hist.steps {
            bounds.push(bounds.last().unwrap() + st.bytes.len());
        }
        if s.chance(1, 2) {
            let b = *s.pick(&bounds) as i64;
            let d = *s.pick(&[0i64, 1, -1, 18, 19, 20]);
            (b + d).clamp(0, data.len() as i64) as usize
        } else {
            s.draw(data.len() as u64) as usize
        }
    } else {
        data.len()
    };
    c.note(|| format!("file of {} bytes cut to {}", data.len(), cut));
    c.label_if(cut < data.len(), "cut file");
    let got = read_file(&data[..cut])?;
    if cut < 4 {
        ensure!(got.is_err(), "a file without the whole magic must be refused");
        return Ok(());
    }
    let items = match got {
        Ok(v) => v,
        Err(e) => fail!("file refused: {}", e),
    };
    let mut at = 4;
    let mut n = 0;
    for st in &hist.steps {
        at += st.bytes.len();
        if at > cut {
            break;
        }
        n += 1;
    }
    c.nontrivial = n >= 3;
    check_items(&hist.steps[..n], items)
}

/// The same short history again and again: the number of its repetitions and of its events.
pub fn rounds(s: &mut Src, hist: &History, max: usize) -> usize {
    let n = hist.steps.len();
    let want = *s.pick(&[260usize, 1_030, 4_100, 33_000, 66_000, 140_000]);
    want.min(max) / n + 1
}
pub fn check_rounds(hist: &History, total: usize, items: Vec<Item>) -> Res {
    let n = items.len();
    for (i, it) in items.into_iter().enumerate().take(total) {
        let st = &hist.steps[i % hist.steps.len()];
        check_item(&st.ev, &st.h, st.bytes.len(), it).map_err(|f| Fail::new(format!("event {}: {}", i, f.msg)))?;
    }
    ensure!(n == total, "{} items, expected {}", n, total);
    Ok(())
}

/// Files of many events.
fn c10_long(s: &mut Src, c: &mut Case) -> Res {
    let alg = *s.pick(&[Some(1u8), Some(0), None]);
    let hist = history(s, alg, 12, false, false);
    let k = rounds(s, &hist, usize::MAX);
    let total = k * hist.steps.len();
    c.note(|| format!("{} times:\n{}", k, describe(&hist)));
    let one = file_of(&hist);
    let mut data = one.clone();
    for _ in 1..k {
        data.extend_from_slice(&one[4..]);
    }
    c.label_if(total > 65_535, "more than 65535 events");
    c.label_if(data.len() > 1 << 22, "more than 4 MB");
    c.nontrivial = total > 1_000;
    let items = match read_file(&data)? {
        Ok(v) => v,
        Err(e) => fail!("file refused: {}", e),
    };
    check_rounds(&hist, total, items)
}

fn c10_magic(s: &mut Src, c: &mut Case) -> Res {
    let mut m = MAGIC.to_vec();
    match s.below(3) {
        0 => {
            let i = s.below(4);
            m[i] ^= 1 << s.below(8);
        }
        1 => m = s.bytes(4),
        _ => m = vec![0xfd, 0x62, 0x69, 0x6e],
    }
    if m == MAGIC {
        return Ok(());
    }
    c.note(|| hex(&m));
    let hist = history(s, None, 3, false, false);
    for st in &hist.steps {
        m.extend_from_slice(&st.bytes);
    }
    c.nontrivial = true;
    ensure!(read_file(&m)?.is_err(), "a file with the first bytes {} must be refused", hex(&m[..4]));
    Ok(())
}

/// Every cut offset of one file.
fn c10_all_cuts(s: &mut Src, c: &mut Case) -> Res {
    let hist = history(s, Some(s_alg()), 6, false, false);
    let data = file_of(&hist);
    c.note(|| describe(&hist));
    if data.len() > 3000 {
        return Ok(());
    }
    c.nontrivial = hist.steps.len() >= 3;
    let mut ends = vec![];
    let mut at = 4;
    for st in &hist.steps {
        at += st.bytes.len();
        ends.push(at);
    }
    for cut in 4..=data.len() {
        let n = ends.iter().filter(|&&e| e <= cut).count();
        match read_file(&data[..cut])? {
            Ok(v) => {
                check_items(&hist.steps[..n], v).map_err(|f| Fail::new(format!("cut at {}: {}", cut, f.msg)))?
            }
            Err(e) => fail!("cut at {}: file refused: {}", cut, e),
        }
    }
    Ok(())
}
fn s_alg() -> u8 {
    1
}

// ----------------------------------------------------------------------------------- C09, files

/// The same history with checksums, without, and in the format before checksums.
fn c09_file(s: &mut Src, c: &mut Case) -> Res {
    let large = s.chance(1, 10);
    let algs = [Some(1u8), Some(0), None];
    // generated with one algorithm, then written with each
    let base = history(s, Some(0), 20, false, large);
    c.note(|| describe(&base));
    for first in algs {
        let mut crc = first == Some(1);
        let mut data = MAGIC.to_vec();
        let mut steps = vec![];
        for (i, st) in base.steps.iter().enumerate() {
            let mut ev = st.ev.clone();
            if let Ev::Fde { alg, .. } = &mut ev {
                if i == 0 {
                    *alg = first;
                } else {
                    crc = *alg == Some(1);
                }
            }
            let bytes = ev.wire(&st.h, crc);
            data.extend_from_slice(&bytes);
            steps.push(Step { ev, h: st.h.clone(), bytes, bad: false });
        }
        let items = match read_file(&data)? {
            Ok(v) => v,
            Err(e) => fail!("file refused: {}", e),
        };
        check_items(&steps, items).map_err(|f| Fail::new(format!("checksum algorithm {:?}: {}", first, f.msg)))?;
    }
    for st in &base.steps {
        label_ev(c, &st.ev);
    }
    c.label_if(base.steps.iter().skip(1).any(|x| matches!(x.ev, Ev::Fde { .. })), "setting changed in mid-file");
    c.nontrivial = base.steps.len() >= 3;
    Ok(())
}

/// A kind of checksum that is not known is an error, wherever it comes.
fn c09_unknown(s: &mut Src, c: &mut Case) -> Res {
    let mut p = EventParser::new();
    let mut crc = false;
    if s.flip() {
        crc = s.flip();
        feed_cmp(&mut p, &Ev::fde(Some(crc as u8)), &Hdr::default(), false)?;
    }
    let code = 2 + s.draw(253) as u8;
    let ev = Ev::gen_fde(s, Some(code));
    let h = Hdr::gen(s);
    c.note(|| ev.describe());
    c.nontrivial = true;
    let _ = crc;
    feed_cmp(&mut p, &ev, &h, false)
}

pub fn c09_parts() -> Vec<Part> {
    vec![part("file", 100_000, 3_000_000, c09_file), part("unknown", 20_000, 1_000_000, c09_unknown)]
}

// ----------------------------------------------------------------------------------------- C11

/// Hostile edits of a byte string.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    loop {
        let n = b.len();
        match s.weighted(&[6, 6, 4, 4, 2, 2, 2, 1]) {
            0 if n > 0 => {
                let i = s.below(n);
                b[i] = s.edge(255) as u8;
            }
            1 if n > 0 => {
                let k = s.draw_with(n as u64, |r| if r.below(2) == 0 { r.below(n as u64 + 1) } else { n as u64 - r.below(8).min(n as u64) }) as usize;
                b.truncate(k);
            }
            2 if n > 0 => {
                let w = *s.pick(&[2usize, 4, 8, 3, 6]);
                let v = s.edge(u64::MAX).to_le_bytes();
                let i = s.below(n);
                for (k, x) in v[..w].iter().enumerate() {
                    if i + k < n {
                        b[i + k] = *x;
                    }
                }
            }
            3 if n > 0 => {
                // length-encoded numbers of every width, as large as they get
                let i = s.below(n);
                let p = *s.pick(&[0xfbu8, 0xfc, 0xfd, 0xfe, 0xff]);
                b[i] = p;
                let v = s.edge(u64::MAX).to_le_bytes();
                for (k, x) in v.iter().enumerate() {
                    if i + 1 + k < n && s.chance(3, 4) {
                        b[i + 1 + k] = *x;
                    }
                }
            }
            4 => {
                let i = s.below(n + 1);
                let k = s.len(6, 200);
                let ins = s.bytes(k);
                b.splice(i..i, ins);
            }
            5 if n > 0 => {
                let i = s.below(n);
                let k = (1 + s.len(4, 60)).min(n - i);
                b.drain(i..i + k);
            }
            6 if n > 0 => {
                let i = s.below(n);
                let k = (1 + s.len(8, 200)).min(n - i);
                let dup = b[i..i + k].to_vec();
                let j = s.below(n + 1);
                b.splice(j..j, dup);
            }
            7 => {
                let k = s.len(40, 300);
                *b = s.bytes(k);
            }
            _ => {}
        }
        if !s.more(5) {
            return;
        }
    }
}

fn gen_any(s: &mut Src, tables: &mut Vec<Arc<Table>>) -> Ev {
    match s.weighted(&[6, 4, 2, 1]) {
        0 => {
            if tables.is_empty() || s.chance(1, 6) {
                let id = s.draw(3);
                let n = if s.chance(1, 20) { 300 } else { 8 };
                let mut t = Table::clone(&small_table(s, id, n));
                if s.flip() {
                    t.opts = Table::gen_opts(s, &t.cols);
                }
                let t = Arc::new(t);
                tables.push(t.clone());
                Ev::Table(t)
            } else {
                let t = s.pick(tables).clone();
                Ev::Rows(Arc::new(Rows::gen(s, &t, RowOpt { val: ValOpt { bad: true, big: false }, ..ROWS })))
            }
        }
        1 => Ev::gen_plain(s, false),
        2 => {
            let id = s.draw(3);
            let mut t = Table::clone(&small_table(s, id, 6));
            t.opts = Table::gen_opts(s, &t.cols);
            let t = Arc::new(t);
            tables.push(t.clone());
            Ev::Table(t)
        }
        _ => {
            let a = *s.pick(&[Some(1u8), Some(0), None, Some(7)]);
            Ev::gen_fde(s, a)
        }
    }
}

fn cap(total: usize) -> i64 {
    // a row event of n bytes is n rows at most of as many columns as its table has, and a table
    // has no more columns than its table map has bytes
    (2 << 20) + 128 * (total as i64) * (1 + total as i64 / 8)
}

fn c11(s: &mut Src, c: &mut Case) -> Res {
    let mut p = EventParser::new();
    let mut tables = vec![];
    let mut total = 0usize;
    let (mut mutated, mut ok, mut err) = (0, 0, 0);
    let p_mut = *s.pick(&[8u64, 15, 4]);
    loop {
        let ev = gen_any(s, &mut tables);
        let mut body = ev.payload();
        let mut typ = ev.code();
        let mut h = Hdr::gen(s);
        h.flags = 0;
        let crc = s.chance(1, 4);
        let m = s.chance(p_mut, 16);
        if m {
            mutate(s, &mut body);
            if s.chance(1, 12) {
                typ = if s.flip() { *s.pick(&DECODED) } else { s.uint(8) as u8 };
            }
            mutated += 1;
        }
        if body.len() > 4000 {
            body.truncate(4000);
        }
        let mut w = wire(typ, &h, &body, crc);
        if m && s.chance(1, 6) {
            // a length that is not that of the event
            let v = s.edge(u32::MAX as u64) as u32;
            w[9..13].copy_from_slice(&v.to_le_bytes());
        }
        if m && s.chance(1, 20) {
            let k = s.below(w.len());
            w.truncate(k);
        }
        total += w.len();
        c.note(|| format!("type {} {}: {}", typ, if m { "mutated" } else { "as is" }, hex(&w)));
        let (r, peak) = sut_mem(|| {
            // a header cut short is an error, too
            let h = EventHeader::parse(&w)?;
            p.parse_event(&h, &w[19..])
        });
        ensure!(peak <= cap(total), "decoding {} bytes took {} bytes of memory", total, peak);
        if r.is_ok() {
            ok += 1;
        } else {
            err += 1;
        }
        if !s.more(12) {
            break;
        }
    }
    c.label_if(mutated > 0 && ok > 0, "some decoded");
    c.label_if(err > 0, "some rejected");
    c.label_if(ok > 0 && err > 0, "decoded and rejected");
    c.nontrivial = mutated > 0 && ok > 0;
    Ok(())
}

/// Pure noise under every type code, after valid definitions of the tables it may refer to.
fn c11_noise(s: &mut Src, c: &mut Case) -> Res {
    let mut p = EventParser::new();
    let mut total = 0;
    for id in 0..1 + s.draw(1) {
        let t = small_table(s, id, 8);
        let w = Ev::Table(t).wire(&Hdr::default(), false);
        total += w.len();
        c.note(|| hex(&w));
        let _ = feed(&mut p, &w);
    }
    let typ = if s.chance(9, 10) { *s.pick(&DECODED) } else { s.uint(8) as u8 };
    let n = s.len(30, 300);
    let mut b = s.bytes(n);
    if s.flip() {
        // a plausible table id
        for i in 1..6.min(b.len()) {
            b[i] = 0;
        }
        if !b.is_empty() {
            b[0] &= 1;
        }
    }
    let w = wire(typ, &Hdr::default(), &b, false);
    total += w.len();
    c.note(|| format!("type {}: {}", typ, hex(&w)));
    let (_, peak) = sut_mem(|| feed(&mut p, &w));
    ensure!(peak <= cap(total), "decoding {} bytes took {} bytes of memory", total, peak);
    c.nontrivial = n >= 8;
    Ok(())
}

fn c11_file(s: &mut Src, c: &mut Case) -> Res {
    let alg = *s.pick(&[Some(1u8), Some(0), None]);
    let hist = history(s, alg, 10, true, false);
    let mut data = file_of(&hist);
    // edits after the magic
    let mut tail = data.split_off(4);
    if tail.len() > 6000 {
        tail.truncate(6000);
    }
    mutate(s, &mut tail);
    if s.chance(1, 3) {
        // hostile lengths in the header of an event
        let mut bounds = vec![0usize];
        for st in &hist.steps {
            bounds.push(bounds.last().unwrap() + st.bytes.len());
        }
        let b = *s.pick(&bounds);
        if b + 13 <= tail.len() {
            let v = if s.flip() { s.edge(u32::MAX as u64) as u32 } else { s.draw(40) as u32 };
            tail[b + 9..b + 13].copy_from_slice(&v.to_le_bytes());
        }
    }
    data.extend_from_slice(&tail);
    c.note(|| hex(&data));
    let f = memfile(&data);
    let max = data.len() + 16;
    let (r, peak) = sut_mem(|| match BinlogReader::new(f) {
        Err(_) => None,
        Ok(r) => {
            let (mut ok, mut err) = (0usize, 0usize);
            for x in r {
                match x {
                    Ok(_) => ok += 1,
                    Err(_) => err += 1,
                }
                if ok + err > max {
                    break;
                }
            }
            Some((ok, err))
        }
    });
    let (ok, err) = match r {
        Some(x) => x,
        None => fail!("file refused"),
    };
    ensure!(ok + err <= max, "reading a file of {} bytes does not end", data.len());
    ensure!(peak <= cap(data.len()), "reading a file of {} bytes took {} bytes of memory", data.len(), peak);
    c.label_if(ok > 0 && err > 0, "decoded and rejected");
    c.nontrivial = ok + err >= 2;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            rule: "a case is non-trivial if a table is redefined and rows of different tables alternate (part many: rows of more than five of the tables)",
            assumptions: &["A definition that was itself rejected is not followed by rows of the same table."],
            parts: vec![part("histories", 400_000, 12_000_000, c06), part("many", 5000, 60_000, c06_many)],
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "a case is non-trivial if its events have more than 8 bytes of contents (part codes: any)",
            assumptions: &["The encoder in harness/src/enc.rs follows the documented event formats.", "Texts are UTF-8 except for the known findings."],
            parts: vec![part("events", 800_000, 25_000_000, c08), part("codes", 100_000, 2_000_000, c08_codes), part("names", 4_000, 20_000, c08_names), part("large", 600, 12_000, c08_large), part("findings", 1, 1, c08_findings)],
        },
        Prop {
            id: "C10",
            level: "fault_enumeration",
            rule: "a case is non-trivial if three events or more are complete before the cut (part magic: the magic is wrong; part cuts: all offsets of a file of three events or more)",
            assumptions: &["Files are in-memory files (memfd) read with the same system calls as any file."],
            parts: vec![part("files", 120_000, 4_000_000, c10), part("cuts", 600, 20_000, c10_all_cuts), part("magic", 10_000, 200_000, c10_magic), part("long", 100, 3_000, c10_long)],
        },
        Prop {
            id: "C11",
            level: "exploration",
            rule: "a case is non-trivial if at least one event was edited and at least one decoded (part noise: 8 bytes or more; part file: two items or more)",
            assumptions: &["Memory is counted by a global allocator per thread; the allowance is 2 MiB plus 128 bytes for each byte of input and column.", "A case that uses more than 25 s of CPU is an endless loop."],
            parts: vec![part("events", 1_500_000, 50_000_000, c11), part("noise", 1_500_000, 50_000_000, c11_noise), part("file", 150_000, 5_000_000, c11_file)],
        },
    ]
}
