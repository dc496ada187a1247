//! Histories of transactions of every shape, their layout in binlog files, and a model of what a
//! server sends of them for a dump request.
use crate::enc::*;
use crate::engine::*;
use crate::props::events::{small_table, ROWS};
use crate::props::gtid::Model;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    None,
    My(Sid, u64),
    Ma(u32, u32, u64),
}
impl G {
    pub fn text(&self) -> String {
        match self {
            G::None => "-".into(),
            G::My(s, n) => format!("{}:{}", uuid_text(s), n),
            G::Ma(d, s, q) => format!("{}-{}-{}", d, s, q),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub g: G,
    pub shape: &'static str,
    /// (event, server id)
    pub evs: Vec<(Ev, u32)>,
}

/// A GTID position
#[derive(Clone, Debug, PartialEq)]
pub enum Pos {
    My(Model),
    Ma(Vec<(u32, u32, u64)>),
}
impl Pos {
    pub fn add(&mut self, g: &G) {
        match (self, g) {
            (Pos::My(m), G::My(sid, n)) => {
                m.add(*sid, *n, *n);
            }
            (Pos::Ma(v), G::Ma(d, s, q)) => match v.iter_mut().find(|x| x.0 == *d) {
                Some(x) => *x = (*d, *s, *q),
                None => v.push((*d, *s, *q)),
            },
            _ => {}
        }
    }
    pub fn has(&self, g: &G) -> bool {
        match (self, g) {
            (Pos::My(m), G::My(sid, n)) => m.contains(sid, *n),
            (Pos::Ma(v), G::Ma(d, _, q)) => v.iter().any(|x| x.0 == *d && x.2 >= *q),
            _ => false,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Pos::My(m) => m.text(),
            Pos::Ma(v) => v.iter().map(|x| format!("{}-{}-{}", x.0, x.1, x.2)).collect::<Vec<_>>().join(","),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// MySQL with GTIDs
    MyGtid,
    /// MySQL without
    MyAnon,
    Maria,
}

const WORDS: [&str; 17] = [
    "INSERT INTO t VALUES (1)",
    "UPDATE t SET a = 'COMMIT' WHERE b = 2",
    "DELETE FROM t /* ROLLBACK */",
    "CREATE TEMPORARY TABLE tmp (a INT)",
    "SAVEPOINT `a`",
    "ROLLBACK TO `a`",
    "RELEASE SAVEPOINT `COMMIT`",
    "SAVEPOINT `BEGIN`",
    "ROLLBACK TO SAVEPOINT `COMMIT`",
    "replace into t select 'XA COMMIT '",
    " COMMIT",
    "COMMITTED",
    "BEGINNING",
    "XA END X'61',X'',1",
    "insert into t values ('XA ROLLBACK ')",
    "delete from t where b = 'XA START '",
    "update t set a = 'ROLLBACK'",
];
const DDL: [&str; 14] = [
    "CREATE TABLE t (a INT)",
    "DROP TABLE `COMMIT` /* generated by server */",
    "ALTER TABLE t ADD b INT",
    "CREATE DATABASE begin",
    "TRUNCATE TABLE t",
    "create procedure p() begin commit; end",
    "FLUSH TABLES",
    "GRANT SELECT ON *.* TO 'BEGIN'@'%'",
    "xa",
    "create table x (a int) comment 'XA START '",
    "CREATE VIEW `XA ROLLBACK ` AS SELECT 'XA COMMIT '",
    "DROP TABLE `BEGIN`",
    "CREATE EVENT e ON SCHEDULE EVERY 1 DAY DO BEGIN END",
    "DROP DATABASE `XA START `",
];

/// A field of a header or an event that should not matter
fn field(s: &mut Src, small: u64) -> u32 {
    if s.chance(1, 6) {
        s.uint(32) as u32
    } else {
        s.draw(small) as u32
    }
}

/// A statement that commits by itself
fn ddl(s: &mut Src) -> String {
    let w = *s.pick(&DDL);
    match s.weighted(&[10, 1, 1, 1, 1]) {
        0 => w.to_string(),
        1 => {
            let n = if s.chance(1, 8) { s.len(200, 70_000) } else { s.len(20, 300) };
            format!("{} -- {}", w, s.text(n))
        }
        2 => {
            let n = s.len(10, 60);
            format!("/* {} */ {}", s.text(n).replace("*/", "**"), w)
        }
        3 => format!("ALTER TABLE `{}` ADD c INT", s.word()),
        // as clients write them
        _ => format!("{}{}", s.pick(&["# a note\n", "#\n", "-- x\n", " ", "\n", "\t\r\n", "(", ";", "/*!40000 */ ", "/*M! */", "\u{feff}"]), w),
    }
}

fn query(s: &mut Src, sql: &str) -> Ev {
    let n = if s.chance(1, 8) { s.len(10, 40) } else { 0 };
    Ev::Query {
        thread: field(s, 3),
        dur: if s.chance(1, 8) { s.uint(32) as u32 } else { 0 },
        // a statement that failed in part is logged with its error
        err: if s.chance(1, 12) { if s.flip() { *s.pick(&[1051u16, 1062, 1317, 65535]) } else { s.uint(16) as u16 } } else { 0 },
        status: s.bytes(n),
        db: match s.weighted(&[8, 4, 1]) {
            0 => "db".into(),
            1 => String::new(),
            _ => {
                let n = s.len(10, 64);
                s.name(n)
            }
        },
        sql: sql.into(),
    }
}

fn stmt(s: &mut Src) -> Ev {
    let w = *s.pick(&WORDS);
    if s.chance(1, 8) {
        let n = if s.chance(1, 12) { s.len(200, 70_000) } else { s.len(20, 300) };
        let t = format!("{} -- {}", w, s.text(n));
        query(s, &t)
    } else if s.chance(1, 16) {
        let t = format!("UPDATE t SET a = '{}'", s.word());
        query(s, &t)
    } else {
        query(s, w)
    }
}

/// A compressed event, which the library does not decode.
fn compressed(s: &mut Src, code: u8) -> Ev {
    let n = s.len(12, 60);
    Ev::Unknown(code, s.bytes(n))
}

fn noise(s: &mut Src, v: &mut Vec<Ev>) {
    while s.chance(1, 6) && v.len() < 60 {
        let n = s.len(6, 30);
        let e = match s.below(5) {
            0 => Ev::IntVar(1 + s.draw(1) as u8, s.uint(64)),
            1 => Ev::UserVar { name: "a".into(), value: None },
            2 => Ev::RowsQuery(s.pick(&["INSERT INTO t VALUES (1)", "COMMIT", "BEGIN", "ROLLBACK", ""]).to_string()),
            3 => Ev::UserVar { name: "v".into(), value: Some((0, 45, "COMMIT".into(), Some(0))) },
            _ => {
                let c = *s.pick(&[13u8, 9, 17, 18, 28, 6, 7, 8, 10, 11, 12, 26]);
                Ev::Unknown(c, s.bytes(n))
            }
        };
        v.push(e);
    }
}

/// One row statement: table maps and row events, the last of which ends the statement.
fn row_stmt(s: &mut Src, maria: bool, v: &mut Vec<Ev>) {
    if s.chance(1, 3) {
        let q = "INSERT INTO t VALUES (2)".to_string();
        v.push(if maria { Ev::Annotate(q) } else { Ev::RowsQuery(q) });
    }
    let mut tabs: Vec<Arc<Table>> = vec![];
    loop {
        let id = if s.chance(1, 8) { Table::gen_id(s) } else { 100 + s.draw(3) };
        if tabs.iter().all(|t| t.id != id) {
            let t = small_table(s, id, 3);
            v.push(Ev::Table(t.clone()));
            tabs.push(t);
        }
        if tabs.len() == 3 || !s.chance(1, 4) {
            break;
        }
    }
    let n = tabs.len() + s.weighted(&[5, 2, 1]);
    let odd = s.chance(1, 10);
    for i in 0..n {
        let t = if i < tabs.len() { tabs[i].clone() } else { s.pick(&tabs).clone() };
        let mut r = Rows::gen(s, &t, ROWS);
        r.flags = (r.flags & !1) | (i + 1 == n) as u16;
        if maria {
            r.v2 = false;
            r.extra.clear();
        }
        if odd && s.flip() {
            // row events that the library does not decode: compressed ones, partial updates
            let code = if maria { 166 + s.draw(5) as u8 } else { 39 };
            let e = compressed(s, code);
            v.push(e);
            continue;
        }
        v.push(Ev::Rows(Arc::new(r)));
    }
}

fn body(s: &mut Src, maria: bool, v: &mut Vec<Ev>) {
    loop {
        noise(s, v);
        if s.chance(1, 3) {
            let e = if maria && s.chance(1, 6) { compressed(s, 165) } else { stmt(s) };
            v.push(e);
        } else {
            row_stmt(s, maria, v);
        }
        if !s.chance(1, 3) {
            break;
        }
    }
    noise(s, v);
}

const FL_STANDALONE: u8 = 1;
const FL_TRANS: u8 = 4;
const FL_PREPARED: u8 = 64;
const FL_COMPLETED: u8 = 128;

/// The events of a transaction after its GTID event, and the flags of a MariaDB GTID event.
fn shape(s: &mut Src, kind: Kind) -> (&'static str, Vec<Ev>, u8) {
    let maria = kind == Kind::Maria;
    let mut v = vec![];
    let begin = |s: &mut Src, v: &mut Vec<Ev>| {
        if !maria {
            v.push(query(s, "BEGIN"));
        }
    };
    match s.weighted(&[5, 3, 3, 2, 1, 1, 1, !maria as u32]) {
        0 => {
            begin(s, &mut v);
            body(s, maria, &mut v);
            v.push(Ev::Xid(s.uint(64)));
            ("transaction ending in XID", v, FL_TRANS)
        }
        1 => {
            // auto-committed statement
            if s.chance(1, 4) {
                noise(s, &mut v);
            }
            if maria && s.chance(1, 5) {
                v.push(compressed(s, 165));
                return ("compressed auto-committed statement", v, FL_STANDALONE);
            }
            let w = ddl(s);
            v.push(query(s, &w));
            ("auto-committed statement", v, FL_STANDALONE)
        }
        2 => {
            begin(s, &mut v);
            body(s, maria, &mut v);
            let rollback = s.chance(1, 3);
            v.push(query(s, if rollback { "ROLLBACK" } else { "COMMIT" }));
            (if rollback { "transaction ending in ROLLBACK" } else { "transaction ending in COMMIT" }, v, 0)
        }
        3 => {
            // the first phase of an XA transaction
            let id = if s.flip() { "X'61',X'',1" } else { "X'62',X'63',1" };
            if !maria {
                v.push(query(s, &format!("XA START {}", id)));
            }
            body(s, maria, &mut v);
            v.push(query(s, &format!("XA END {}", id)));
            let mut b = vec![s.draw(1) as u8];
            b.extend_from_slice(&[1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, b'a']);
            v.push(Ev::Unknown(38, b));
            ("XA prepare", v, FL_PREPARED | FL_TRANS)
        }
        4 => {
            let w = if s.flip() { "XA COMMIT X'61',X'',1" } else { "XA ROLLBACK X'61',X'',1" };
            v.push(query(s, w));
            ("XA commit or rollback", v, FL_COMPLETED | if s.flip() { FL_STANDALONE } else { FL_TRANS })
        }
        5 => {
            begin(s, &mut v);
            v.push(query(s, "COMMIT"));
            ("empty transaction", v, 0)
        }
        7 => {
            v.push(compressed(s, 40));
            ("compressed transaction", v, 0)
        }
        _ => {
            begin(s, &mut v);
            v.push(query(s, "CREATE TABLE t2 (a INT) START TRANSACTION"));
            row_stmt(s, maria, &mut v);
            v.push(Ev::Xid(s.uint(64)));
            ("CREATE TABLE ... SELECT", v, FL_TRANS)
        }
    }
}

/// A starting position and transactions after it.
pub fn gen_txs(s: &mut Src, kind: Kind, max: usize) -> (Pos, Vec<Tx>) {
    let mut txs = vec![];
    let mut base = match kind {
        Kind::Maria => Pos::Ma(vec![]),
        _ => Pos::My(Model::default()),
    };
    let n_src = 1 + s.weighted(&[3, 2, 1]);
    let mut my: Vec<(Sid, u64)> = vec![];
    let mut ma: Vec<(u32, u64)> = vec![];
    for _ in 0..n_src {
        match &mut base {
            Pos::My(m) => {
                let sid = gen_sid(s);
                if my.iter().any(|x| x.0 == sid) {
                    continue;
                }
                let mut next = 1;
                if s.chance(1, 2) {
                    let iv = gen_intervals(s, 3);
                    for (a, b) in iv {
                        if b < 1 << 45 {
                            m.add(sid, a, b);
                            next = b + 1 + s.draw(2);
                        }
                    }
                } else if s.chance(1, 8) {
                    next = s.range(1, 1 << 50);
                }
                my.push((sid, next));
            }
            Pos::Ma(v) => {
                let d = s.draw_with(u32::MAX as u64, |r| if r.below(4) == 0 { r.next() & 0xffff_ffff } else { r.below(4) }) as u32;
                if ma.iter().any(|x| x.0 == d) {
                    continue;
                }
                let mut next = 1;
                if s.chance(1, 2) {
                    let q = 1 + s.draw_with(1 << 50, |r| if r.below(4) == 0 { r.below(1 << 50) } else { r.below(300) });
                    v.push((d, 1 + s.draw(2) as u32, q));
                    next = q + 1 + s.draw(2);
                }
                ma.push((d, next));
            }
        }
    }
    // a history that is meant to be long does not end early
    let least = if max > 50 { max / 4 + s.below(max / 2) } else { 0 };
    while txs.len() < max && (txs.len() <= least || s.more(13)) {
        let (shape, evs, fl) = shape(s, kind);
        let sid = 1 + field(s, 2).min(u32::MAX - 1);
        let (g, first) = match kind {
            Kind::MyGtid => {
                let i = s.below(my.len());
                let n = my[i].1;
                my[i].1 = n + 1 + if s.chance(1, 8) { s.draw(5) } else { 0 };
                let t = *s.pick(&[0usize, 17, 24, 42]);
                let tail = s.bytes(t);
                (G::My(my[i].0, n), Some(Ev::MyGtid { flags: s.draw(1) as u8, sid: my[i].0, gno: n, tail }))
            }
            Kind::MyAnon => {
                let t = s.flip();
                (G::None, if t { None } else { Some(Ev::Unknown(34, vec![0; 42])) })
            }
            Kind::Maria => {
                let i = s.below(ma.len());
                let q = ma[i].1;
                ma[i].1 = q + 1 + if s.chance(1, 8) { s.draw(5) } else { 0 };
                // flags that do not matter here: group commit id, allow parallel, waited, ddl
                let fl = fl | (s.draw(15) as u8 & !FL_STANDALONE & !FL_TRANS) | if s.chance(1, 3) { 32 } else { 0 } | if s.chance(1, 3) { 16 } else { 0 };
                let tail = s.bytes(6);
                (G::Ma(ma[i].0, sid, q), Some(Ev::MaGtid { seq: q, domain: ma[i].0, flags: fl, tail }))
            }
        };
        let mut all: Vec<(Ev, u32)> = first.into_iter().map(|e| (e, sid)).collect();
        all.extend(evs.into_iter().map(|e| (e, sid)));
        txs.push(Tx { g, shape, evs: all });
    }
    // several threads of a replica may write transactions of one source out of order
    if kind == Kind::MyGtid && s.chance(1, 6) {
        for i in 0..txs.len().saturating_sub(1) {
            if s.chance(1, 3) {
                txs.swap(i, i + 1);
            }
        }
    }
    (base, txs)
}

// --------------------------------------------------------------------------------------- files

#[derive(Clone, Debug)]
pub struct Item {
    pub ev: Ev,
    pub h: Hdr,
    pub bytes: Vec<u8>,
    pub start: u32,
    pub end: u32,
    /// transaction and index in it
    pub tx: Option<(usize, usize)>,
    /// a row statement is open after this event
    pub open: bool,
}

#[derive(Clone, Debug)]
pub struct BFile {
    pub name: String,
    pub alg: Option<u8>,
    pub items: Vec<Item>,
    /// position before this file
    pub prev: Pos,
    pub crc: bool,
    /// ends in the middle of a transaction
    pub torn: bool,
}

#[derive(Clone, Debug)]
pub struct World {
    pub kind: Kind,
    pub base: Pos,
    pub txs: Arc<Vec<Tx>>,
    pub files: Vec<BFile>,
}

pub struct Layout {
    pub algs: &'static [Option<u8>],
    pub big_base: bool,
    /// a file may end in the middle of a transaction that was lost in a crash of the server
    pub torn: bool,
    /// the transactions are in another order (each source and domain keeps its own)
    pub shuffle: bool,
}
impl Layout {
    pub fn new(algs: &'static [Option<u8>]) -> Layout {
        Layout { algs, big_base: false, torn: false, shuffle: false }
    }
}

/// An order of the transactions in which those of one source or domain keep their own order.
fn interleave(s: &mut Src, txs: &[Tx]) -> Vec<usize> {
    let mut groups: Vec<Vec<usize>> = vec![];
    for (i, t) in txs.iter().enumerate() {
        let same = |a: &G, b: &G| match (a, b) {
            (G::My(x, _), G::My(y, _)) => x == y,
            (G::Ma(x, _, _), G::Ma(y, _, _)) => x == y,
            _ => true,
        };
        match groups.iter_mut().find(|g| same(&txs[g[0]].g, &t.g)) {
            Some(g) => g.push(i),
            None => groups.push(vec![i]),
        }
    }
    let mut out = vec![];
    while !groups.is_empty() {
        let i = s.below(groups.len());
        out.push(groups[i].remove(0));
        if groups[i].is_empty() {
            groups.remove(i);
        }
    }
    out
}

/// Writes the transactions to binlog files.
pub fn layout(s: &mut Src, kind: Kind, base: &Pos, txs: &Arc<Vec<Tx>>, o: Layout) -> World {
    let mut pos = base.clone();
    let mut files: Vec<BFile> = vec![];
    let mut next = 0;
    let order: Vec<usize> = if o.shuffle { interleave(s, txs) } else { (0..txs.len()).collect() };
    let mut num = s.range(1, 999_999) as u32;
    let stem = if s.chance(1, 5) {
        let n = s.len(20, 150);
        s.name(n.max(1))
    } else {
        "binlog".to_string()
    };
    let server = 1 + field(s, 9).min(u32::MAX - 1);
    // the base name of the files may be changed along the way
    let (other, from) = if s.chance(1, 6) { (s.pick(&["aaabin", "zzzbin", "b", "binlog", "mysql-bin"]).to_string(), s.range(1, 6) as u32) } else { (stem.clone(), 64) };
    let names: Vec<String> = (0..64).map(|i| format!("{}.{:06}", if i < from { &stem } else { &other }, num + i)).collect();
    num = 0;
    loop {
        let alg = *s.pick(o.algs);
        let crc = alg == Some(1);
        let mut at = 4u32;
        let mut items: Vec<Item> = vec![];
        let mut open = false;
        let mut put = |items: &mut Vec<Item>, at: &mut u32, ev: Ev, sid: u32, tx: Option<(usize, usize)>, s: &mut Src| {
            let mut h = Hdr { ts: if s.chance(1, 8) { s.uint(32) as u32 } else { 1_600_000_000 + s.draw(3) as u32 }, server_id: sid, log_pos: 0, flags: 0 };
            if s.chance(1, 10) {
                h.flags = *s.pick(&[4u16, 8, 0x80, 1, 2, 0x10, 0x40, 0x100, 0x200, 0x8000]);
            }
            let len = ev.wire(&h, crc).len() as u32;
            h.log_pos = *at + len;
            let bytes = ev.wire(&h, crc);
            match &ev {
                Ev::Table(_) => open = true,
                Ev::Rows(r) => open = r.flags & 1 == 0,
                // whether these end the statement is not known
                Ev::Unknown(39 | 166..=171, _) => open = true,
                _ => open = false,
            }
            items.push(Item { ev, h, bytes, start: *at, end: *at + len, tx, open });
            *at += len;
        };
        let ev = Ev::Fde {
            ver: 4,
            server: if kind == Kind::Maria { "10.6.12-MariaDB-log".into() } else { "8.0.32".into() },
            n: if kind == Kind::Maria { 171 } else { 41 },
            alg,
            fill: vec![],
            created: 1_600_000_000,
        };
        put(&mut items, &mut at, ev, server, None, s);
        match &pos {
            Pos::My(m) => {
                if kind == Kind::MyGtid {
                    let v: Vec<_> = m.0.iter().map(|(a, b)| (*a, b.clone())).collect();
                    put(&mut items, &mut at, Ev::PrevGtids(v), server, None, s);
                } else if s.flip() {
                    put(&mut items, &mut at, Ev::PrevGtids(vec![]), server, None, s);
                }
            }
            Pos::Ma(v) => {
                put(&mut items, &mut at, Ev::GtidList { flags: 0, list: v.clone() }, server, None, s);
                if s.flip() {
                    put(&mut items, &mut at, Ev::Unknown(161, b"\x0d\0\0\0binlog.000001".to_vec()), server, None, s);
                }
            }
        }
        if o.big_base && s.chance(1, 3) {
            at = s.range(0x7fff_0000, 0xff00_0000) as u32;
        }
        let prev = pos.clone();
        loop {
            if s.chance(1, 8) {
                // events between transactions
                let c = if kind == Kind::Maria { 161 } else { *s.pick(&[28u8, 26]) };
                let n = s.len(10, 40);
                let b = s.bytes(n);
                put(&mut items, &mut at, Ev::Unknown(c, b), server, None, s);
            }
            if next == txs.len() || s.chance(1, 5) {
                break;
            }
            let tx = order[next];
            for (i, (ev, sid)) in txs[tx].evs.iter().enumerate() {
                put(&mut items, &mut at, ev.clone(), *sid, Some((tx, i)), s);
            }
            pos.add(&txs[tx].g);
            next += 1;
        }
        let last = next == txs.len() && !s.chance(1, 6) || files.len() > 20;
        let name = names[num as usize].clone();
        num += 1;
        let mut torn = false;
        if !last && o.torn && s.chance(1, 2) {
            // the next transaction, or some other one, begins but does not end
            let tx = &txs[order[if s.flip() { s.range(next.min(txs.len() - 1) as u64, txs.len() as u64 - 1) as usize } else { next.min(txs.len() - 1) }]];
            let mut evs = tx.evs.clone();
            if s.chance(1, 3) {
                // one that is never written again
                let n = s.range(1, 1 << 20);
                match evs.first_mut() {
                    Some((Ev::MyGtid { gno, .. }, _)) => *gno = (1 << 62) + n,
                    Some((Ev::MaGtid { seq, .. }, _)) => *seq += 1000 + n,
                    _ => {}
                }
            }
            if s.chance(1, 3) {
                let (_, more, fl) = shape(s, kind);
                evs.truncate((kind != Kind::MyAnon) as usize);
                if let Some((Ev::MaGtid { flags, .. }, _)) = evs.first_mut() {
                    *flags = fl;
                }
                evs.extend(more.into_iter().map(|e| (e, server)));
            }
            let n = s.below(evs.len());
            torn = n > 0;
            for (ev, sid) in evs.into_iter().take(n) {
                put(&mut items, &mut at, ev, sid, None, s);
            }
        } else if !last || s.chance(1, 8) {
            match s.weighted(&[6, 1, 1]) {
                0 => {
                    let ev = Ev::Rotate { pos: 4, name: names[num as usize].clone() };
                    put(&mut items, &mut at, ev, server, None, s);
                }
                1 => put(&mut items, &mut at, Ev::Unknown(3, vec![]), server, None, s),
                _ => {}
            }
        }
        let rotated = matches!(items.last().map(|i| &i.ev), Some(Ev::Rotate { .. }));
        files.push(BFile { name, alg, items, prev, crc, torn });
        if last && !rotated {
            break;
        }
    }
    // a tree of 20 files is enough; the rest goes to the last one
    while next < txs.len() {
        let f = files.last_mut().unwrap();
        if matches!(f.items.last().map(|i| &i.ev), Some(Ev::Rotate { .. }) | Some(Ev::Unknown(3, _))) {
            f.items.pop();
        }
        let mut open = false;
        for (i, (ev, sid)) in txs[order[next]].evs.iter().enumerate() {
            let start = f.items.last().unwrap().end;
            let mut h = Hdr { ts: 1, server_id: *sid, log_pos: 0, flags: 0 };
            let len = ev.wire(&h, f.crc).len() as u32;
            h.log_pos = start + len;
            match ev {
                Ev::Table(_) => open = true,
                Ev::Rows(r) => open = r.flags & 1 == 0,
                // whether these end the statement is not known
                Ev::Unknown(39 | 166..=171, _) => open = true,
                _ => open = false,
            }
            f.items.push(Item { ev: ev.clone(), bytes: ev.wire(&h, f.crc), h, start, end: start + len, tx: Some((order[next], i)), open });
        }
        next += 1;
    }
    World { kind, base: base.clone(), txs: txs.clone(), files }
}

impl World {
    pub fn describe(&self) -> String {
        let mut o = format!("{:?}, before it: {}\n", self.kind, clip(&self.base.text(), 300));
        for f in &self.files {
            o += &format!("file {} checksum {:?}\n", f.name, f.alg);
            for i in &f.items {
                o += &format!(
                    "  {}..{} {}{}\n",
                    i.start,
                    i.end,
                    match i.tx {
                        Some((t, k)) => format!("[{}.{} {}] ", t, k, self.txs[t].g.text()),
                        None => String::new(),
                    },
                    clip(&i.ev.describe(), 110)
                );
            }
        }
        o
    }
    pub fn item(&self, at: (usize, usize)) -> &Item {
        &self.files[at.0].items[at.1]
    }
    /// Global index of an event
    pub fn index(&self, at: (usize, usize)) -> usize {
        self.files[..at.0].iter().map(|f| f.items.len()).sum::<usize>() + at.1
    }
    /// All events with their places
    pub fn all(&self) -> Vec<((usize, usize), &Item)> {
        let mut v = vec![];
        for (i, f) in self.files.iter().enumerate() {
            for (k, it) in f.items.iter().enumerate() {
                v.push(((i, k), it));
            }
        }
        v
    }
    /// Global index of the first event at or after a file position, if it is between two events.
    pub fn boundary(&self, file: &str, pos: u32) -> Result<usize, String> {
        let fi = match self.files.iter().position(|f| f.name == file) {
            Some(i) => i,
            None => return Err(format!("no file {:?}", file)),
        };
        let f = &self.files[fi];
        if pos == 4 {
            return Ok(self.index((fi, 0)));
        }
        for (k, it) in f.items.iter().enumerate() {
            if it.end == pos {
                return Ok(self.index((fi, k)) + 1);
            }
            if it.start == pos {
                return Ok(self.index((fi, k)));
            }
        }
        Err(format!("{}:{} is not between two events", file, pos))
    }
    pub fn complete(&self, tx: (usize, usize)) -> bool {
        self.txs[tx.0].evs.len() == tx.1 + 1
    }
}

// ------------------------------------------------------------------------------ what is sent

/// One event of a stream.
#[derive(Clone, Debug)]
pub struct Sent {
    pub ev: Ev,
    pub h: Hdr,
    pub bytes: Vec<u8>,
    /// where it is in the files; none for artificial events
    pub at: Option<(usize, usize)>,
}

pub enum From<'a> {
    File(&'a str, u32),
    /// start from a GTID position; MySQL also takes a file and position to begin with
    Gtid(&'a Pos, Option<(&'a str, u32)>),
}

const ARTIFICIAL: u16 = 0x20;

/// The events a server sends. `crc`: the checksum setting agreed before the stream.
/// `noise`: seed of the heartbeats.
pub fn stream(w: &World, from: From, crc: bool, noise: u64) -> Result<Vec<Sent>, String> {
    let mut r = Rng::new(noise);
    let mut crc = crc;
    let server = w.files[0].items[0].h.server_id;
    let mut out: Vec<Sent> = vec![];
    let art = |out: &mut Vec<Sent>, ev: Ev, log_pos: u32, flags: u16, crc: bool| {
        let h = Hdr { ts: 0, server_id: server, log_pos, flags };
        out.push(Sent { bytes: ev.wire(&h, crc), ev, h, at: None });
    };
    let (mut fi, pos, set) = match &from {
        From::File(name, pos) => {
            let fi = if name.is_empty() {
                0
            } else {
                w.files.iter().position(|f| f.name == *name).ok_or(format!("dump of the unknown file {:?}", name))?
            };
            if *pos < 4 {
                return Err(format!("dump from position {}", pos));
            }
            w.boundary(&w.files[fi].name, *pos).map_err(|e| format!("dump: {}", e))?;
            (fi, *pos, None)
        }
        From::Gtid(p, Some((name, pos))) => {
            let fi = w.files.iter().position(|f| f.name == *name).ok_or(format!("dump of the unknown file {:?}", name))?;
            w.boundary(name, *pos).map_err(|e| format!("dump: {}", e))?;
            (fi, *pos, Some(*p))
        }
        From::Gtid(p, None) => {
            let mut fi = None;
            for (i, f) in w.files.iter().enumerate() {
                let within = match (&f.prev, p) {
                    (Pos::My(prev), Pos::My(have)) => prev.0.iter().all(|(sid, iv)| {
                        let h = have.0.get(sid).cloned().unwrap_or_default();
                        iv.iter().all(|x| h.iter().any(|y| y.0 <= x.0 && x.1 <= y.1))
                    }),
                    (Pos::Ma(prev), Pos::Ma(have)) => prev.iter().all(|x| have.iter().any(|y| y.0 == x.0 && y.2 >= x.2)),
                    _ => return Err("position of the other kind of server".into()),
                };
                if within {
                    fi = Some(i);
                }
            }
            if let Pos::Ma(have) = p {
                for x in have {
                    let known = match &w.base {
                        Pos::Ma(b) => b.contains(x),
                        _ => false,
                    } || w.txs.iter().any(|t| t.g == G::Ma(x.0, x.1, x.2));
                    if !known {
                        return Err(format!("the client asks for {}-{}-{}, which is not in the history", x.0, x.1, x.2));
                    }
                }
            }
            (fi.ok_or("the client lacks transactions from before the first file".to_string())?, 4, Some(*p))
        }
    };
    let mut first = true;
    let mut last_pos = pos;
    while fi < w.files.len() {
        let f = &w.files[fi];
        let from = if first { pos } else { 4 };
        art(&mut out, Ev::Rotate { pos: from as u64, name: f.name.clone() }, 0, ARTIFICIAL, crc);
        crc = f.crc;
        if from == 4 {
            last_pos = 4;
        }
        for (k, it) in f.items.iter().enumerate() {
            if k == 0 && from > 4 {
                // the format of the file, sent again
                art(&mut out, it.ev.clone(), 0, 0, crc);
                continue;
            }
            if it.start < from {
                continue;
            }
            if k == 1 {
                if let (Some(Pos::Ma(have)), Ev::GtidList { .. }) = (set, &it.ev) {
                    art(&mut out, Ev::GtidList { flags: 0, list: have.clone() }, 0, ARTIFICIAL, crc);
                    continue;
                }
            }
            if let (Some(set), Some((t, _))) = (set, it.tx) {
                if set.has(&w.txs[t].g) {
                    continue;
                }
            }
            out.push(Sent { ev: it.ev.clone(), h: it.h.clone(), bytes: it.bytes.clone(), at: Some((fi, k)) });
            last_pos = it.end;
            let between = !it.open && it.tx.map(|t| w.complete(t)).unwrap_or(true);
            let rotate = matches!(it.ev, Ev::Rotate { .. });
            if noise != 0 && between && !rotate && r.below(8) == 0 {
                art(&mut out, Ev::Heartbeat(f.name.clone()), last_pos, 0, crc);
            }
        }
        if noise != 0 && fi + 1 == w.files.len() && r.below(2) == 0 {
            art(&mut out, Ev::Heartbeat(f.name.clone()), last_pos, 0, crc);
        }
        first = false;
        fi += 1;
    }
    Ok(out)
}
