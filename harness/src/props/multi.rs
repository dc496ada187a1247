//! C25: several parsers, readers, clients and streams in one process; C26: closed connections.
use super::events::{check_items, describe, file_of, history, memfile, small_table, History, Item, Step, ROWS};
use super::gtid::check_set;
use super::part;
use super::net::{check_requests, gen_setup, vary_auth, vary_server};
use super::repl::options;
use crate::enc::*;
use crate::engine::*;
use crate::hist::*;
use crate::net::{self, check_log, serve, End, ErrPkt, Fault, Out, Plan, Stream};
use crate::{ensure, fail, same};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

// ----------------------------------------------------------------------------------------- C25

/// What is done with one instance, and what has to come out of it.
enum Script {
    Parser(History),
    Reader(History),
    /// events with the GTID position after each
    Client(Pos, Vec<(Sent, Pos)>),
}

enum Live<'a> {
    Parser(EventParser, &'a [Step]),
    Reader(Box<dyn Iterator<Item = Result<(EventHeader, BinlogEvent), Error>>>, &'a [Step]),
    Client(Box<BinlogClient>, EventParser, &'a [(Sent, Pos)]),
}

fn gen_history(s: &mut Src) -> History {
    let alg = *s.pick(&[Some(1u8), Some(0), None]);
    let mut h = history(s, alg, 10, true, false);
    // rows of a table that only others may have described
    if s.flip() {
        let id = s.draw(3);
        let t = small_table(s, id, 3);
        let ev = Ev::Rows(Arc::new(Rows::gen(s, &t, ROWS)));
        let hd = Hdr::gen(s);
        let bytes = ev.wire(&hd, alg == Some(1));
        h.steps.insert(1, Step { ev, h: hd, bytes, bad: true });
    }
    h
}

fn gen_script(s: &mut Src) -> Result<Script, Fail> {
    Ok(match s.weighted(&[3, 2, 3]) {
        k @ 0..=1 => {
            let mut h = gen_history(s);
            // without a format description, an instance of its own knows of no checksums
            if s.chance(1, 3) && h.steps.len() > 1 && !matches!(h.steps[0].ev, Ev::Fde { alg: Some(1), .. }) {
                h.steps.remove(0);
            }
            if k == 0 {
                Script::Parser(h)
            } else {
                Script::Reader(h)
            }
        }
        _ => {
            let kind = if s.flip() { Kind::Maria } else { Kind::MyGtid };
            let (base, txs) = gen_txs(s, kind, 4);
            let txs = Arc::new(txs);
            let w = layout(s, kind, &base, &txs, Layout::new(&[Some(0)]));
            let evs = stream(&w, From::Gtid(&base, None), false, 0).map_err(Fail::harness)?;
            let mut pos = base.clone();
            let mut v = vec![];
            for e in evs {
                if let Some(tx) = e.at.and_then(|at| w.item(at).tx) {
                    if w.complete(tx) {
                        pos.add(&w.txs[tx.0].g);
                    }
                }
                v.push((e, pos.clone()));
            }
            Script::Client(base, v)
        }
    })
}

fn text(x: &Script) -> String {
    match x {
        Script::Parser(h) => format!("a parser:\n{}", describe(h)),
        Script::Reader(h) => format!("a reader:\n{}", describe(h)),
        Script::Client(base, v) => format!(
            "a client from {}:\n{}",
            clip(&base.text(), 200),
            v.iter().map(|x| format!("{}\n", clip(&x.0.ev.describe(), 100))).collect::<String>()
        ),
    }
}

fn start(x: &Script) -> Result<Live<'_>, Fail> {
    Ok(match x {
        Script::Parser(h) => Live::Parser(sut(EventParser::new), &h.steps),
        Script::Reader(h) => {
            let f = memfile(&file_of(h));
            let r = sut(|| BinlogReader::new(f)).map_err(|e| Fail::new(format!("BinlogReader::new: {:?}", e)))?;
            Live::Reader(Box::new(r.read_events()), &h.steps)
        }
        Script::Client(base, v) => {
            let t = base.text();
            let err = |e: Error| Fail::new(format!("{:?} is not parsed: {:?}", t, e));
            let b = match base {
                Pos::My(_) => BinlogOptions::from_mysql_gtid(GtidSet::parse(&t).map_err(err)?),
                Pos::Ma(_) => BinlogOptions::from_mariadb_gtid(GtidList::parse(&t).map_err(err)?),
            };
            Live::Client(Box::new(BinlogClient::new(options(b, 1))), EventParser::new(), v)
        }
    })
}

fn position(cl: &BinlogClient, want: &Pos) -> Res {
    let b = &cl.options.binlog;
    match (want, &b.gtid_set, &b.gtid_list) {
        (Pos::My(m), Some(g), None) => check_set(g, m, "position"),
        (Pos::Ma(v), None, Some(g)) => {
            let mut got: Vec<_> = g.gtids.iter().map(|x| (x.domain_id, x.server_id, x.sequence)).collect();
            let mut want = v.clone();
            got.sort();
            want.sort();
            same!(got, want, "position");
            Ok(())
        }
        _ => fail!("the position is {:?}", b),
    }
}

/// One step of an instance; false if it has none left.
fn step(l: &mut Live) -> Result<bool, Fail> {
    let item = |st: &Step, r: Item| -> Res {
        if st.bad {
            ensure!(r.is_err(), "{} should be an error", st.ev.describe());
            Ok(())
        } else {
            check_item(&st.ev, &st.h, st.bytes.len(), r)
        }
    };
    match l {
        Live::Parser(p, v) => {
            let Some((st, rest)) = v.split_first() else { return Ok(false) };
            *v = rest;
            let r = sut(|| feed(p, &st.bytes));
            item(st, r.map_err(|e| format!("{:?}", e)))?;
        }
        Live::Reader(it, v) => {
            let r = sut(|| it.next());
            let Some((st, rest)) = v.split_first() else {
                ensure!(r.is_none(), "a reader goes on after its last event: {:?}", r);
                return Ok(false);
            };
            *v = rest;
            match r {
                None => fail!("a reader ends before {}", st.ev.describe()),
                Some(r) => item(st, r.map_err(|e| format!("{:?}", e)))?,
            }
        }
        Live::Client(cl, p, v) => {
            let Some(((st, want), rest)) = v.split_first() else { return Ok(false) };
            *v = rest;
            let (h, e) = sut(|| feed(p, &st.bytes)).map_err(|e| Fail::new(format!("{}: {:?}", st.ev.describe(), e)))?;
            sut(|| cl.commit(&h, &e));
            position(cl, want)?;
        }
    }
    Ok(true)
}

fn c25(s: &mut Src, c: &mut Case) -> Res {
    let mut scripts = vec![];
    let n = 2 + s.weighted(&[4, 2, 1]);
    for _ in 0..n {
        scripts.push(gen_script(s)?);
    }
    c.note(|| scripts.iter().map(text).collect::<Vec<_>>().join("\n"));
    let mut live: Vec<(usize, Live)> = vec![];
    let mut next = 0;
    let mut order = vec![];
    // instances are made late or early, go on in any order, and are given up at any time
    while next < n || !live.is_empty() {
        if next < n && (live.is_empty() || s.chance(1, 3)) {
            live.push((next, start(&scripts[next])?));
            next += 1;
        }
        let k = s.below(live.len());
        let (i, l) = &mut live[k];
        order.push(*i);
        let on = step(l).map_err(|f| Fail::new(format!("instance {} among others (order {:?}): {}", i, order, f.msg)))?;
        if !on || s.chance(1, 40) {
            live.remove(k);
        }
    }
    c.label_if(scripts.iter().any(|x| matches!(x, Script::Parser(_))), "parser");
    c.label_if(scripts.iter().any(|x| matches!(x, Script::Reader(_))), "reader");
    c.label_if(scripts.iter().any(|x| matches!(x, Script::Client(..))), "client");
    c.nontrivial = order.windows(2).filter(|w| w[0] != w[1]).count() >= 3;
    Ok(())
}

/// The same in threads of their own.
fn c25_threads(s: &mut Src, c: &mut Case) -> Res {
    let mut scripts = vec![];
    for _ in 0..3 {
        scripts.push(gen_script(s)?);
    }
    c.note(|| scripts.iter().map(text).collect::<Vec<_>>().join("\n"));
    let res: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = scripts
            .iter()
            .map(|x| {
                sc.spawn(move || -> Res {
                    for _ in 0..4 {
                        let mut l = start(x)?;
                        while step(&mut l)? {}
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::new("panic in a thread of its own")))).collect()
    });
    for (i, r) in res.into_iter().enumerate() {
        r.map_err(|f| Fail::new(format!("instance {}, in its own thread: {}", i, f.msg)))?;
    }
    c.nontrivial = true;
    Ok(())
}

/// A client with a stream of its own while another one streams.
fn c25_streams(s: &mut Src, c: &mut Case) -> Res {
    let mut hs = vec![];
    let mut plans = vec![];
    let mut clients = vec![];
    let mut setups = vec![];
    for _ in 0..2 {
        let crc = s.flip();
        let mut h = gen_history(s);
        let rot = Ev::Rotate { pos: 4, name: format!("binlog.{:06}", s.draw(3)) };
        let hd = Hdr { ts: 0, server_id: 1, log_pos: 0, flags: 0x20 };
        h.steps.insert(0, Step { bytes: rot.wire(&hd, crc), ev: rot, h: hd, bad: false });
        let out: Vec<Vec<u8>> = h.steps.iter().map(|x| [&[0u8][..], &x.bytes[..]].concat()).collect();
        let source: net::Source = Box::new(move |_, _| {
            Ok(Stream { out: out.iter().map(|x| Out::Packet(x.clone())).collect(), end: End::Eof, cut: None })
        });
        let maria = s.chance(1, 3);
        let mut p = Plan::new(maria, source);
        vary_server(s, &mut p, maria);
        p.checksum = Some(if crc { "CRC32".into() } else { "NONE".into() });
        let mut u = gen_setup(s, c, maria)?;
        if u.impossible {
            (u.impossible, u.set, u.list) = (false, None, None);
            u.binlog = BinlogOptions::from_position(format!("binlog.{:06}", s.draw(3)), 4 + s.draw(3) as u32);
        }
        p.master = Some(u.master.clone());
        let before = (u.binlog.filename.clone(), u.binlog.position);
        let mut o = options(BinlogOptions::from_start(), 0);
        std::mem::swap(&mut o.binlog, &mut u.binlog);
        vary_auth(s, &mut p, &mut o, true);
        o.server_id = 1 + s.draw(5) as u32;
        o.heartbeat_interval = Duration::from_secs(10 + s.draw(4));
        o.blocking = s.flip();
        setups.push((u, before, maria, p.checksum.clone().unwrap()));
        plans.push(p);
        clients.push(BinlogClient::new(o));
        hs.push(h);
    }
    c.note(|| hs.iter().map(describe).collect::<Vec<_>>().join("\n"));
    let turns: Vec<bool> = (0..64).map(|_| s.flip()).collect();
    let late = s.flip();
    let mut c1 = clients.pop().unwrap();
    let mut c0 = clients.pop().unwrap();
    let (r, log0) = serve(&plans[0], |port| -> Res {
        c0.options.port = port;
        let mut e0 = sut(|| c0.replicate()).map_err(|e| Fail::new(format!("first replicate(): {:?}", e)))?;
        let mut items: [Vec<Item>; 2] = [vec![], vec![]];
        let mut done = [false; 2];
        if late {
            if let Some(x) = sut(|| e0.next()) {
                items[0].push(x.map_err(|e| format!("{:?}", e)));
            }
        }
        let (r, log1) = serve(&plans[1], |port| -> Res {
            c1.options.port = port;
            let mut e1 = sut(|| c1.replicate()).map_err(|e| Fail::new(format!("second replicate(): {:?}", e)))?;
            let mut k = 0;
            while !(done[0] && done[1]) {
                let w = turns[k % 64] as usize;
                k += 1;
                let w = if done[w] { 1 - w } else { w };
                let x = sut(|| if w == 0 { e0.next() } else { e1.next() });
                match x {
                    None => done[w] = true,
                    Some(x) => items[w].push(x.map_err(|e| format!("{:?}", e))),
                }
                if items[w].len() > hs[w].steps.len() + 1 {
                    fail!("stream {} among two does not end", w);
                }
            }
            Ok(())
        });
        r?;
        check_log(&log1)?;
        let [i0, i1] = items;
        check_items(&hs[0].steps, i0).map_err(|f| Fail::new(format!("first of two streams: {}", f.msg)))?;
        check_items(&hs[1].steps, i1).map_err(|f| Fail::new(format!("second of two streams: {}", f.msg)))?;
        let (u, before, maria, checksum) = &setups[1];
        check_requests(&log1, u, &c1.options, before, *maria, checksum)
            .map_err(|f| Fail::new(format!("second client: {}", f.msg)))
    });
    r?;
    check_log(&log0)?;
    let (u, before, maria, checksum) = &setups[0];
    check_requests(&log0, u, &c0.options, before, *maria, checksum).map_err(|f| Fail::new(format!("first client: {}", f.msg)))?;
    c.nontrivial = hs.iter().all(|h| h.steps.len() > 3);
    Ok(())
}

// ----------------------------------------------------------------------------------------- C26

/// Connections of a client that stays alive, one after the other: each is closed when its stream is
/// dropped, or when it could not be established.
fn c26(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.chance(1, 3);
    let mut cl = BinlogClient::new(options(BinlogOptions::from_position("binlog.000001".into(), 4), 0));
    if s.chance(1, 3) {
        cl.options.binlog = if maria {
            BinlogOptions::from_mariadb_gtid(GtidList::parse("0-1-5").map_err(|e| Fail::new(format!("{:?}", e)))?)
        } else {
            BinlogOptions::from_mysql_gtid(GtidSet::parse("").map_err(|e| Fail::new(format!("{:?}", e)))?)
        };
    }
    cl.options.blocking = s.flip();
    let hold = Duration::from_secs(20);
    let n = 1 + s.draw(2);
    let mut kinds = BTreeMap::new();
    for round in 0..n {
        let evs = 1 + s.draw(4) as usize;
        let ending = s.below(3);
        let evs_n = evs;
        let take = s.draw(evs as u64 + (ending > 0) as u64) as usize;
        let bytes: Vec<Vec<u8>> = (0..evs)
            .map(|i| {
                let ev = if i == 0 { Ev::Rotate { pos: 4, name: "binlog.000001".into() } } else { Ev::query("COMMIT") };
                [&[0u8][..], &ev.wire(&Hdr::default(), true)[..]].concat()
            })
            .collect();
        let source: net::Source = Box::new(move |_, _| {
            let mut out: Vec<Out> = bytes.iter().map(|x| Out::Packet(x.clone())).collect();
            // the stream has ended with an error, or is over, and yet the server waits
            if ending == 1 {
                out.push(Out::Packet(ErrPkt::new(1236, "Could not find first log file name in binary log index file").bytes()));
            } else if ending == 2 {
                out.push(Out::Packet(vec![0xfe, 0, 0, 2, 0]));
            }
            Ok(Stream { out, end: End::Silence(hold), cut: None })
        });
        let mut p = Plan::new(maria, source);
        p.idle = hold;
        let fails = s.chance(1, 3);
        if fails {
            let k = s.draw(if maria { 8 } else { 5 }) as usize;
            p.fault = Some((k, Fault::Err(ErrPkt::new(1045, "Access denied"))));
        } else if s.chance(1, 4) {
            // a greeting, or a later reply, that makes no sense
            p.fault = Some((s.draw(3) as usize, Fault::Payload(vec![0x37; 3], 0)));
        }
        p.lenient = true;
        c.note(|| format!("connection {}: {} of {} events read, then dropped; ending {}; fault {:?}", round, take, evs, ["none", "error", "end of file"][ending], p.fault));
        let (r, log) = serve(&p, |port| -> Result<bool, Fail> {
            cl.options.port = port;
            match sut(|| cl.replicate()) {
                Err(_) => Ok(false),
                Ok(mut evs) => {
                    for i in 0..take {
                        match sut(|| evs.next()) {
                            Some(Ok(_)) => {}
                            Some(Err(_)) if ending == 1 && i == evs_n => {}
                            None if ending == 2 && i == evs_n => {}
                            x => fail!("event {}: {:?}", i, x),
                        }
                    }
                    sut(|| drop(evs));
                    Ok(true)
                }
            }
        });
        let ok = r?;
        ensure!(p.fault.is_some() || ok, "replicate() fails without a fault");
        let open = if ok { log.silent_at.is_some() && log.closed_at.is_none() } else { log.idle };
        ensure!(
            !open,
            "{} and the client keeps the connection open",
            if ok { "the stream has been dropped" } else { "replicate() has failed" }
        );
        *kinds.entry(if ok { "dropped stream" } else { "failed start" }).or_insert(0) += 1;
    }
    for k in kinds.keys() {
        c.label(k);
    }
    c.nontrivial = n > 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            level: "exploration",
            rule: "a case is non-trivial if the instances take turns at least three times (part streams: both streams have more than three events; part threads: every case)",
            assumptions: &["Interference of threads that needs a particular timing is only found by chance."],
            parts: vec![
                part("instances", 150_000, 4_000_000, c25),
                part("streams", 8_000, 200_000, c25_streams),
                part("threads", 6_000, 150_000, c25_threads),
            ],
        },
        Prop {
            id: "C26",
            level: "fault_enumeration",
            rule: "a case is non-trivial if the client connects more than once",
            assumptions: &["A connection counts as kept open if the server sees no end of it for 20 s."],
            parts: vec![part("connections", 20_000, 400_000, c26)],
        },
    ]
}
