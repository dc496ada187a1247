//! C27: events are delivered as soon as they have arrived; C28: memory over long runs.
use super::events::{check_items, describe, file_of, history, memfile, History, Item};
use super::net::{client, gen_file, lead, pkt};
use super::part;
use super::repl::options;
use crate::enc::*;
use crate::engine::*;

use crate::net::{self, check_log, serve, End, ErrPkt, Fault, Gate, Out, Plan, Stream};
use crate::{ensure, fail};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use std::sync::Arc;

// ----------------------------------------------------------------------------------------- C27

/// The server goes on only when the client has delivered what it sent.
fn c27(s: &mut Src, c: &mut Case) -> Res {
    let alg = *s.pick(&[Some(1u8), Some(0), None]);
    let crc = s.flip();
    let mut steps = lead(s, crc);
    let large = s.chance(1, 8);
    steps.extend(history(s, alg, 12, true, large).steps);
    let hist = History { steps, crc };
    let ending = s.below(3);
    let gate = Arc::new(Gate::default());
    // for each packet: nothing, wait until the ones before are delivered, or the same inside of it
    let n = hist.steps.len() + 1;
    let waits: Vec<(usize, usize)> = (0..=n)
        .map(|_| match s.weighted(&[1, 3, 1]) {
            0 => (0, 0),
            1 => (1, 0),
            _ => (2, if s.flip() { s.draw(6) as usize } else { s.draw(60) as usize }),
        })
        .collect();
    c.note(|| format!("{}then {}; pauses {:?}", describe(&hist), ["end of file", "an error", "nothing"][ending], waits));
    let last = match ending {
        0 => Some(vec![0xfe, 0, 0, 2, 0]),
        1 => Some(ErrPkt::new(1236, "log event entry exceeded max_allowed_packet").bytes()),
        _ => None,
    };
    let (g, w) = (gate.clone(), waits.clone());
    let mut ps: Vec<Vec<u8>> = hist.steps.iter().map(|x| pkt(&x.bytes)).collect();
    ps.extend(last);
    let total = ps.len();
    let source: net::Source = Box::new(move |_, _| {
        let mut out = vec![];
        for (i, p) in ps.iter().enumerate() {
            // the start and i items have been delivered
            match w[i] {
                (0, _) => out.push(Out::Packet(p.clone())),
                (1, _) => {
                    out.push(Out::Wait(g.clone(), i + 1));
                    out.push(Out::Packet(p.clone()));
                }
                (_, k) => out.push(Out::Split(p.clone(), k, g.clone(), i + 1)),
            }
        }
        out.push(Out::Wait(g.clone(), ps.len() + 1));
        Ok(Stream { out, end: End::Close, cut: None })
    });
    let mut p = Plan::new(s.chance(1, 3), source);
    p.checksum = Some(if crc { "CRC32".into() } else { "NONE".into() });
    let mut cl = client(s);
    let (r, log) = serve(&p, |port| -> Result<Vec<Option<Item>>, Fail> {
        cl.options.port = port;
        let mut evs = sut(|| cl.replicate()).map_err(|e| Fail::new(format!("replicate(): {:?}", e)))?;
        gate.pass();
        let mut v: Vec<Option<Item>> = vec![];
        for _ in 0..total {
            v.push(sut(|| evs.next()).map(|x| x.map_err(|e| format!("{:?}", e))));
            gate.pass();
        }
        Ok(v)
    });
    check_log(&log)?;
    let mut v = r?;
    match ending {
        0 => ensure!(matches!(v.pop(), Some(None)), "the end of the stream"),
        1 => ensure!(matches!(v.pop(), Some(Some(Err(_)))), "the error at the end of the stream"),
        _ => {}
    }
    let items: Vec<Item> = v.into_iter().flatten().collect();
    c.label(["end of file", "error", "open end"][ending]);
    c.nontrivial = hist.steps.len() > 3 && waits.iter().take(total).filter(|x| x.0 > 0).count() > 2;
    check_items(&hist.steps, items)
}

// ----------------------------------------------------------------------------------------- C28

/// What may be held after a run more than after half of it.
const SLACK: i64 = 4096;

/// Runs `go` (true as long as all is well) n times, and compares what is held.
fn half(n: usize, what: &str, mut go: impl FnMut(usize) -> bool) -> Res {
    let mut mid = 0;
    for i in 0..n {
        let ok = sut_hold(|| go(i));
        ensure!(ok, "{}: event {} of {} is not delivered as it should be", what, i, n);
        if i + 1 == n / 2 {
            mid = mem_now().0;
        }
    }
    let end = mem_now().0;
    ensure!(
        end - mid <= SLACK,
        "{}: {} bytes are held after {} events, {} after {}",
        what,
        mid,
        n / 2,
        end,
        n
    );
    Ok(())
}

fn gen_round(s: &mut Src, bad: bool) -> History {
    let alg = *s.pick(&[Some(1u8), Some(0), None]);
    history(s, alg, 12, bad, false)
}

/// Memory for the events at hand, whatever went before.
fn allowance(h: &History) -> usize {
    let largest = h.steps.iter().map(|x| x.bytes.len()).max().unwrap_or(0);
    let cols = h.steps.iter().map(|x| if let Ev::Table(t) = &x.ev { t.cols.len() } else { 0 }).max().unwrap_or(0);
    (2 << 20) + 128 * (largest + cols)
}

fn c28_parser(s: &mut Src, c: &mut Case) -> Res {
    let h = gen_round(s, true);
    let k = 6_000 / h.steps.len() * 2;
    c.note(|| format!("{} times:\n{}", k, describe(&h)));
    c.nontrivial = h.steps.len() > 3;
    mem_start();
    let mut p = sut_hold(EventParser::new);
    let n = h.steps.len();
    half(k * n, "a parser", |i| {
        let st = &h.steps[i % n];
        let r = EventHeader::parse(&st.bytes).and_then(|x| p.parse_event(&x, &st.bytes[19..]));
        r.is_err() == st.bad
    })?;
    let peak = mem_now().1;
    ensure!(peak <= allowance(&h) as i64, "a parser of small events used {} bytes", peak);
    Ok(())
}

fn c28_reader(s: &mut Src, c: &mut Case) -> Res {
    let h = gen_round(s, true);
    let n = h.steps.len();
    let one = file_of(&h);
    let body = &one[4..];
    let k = (6_000 / n).max(2 * allowance(&h) / body.len() + 1) * 2;
    if k * body.len() > 64 << 20 {
        return Ok(());
    }
    let mut v = one[..4].to_vec();
    for _ in 0..k {
        v.extend_from_slice(body);
    }
    c.note(|| format!("a file of {} times:\n{}", k, describe(&h)));
    c.nontrivial = n > 3;
    let f = memfile(&v);
    mem_start();
    let mut r = match sut_hold(|| BinlogReader::new(f)) {
        Ok(r) => r.read_events(),
        Err(e) => fail!("BinlogReader::new: {:?}", e),
    };
    half(k * n, "a reader", |i| match r.next() {
        Some(x) => x.is_err() == h.steps[i % n].bad,
        None => false,
    })?;
    let peak = mem_now().1;
    ensure!(peak <= allowance(&h) as i64, "the reader of a file of {} bytes and small events used {} bytes", v.len(), peak);
    Ok(())
}

fn c28_stream(s: &mut Src, c: &mut Case) -> Res {
    let h = gen_round(s, true);
    let n = h.steps.len();
    let k = 3_000 / n * 2;
    let crc = matches!(h.steps[0].ev, Ev::Fde { alg: Some(1), .. });
    c.note(|| format!("{} times:\n{}", k, describe(&h)));
    c.nontrivial = n > 3;
    let one: Vec<Vec<u8>> = h.steps.iter().map(|x| pkt(&x.bytes)).collect();
    let source: net::Source = Box::new(move |_, _| {
        let mut out = Vec::with_capacity(k * one.len());
        for _ in 0..k {
            out.extend(one.iter().map(|x| Out::Packet(x.clone())));
        }
        Ok(Stream { out, end: End::Packet(vec![0xfe, 0, 0, 2, 0]), cut: None })
    });
    let mut p = Plan::new(s.chance(1, 3), source);
    p.checksum = Some(if crc { "CRC32".into() } else { "NONE".into() });
    let mut cl = client(s);
    mem_start();
    let (r, log) = serve(&p, |port| -> Res {
        cl.options.port = port;
        let mut evs = sut_hold(|| cl.replicate()).map_err(|e| Fail::new(format!("replicate(): {:?}", e)))?;
        half(k * n, "a stream", |i| match evs.next() {
            Some(x) => x.is_err() == h.steps[i % n].bad,
            None => false,
        })?;
        let peak = mem_now().1;
        ensure!(peak <= allowance(&h) as i64, "a stream of {} small events used {} bytes", k * n, peak);
        Ok(())
    });
    r?;
    check_log(&log)
}

/// A client that commits every event.
fn c28_commits(s: &mut Src, c: &mut Case) -> Res {
    let mode = s.below(3);
    let n_src = 1 + s.below(3);
    let mut evs: Vec<Ev> = vec![];
    let mut gtids = vec![];
    let mut sources: Vec<([u8; 16], u32, u64)> = vec![];
    while sources.len() < n_src {
        let sid = gen_sid(s);
        let d = s.edge(u32::MAX as u64) as u32;
        if sources.iter().all(|x| x.0 != sid && x.1 != d) {
            sources.push((sid, d, 1 + s.edge(1 << 50)));
        }
    }
    let t = super::events::small_table(s, 5, 4);
    let mut k = 0;
    while evs.is_empty() || (evs.len() < 24 && s.more(16)) {
        match s.weighted(&[4, 2, 1, 1]) {
            x @ 0..=1 => {
                let src = if k < n_src { k } else { s.below(n_src) };
                k += 1;
                if mode > 0 {
                    gtids.push((evs.len(), src));
                    evs.push(Ev::Xid(0));
                }
                if x == 0 {
                    if mode == 1 {
                        evs.push(Ev::query("BEGIN"));
                    }
                    evs.push(Ev::Table(t.clone()));
                    evs.push(Ev::Rows(Arc::new(Rows::gen(s, &t, super::events::ROWS))));
                    evs.push(Ev::Xid(7));
                } else {
                    evs.push(Ev::query("CREATE TABLE x (a INT)"));
                }
            }
            2 => evs.push(Ev::Rotate { pos: 4, name: gen_file(s) }),
            _ => evs.push(Ev::Heartbeat(gen_file(s))),
        }
    }
    let n = evs.len();
    let rounds = 12_000 / n * 2;
    c.note(|| format!("{} times, with rising GTIDs:\n{}", rounds, evs.iter().map(|e| format!("{}\n", clip(&e.describe(), 100))).collect::<String>()));
    c.label(["file position", "MySQL", "MariaDB"][mode]);
    c.nontrivial = n > 3;
    // each event once; those of GTIDs are made anew
    let mut p = EventParser::new();
    let fixed: Vec<_> = evs
        .iter()
        .map(|e| {
            let h = Hdr { ts: 1, server_id: 1, log_pos: 1000, flags: 0 };
            sut(|| feed(&mut p, &e.wire(&h, false)))
        })
        .collect::<Result<_, _>>()
        .map_err(|e| Fail::new(format!("{:?}", e)))?;
    let b = match mode {
        0 => BinlogOptions::from_position("binlog.000001".into(), 4),
        1 => BinlogOptions::from_mysql_gtid(GtidSet::new()),
        _ => BinlogOptions::from_mariadb_gtid(GtidList::new()),
    };
    let mut cl = BinlogClient::new(options(b, 1));
    let mut next: Vec<u64> = sources.iter().map(|x| x.2).collect();
    mem_start();
    half(rounds * n, "a client that commits", |i| {
        let at = i % n;
        match gtids.iter().find(|x| x.0 == at) {
            Some((_, src)) => {
                let (sid, domain, _) = sources[*src];
                let x = next[*src];
                next[*src] += 1;
                let e = if mode == 1 {
                    Ev::MyGtid { flags: 0, sid, gno: x, tail: vec![] }
                } else {
                    Ev::MaGtid { seq: x, domain, flags: matches!(evs[at + 1], Ev::Query { .. }) as u8, tail: vec![0; 6] }
                };
                let w = e.wire(&Hdr::default(), false);
                let r = EventHeader::parse(&w).and_then(|h| p.parse_event(&h, &w[19..]).map(|e| (h, e)));
                match r {
                    Ok((h, e)) => cl.commit(&h, &e),
                    Err(_) => return false,
                }
            }
            None => cl.commit(&fixed[at].0, &fixed[at].1),
        }
        true
    })
}

/// A client that connects again and again.
fn c28_starts(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.chance(1, 3);
    let gtid = s.flip();
    let n = s.draw(4) as usize;
    let source: net::Source = Box::new(move |_, _| {
        let mut out = vec![];
        for i in 0..n {
            let ev = if i == 0 { Ev::Rotate { pos: 4, name: "binlog.000001".into() } } else { Ev::query("COMMIT") };
            out.push(Out::Packet(pkt(&ev.wire(&Hdr::default(), true))));
        }
        Ok(Stream { out, end: End::Eof, cut: None })
    });
    let mut p = Plan::new(maria, source);
    if s.chance(1, 3) {
        let k = s.draw(if maria { 8 } else { 5 }) as usize;
        p.fault = Some((k, if s.flip() { Fault::Err(ErrPkt::new(1045, "Access denied")) } else { Fault::Close }));
    }
    p.lenient = true;
    let b = match (gtid, maria) {
        (false, _) if s.flip() => BinlogOptions::from_end(),
        (false, _) => BinlogOptions::from_position("binlog.000001".into(), 4),
        (_, true) => BinlogOptions::from_mariadb_gtid(GtidList::parse("0-1-5").map_err(|e| Fail::new(format!("{:?}", e)))?),
        _ => BinlogOptions::from_mysql_gtid(GtidSet::new()),
    };
    let mut cl = BinlogClient::new(options(b, 0));
    let starts = 60;
    c.note(|| format!("{} times: MariaDB {}, GTID {}, {} events, fault {:?}", starts, maria, gtid, n, p.fault));
    c.label(if p.fault.is_some() { "refused" } else { "streams" });
    c.nontrivial = true;
    mem_start();
    let mut mid = 0;
    for i in 0..starts {
        let (r, log) = serve(&p, |port| {
            cl.options.port = port;
            sut_hold(|| match cl.replicate() {
                Ok(evs) => evs.take(n).filter(|x| x.is_ok()).count() == n,
                Err(_) => false,
            })
        });
        ensure!(log.accepted && r == p.fault.is_none(), "start {} of {}", i, starts);
        if i + 1 == starts / 2 {
            mid = mem_now().0;
        }
    }
    let end = mem_now().0;
    ensure!(end - mid < 200, "{} bytes are held after {} starts, {} after {}", mid, starts / 2, end, starts);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            level: "exploration",
            rule: "a case is non-trivial if there are more than three events and the server waits for the client at least three times",
            assumptions: &["An event counts as withheld if it has not been delivered 20 s after its last byte was sent."],
            parts: vec![part("streams", 100_000, 2_500_000, c27)],
        },
        Prop {
            id: "C28",
            level: "exploration",
            rule: "a case is non-trivial if the repeated history has more than three events (part starts: every case)",
            assumptions: &[
                "Growth of up to 4 KiB over the second half of a run is not counted; the runs have 6,000 to 24,000 events.",
                "Only memory allocated by the calling thread through the Rust allocator is counted, not that of OpenSSL.",
            ],
            parts: vec![
                part("parser", 3_000, 80_000, c28_parser),
                part("reader", 800, 20_000, c28_reader),
                part("stream", 1_000, 25_000, c28_stream),
                part("commits", 3_000, 80_000, c28_commits),
                part("starts", 1_000, 25_000, c28_starts),
            ],
        },
    ]
}

