//! C14, C15, C23: positions of the client over histories of transactions, with reconnects.
use super::gtid::check_set;
use super::part;
use crate::enc::*;
use crate::engine::*;
use crate::hist::*;
use crate::net::{self, check_log, serve, End, Plan, Stream};
use crate::{ensure, fail, same};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use std::sync::Arc;

const ALGS: &[Option<u8>] = &[Some(1), Some(0)];
const PLAIN: &[Option<u8>] = &[Some(0)];

pub fn options(binlog: BinlogOptions, port: u16) -> ReplicaOptions {
    ReplicaOptions {
        port,
        hostname: "127.0.0.1".into(),
        username: "repl".into(),
        password: "secret".into(),
        binlog,
        ..Default::default()
    }
}

/// Options that start from a GTID position
fn from_gtid(p: &Pos) -> Result<BinlogOptions, Fail> {
    let t = p.text();
    Ok(match p {
        Pos::My(_) => BinlogOptions::from_mysql_gtid(
            sut(|| GtidSet::parse(&t)).map_err(|e| Fail::new(format!("GtidSet::parse({:?}): {:?}", t, e)))?,
        ),
        Pos::Ma(_) => BinlogOptions::from_mariadb_gtid(
            sut(|| GtidList::parse(&t)).map_err(|e| Fail::new(format!("GtidList::parse({:?}): {:?}", t, e)))?,
        ),
    })
}

/// The client's GTID position must be the model's.
fn check_pos(c: &BinlogClient, want: Option<&Pos>, what: &str) -> Res {
    let b = &c.options.binlog;
    match want {
        None => {
            ensure!(b.gtid_set.is_none() && b.gtid_list.is_none(), "{}: a GTID position appears in another mode: {:?}", what, b);
        }
        Some(Pos::My(m)) => {
            ensure!(b.gtid_list.is_none(), "{}: a MariaDB position appears on MySQL: {:?}", what, b);
            match &b.gtid_set {
                Some(g) => check_set(g, m, what)?,
                None => fail!("{}: the GTID set is gone", what),
            }
        }
        Some(Pos::Ma(v)) => {
            ensure!(b.gtid_set.is_none(), "{}: a MySQL position appears on MariaDB: {:?}", what, b);
            match &b.gtid_list {
                Some(g) => {
                    // one entry for each domain, in any order
                    let mut got: Vec<_> = g.gtids.iter().map(|x| (x.domain_id, x.server_id, x.sequence)).collect();
                    let mut want = v.clone();
                    got.sort();
                    want.sort();
                    same!(got, want, "{}", what);
                }
                None => fail!("{}: the GTID list is gone", what),
            }
        }
    }
    Ok(())
}

fn label_world(c: &mut Case, w: &World) {
    for t in w.txs.iter() {
        if !c.labels.contains(&t.shape) {
            c.label(t.shape);
        }
    }
    c.label(match w.kind {
        Kind::MyGtid => "MySQL with GTIDs",
        Kind::MyAnon => "MySQL without GTIDs",
        Kind::Maria => "MariaDB",
    });
    c.label_if(w.files.len() > 1, "several files");
    c.label_if(w.files.iter().any(|f| f.torn), "torn group");
}

fn decode(p: &mut EventParser, st: &Sent) -> Result<(EventHeader, BinlogEvent), Fail> {
    feed(p, &st.bytes).map_err(|e| Fail::new(format!("{} is not decoded: {:?}", st.ev.describe(), e)))
}

fn gen_kind(s: &mut Src, anon: bool) -> Kind {
    let k = [Kind::MyGtid, Kind::Maria, Kind::MyAnon];
    k[s.below(if anon { 3 } else { 2 })]
}

// ----------------------------------------------------------------------------------------- C14

/// Commits of a stream one by one, the GTID position compared after each.
fn c14(s: &mut Src, c: &mut Case) -> Res {
    c14_commits(s, c, 12)
}
fn c14_long(s: &mut Src, c: &mut Case) -> Res {
    c14_commits(s, c, 1_200)
}
fn c14_commits(s: &mut Src, c: &mut Case, max: usize) -> Res {
    let kind = gen_kind(s, false);
    let (base, mut txs) = gen_txs(s, kind, max);
    if kind == Kind::Maria && s.chance(1, 8) {
        // without strict mode the sequence numbers of a domain may go down
        c.label("sequence numbers that go down");
        for i in 0..txs.len().saturating_sub(1) {
            if s.flip() {
                txs.swap(i, i + 1);
            }
        }
    }
    let txs = Arc::new(txs);
    let w = layout(s, kind, &base, &txs, Layout { torn: true, ..Layout::new(PLAIN) });
    c.note(|| w.describe());
    label_world(c, &w);
    let mode = s.weighted(&[8, 1, 1, 1]);
    let binlog = match mode {
        0 => from_gtid(&base)?,
        1 => BinlogOptions::from_position(w.files[0].name.clone(), 4),
        2 => BinlogOptions::from_start(),
        _ => BinlogOptions::from_end(),
    };
    c.label_if(mode != 0, "other modes");
    let noise = s.draw(u64::MAX);
    let evs = stream(&w, if mode == 0 { From::Gtid(&base, None) } else { From::File("", 4) }, false, noise).map_err(Fail::harness)?;
    let mut cl = BinlogClient::new(options(binlog, 1));
    let mut model = base.clone();
    let mut parser = EventParser::new();
    let mut completed = 0;
    for (i, st) in evs.iter().enumerate() {
        let (h, e) = decode(&mut parser, st)?;
        sut(|| cl.commit(&h, &e));
        if let Some(at) = st.at {
            if let Some(tx) = w.item(at).tx {
                if w.complete(tx) {
                    model.add(&w.txs[tx.0].g);
                    completed += 1;
                }
            }
        }
        let what = || {
            let tx = st.at.and_then(|at| w.item(at).tx);
            format!("after commit {} ({}, transaction {:?})", i, clip(&st.ev.describe(), 100), tx.map(|t| (w.txs[t.0].g.text(), w.txs[t.0].shape)))
        };
        let want = if mode == 0 { Some(&model) } else { None };
        // the text is only made for a failure
        if check_pos(&cl, want, "position").is_err() {
            check_pos(&cl, want, &what())?;
        }
    }
    ensure!(completed == txs.len(), "harness: {} of {} transactions sent", completed, txs.len());
    c.nontrivial = txs.len() >= 2 && mode == 0;
    Ok(())
}

// ----------------------------------------------------------------------------------------- C15

/// Where a stream restarted from the client's file position begins, judged against the events
/// committed so far.
fn check_resume(w: &World, cl: &BinlogClient, last: Option<(usize, usize)>, floor: usize, what: &str) -> Res {
    let b = &cl.options.binlog;
    let j = match w.boundary(&b.filename, b.position) {
        Ok(j) => j,
        Err(e) => fail!("{}: {}", what, e),
    };
    // the first event that is not committed
    let next = last.map(|at| w.index(at) + 1).unwrap_or(floor);
    ensure!(
        j <= next,
        "{}: a stream restarted at {}:{} begins with event {}, so event {} is lost",
        what,
        b.filename,
        b.position,
        j,
        next
    );
    let open = last.map(|at| w.item(at).open).unwrap_or(false);
    if !open {
        ensure!(
            j == next,
            "{}: the position {}:{} is that of event {} and not the end of the last committed event, {}",
            what,
            b.filename,
            b.position,
            j,
            next
        );
    } else {
        // every row event from there on comes after its table map
        let all = w.all();
        let mut seen: Vec<u64> = vec![];
        for (_, it) in &all[j..] {
            match &it.ev {
                Ev::Table(t) => seen.push(t.id),
                Ev::Rows(r) => {
                    ensure!(
                        seen.contains(&r.table.id),
                        "{}: a stream restarted at {}:{} has rows of table {} without its table map",
                        what,
                        b.filename,
                        b.position,
                        r.table.id
                    );
                    if r.flags & 1 != 0 {
                        break;
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

struct Start {
    binlog: BinlogOptions,
    /// index of the first event of the first stream
    first: usize,
    file: String,
    pos: u32,
}

/// A start in position, start or end mode at a place where no statement is open.
fn gen_start(s: &mut Src, c: &mut Case, w: &World, net: bool) -> Result<Start, Fail> {
    if !net && w.kind != Kind::MyAnon && s.chance(1, 6) {
        // the file position is kept in GTID mode, too
        c.label("GTID mode");
        return Ok(Start { binlog: from_gtid(&w.base)?, first: 0, file: w.files[0].name.clone(), pos: 4 });
    }
    let mut places = vec![];
    for (fi, f) in w.files.iter().enumerate() {
        places.push((fi, 4u32));
        for it in &f.items {
            if !it.open && !matches!(it.ev, Ev::Rotate { .. }) {
                places.push((fi, it.end));
            }
        }
    }
    let mode = s.weighted(&[2, 3, 2]);
    let (fi, pos) = match mode {
        0 => (0, 4),
        // early enough to leave something to read
        _ => places[s.below(1 + places.len() / 2)],
    };
    let file = w.files[fi].name.clone();
    let binlog = match mode {
        0 => {
            c.label("start mode");
            BinlogOptions::from_start()
        }
        1 => {
            c.label("position mode");
            BinlogOptions::from_position(file.clone(), pos)
        }
        _ => {
            c.label("end mode");
            let mut b = BinlogOptions::from_end();
            if !net {
                // as the client leaves it after reading the position
                b.filename = file.clone();
                b.position = pos;
            }
            b
        }
    };
    let first = if pos == 4 { w.index((fi, 0)) } else { w.boundary(&file, pos).unwrap_or(0) };
    Ok(Start { binlog, first, file, pos })
}

fn c15(s: &mut Src, c: &mut Case) -> Res {
    let kind = gen_kind(s, true);
    let (base, txs) = gen_txs(s, kind, 10);
    let txs = Arc::new(txs);
    let w = layout(s, kind, &base, &txs, Layout { big_base: true, torn: true, ..Layout::new(ALGS) });
    c.note(|| w.describe());
    label_world(c, &w);
    let start = gen_start(s, c, &w, false)?;
    let floor = start.first;
    let mut cl = BinlogClient::new(options(start.binlog, 1));
    let mut last: Option<(usize, usize)> = None;
    let mut sessions = 0;
    // an application that commits rotations, and other events now and then
    let sparse = s.chance(1, 4);
    loop {
        // what a server sends for the position held
        let b = &cl.options.binlog;
        let crc = s.flip();
        let noise = s.draw(u64::MAX);
        c.note(|| format!("stream from {}:{}", b.filename, b.position));
        let evs = stream(&w, From::File(&b.filename, b.position), crc, noise).map_err(|e| Fail::new(format!("restart: {}", e)))?;
        // nothing that is not committed may be missing, and it can be decoded
        let k = s.draw(evs.len() as u64) as usize;
        let upto = if sessions >= 3 || !s.chance(1, 2) { evs.len() } else { k };
        let mut parser = super::cells::parser(crc)?;
        for (i, st) in evs.iter().enumerate().take(upto) {
            let (h, e) = decode(&mut parser, st)?;
            // a heartbeat says that everything before it has been taken
            if sparse && !matches!(st.ev, Ev::Rotate { .. }) && (matches!(st.ev, Ev::Heartbeat(_)) || !s.chance(1, 4)) {
                continue;
            }
            let before = (cl.options.binlog.filename.clone(), cl.options.binlog.position);
            sut(|| cl.commit(&h, &e));
            let what = || format!("session {} after commit {} ({} {:?})", sessions, i, clip(&st.ev.describe(), 120), st.at);
            match st.at {
                None => {
                    let now = (cl.options.binlog.filename.clone(), cl.options.binlog.position);
                    match &st.ev {
                        Ev::Rotate { pos, name } => same!(now, (name.clone(), *pos as u32), "{}: rotation", what()),
                        Ev::Heartbeat(_) => same!(now, before, "{}: heartbeat between statements", what()),
                        _ => same!(now, before, "{}: artificial event", what()),
                    }
                }
                Some(at) => {
                    // re-delivered events lower what is committed; that is the client's own choice
                    last = Some(at);
                    if let Err(_) = check_resume(&w, &cl, last, floor, "") {
                        check_resume(&w, &cl, last, floor, &what())?;
                    }
                }
            }
        }
        sessions += 1;
        if upto == evs.len() {
            break;
        }
    }
    ensure!(last.is_some() || sparse || floor == w.all().len(), "harness: nothing was sent");
    c.label_if(sparse, "some of the events are committed");
    c.label_if(sessions > 1, "reconnects");
    c.nontrivial = sessions > 1 || w.files.len() > 1;
    Ok(())
}


// ------------------------------------------------------------------------- over the network

#[derive(Clone, Copy, PartialEq)]
enum Judge {
    /// GTID position after each commit
    Commit,
    /// file position after each commit
    Resume,
    /// what is delivered in the end
    Deliver,
}

struct Track {
    /// the GTID position that the commits so far amount to
    model: Pos,
    /// transactions delivered in full by one connection
    complete: Vec<bool>,
    /// transactions all of whose events were committed
    committed: Vec<bool>,
    last: Option<(usize, usize)>,
}

fn parse_maria(t: &str) -> Result<Pos, String> {
    let mut v = vec![];
    for p in t.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()) {
        let n: Vec<u64> = p.split('-').map(|x| x.parse::<u64>()).collect::<Result<_, _>>().map_err(|e| format!("{:?}: {}", p, e))?;
        if n.len() != 3 || n[0] > u32::MAX as u64 || n[1] > u32::MAX as u64 {
            return Err(format!("malformed GTID {:?} in @slave_connect_state", p));
        }
        v.push((n[0] as u32, n[1] as u32, n[2]));
    }
    Ok(Pos::Ma(v))
}

/// The answer of a server that holds the history.
fn dump_of(w: &World, d: &net::Dump, vars: &net::Vars, noise: u64) -> Result<Vec<Sent>, String> {
    let crc = vars.get("master_binlog_checksum").cloned().flatten().as_deref() == Some("CRC32");
    if let Some(set) = &d.gtid {
        if w.kind == Kind::Maria {
            return Err("COM_BINLOG_DUMP_GTID sent to MariaDB".into());
        }
        let pos = Pos::My(super::gtid::Model::of(set));
        let at = if d.file.is_empty() { None } else { Some((d.file.as_str(), d.pos as u32)) };
        return stream(w, From::Gtid(&pos, at), crc, noise);
    }
    if w.kind == Kind::Maria {
        if let Some(Some(t)) = vars.get("slave_connect_state") {
            let pos = parse_maria(t)?;
            return stream(w, From::Gtid(&pos, None), crc, noise);
        }
    }
    stream(w, From::File(&d.file, d.pos as u32), crc, noise)
}

fn plan_for<'a>(s: &mut Src, w: &World, source: net::Source<'a>) -> Plan<'a> {
    let mut p = Plan::new(w.kind == Kind::Maria, source);
    p.checksum = Some(if s.flip() { "CRC32".into() } else { "NONE".into() });
    p
}

/// One connection: reads some events, commits some of them, and is gone.
/// Returns whether the history was read to its end.
#[allow(clippy::too_many_arguments)]
fn connection(
    s: &mut Src,
    c: &mut Case,
    w: &World,
    cl: &mut BinlogClient,
    t: &mut Track,
    judge: Judge,
    full: bool,
    master: Option<(String, u32)>,
    floor: usize,
) -> Result<bool, Fail> {
    let noise = s.draw(u64::MAX);
    // how the connection ends
    let how = if full { 0 } else { s.weighted(&[2, 2, 2, 1]) };
    // a part in 2^16 of the whole
    let part = s.draw(0xffff);
    let lag = if s.chance(1, 3) { s.draw(3) as usize } else { 0 };
    let blocking = s.flip();
    let sent: std::sync::Mutex<Option<Vec<Sent>>> = std::sync::Mutex::new(None);
    let (sentr, wr) = (&sent, w);
    let source: net::Source = Box::new(move |d, vars| {
        let v = dump_of(wr, d, vars, noise)?;
        let out = net::packets(&v);
        let total: usize = v.iter().map(|x| x.bytes.len() + 5).sum();
        *sentr.lock().unwrap() = Some(v);
        Ok(Stream {
            out,
            end: if blocking { End::Close } else { End::Eof },
            cut: if how == 1 { Some((total as u64 * part >> 16) as usize) } else { None },
        })
    });
    let mut plan = plan_for(s, w, source);
    if let Some((f, p)) = &master {
        plan.master = Some(vec![f.clone(), p.to_string(), String::new(), String::new()]);
    }
    if s.chance(1, 4) {
        plan.split = s.draw(u64::MAX);
    }
    if how == 3 {
        // fails before the stream starts
        plan.fault = Some((s.draw(9) as usize, if s.flip() { net::Fault::Close } else { net::Fault::Err(net::ErrPkt::new(1105, "failed")) }));
    }
    cl.options.blocking = blocking;
    let before = t.committed.clone();
    c.note(|| {
        format!(
            "connection to {} at {}:{} set {:?} list {:?}, ends by {}",
            w.files[0].name,
            cl.options.binlog.filename,
            cl.options.binlog.position,
            cl.options.binlog.gtid_set.as_ref().map(|x| x.to_string()),
            cl.options.binlog.gtid_list.as_ref().map(|x| x.to_string()),
            ["the end of the history", "a cut", "the client", "a failed setup"][how]
        )
    });
    let fault_before_stream = how == 3;
    let (r, log) = serve(&plan, |port| -> Result<bool, Fail> {
        cl.options.port = port;
        let mut evs = match sut(|| cl.replicate()) {
            Ok(e) => e,
            Err(e) => {
                ensure!(fault_before_stream, "replicate() fails: {:?}", e);
                return Ok(false);
            }
        };
        let mut stop = usize::MAX;
        let mut i = 0;
        let mut progress: Option<(usize, usize)> = None;
        let mut queue: std::collections::VecDeque<(usize, EventHeader, BinlogEvent)> = Default::default();
        let commit = |cl: &mut BinlogClient, t: &mut Track, sent: &[Sent], (i, h, e): (usize, EventHeader, BinlogEvent)| -> Res {
            sut(|| cl.commit(&h, &e));
            let st = &sent[i];
            if let Some(at) = st.at {
                t.last = Some(at);
                if let Some(tx) = w.item(at).tx {
                    if w.complete(tx) {
                        t.model.add(&w.txs[tx.0].g);
                        t.committed[tx.0] = true;
                    }
                }
            }
            match judge {
                Judge::Commit => check_pos(cl, Some(&t.model), &format!("after the commit of event {} {} {:?}", i, clip(&st.ev.describe(), 100), st.at)),
                Judge::Resume if st.at.is_some() => {
                    check_resume(w, cl, t.last, floor, &format!("after the commit of event {} {} {:?}", i, clip(&st.ev.describe(), 100), st.at))
                }
                _ => Ok(()),
            }
        };
        loop {
            let item = sut(|| evs.next());
            let guard = sentr.lock().unwrap();
            let none = vec![];
            let sent = guard.as_ref().unwrap_or(&none);
            if i == 0 && how == 2 {
                stop = (sent.len() as u64 * part >> 16) as usize;
            }
            let (h, e) = match item {
                None => {
                    ensure!(i == sent.len(), "the stream ends after {} of {} events", i, sent.len());
                    break;
                }
                Some(Err(e)) => {
                    let over = i == sent.len() && blocking;
                    ensure!(over || how == 1 || how == 3, "event {} of {}: {:?}", i, sent.len(), e);
                    break;
                }
                Some(Ok(x)) => x,
            };
            ensure!(i < sent.len(), "more events than the {} sent", sent.len());
            let st = &sent[i];
            st.ev.cmp(&st.h, &e).map_err(|f| Fail::new(format!("event {}: {}", i, f.msg)))?;
            if let Some(tx) = st.at.and_then(|at| w.item(at).tx) {
                if judge == Judge::Deliver {
                    ensure!(
                        !before[tx.0],
                        "transaction {} is delivered again although it was completely committed",
                        w.txs[tx.0].g.text()
                    );
                }
                // from its first event on, without gaps
                progress = match (progress, tx.1) {
                    (_, 0) => Some(tx),
                    (Some((t, k)), n) if t == tx.0 && n == k + 1 => Some(tx),
                    _ => None,
                };
                if w.complete(tx) && progress == Some(tx) {
                    t.complete[tx.0] = true;
                }
            }
            queue.push_back((i, h, e));
            while queue.len() > lag {
                let x = queue.pop_front().unwrap();
                commit(cl, t, sent, x)?;
            }
            i += 1;
            if i >= stop {
                break;
            }
        }
        // a consumer that keeps up commits the rest, one that is interrupted does not
        let guard = sentr.lock().unwrap();
        if full || how == 0 {
            if let Some(sent) = guard.as_ref() {
                while let Some(x) = queue.pop_front() {
                    commit(cl, t, sent, x)?;
                }
            }
        }
        Ok(how == 0)
    });
    check_log(&log)?;
    r
}

fn c14_net(s: &mut Src, c: &mut Case) -> Res {
    gtid_sessions(s, c, Judge::Commit)
}
fn c23(s: &mut Src, c: &mut Case) -> Res {
    gtid_sessions(s, c, Judge::Deliver)
}

fn gtid_sessions(s: &mut Src, c: &mut Case, judge: Judge) -> Res {
    let kind = gen_kind(s, false);
    let (base, txs) = gen_txs(s, kind, 9);
    let txs = Arc::new(txs);
    let torn = s.flip();
    let mut worlds = vec![layout(s, kind, &base, &txs, Layout { torn, ..Layout::new(ALGS) })];
    if s.chance(1, 2) {
        let shuffle = s.flip();
        let torn = s.flip();
        worlds.push(layout(s, kind, &base, &txs, Layout { shuffle, torn, ..Layout::new(ALGS) }));
        c.label("two servers");
    }
    c.note(|| worlds.iter().map(|w| w.describe()).collect::<Vec<_>>().join("--- another server\n"));
    label_world(c, &worlds[0]);
    let mut cl = BinlogClient::new(options(from_gtid(&base)?, 1));
    let mut t = Track {
        model: base.clone(),
        complete: vec![false; txs.len()],
        committed: vec![false; txs.len()],
        last: None,
    };
    let rounds = s.draw(4);
    let mut partial = 0;
    for _ in 0..rounds {
        let i = s.below(worlds.len());
        if s.chance(1, 8) {
            // a new process with the saved position
            let saved = match &cl.options.binlog {
                b if b.gtid_set.is_some() => BinlogOptions::from_mysql_gtid(
                    sut(|| GtidSet::parse(&b.gtid_set.as_ref().unwrap().to_string())).map_err(|e| Fail::new(format!("saved position: {:?}", e)))?,
                ),
                b => BinlogOptions::from_mariadb_gtid(
                    sut(|| GtidList::parse(&b.gtid_list.as_ref().unwrap().to_string())).map_err(|e| Fail::new(format!("saved position: {:?}", e)))?,
                ),
            };
            cl = BinlogClient::new(options(saved, 1));
            c.label("new process");
        }
        let done = t.committed.iter().filter(|x| **x).count();
        connection(s, c, &worlds[i], &mut cl, &mut t, judge, false, None, 0)?;
        let now = t.committed.iter().filter(|x| **x).count();
        if now > done && now < txs.len() {
            partial += 1;
        }
    }
    let i = s.below(worlds.len());
    connection(s, c, &worlds[i], &mut cl, &mut t, judge, true, None, 0)?;
    if judge == Judge::Deliver {
        for (k, x) in t.complete.iter().enumerate() {
            ensure!(*x, "transaction {} ({}) was never delivered in full", txs[k].g.text(), txs[k].shape);
        }
        let mut whole = base.clone();
        for x in txs.iter() {
            whole.add(&x.g);
        }
        check_pos(&cl, Some(&whole), "position at the end of the history")?;
    }
    c.label_if(partial > 0, "disconnected between transactions of the history");
    c.label_if(t.complete.len() > 4, "more than four transactions");
    c.nontrivial = partial > 0;
    Ok(())
}

fn c15_net(s: &mut Src, c: &mut Case) -> Res {
    let kind = gen_kind(s, true);
    let (base, txs) = gen_txs(s, kind, 8);
    let txs = Arc::new(txs);
    let w = layout(s, kind, &base, &txs, Layout { big_base: true, torn: true, ..Layout::new(ALGS) });
    c.note(|| w.describe());
    label_world(c, &w);
    let start = gen_start(s, c, &w, true)?;
    let floor = start.first;
    let mut cl = BinlogClient::new(options(start.binlog, 1));
    let mut t = Track { model: base, complete: vec![false; txs.len()], committed: vec![false; txs.len()], last: None };
    let rounds = s.draw(3);
    for _ in 0..rounds {
        connection(s, c, &w, &mut cl, &mut t, Judge::Resume, false, Some((start.file.clone(), start.pos)), floor)?;
    }
    connection(s, c, &w, &mut cl, &mut t, Judge::Resume, true, Some((start.file.clone(), start.pos)), floor)?;
    if let Some((at, _)) = w.all().last() {
        if floor < w.all().len() {
            same!(t.last, Some(*at), "last event committed when the history has ended");
        }
    }
    c.nontrivial = rounds > 0;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            level: "exploration",
            rule: "GTID mode with at least two transactions; over the network, a disconnection between transactions",
            assumptions: &[
                "events are committed in the order of the stream",
                "MySQL's compressed transactions and MariaDB's compressed events are not decoded by the library but take part in the histories",
            ],
            parts: vec![part("commits", 150_000, 5_000_000, c14), part("long", 150, 5_000, c14_long), part("reconnects", 20_000, 600_000, c14_net)],
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "at least one reconnect, or several files",
            assumptions: &["events are committed in the order of the stream", "heartbeats come between statements only, as servers send them"],
            parts: vec![part("commits", 300_000, 6_000_000, c15), part("reconnects", 20_000, 600_000, c15_net)],
        },
        Prop {
            id: "C23",
            level: "exploration",
            rule: "a disconnection after some but not all transactions were committed",
            assumptions: &["the servers hold the same transactions in the same order in each source or domain"],
            parts: vec![part("reconnects", 40_000, 1_200_000, c23)],
        },
    ]
}
