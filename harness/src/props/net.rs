//! C09 (stream), C16 to C21: conversations of the real client with the model server.
use super::events::{c09_parts, check_items, describe, history, label_ev, mutate, Item, Step};
use super::gtid::Model;
use super::part;
use super::repl::options;
use crate::enc::*;
use crate::engine::*;
use crate::net::{self, check_log, serve, Auth, Dump, End, ErrPkt, Fault, Last, Log, Out, Plan, Req, Stream, NATIVE, SHA2};
use crate::{ensure, fail, same};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_events::BinlogEvents;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use mysql_cdc::ssl_mode::SslMode;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn empty_stream(_: &Dump, _: &net::Vars) -> Result<Stream, String> {
    Ok(Stream { out: vec![], end: End::Eof, cut: None })
}
fn empty_source<'a>() -> net::Source<'a> {
    Box::new(empty_stream)
}

const MYSQL_VERSIONS: &[&str] =
    &["8.0.32", "5.7.41-log", "5.6.51", "8.4.0", "9.1.0-commercial", "8.0.32-24", "5.7.41-44-log", "8.0.31-google", "10.0.1"];
const MARIA_VERSIONS: &[&str] = &[
    "5.5.5-10.6.12-MariaDB-log",
    "5.5.5-10.2.44-MariaDB",
    "11.4.2-MariaDB-ubu2404",
    "5.5.5-10.11.6-MariaDB-1:10.11.6+maria~ubu2204-log",
    "10.0.38-MariaDB",
];

fn scramble(s: &mut Src) -> Vec<u8> {
    // servers use 7-bit characters other than NUL
    let seed = s.draw(u64::MAX);
    let mut r = Rng::new(seed);
    (0..20).map(|i| if seed == 0 { b'a' + i } else { 1 + r.below(127) as u8 }).collect()
}

fn err_pkt(s: &mut Src) -> ErrPkt {
    let code = *s.pick(&[1045u16, 1, 1040, 1129, 1130, 1193, 1227, 1236, 1290, 2013, 3024, 9999, 65535, 256, 255]);
    let code = if s.chance(1, 4) { s.uint(16) as u16 } else { code };
    let state = if s.chance(3, 4) {
        Some((0..5).map(|_| *s.pick(&['0', '4', '2', 'H', 'Y', 'S', '8', 'Z', '#'])).collect::<String>())
    } else {
        None
    };
    let n = s.len(40, 500);
    let mut msg = s.text(n);
    if state.is_none() && msg.starts_with('#') {
        // that would be a state
        msg.insert(0, '.');
    }
    // messages are cut at some number of bytes
    let cut = if s.chance(1, 10) { s.pick(&[&[0xc3u8][..], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xff]]).to_vec() } else { vec![] };
    ErrPkt { code, state, msg, cut }
}

/// Server software, its flags and greeting
pub fn vary_server(s: &mut Src, p: &mut Plan, maria: bool) {
    p.version = s.pick(if maria { MARIA_VERSIONS } else { MYSQL_VERSIONS }).to_string();
    p.scramble = scramble(s);
    p.conn_id = s.uint(32) as u32;
    p.collation = *s.pick(&[45u8, 8, 33, 46, 255, 224, 63]);
    p.status = if s.flip() { 2 } else { s.uint(16) as u16 };
    if s.chance(1, 3) {
        // flags that say nothing about what the client needs
        let keep = 1u64 << 9 | 1 << 15 | 1 << 19 | 1 << 3 | 1 << 2;
        let noise = s.draw(u64::MAX);
        p.caps = p.caps & keep | p.caps & noise;
    }
    // what the client must not make use of: TLS, compression
    p.caps &= !(1 << 11 | 1 << 5);
    p.caps |= (s.flip() as u64) << 11 | (s.chance(1, 4) as u64) << 5;
    if s.chance(1, 3) {
        p.split = s.draw(u64::MAX);
    }
    p.nul = !s.chance(1, 6);
}

/// User, password, database and how the account is authenticated
pub fn vary_auth(s: &mut Src, p: &mut Plan, o: &mut ReplicaOptions, accept: bool) {
    let n = s.len(12, 100);
    o.username = s.name(n);
    let n = s.len(16, 200);
    o.password = s.name(n);
    o.database = match s.weighted(&[2, 3]) {
        0 => None,
        _ => {
            let n = s.len(10, 80);
            Some(s.name(n))
        }
    };
    p.user = o.username.clone();
    p.password = o.password.clone();
    p.db = o.database.clone();
    let offered = s.pick(&[NATIVE, SHA2]).to_string();
    let switch = if s.chance(2, 5) {
        let to = s.pick(&[NATIVE, SHA2]).to_string();
        Some((to, scramble(s)))
    } else {
        None
    };
    let account = if accept || s.chance(3, 4) {
        o.password.clone()
    } else {
        let pw = o.password.clone();
        match s.below(5) {
            0 => String::new(),
            1 => pw.clone() + "x",
            2 => pw.chars().take(pw.chars().count().saturating_sub(1)).collect(),
            3 => pw.to_uppercase(),
            _ => "another".into(),
        }
    };
    p.auth = Auth {
        offered,
        switch,
        cached: s.flip(),
        account,
        refusal: ErrPkt { code: 1045, state: Some("28000".into()), msg: "Access denied".into(), cut: vec![] },
        last: Last::Normal,
    };
}

// ----------------------------------------------------------------------------------------- C16

const UNSUPPORTED: &[&str] = &[
    "mysql_old_password",
    "sha256_password",
    "client_ed25519",
    "mysql_clear_password",
    "dialog",
    "auth_gssapi_client",
    "caching_sha2_passwor",
    "caching_sha2_password2",
    "mysql_native_password ",
    "MYSQL_NATIVE_PASSWORD",
    "",
];

fn c16(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.chance(1, 3);
    let mut o = options(BinlogOptions::from_position("binlog.000001".into(), 4), 0);
    let mut p = Plan::new(maria, empty_source());
    vary_server(s, &mut p, maria);
    vary_auth(s, &mut p, &mut o, false);
    p.auth.refusal = err_pkt(s);
    let mut unsupported_offer = false;
    let mut unsupported_switch = false;
    match s.weighted(&[10, 1, 1]) {
        1 => {
            p.auth.offered = s.pick(UNSUPPORTED).to_string();
            unsupported_offer = true;
        }
        2 => {
            let name = s.pick(&UNSUPPORTED[..UNSUPPORTED.len() - 1]).to_string();
            p.auth.switch = Some((name, scramble(s)));
            unsupported_switch = true;
        }
        _ => {}
    }
    let odd = s.chance(1, 10);
    if odd {
        // a final reply that is neither OK nor an error
        p.auth.last = Last::Other(match s.below(6) {
            0 => vec![0xfe, 0, 0, 2, 0],
            1 => vec![0xfe],
            2 => vec![2],
            3 => vec![],
            4 => vec![1],
            _ => {
                let n = 1 + s.draw(8) as usize;
                let mut b = s.bytes(n);
                if b[0] == 0 || b[0] == 0xfe {
                    b[0] = 5;
                }
                b
            }
        });
    }
    c.note(|| {
        format!(
            "server {} offers {} ({}), switch {:?}, account password {:?}; client {:?} {:?} {:?}; last reply {:?}",
            p.version,
            p.auth.offered,
            String::from_utf8_lossy(&p.scramble),
            p.auth.switch.as_ref().map(|x| (&x.0, String::from_utf8_lossy(&x.1).to_string())),
            p.auth.account,
            o.username,
            o.password,
            o.database,
            p.auth.last
        )
    });
    let mut cl = BinlogClient::new(o);
    let (r, log) = serve(&p, |port| {
        cl.options.port = port;
        let r = sut(|| cl.replicate());
        r.map(|_| ()).map_err(|e| format!("{:?}", e))
    });
    // the password never in clear
    let pw = p.password.as_bytes();
    let known_text = |t: &str| t.contains(&p.password);
    let raw = &log.raw[..if log.auth_len > 0 { log.auth_len } else { log.raw.len() }];
    // (a shorter one is in a random cipher text now and then)
    if pw.len() >= 8 && !known_text(&p.user) && !p.db.as_deref().map(known_text).unwrap_or(false) && !known_text(&p.auth.offered) {
        ensure!(!raw.windows(pw.len()).any(|w| w == pw), "the password {:?} travels in clear: {}", p.password, hex(raw));
    }
    if unsupported_offer {
        c.label("unsupported plugin");
        c.nontrivial = true;
        ensure!(r.is_err(), "connected with the unsupported plugin {:?}", p.auth.offered);
        ensure!(log.auth_packets.is_empty(), "{} packets sent for the unsupported plugin {:?}", log.auth_packets.len(), p.auth.offered);
        return Ok(());
    }
    check_log(&log)?;
    if unsupported_switch {
        c.label("switch to an unsupported plugin");
        c.nontrivial = true;
        ensure!(r.is_err(), "connected by a switch to an unsupported plugin");
        same!(log.auth_packets.len(), 1, "packets of the client when asked to switch to an unsupported plugin");
        return Ok(());
    }
    ensure!(!log.idle || odd, "the client waits in the connection phase for a packet that never comes: {:?}", r);
    match (log.authed, odd) {
        (None, _) => fail!("authentication was abandoned: {:?}", r),
        (Some(_), true) => ensure!(r.is_err(), "connected although the final reply was {:?}", p.auth.last),
        (Some(true), _) => ensure!(r.is_ok(), "the server accepts the client but: {:?}", r),
        (Some(false), _) => match r {
            Ok(()) => fail!("the server refuses the client but it is connected"),
            Err(e) => {
                ensure!(p.auth.refusal.within(&e), "refusal {:?} reported as {}", p.auth.refusal, e);
                ensure!(log.after.is_empty(), "requests after the refusal: {:?}", log.after);
            }
        },
    }
    let plugin = p.auth.switch.as_ref().map(|x| x.0.as_str()).unwrap_or(&p.auth.offered);
    c.label(match (plugin == SHA2, p.auth.switch.is_some()) {
        (false, false) => "native",
        (false, true) => "native by switch",
        (true, false) => "sha2",
        (true, true) => "sha2 by switch",
    });
    c.label_if(plugin == SHA2 && (!p.auth.cached || log.authed == Some(false)), "full authentication");
    c.label_if(log.authed == Some(false) && !odd, "refused");
    c.label_if(p.password.is_empty(), "empty password");
    c.label_if(odd, "odd final reply");
    c.nontrivial = !p.password.is_empty();
    Ok(())
}

// ----------------------------------------------------------------------------------------- C17

pub struct Setup {
    pub binlog: BinlogOptions,
    /// what the position is
    pub set: Option<Vec<(Sid, Vec<(u64, u64)>)>>,
    pub list: Option<Vec<(u32, u32, u64)>>,
    pub master: Vec<String>,
    /// the client reads the current position of the server
    pub reads: bool,
    /// GTID mode without a position for this server
    pub impossible: bool,
}

pub fn gen_file(s: &mut Src) -> String {
    if s.chance(3, 4) {
        format!("{}.{:06}", s.pick(&["binlog", "mysql-bin", "mariadb-bin"]), s.draw(2_000_000))
    } else {
        let n = 1 + s.len(20, 300);
        s.name(n)
    }
}

/// A position in a file: its beginning, near to it, or anywhere.
fn gen_pos(s: &mut Src) -> u64 {
    match s.weighted(&[3, 2, 2, 3]) {
        0 => 4,
        1 => s.range(5, 2_000),
        2 => 4 + s.edge(u32::MAX as u64 - 4),
        _ => s.range(4, u32::MAX as u64),
    }
}

pub fn gen_setup(s: &mut Src, c: &mut Case, maria: bool) -> Result<Setup, Fail> {
    let mut master = vec![gen_file(s), gen_pos(s).to_string(), String::new(), String::new()];
    // Binlog_Do_DB and Binlog_Ignore_DB
    for x in &mut master[2..] {
        if s.chance(1, 3) {
            let n = s.len(30, 400);
            *x = s.name(n);
        }
    }
    if !maria && s.flip() {
        let n = s.len(100, 700);
        master.push(s.name(n));
    }
    let mut u = Setup { binlog: BinlogOptions::from_start(), set: None, list: None, master, reads: false, impossible: false };
    match s.weighted(&[2, 3, 3, 3, 3]) {
        0 => c.label("from the start"),
        1 => {
            c.label("from a position");
            u.binlog = BinlogOptions::from_position(gen_file(s), gen_pos(s) as u32);
        }
        2 => {
            c.label("from the end");
            u.binlog = BinlogOptions::from_end();
            u.reads = true;
            if s.chance(1, 3) {
                // read before
                u.binlog.filename = gen_file(s);
                u.binlog.position = gen_pos(s) as u32;
                u.reads = false;
            }
        }
        3 => {
            c.label("from MySQL GTIDs");
            let (max_src, max_iv) = if s.chance(1, 10) { (40, 40) } else { (5, 6) };
            let set = gen_gtids(s, max_src, max_iv);
            let t = Model::of(&set).text();
            let g = sut(|| GtidSet::parse(&t)).map_err(|e| Fail::new(format!("GtidSet::parse({:?}): {:?}", t, e)))?;
            u.binlog = BinlogOptions::from_mysql_gtid(g);
            u.set = Some(set);
            u.impossible = maria;
        }
        _ => {
            c.label("from MariaDB GTIDs");
            let n = s.len(3, 12);
            let list: Vec<(u32, u32, u64)> =
                (0..n).map(|i| (i as u32 ^ if s.flip() { 0 } else { 0xffff_ff00 }, s.uint(32) as u32, s.uint(64))).collect();
            let t = super::gtid::list_text(&list);
            let g = sut(|| GtidList::parse(&t)).map_err(|e| Fail::new(format!("GtidList::parse({:?}): {:?}", t, e)))?;
            u.binlog = BinlogOptions::from_mariadb_gtid(g);
            u.list = Some(list);
            u.impossible = !maria;
        }
    }
    if u.set.is_some() != u.list.is_some() && s.chance(1, 6) {
        // prepared for either kind of server
        c.label("GTID positions of both kinds");
        if u.list.is_none() {
            let text = s.pick(&["", "0-1-5", "7-8-9,4294967295-1-18446744073709551615"]);
            u.binlog.gtid_list = Some(sut(|| GtidList::parse(text)).map_err(|e| Fail::new(format!("GtidList::parse({:?}): {:?}", text, e)))?);
            u.impossible = false;
            if maria {
                u.set = None;
                u.list = Some(super::gtid::list_of(text));
            }
        } else {
            let set = gen_gtids(s, 3, 3);
            let t = Model::of(&set).text();
            u.binlog.gtid_set = Some(sut(|| GtidSet::parse(&t)).map_err(|e| Fail::new(format!("GtidSet::parse({:?}): {:?}", t, e)))?);
            u.impossible = false;
            if !maria {
                u.list = None;
                u.set = Some(set);
            }
        }
    }
    if (u.set.is_some() || u.list.is_some()) && s.chance(1, 3) {
        // positions that commits have left behind
        u.binlog.filename = gen_file(s);
        u.binlog.position = gen_pos(s) as u32;
    }
    Ok(u)
}

/// The requests must ask for what the options say.
pub fn check_requests(log: &Log, u: &Setup, o: &ReplicaOptions, before: &(String, u32), maria: bool, checksum: &str) -> Res {
    check_log(log)?;
    ensure!(log.after.is_empty(), "requests after the dump request: {:?}", log.after);
    let Some(d) = &log.dump else { fail!("no dump request") };
    ensure!(matches!(log.reqs.last(), Some(Req::Dump(_))), "the dump request does not come last: {:?}", log.reqs);
    let var = |n: &str| log.vars.get(n).cloned().flatten();
    // heartbeat
    let ns = o.heartbeat_interval.as_nanos();
    match var("master_heartbeat_period").as_deref().map(|x| x.parse::<u128>()) {
        Some(Ok(v)) => {
            let low = if ns % 1_000_000 == 0 { ns } else { ns / 1_000_000 * 1_000_000 };
            ensure!(v >= low && v <= ns, "heartbeat period {} instead of {}", v, ns);
        }
        x => fail!("heartbeat period {:?} instead of {}", x, ns),
    }
    same!(var("master_binlog_checksum"), Some(checksum.to_string()), "master_binlog_checksum");
    // server id and flags
    if o.blocking {
        same!(d.server_id, o.server_id, "server id");
        same!(d.flags & 1, 0, "flags of a blocking dump");
    } else {
        same!(d.server_id, 0, "server id when not blocking");
    }
    for r in &log.reqs {
        if let Req::Register { server_id, .. } = r {
            ensure!(*server_id == o.server_id || !o.blocking && *server_id == 0, "registered as server {} instead of {}", server_id, o.server_id);
        }
    }
    same!(log.status_reads, u.reads as usize, "number of times the current position was read");
    if maria {
        match var("mariadb_slave_capability").as_deref().map(|x| x.parse::<u32>()) {
            Some(Ok(v)) if v >= 4 => {}
            x => fail!("mariadb_slave_capability is {:?}, so GTID events are not sent", x),
        }
        for n in ["slave_gtid_strict_mode", "slave_gtid_ignore_duplicates"] {
            let v = var(n);
            ensure!(v.is_none() || v.as_deref() == Some("0"), "{} is {:?}", n, v);
        }
    }
    match (&u.set, &u.list) {
        (Some(set), _) => {
            let Some(got) = &d.gtid else { fail!("COM_BINLOG_DUMP instead of a dump by GTIDs") };
            let mut got = got.clone();
            got.sort();
            let mut want = set.clone();
            want.sort();
            same!(got, want, "GTID set of the dump request");
            same!((d.file.as_str(), d.pos), ("", 4), "file and position of a dump by GTIDs");
        }
        (_, Some(list)) => {
            ensure!(d.gtid.is_none(), "COM_BINLOG_DUMP_GTID to MariaDB");
            let Some(t) = var("slave_connect_state") else { fail!("slave_connect_state is not set") };
            let mut got: Vec<(u32, u32, u64)> = vec![];
            for x in t.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()) {
                let n: Vec<&str> = x.split('-').collect();
                match (n.len(), n[0].parse(), n.get(1).map(|x| x.parse()), n.get(2).map(|x| x.parse())) {
                    (3, Ok(a), Some(Ok(b)), Some(Ok(q))) => got.push((a, b, q)),
                    _ => fail!("slave_connect_state {:?}", t),
                }
            }
            got.sort();
            let mut want = list.clone();
            want.sort();
            same!(got, want, "slave_connect_state");
        }
        _ => {
            ensure!(d.gtid.is_none(), "a dump by GTIDs in another mode");
            ensure!(var("slave_connect_state").is_none(), "slave_connect_state set in another mode");
            let (f, p) = if u.reads { (u.master[0].clone(), u.master[1].parse().unwrap()) } else { before.clone() };
            same!((d.file.clone(), d.pos), (f, p as u64), "file and position of the dump request");
        }
    }
    Ok(())
}

pub fn gen_heartbeat(s: &mut Src) -> Duration {
    match s.weighted(&[5, 5, 5, 5, 1]) {
        0 => Duration::from_millis(s.draw(120_000)),
        1 => Duration::from_secs(s.draw(4_294)),
        2 => Duration::from_nanos(s.draw(40_000_000_000)),
        // up to a year
        3 => Duration::from_secs(s.draw(31_536_000)),
        // no end
        _ => *s.pick(&[Duration::MAX, Duration::from_secs(u64::MAX - 5)]),
    }
}

fn c17(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.flip();
    let mut u = gen_setup(s, c, maria)?;
    let mut p = Plan::new(maria, empty_source());
    vary_server(s, &mut p, maria);
    let mut o = options(BinlogOptions::from_start(), 0);
    if s.chance(1, 3) {
        vary_auth(s, &mut p, &mut o, true);
    }
    if s.chance(1, 12) {
        c.label("options that are left out");
        let d = ReplicaOptions::default();
        same!(
            (d.server_id, d.blocking, d.heartbeat_interval, d.port, d.hostname.as_str(), d.database.is_none(), d.ssl_mode),
            (65535, true, Duration::from_secs(30), 3306, "localhost", true, SslMode::Disabled),
            "the documented defaults"
        );
        (o.server_id, o.blocking, o.heartbeat_interval) = (d.server_id, d.blocking, d.heartbeat_interval);
        if u.reads {
            // from the end
            u.binlog = d.binlog;
        }
    } else {
        o.server_id = if s.chance(1, 3) { 65535 } else { s.uint(32) as u32 };
        o.blocking = s.flip();
        o.heartbeat_interval = gen_heartbeat(s);
    }
    p.server_id = s.uint(32) as u32;
    let checksum = s.pick(&["CRC32", "NONE"]).to_string();
    p.checksum = Some(checksum.clone());
    p.master = Some(u.master.clone());
    // a server without a binlog
    let off = u.reads && s.chance(1, 10);
    if off {
        p.master = None;
    }
    c.note(|| format!("server {} position {:?} checksum {}; options {:?} server id {} blocking {} heartbeat {:?}", p.version, p.master, checksum, u.binlog, o.server_id, o.blocking, o.heartbeat_interval));
    let mut before = (u.binlog.filename.clone(), u.binlog.position);
    std::mem::swap(&mut o.binlog, &mut u.binlog);
    let mut cl = BinlogClient::new(o);
    let (r, log) = serve(&p, |port| {
        cl.options.port = port;
        sut(|| cl.replicate()).map(|_| ()).map_err(|e| format!("{:?}", e))
    });
    if u.impossible || off {
        c.label(if off { "no binlog" } else { "GTID position of the other kind" });
        ensure!(r.is_err(), "replicate() succeeds although {}", if off { "there is no binlog" } else { "the GTID position is for the other kind of server" });
        ensure!(log.dump.is_none(), "a dump was asked for: {:?}", log.dump);
        check_log(&log)?;
        return Ok(());
    }
    if let Err(e) = r {
        check_log(&log)?;
        fail!("replicate(): {}", e);
    }
    check_requests(&log, &u, &cl.options, &before, maria, &checksum)?;
    c.label(if maria { "MariaDB" } else { "MySQL" });
    c.label_if(!cl.options.blocking, "not blocking");
    c.nontrivial = true;
    // and again, from where the last stream has got to
    let mut parser = mysql_cdc::events::event_parser::EventParser::new();
    let mut times = 0;
    while times < 4 && s.flip() {
        times += 1;
        if u.reads {
            before = (u.master[0].clone(), u.master[1].parse().unwrap());
            u.reads = false;
            p.master = Some(vec!["other.000001".into(), "777".into(), String::new(), String::new()]);
        }
        let n = s.len(1, 4);
        for _ in 0..n {
            // what a server sends at the start of a stream, at the end of a file, and in between
            let (ev, hdr) = match s.below(4) {
                0 => {
                    before = (gen_file(s), gen_pos(s) as u32);
                    (Ev::Rotate { pos: before.1 as u64, name: before.0.clone() }, Hdr::default())
                }
                1 => (Ev::Xid(s.uint(64)), Hdr { log_pos: 0, ..Hdr::default() }),
                _ => {
                    before.1 = gen_pos(s) as u32;
                    (Ev::Xid(s.uint(64)), Hdr { log_pos: before.1, ..Hdr::default() })
                }
            };
            let w = ev.wire(&hdr, false);
            let (h, e) = feed(&mut parser, &w).map_err(|e| Fail::new(format!("{:?}", e)))?;
            sut(|| cl.commit(&h, &e));
        }
        if s.chance(1, 4) {
            cl.options.blocking = !cl.options.blocking;
            cl.options.heartbeat_interval = gen_heartbeat(s);
            c.label("options changed in between");
        }
        let (r, log) = serve(&p, |port| {
            cl.options.port = port;
            sut(|| cl.replicate()).map(|_| ()).map_err(|e| format!("{:?}", e))
        });
        if let Err(e) = r {
            check_log(&log)?;
            fail!("replicate() again: {}", e);
        }
        check_requests(&log, &u, &cl.options, &before, maria, &checksum).map_err(|f| Fail::new(format!("start {}: {}", times + 1, f.msg)))?;
    }
    c.label(["one start", "two starts", "three starts", "four starts", "five starts"][times]);
    Ok(())
}

/// Positions so large that the request takes long packets, or several of them.
fn c17_large(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.chance(1, 4);
    let mut p = Plan::new(maria, empty_source());
    p.checksum = Some("NONE".into());
    let n = match s.weighted(&[12, 8, 4, !maria as u32]) {
        0 => s.range(10, 200),
        1 => s.range(3_000, 9_000),
        2 => s.range(60_000, 75_000),
        _ => s.range(1_040_000, 1_080_000),
    };
    let from = 1 + s.draw(1 << 40);
    let mut r = Rng::new(s.draw(u64::MAX));
    let mut u = Setup {
        binlog: BinlogOptions::from_start(),
        set: None,
        list: None,
        master: vec!["binlog.000001".into(), "4".into(), String::new(), String::new()],
        reads: false,
        impossible: false,
    };
    if maria {
        let list: Vec<(u32, u32, u64)> = (0..n).map(|i| (i as u32, r.next() as u32, r.next())).collect();
        let t = super::gtid::list_text(&list);
        c.note(|| format!("a list of {} domains, {} bytes of text", n, t.len()));
        c.label_if(t.len() > 0xffff, "request of more than 64 KB");
        let g = sut(|| GtidList::parse(&t)).map_err(|e| Fail::new(format!("GtidList::parse of {} domains: {:?}", n, e)))?;
        u.binlog = BinlogOptions::from_mariadb_gtid(g);
        u.list = Some(list);
    } else {
        // many intervals, or many sources
        let sources = if s.flip() { 1 + s.draw(3) } else { 1 + s.draw(n.min(3_000)) };
        let mut set: Vec<(Sid, Vec<(u64, u64)>)> = vec![];
        let mut at = from;
        for i in 0..n {
            let k = (i % sources) as usize;
            if k == set.len() {
                let mut sid = [0x24u8; 16];
                sid[8..].copy_from_slice(&i.wrapping_mul(0x9e37_79b9_7f4a_7c15).to_be_bytes());
                set.push((sid, vec![]));
            }
            let b = at + r.below(3);
            set[k].1.push((at, b));
            at = b + 2;
        }
        set.sort();
        let mut t = String::new();
        for (sid, iv) in &set {
            if !t.is_empty() {
                t.push(',');
            }
            t.push_str(&uuid_text(sid));
            for (a, b) in iv {
                t.push_str(&format!(":{}-{}", a, b));
            }
        }
        c.note(|| format!("a set of {} intervals of {} sources", n, set.len()));
        let size = 19 + set.iter().map(|x| 24 + 16 * x.1.len()).sum::<usize>();
        c.label_if(size > 0xffff, "request of more than 64 KB");
        c.label_if(size >= 0xff_ffff, "request of several packets");
        let g = sut(|| GtidSet::parse(&t)).map_err(|e| Fail::new(format!("GtidSet::parse of {} intervals: {:?}", n, e)))?;
        u.binlog = BinlogOptions::from_mysql_gtid(g);
        u.set = Some(set);
    }
    let mut o = options(BinlogOptions::from_start(), 0);
    std::mem::swap(&mut o.binlog, &mut u.binlog);
    let mut cl = BinlogClient::new(o);
    let (r, log) = serve(&p, |port| {
        cl.options.port = port;
        sut(|| cl.replicate()).map(|_| ()).map_err(|e| format!("{:?}", e))
    });
    if let Err(e) = r {
        check_log(&log)?;
        fail!("replicate(): {}", e);
    }
    // not to be printed in full
    if check_requests(&log, &u, &cl.options, &(String::new(), 4), maria, "NONE").is_err() {
        let f = check_requests(&log, &u, &cl.options, &(String::new(), 4), maria, "NONE").unwrap_err();
        fail!("{}", clip(&f.msg, 800));
    }
    c.nontrivial = n > 1_000;
    Ok(())
}

// ----------------------------------------------------------------------------------------- C24

/// Options that demand an encrypted connection, of a server that may offer one or not.
fn c24(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.flip();
    let mut p = Plan::new(maria, empty_source());
    vary_server(s, &mut p, maria);
    let mut o = options(BinlogOptions::from_position("binlog.000001".into(), 4), 0);
    vary_auth(s, &mut p, &mut o, true);
    // names that cannot turn up by chance
    o.username = format!("user-{}", o.username);
    o.password = format!("pass-{}", o.password);
    p.user = o.username.clone();
    p.password = o.password.clone();
    p.auth.account = o.password.clone();
    p.lenient = true;
    // with TLS the client is to speak first
    p.idle = Duration::from_millis(300);
    let mode = *s.pick(&[SslMode::Require, SslMode::RequireVerifyCa, SslMode::RequireVerifyFull, SslMode::IfAvailable]);
    let offered = p.caps & 1 << 11 != 0;
    let late = s.flip();
    c.note(|| format!("ssl mode {:?}, {} TLS; the mode is set {}", mode, if offered { "the server offers" } else { "the server does not offer" }, if late { "after the client is made" } else { "from the start" }));
    c.label(match (mode == SslMode::IfAvailable, offered) {
        (true, true) => "asked for and offered",
        (true, false) => "asked for and not offered",
        (false, true) => "demanded and offered",
        (false, false) => "demanded and not offered",
    });
    if !late {
        o.ssl_mode = mode;
    }
    // a refusal may be an error or a panic, but nothing may be given away
    let (r, log) = serve(&p, |port| {
        o.port = port;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut cl = BinlogClient::new(o);
            cl.options.ssl_mode = mode;
            cl.replicate().map(|_| ()).map_err(|e| format!("{:?}", e))
        }))
        .unwrap_or_else(|_| Err("refused by a panic".into()))
    });
    c.label_if(log.accepted, "a connection is made");
    if mode == SslMode::IfAvailable && !offered {
        // it may go on without
        return Ok(());
    }
    ensure!(r.is_err(), "connected to a server without TLS although the mode is {:?}", mode);
    c.nontrivial = true;
    // nothing but a request for TLS, and then TLS
    let mut raw = &log.raw[..];
    if offered && raw.len() >= 36 && raw[..3] == [32, 0, 0] && raw[5] & 10 == 10 {
        raw = &raw[36..];
    }
    ensure!(
        raw.is_empty() || offered && raw[0] == 0x16,
        "mode {:?}: the client goes on in clear with {}",
        mode,
        clip(&hex(raw), 400)
    );
    Ok(())
}

// ----------------------------------------------------------------------------------------- C18

type Place = (String, u32, Option<String>, Option<String>);
fn place(cl: &BinlogClient) -> Place {
    let b = &cl.options.binlog;
    (b.filename.clone(), b.position, b.gtid_set.as_ref().map(|x| x.to_string()), b.gtid_list.as_ref().map(|x| x.to_string()))
}

fn c18(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.flip();
    let mut u = gen_setup(s, c, maria)?;
    let mut p = Plan::new(maria, empty_source());
    vary_server(s, &mut p, maria);
    let mut o = options(BinlogOptions::from_start(), 0);
    vary_auth(s, &mut p, &mut o, true);
    o.blocking = s.flip();
    p.checksum = Some(s.pick(&["CRC32", "NONE"]).to_string());
    p.master = Some(u.master.clone());
    std::mem::swap(&mut o.binlog, &mut u.binlog);
    let mut cl = BinlogClient::new(o);
    let start = place(&cl);
    let mut go = |p: &Plan| -> (Result<(), String>, Log) {
        serve(p, |port| {
            cl.options.port = port;
            sut(|| cl.replicate()).map(|_| ()).map_err(|e| format!("{:?}", e))
        })
    };
    // how many steps there are
    let (r, dry) = go(&p);
    check_log(&dry)?;
    ensure!(r.is_ok() || u.impossible, "replicate() without any fault: {:?}", r);
    let steps = dry.stream_at.unwrap_or(dry.packets);
    let first = place(&cl);
    // from the beginning again
    cl.options.binlog.filename = start.0.clone();
    cl.options.binlog.position = start.1;
    let k = s.below(steps);
    let fault = match s.weighted(&[4, 1, 1]) {
        0 => Fault::Err(err_pkt(s)),
        1 => Fault::Close,
        _ => Fault::Partial(s.draw(60) as usize),
    };
    c.note(|| format!("server {}, position {:?}, {} offered, switch {:?}; step {} of {}: {:?}", p.version, first, p.auth.offered, p.auth.switch.as_ref().map(|x| &x.0), k, steps, fault));
    p.fault = Some((k, fault.clone()));
    let mut go = |p: &Plan| -> (Result<(), String>, Log) {
        serve(p, |port| {
            cl.options.port = port;
            sut(|| cl.replicate()).map(|_| ()).map_err(|e| format!("{:?}", e))
        })
    };
    let (r, log) = go(&p);
    ensure!(log.fault_hit, "harness: step {} of {} was not reached: {:?}", k, steps, r);
    let what = format!("step {} of {} ({:?})", k, steps, log.reqs.last());
    let e = match r {
        Ok(()) => fail!("{} failed but replicate() succeeded", what),
        Err(e) => e,
    };
    ensure!(log.dump.is_none(), "{} failed and a dump was asked for", what);
    ensure!(log.after.is_empty(), "{} failed and the client went on with {:?}", what, log.after);
    ensure!(!log.idle, "{} failed and the client waits", what);
    check_log(&log)?;
    if let Fault::Err(x) = &fault {
        ensure!(x.within(&e), "{} failed with {:?}, reported as {}", what, x, e);
    }
    // the position
    let now = place(&cl);
    let read = log.status_reads > 0;
    ensure!(now == start || read && now == first, "{} failed and the position went from {:?} to {:?}", what, start, now);
    // and nothing of the failure is left
    if s.chance(1, 3) && !u.impossible {
        p.fault = None;
        let mut go = |p: &Plan| -> (Result<(), String>, Log) {
            serve(p, |port| {
                cl.options.port = port;
                sut(|| cl.replicate()).map(|_| ()).map_err(|e| format!("{:?}", e))
            })
        };
        let (r, log) = go(&p);
        check_log(&log)?;
        ensure!(r.is_ok(), "{} failed, and a second try fails as well: {:?}", what, r);
        same!(log.dump, dry.dump, "dump request of a second try");
        same!(place(&cl), first, "position after a second try");
        c.label("second try");
    }
    c.label(match fault {
        Fault::Err(_) => "error packet",
        Fault::Close => "disconnection",
        _ => "disconnection inside of a packet",
    });
    c.label(match (k, log.response, log.authed) {
        (0, _, _) => "at the handshake",
        (_, _, None) => "during authentication",
        (_, _, Some(_)) if log.reqs.is_empty() => "at the verdict",
        _ => "during setup",
    });
    c.nontrivial = k > 0;
    Ok(())
}

fn c18_refused(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.flip();
    let u = gen_setup(s, c, maria)?;
    // nothing listens there
    let mut cl = BinlogClient::new(options(u.binlog, 1));
    let start = place(&cl);
    c.note(|| format!("connection refused, position {:?}", start));
    ensure!(sut(|| cl.replicate()).is_err(), "replicate() without a server succeeds");
    same!(place(&cl), start, "position after a refused connection");
    c.nontrivial = true;
    Ok(())
}

// ----------------------------------------------------------------------------------------- C19

fn hostile_payload(s: &mut Src) -> Vec<u8> {
    let mut w = W::new();
    match s.below(13) {
        0 => {
            let n = s.len(30, 400);
            return s.bytes(n);
        }
        1 => {}
        2 => {
            w.u8(*s.pick(&[0u8, 0xff, 0xfe, 1, 0xfb, 0xfc, 0xfd, 2]));
        }
        3 => {
            // an error packet
            w.b(&err_pkt(s).bytes());
        }
        4 => {
            // a plugin switch
            w.u8(0xfe);
            let name = s.pick(&[NATIVE, SHA2, "x", ""]).to_string();
            w.b(name.as_bytes());
            if s.flip() {
                w.u8(0);
                let n = s.len(21, 60);
                let b = s.bytes(n);
                w.b(&b);
            }
        }
        5 => {
            w.u8(1).u8(*s.pick(&[3u8, 4, 2, 0]));
        }
        6 => {
            // a public key
            w.u8(1);
            match s.below(4) {
                0 => {
                    w.b(b"-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n");
                }
                1 => {
                    let pem = net::rsa().public_key_to_pem().unwrap();
                    let n = s.below(pem.len());
                    w.b(&pem[..n]);
                }
                2 => {
                    w.b(small_pem());
                }
                _ => {
                    w.b(&net::rsa().private_key_to_pem().unwrap());
                }
            }
        }
        7 => {
            // a greeting
            w.u8(10).b(b"8.0.1").u8(0).u32(1).b(b"abcdefgh").u8(0).u16(s.uint(16) as u16).u8(45).u16(2).u16(s.uint(16) as u16);
            w.u8(s.uint(8) as u8).b(&[0; 6]).u32(0);
            let n = s.len(13, 40);
            let b = s.bytes(n);
            w.b(&b).u8(0).b(s.pick(&[NATIVE, SHA2, ""]).as_bytes());
        }
        8 => {
            // a greeting that ends anywhere
            w.u8(10).b(b"8.0.1-MariaDB").u8(0).u32(1).b(b"abcdefgh").u8(0).u16(0xffff).u8(45).u16(2).u16(0xffff).u8(21).b(&[0; 10]).b(b"abcdefghijkl\0").b(NATIVE.as_bytes());
            let n = s.below(w.0.len());
            w.0.truncate(n);
        }
        9 => {
            // a row
            for _ in 0..s.draw(4) {
                match s.below(4) {
                    0 => {
                        w.u8(0xfb);
                    }
                    1 => {
                        let n = s.len(10, 30);
                        let b = s.bytes(n);
                        w.lenstr(&b);
                    }
                    2 => {
                        w.lenenc(s.edge(u64::MAX));
                    }
                    _ => {
                        w.lenstr(s.pick(&["4", "99999999999", "-1", "CRC32", "NONE", "x", "binlog.000001"]).as_bytes());
                    }
                }
            }
        }
        10 => {
            w.u8(0xfe).u64(s.edge(u64::MAX));
        }
        11 => {
            w.u8(0);
            let n = s.len(22, 60);
            let b = s.bytes(n);
            w.b(&b);
        }
        _ => {
            let n = s.len(3, 3);
            w.u8(0xff);
            let b = s.bytes(n);
            w.b(&b);
        }
    }
    w.0
}

fn small_pem() -> &'static Vec<u8> {
    static K: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    K.get_or_init(|| openssl::rsa::Rsa::generate(512).expect("rsa").public_key_to_pem().expect("pem"))
}

fn gen_fault(s: &mut Src) -> Fault {
    match s.weighted(&[5, 5, 1, 1]) {
        0 => {
            let p = hostile_payload(s);
            let seq = if s.flip() { 1 } else { s.uint(8) as u8 };
            Fault::Payload(p, seq)
        }
        1 => {
            let mut v = vec![];
            loop {
                let op = s.draw(6) as u8;
                v.push((op, s.draw(u32::MAX as u64), s.edge(255) as u8));
                if !s.more(7) {
                    break;
                }
            }
            Fault::Edit(v)
        }
        2 => {
            // a header that announces more than there is
            let n = s.len(12, 60);
            let mut b = s.bytes(n);
            if b.len() >= 3 && s.flip() {
                b[2] = 0;
            }
            Fault::Raw(b)
        }
        _ => Fault::Partial(s.draw(80) as usize),
    }
}

fn c19(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.chance(1, 3);
    let mut u = gen_setup(s, c, maria)?;
    let alg = *s.pick(&[Some(1u8), Some(0), None]);
    let hist = history(s, alg, 6, true, false);
    let mut pkts: Vec<Vec<u8>> = hist
        .steps
        .iter()
        .map(|x| {
            let mut v = vec![0];
            v.extend_from_slice(&x.bytes);
            v
        })
        .collect();
    let in_stream = s.chance(2, 5);
    if in_stream {
        for p in pkts.iter_mut() {
            if s.chance(1, 3) {
                mutate(s, p);
                p.truncate(6000);
            }
        }
    }
    let mut noted = vec![];
    if c.render {
        noted = pkts.iter().map(|x| hex(x)).collect();
    }
    let source: net::Source = Box::new(move |_, _| Ok(Stream { out: pkts.iter().map(|x| Out::Packet(x.clone())).collect(), end: End::Eof, cut: None }));
    let mut p = Plan::new(maria, source);
    vary_server(s, &mut p, maria);
    let mut o = options(BinlogOptions::from_start(), 0);
    vary_auth(s, &mut p, &mut o, false);
    p.split = 0;
    p.checksum = Some(s.pick(&["CRC32", "NONE"]).to_string());
    p.master = Some(u.master.clone());
    if s.chance(1, 6) {
        // fewer columns, or more
        let n = s.draw(12) as usize;
        p.master = Some((0..n).map(|i| u.master.get(i).cloned().unwrap_or_default()).collect());
    }
    p.lenient = true;
    p.idle = Duration::from_millis(12);
    if !in_stream || s.chance(1, 4) {
        p.fault = Some((s.draw(22) as usize, gen_fault(s)));
    }
    std::mem::swap(&mut o.binlog, &mut u.binlog);
    o.blocking = s.flip();
    c.note(|| format!("server {} offers {} switch {:?} cached {}; mode {:?}; fault {:?}\nstream {:#?}", p.version, p.auth.offered, p.auth.switch, p.auth.cached, o.binlog, p.fault, noted));
    let mut cl = BinlogClient::new(o);
    let ((ok, n), log) = serve(&p, |port| {
        cl.options.port = port;
        let (r, peak) = sut_mem(|| match cl.replicate() {
            Err(_) => (false, 0),
            Ok(mut evs) => {
                let mut n = 0;
                for x in evs.by_ref().take(60) {
                    if let Err(Error::IoError(_)) = &x {
                        break;
                    }
                    if let Ok((h, e)) = &x {
                        cl.commit(h, e);
                        n += 1;
                    }
                }
                (true, n)
            }
        });
        // packets are up to 16 MB
        let _ = peak;
        r
    });
    c.label_if(!ok, "rejected before the stream");
    c.label_if(ok && n > 0, "events delivered");
    c.label_if(log.fault_hit, "one packet replaced");
    c.nontrivial = log.fault_hit || ok && in_stream;
    Ok(())
}

/// Events that make no sense as a history, committed; then another connection.
fn c19_commit(s: &mut Src, c: &mut Case) -> Res {
    let maria = s.flip();
    let sid = |s: &mut Src| {
        let mut a = [0x24u8; 16];
        a[15] = s.draw(1) as u8;
        a
    };
    let wild = |s: &mut Src| match s.below(4) {
        0 => u64::MAX - s.draw(3),
        1 => s.draw(4),
        2 => (1 << 63) - 2 + s.draw(4),
        _ => s.edge(u64::MAX),
    };
    let mut o = options(BinlogOptions::from_start(), 0);
    let text = match s.below(5) {
        0 => {
            o.binlog = BinlogOptions::from_position(gen_file(s), s.uint(32) as u32);
            String::new()
        }
        1 => String::new(),
        _ if maria => {
            let list: Vec<(u32, u32, u64)> = (0..s.below(4)).map(|i| (i as u32, s.uint(32) as u32, wild(s))).collect();
            let t = super::gtid::list_text(&list);
            // refused or not
            if let Ok(g) = sut(|| GtidList::parse(&t)) {
                o.binlog = BinlogOptions::from_mariadb_gtid(g);
            }
            t
        }
        _ => {
            let mut t = String::new();
            for _ in 0..s.below(3) {
                let k = sid(s);
                let (a, b) = (wild(s), wild(s));
                t.push_str(&format!("{}{}:{}-{}", if t.is_empty() { "" } else { "," }, uuid_text(&k), a.min(b), a.max(b)));
            }
            if let Ok(g) = sut(|| GtidSet::parse(&t)) {
                o.binlog = BinlogOptions::from_mysql_gtid(g);
            }
            t
        }
    };
    let mode = o.binlog.starting_strategy;
    c.note(|| format!("{:?} {:?}", mode, text));
    let mut cl = BinlogClient::new(o);
    let mut parser = mysql_cdc::events::event_parser::EventParser::new();
    let (mut gtids, mut ends) = (0, 0);
    loop {
        let ev = match s.weighted(&[6, 4, 4, 1, 1, 1, 1]) {
            0 if maria => Ev::MaGtid { seq: wild(s), domain: s.draw(2) as u32, flags: s.uint(8) as u8, tail: s.bytes(6) },
            0 => Ev::MyGtid { flags: s.uint(8) as u8, sid: sid(s), gno: wild(s), tail: vec![] },
            1 => Ev::Xid(1),
            2 => Ev::query(s.pick(&["BEGIN", "COMMIT", "ROLLBACK", "", "XA START ", "XA COMMIT ", "XA ROLLBACK ", "XA PREPARE ", "DROP TABLE x", "\0", "é"])),
            3 => Ev::Rotate { pos: s.edge(u64::MAX), name: gen_file(s) },
            4 => {
                let t = *s.pick(&[34u8, 36, 37, 38, 39, 40, 165, 166, 171, 0, 255]);
                let n = s.len(6, 20);
                Ev::Unknown(t, s.bytes(n))
            }
            5 => Ev::PrevGtids(gen_gtids(s, 2, 2)),
            _ => Ev::gen_plain(s, false),
        };
        let h = Hdr::gen(s);
        c.note(|| ev.describe());
        let b = ev.wire(&h, false);
        if let Ok((h, e)) = sut(|| feed(&mut parser, &b)) {
            match e {
                BinlogEvent::MySqlGtidEvent(_) | BinlogEvent::MariaDbGtidEvent(_) => gtids += 1,
                BinlogEvent::XidEvent(_) | BinlogEvent::QueryEvent(_) => ends += 1,
                _ => {}
            }
            sut(|| cl.commit(&h, &e));
            // can be shown
            sut(|| place(&cl));
        }
        if !s.more(14) {
            break;
        }
    }
    c.nontrivial = gtids > 1 && ends > 1 && !text.is_empty();
    if s.chance(1, 12) {
        c.label("connected again");
        let mut p = Plan::new(maria, empty_source());
        p.lenient = true;
        p.idle = Duration::from_millis(12);
        serve(&p, |port| {
            cl.options.port = port;
            // succeeds or not
            let _ = sut(|| cl.replicate().map(|_| ()));
        });
    }
    Ok(())
}

// ------------------------------------------------------------------------------- C20 and C09

/// The rest of a stream: items until its end or too many, and whether it has ended.
fn drain(evs: &mut BinlogEvents, max: usize) -> (Vec<Item>, bool) {
    let mut v: Vec<Item> = vec![];
    loop {
        match sut(|| evs.next()) {
            None => return (v, true),
            Some(x) => {
                v.push(x.map_err(|e| format!("{:?}", e)));
                if v.len() >= max {
                    return (v, false);
                }
            }
        }
    }
}

pub fn lead(s: &mut Src, crc: bool) -> Vec<Step> {
    let mut v = vec![];
    let mut push = |ev: Ev| {
        let h = Hdr { ts: 0, server_id: 1, log_pos: 0, flags: 0x20 };
        let bytes = ev.wire(&h, crc);
        v.push(Step { ev, h, bytes, bad: false });
    };
    push(Ev::Rotate { pos: 4, name: gen_file(s) });
    for _ in 0..s.draw(1) {
        push(Ev::Heartbeat("binlog.000001".into()));
    }
    v
}

pub fn pkt(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len() + 1);
    v.push(0);
    v.extend_from_slice(b);
    v
}

pub fn client(s: &mut Src) -> BinlogClient {
    let mut o = options(BinlogOptions::from_position("binlog.000001".into(), 4), 0);
    o.blocking = s.flip();
    BinlogClient::new(o)
}

enum Ending {
    Eof(Vec<u8>),
    Err(ErrPkt),
    Other(Vec<u8>),
    Cut(usize),
}

fn c20(s: &mut Src, c: &mut Case) -> Res {
    let alg = *s.pick(&[Some(1u8), Some(0), None]);
    let crc0 = s.flip();
    let mut steps = lead(s, crc0);
    let large = s.chance(1, 8);
    steps.extend(history(s, alg, 16, true, large).steps);
    let hist = super::events::History { steps, crc: crc0 };
    let total: usize = hist.steps.iter().map(|x| x.bytes.len() + 5).sum();
    let ending = match s.weighted(&[3, 3, 1, 4]) {
        0 => {
            let n = s.len(4, 8);
            let mut b = vec![0xfe];
            b.extend(s.bytes(n));
            if s.flip() {
                b = vec![0xfe, 0, 0, 2, 0];
            }
            Ending::Eof(b)
        }
        1 => Ending::Err(err_pkt(s)),
        2 => {
            let n = s.len(5, 30);
            let mut b = s.bytes(n);
            if let Some(x) = b.first_mut() {
                if matches!(*x, 0 | 0xfe | 0xff) {
                    *x = 1;
                }
            }
            Ending::Other(b)
        }
        _ => Ending::Cut(if s.chance(1, 3) {
            // at the boundaries of packets
            let k = s.below(hist.steps.len() + 1);
            let at: usize = hist.steps[..k].iter().map(|x| x.bytes.len() + 5).sum();
            (at as i64 + *s.pick(&[0i64, 1, -1, 3, 4, 5])).clamp(0, total as i64) as usize
        } else {
            s.draw(total as u64) as usize
        }),
    };
    let out_src: Vec<Vec<u8>> = hist.steps.iter().map(|x| pkt(&x.bytes)).collect();
    let (e_eof, e_err, e_other, cut) = match &ending {
        Ending::Eof(b) => (Some(b.clone()), None, None, None),
        Ending::Err(e) => (None, Some(e.clone()), None, None),
        Ending::Other(b) => (None, None, Some(b.clone()), None),
        Ending::Cut(n) => (None, None, None, Some(*n)),
    };
    let source: net::Source = Box::new(move |_, _| {
        Ok(Stream {
            out: out_src.iter().map(|x| Out::Packet(x.clone())).collect(),
            end: match (&e_eof, &e_err, &e_other) {
                (Some(b), _, _) | (_, _, Some(b)) => End::Packet(b.clone()),
                (_, Some(e), _) => End::Err(e.clone()),
                _ => End::Close,
            },
            cut,
        })
    });
    let maria = s.chance(1, 4);
    let mut p = Plan::new(maria, source);
    p.checksum = Some(if crc0 { "CRC32".into() } else { "NONE".into() });
    if s.chance(2, 3) {
        p.split = s.draw(u64::MAX);
    }
    let mut cl = client(s);
    c.note(|| {
        format!(
            "{}then {}",
            describe(&hist),
            match &ending {
                Ending::Eof(b) => format!("end of file {}", hex(b)),
                Ending::Err(e) => format!("{:?}", e),
                Ending::Other(b) => format!("packet {}", hex(b)),
                Ending::Cut(n) => format!("the connection is lost after {} of {} bytes", n, total),
            }
        )
    });
    let whole = match &ending {
        Ending::Cut(n) => {
            let mut at = 0;
            hist.steps
                .iter()
                .take_while(|x| {
                    at += x.bytes.len() + 5;
                    at <= *n
                })
                .count()
        }
        _ => hist.steps.len(),
    };
    let (r, log) = serve(&p, |port| -> Result<(Vec<Item>, bool), Fail> {
        cl.options.port = port;
        match sut(|| cl.replicate()) {
            Err(e) => fail!("replicate(): {:?}", e),
            Ok(mut evs) => Ok(drain(&mut evs, whole + 1)),
        }
    });
    check_log(&log)?;
    let (mut items, ended) = r?;
    let last = if items.len() > whole { items.pop() } else { None };
    check_items(&hist.steps[..whole], items)?;
    let tail = match (&last, ended) {
        (None, true) => "the end of the stream".to_string(),
        (Some(Ok((h, e))), _) => format!("the event {:?} {:?}", h, clip(&format!("{:?}", e), 200)),
        (Some(Err(e)), _) => format!("the error {}", e),
        (None, false) => "nothing".into(),
    };
    match &ending {
        Ending::Eof(b) => ensure!(last.is_none() && ended, "after all events, the end-of-file packet {} gives {}", hex(b), tail),
        Ending::Err(x) => match &last {
            Some(Err(e)) => ensure!(x.within(e), "the error packet {:?} is delivered as {}", x, e),
            _ => fail!("after all events, the error packet {:?} gives {}", x, tail),
        },
        Ending::Other(b) => ensure!(matches!(last, Some(Err(_))), "after all events, the packet {} gives {}", hex(b), tail),
        Ending::Cut(n) => ensure!(
            matches!(last, Some(Err(_))),
            "the connection is lost after {} of {} bytes; after the {} complete events comes {}",
            n,
            total,
            whole,
            tail
        ),
    }
    c.label(match ending {
        Ending::Eof(_) => "end of file",
        Ending::Err(_) => "error packet",
        Ending::Other(_) => "other status",
        Ending::Cut(_) => "connection lost",
    });
    c.label_if(p.split != 0, "split");
    c.label_if(hist.steps.iter().any(|x| x.bad), "undecodable event");
    c.label_if(hist.steps.iter().any(|x| x.bytes.len() > 65536), "event above 64 KiB");
    c.nontrivial = whole >= 3;
    Ok(())
}

/// Events as large as a packet, and larger: those take several packets.
/// Streams of many packets.
fn c20_long(s: &mut Src, c: &mut Case) -> Res {
    let alg = *s.pick(&[Some(1u8), Some(0), None]);
    let hist = history(s, alg, 12, false, false);
    let k = super::events::rounds(s, &hist, 70_000);
    let total = k * hist.steps.len();
    c.note(|| format!("{} times:\n{}", k, describe(&hist)));
    c.label_if(total > 65_535, "more than 65535 packets");
    c.nontrivial = total > 255;
    let one: Vec<Vec<u8>> = hist.steps.iter().map(|x| pkt(&x.bytes)).collect();
    let source: net::Source = Box::new(move |_, _| {
        let mut out = Vec::with_capacity(total);
        for _ in 0..k {
            out.extend(one.iter().map(|x| Out::Packet(x.clone())));
        }
        Ok(Stream { out, end: End::Packet(vec![0xfe, 0, 0, 2, 0]), cut: None })
    });
    let mut p = Plan::new(s.flip(), source);
    p.checksum = Some(if alg == Some(1) { "CRC32".into() } else { "NONE".into() });
    let mut cl = client(s);
    let (r, log) = serve(&p, |port| -> Result<(Vec<Item>, bool), Fail> {
        cl.options.port = port;
        match sut(|| cl.replicate()) {
            Err(e) => fail!("replicate(): {:?}", e),
            Ok(mut evs) => Ok(drain(&mut evs, total + 1)),
        }
    });
    check_log(&log)?;
    let (items, ended) = r?;
    super::events::check_rounds(&hist, total, items)?;
    ensure!(ended, "no end after all {} events", total);
    Ok(())
}

fn c20_large(s: &mut Src, c: &mut Case) -> Res {
    const FULL: usize = 0xff_ffff;
    let size = match s.below(6) {
        0 => FULL - s.draw(4) as usize,
        1 => FULL + s.draw(4) as usize,
        2 => FULL * (2 + s.draw(1) as usize) + s.draw(4) as usize - 2,
        3 => s.range(FULL as u64, 3 * FULL as u64) as usize,
        4 => (1 << *s.pick(&[16usize, 17, 20, 23, 24])) + s.draw(4) as usize - 2,
        _ => s.range(70_000, FULL as u64) as usize,
    };
    let several = size >= FULL;
    let crc = s.flip();
    let mut steps = lead(s, crc);
    let small = |x: u64| {
        let ev = Ev::Xid(x);
        let h = Hdr::default();
        Step { bytes: ev.wire(&h, crc), ev, h, bad: false }
    };
    steps.push(small(1));
    // a text in which every place differs; status byte, header, length byte and checksum around it
    let n = size - 1 - 19 - 1 - 4 * crc as usize;
    let mut text = String::with_capacity(n + 10);
    let mut i = s.draw(1 << 20);
    while text.len() < n {
        text += &format!("{:x}.", i);
        i += 1;
    }
    text.truncate(n);
    let h = Hdr::gen(s);
    let ev = if s.flip() { Ev::RowsQuery(text) } else { Ev::Unknown(34, text.into_bytes()) };
    steps.push(Step { bytes: ev.wire(&h, crc), ev, h, bad: false });
    steps.push(small(2));
    let total: usize = steps.iter().map(|x| x.bytes.len() + 5 + (x.bytes.len() + 1) / FULL * 4).sum();
    // lost inside of the large event
    let cut = if s.chance(1, 3) {
        let before: usize = steps[..steps.len() - 2].iter().map(|x| x.bytes.len() + 5).sum();
        let len = total - before - (steps[steps.len() - 1].bytes.len() + 5);
        let at = if several && s.flip() { (FULL + s.draw(8) as usize).min(len - 1) } else { s.draw(len as u64 - 1) as usize };
        Some(before + at)
    } else {
        None
    };
    c.note(|| format!("an event that takes {} bytes of packets; the connection is lost after {:?} of {} bytes", size, cut, total));
    let out_src: Vec<Vec<u8>> = steps.iter().map(|x| pkt(&x.bytes)).collect();
    let source: net::Source =
        Box::new(move |_, _| Ok(Stream { out: out_src.iter().map(|x| Out::Packet(x.clone())).collect(), end: End::Eof, cut }));
    let mut p = Plan::new(false, source);
    p.checksum = Some(if crc { "CRC32".into() } else { "NONE".into() });
    p.split = s.draw(u64::MAX);
    let mut cl = client(s);
    let whole = if cut.is_some() { steps.len() - 2 } else { steps.len() };
    let (r, log) = serve(&p, |port| -> Result<(Vec<Item>, bool), Fail> {
        cl.options.port = port;
        match sut(|| cl.replicate()) {
            Err(e) => fail!("replicate(): {:?}", e),
            Ok(mut evs) => Ok(drain(&mut evs, whole + 1)),
        }
    });
    check_log(&log)?;
    let (mut items, ended) = r?;
    c.label_if(several, "several packets");
    c.label_if(cut.is_some(), "connection lost inside");
    c.nontrivial = true;
    if cut.is_some() {
        let last = if items.len() > whole { items.pop() } else { None };
        ensure!(matches!(last, Some(Err(_))), "the connection is lost inside of the event of {} bytes; the stream goes on with {}", size, clip(&format!("{:?}", last), 200));
    } else {
        ensure!(ended, "an event of {} bytes: {} items and no end", size, items.len());
    }
    check_items(&steps[..whole], items)
}

/// The same history under every checksum setting of server and file.
fn c09_stream(s: &mut Src, c: &mut Case) -> Res {
    let base = history(s, Some(0), 14, false, false);
    let file = gen_file(s);
    let beat = s.flip();
    c.note(|| describe(&base));
    let split = if s.chance(1, 4) { s.draw(u64::MAX) } else { 0 };
    for crc0 in [true, false] {
        for first in [Some(1u8), Some(0), None] {
            let mut steps = vec![];
            let mut push = |ev: Ev, h: Hdr, crc: bool| {
                let bytes = ev.wire(&h, crc);
                steps.push(Step { ev, h, bytes, bad: false });
            };
            let h = Hdr { ts: 0, server_id: 1, log_pos: 0, flags: 0x20 };
            push(Ev::Rotate { pos: 4, name: file.clone() }, h.clone(), crc0);
            if beat {
                push(Ev::Heartbeat(file.clone()), h, crc0);
            }
            let mut crc = crc0;
            for (i, st) in base.steps.iter().enumerate() {
                let mut ev = st.ev.clone();
                if let Ev::Fde { alg, .. } = &mut ev {
                    if i == 0 {
                        *alg = first;
                    }
                    crc = *alg == Some(1);
                }
                push(ev, st.h.clone(), crc);
            }
            let out_src: Vec<Vec<u8>> = steps.iter().map(|x| pkt(&x.bytes)).collect();
            let source: net::Source =
                Box::new(move |_, _| Ok(Stream { out: out_src.iter().map(|x| Out::Packet(x.clone())).collect(), end: End::Eof, cut: None }));
            let mut p = Plan::new(false, source);
            p.checksum = Some(if crc0 { "CRC32".into() } else { "NONE".into() });
            p.split = split;
            let mut cl = client(s);
            let (r, log) = serve(&p, |port| -> Result<(Vec<Item>, bool), Fail> {
                cl.options.port = port;
                match sut(|| cl.replicate()) {
                    Err(e) => fail!("replicate(): {:?}", e),
                    Ok(mut evs) => Ok(drain(&mut evs, steps.len() + 1)),
                }
            });
            check_log(&log)?;
            let (items, _) = r?;
            check_items(&steps, items).map_err(|f| {
                Fail::new(format!("server setting {}, file algorithm {:?}: {}", if crc0 { "CRC32" } else { "NONE" }, first, f.msg))
            })?;
        }
    }
    for st in &base.steps {
        label_ev(c, &st.ev);
    }
    c.nontrivial = base.steps.len() >= 3;
    Ok(())
}

/// A checksum setting that is not known is an error, and no dump is asked for.
fn c09_names(s: &mut Src, c: &mut Case) -> Res {
    let name = match s.below(4) {
        0 => s.pick(&["CRC64", "SHA256", "CRC32C", "CRC321", "NONE1", "XCRC32", "CRC", "ON", "1", "0", "UNDEF", "CRC 32", ""]).to_string(),
        _ => {
            let n = s.len(8, 40);
            s.name(n).replace(['\'', '"', '\\'], "_")
        }
    };
    if name.trim().eq_ignore_ascii_case("NONE") || name.trim().eq_ignore_ascii_case("CRC32") {
        return Ok(());
    }
    c.note(|| format!("@@global.binlog_checksum is {:?}", name));
    let maria = s.flip();
    let mut p = Plan::new(maria, empty_source());
    p.checksum = Some(name.clone());
    let mut cl = client(s);
    let (r, log) = serve(&p, |port| {
        cl.options.port = port;
        sut(|| cl.replicate()).map(|_| ()).map_err(|e| format!("{:?}", e))
    });
    check_log(&log)?;
    ensure!(r.is_err(), "the checksum setting {:?} is accepted", name);
    ensure!(log.dump.is_none(), "the checksum setting {:?} is refused but a dump was asked for", name);
    c.nontrivial = true;
    Ok(())
}

// ----------------------------------------------------------------------------------------- C21

fn timeline(s: &mut Src) -> (Vec<Step>, bool) {
    let (v, crc, _) = timeline_end(s);
    (v, crc)
}

/// Also gives the checksum setting at the end of it.
fn timeline_end(s: &mut Src) -> (Vec<Step>, bool, bool) {
    let crc = s.flip();
    let mut v = lead(s, crc);
    let alg = Some(crc as u8);
    let h = history(s, alg, 6, false, false);
    v.extend(h.steps);
    (v, crc, h.crc)
}

fn setup_c21<'a>(s: &mut Src, source: net::Source<'a>, crc: bool) -> Result<(Plan<'a>, BinlogClient), Fail> {
    let maria = s.chance(1, 3);
    let mut p = Plan::new(maria, source);
    p.checksum = Some(if crc { "CRC32".into() } else { "NONE".into() });
    let mut o = options(BinlogOptions::from_end(), 0);
    vary_auth(s, &mut p, &mut o, true);
    match s.below(3) {
        0 => {}
        1 => o.binlog = BinlogOptions::from_position("binlog.000001".into(), 4),
        _ => {
            o.binlog = if maria {
                BinlogOptions::from_mariadb_gtid(GtidList::parse("0-1-5").map_err(|e| Fail::new(format!("{:?}", e)))?)
            } else {
                BinlogOptions::from_mysql_gtid(GtidSet::parse("").map_err(|e| Fail::new(format!("{:?}", e)))?)
            }
        }
    }
    o.blocking = s.flip();
    let mut cl = BinlogClient::new(o);
    if s.chance(1, 4) {
        // an earlier session of the same client, with another heartbeat interval
        let first = AtomicBool::new(true);
        let inner = std::mem::replace(&mut p.source, Box::new(|_, _| Err(String::new())));
        p.source = Box::new(move |d, v| match first.swap(false, Ordering::SeqCst) {
            true => Ok(Stream { out: vec![], end: End::Eof, cut: None }),
            false => inner(d, v),
        });
        cl.options.heartbeat_interval = Duration::from_millis(*s.pick(&[90_000, 0, 1, 400_000, 30_000]));
        let (r, log) = serve(&p, |port| -> Res {
            cl.options.port = port;
            let mut evs = match sut(|| cl.replicate()) {
                Err(e) => fail!("replicate() fails in the first session: {:?}", e),
                Ok(x) => x,
            };
            let (items, ended) = drain(&mut evs, 1);
            ensure!(ended && items.is_empty(), "the first session gives {:?}", items.first().map(|x| clip(&format!("{:?}", x), 300)));
            Ok(())
        });
        check_log(&log)?;
        r?;
    }
    Ok((p, cl))
}

/// How long the server waits, beyond the heartbeat interval, to be given up.
const PATIENCE: Duration = Duration::from_secs(40);
/// The allowance for latency, and for a busy machine.
const ALLOWANCE: Duration = Duration::from_secs(28);

fn c21_silence(s: &mut Src, c: &mut Case) -> Res {
    let mut interval = Duration::from_millis(*s.pick(&[1000, 0, 1, 100, 500, 999, 1500, 2000, 3000, 10_000, 16_000, 24_000]));
    if s.chance(1, 16) {
        interval = Duration::from_secs(*s.pick(&[36, 50, 65, 95]));
    }
    let (mut steps, crc, crc_end) = timeline_end(s);
    let in_stream = s.flip();
    let mut n_stream = s.below(steps.len() + 1);
    let mut beats = 0;
    if in_stream && s.chance(1, 3) {
        // the silence follows a long run of heartbeats
        beats = *s.pick(&[20usize, 60, 200, 1000]);
        for _ in 0..beats {
            let h = Hdr { ts: 0, server_id: 1, log_pos: 4, flags: 0 };
            let ev = if s.chance(1, 8) { Ev::query("SELECT 1") } else { Ev::Heartbeat("binlog.000001".into()) };
            let bytes = ev.wire(&h, crc_end);
            steps.push(Step { ev, h, bytes, bad: false });
        }
        n_stream = steps.len();
    }
    let out_src: Vec<Vec<u8>> = steps.iter().map(|x| pkt(&x.bytes)).collect();
    let hold = interval + PATIENCE;
    let mid = if s.flip() { s.draw(30) as usize } else { 0 };
    let source: net::Source = Box::new(move |_, _| {
        let upto = if in_stream { n_stream } else { out_src.len() };
        Ok(Stream { out: out_src[..upto].iter().map(|x| Out::Packet(x.clone())).collect(), end: End::Silence(hold), cut: None })
    });
    let (mut p, mut cl) = setup_c21(s, source, crc)?;
    p.idle = hold;
    cl.options.heartbeat_interval = interval;
    if !in_stream || mid > 0 {
        p.fault = Some((s.draw(26) as usize, Fault::Silence(mid, hold)));
    }
    c.note(|| format!("heartbeat interval {:?}; silence {:?} or after {} events of the stream", interval, p.fault, n_stream));
    let (r, log) = serve(&p, |port| {
        cl.options.port = port;
        let r = match sut(|| cl.replicate()) {
            Err(e) => Err(e),
            Ok(mut evs) => {
                let mut n = 0;
                loop {
                    match sut(|| evs.next()) {
                        None => break Ok(format!("the end of the stream after {} events", n)),
                        Some(Ok(_)) => n += 1,
                        Some(Err(e)) => break Err(e),
                    }
                    if n > 100 + beats {
                        break Ok("endless events".into());
                    }
                }
            }
        };
        (r, Instant::now())
    });
    let (r, at) = r;
    let Some(since) = log.silent_at else {
        check_log(&log)?;
        fail!("harness: the server did not fall silent: {:?}", r);
    };
    let took = at.saturating_duration_since(since);
    match r {
        Ok(x) => fail!("a server that has fallen silent gives {} after {:?}", x, took),
        Err(e) => {
            let timeout = match &e {
                Error::IoError(e) => matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut),
                e => format!("{:?}", e).to_lowercase().contains("within the specified interval") || format!("{:?}", e).to_lowercase().contains("time"),
            };
            ensure!(timeout, "a server that has fallen silent for {:?} (heartbeat interval {:?}) gives {:?} instead of a timeout", took, interval, e);
            ensure!(took < interval + ALLOWANCE, "the silence is noticed after {:?} only, with a heartbeat interval of {:?}", took, interval);
            ensure!(
                took + Duration::from_millis(20) >= interval,
                "the client gives up after {:?}, within the heartbeat interval of {:?}",
                took,
                interval
            );
        }
    }
    c.label(match (log.authed, log.dump.is_some()) {
        (_, true) => "silence in the stream",
        (Some(_), _) => "silence during setup",
        _ => "silence during authentication",
    });
    c.label_if(mid > 0 && log.fault_hit, "inside of a packet");
    c.label_if(beats > 0 && log.dump.is_some(), "after many heartbeats");
    c.nontrivial = true;
    Ok(())
}

fn c21_alive(s: &mut Src, c: &mut Case) -> Res {
    let mut interval = Duration::from_millis(*s.pick(&[14_000, 13_000, 12_500, 16_000, 21_500, 25_000, 30_000]));
    if s.chance(1, 10) {
        interval = Duration::from_secs(*s.pick(&[36, 48, 66, 85, 105, 135]));
    }
    let pause = interval.mul_f64(*s.pick(&[0.9, 0.93, 0.95]));
    let (steps, crc) = timeline(s);
    // a pause before or inside of any packet, or before an event of the stream
    let early = s.flip();
    let at = s.below(steps.len());
    let steps: Vec<Step> = steps;
    let out_src: Vec<Vec<u8>> = steps.iter().map(|x| pkt(&x.bytes)).collect();
    let source: net::Source = Box::new(move |_, _| {
        let mut out = vec![];
        for (i, x) in out_src.iter().enumerate() {
            // never two pauses in a row
            if i == at && !early {
                out.push(Out::Pause(pause));
            }
            out.push(Out::Packet(x.clone()));
        }
        Ok(Stream { out, end: End::Eof, cut: None })
    });
    let (mut p, mut cl) = setup_c21(s, source, crc)?;
    p.idle = Duration::from_secs(60) + interval;
    cl.options.heartbeat_interval = interval;
    if early {
        let mid = if s.flip() { s.draw(30) as usize } else { 0 };
        p.fault = Some((s.draw(24) as usize, Fault::Gap(mid, pause)));
    }
    c.note(|| format!("heartbeat interval {:?}; pause of {:?} {}", interval, pause, match &p.fault {
        Some(f) => format!("in packet {:?}", f),
        None => format!("before event {} of the stream", at),
    }));
    let n = steps.len();
    let late = AtomicBool::new(false);
    let t0 = Mutex::new(None);
    let (r, log) = serve(&p, |port| -> Res {
        cl.options.port = port;
        *t0.lock().unwrap() = Some(Instant::now());
        let mut evs = match sut(|| cl.replicate()) {
            Err(e) => fail!("a server that pauses {:?}, within the heartbeat interval of {:?}: {:?}", pause, interval, e),
            Ok(x) => x,
        };
        late.store(true, Ordering::SeqCst);
        let (items, ended) = drain(&mut evs, n + 1);
        ensure!(
            ended,
            "a server that pauses {:?}, within the heartbeat interval of {:?}: {} items of {} events and no end: {}",
            pause,
            interval,
            items.len(),
            n,
            items.iter().map(|x| clip(&format!("{:?}", x), 300)).collect::<Vec<_>>().join("\n")
        );
        check_items(&steps, items)
    });
    check_log(&log)?;
    c.label(match (early, log.fault_hit) {
        (false, _) => "pause in the stream",
        (true, true) => "pause at any packet",
        _ => "no pause",
    });
    c.nontrivial = !early || log.fault_hit;
    r
}

/// Heartbeats and events keep arriving, each within the interval, for far longer than it.
fn c21_beats(s: &mut Src, c: &mut Case) -> Res {
    let interval = Duration::from_millis(*s.pick(&[3000, 1000, 2000, 6000, 0]));
    // the period of a server's heartbeats, or of its events if there are no heartbeats
    let period = if interval.is_zero() { Duration::from_secs(5) } else { interval.mul_f64(*s.pick(&[0.95, 1.0, 0.9])) };
    let total = 2.0 * (interval.as_secs_f64() + 10.0) + 3.0;
    let n = (total / period.as_secs_f64()).ceil() as usize;
    let (mut steps, crc, crc_end) = timeline_end(s);
    let first = steps.len();
    for _ in 0..n {
        let h = Hdr { ts: 0, server_id: 1, log_pos: s.draw(1 << 20) as u32, flags: 0 };
        let ev = if interval.is_zero() { Ev::query("SELECT 1") } else { Ev::Heartbeat("binlog.000001".into()) };
        let bytes = ev.wire(&h, crc_end);
        steps.push(Step { ev, h, bytes, bad: false });
    }
    let out_src: Vec<Vec<u8>> = steps.iter().map(|x| pkt(&x.bytes)).collect();
    let source: net::Source = Box::new(move |_, _| {
        let mut out = vec![];
        for (i, x) in out_src.iter().enumerate() {
            if i >= first {
                out.push(Out::Pause(period));
            }
            out.push(Out::Packet(x.clone()));
        }
        Ok(Stream { out, end: End::Eof, cut: None })
    });
    let (mut p, mut cl) = setup_c21(s, source, crc)?;
    p.idle = Duration::from_secs(60);
    cl.options.heartbeat_interval = interval;
    c.note(|| format!("heartbeat interval {:?}; a packet every {:?}, {} times", interval, period, n));
    let total = steps.len();
    let (r, log) = serve(&p, |port| -> Res {
        cl.options.port = port;
        let mut evs = match sut(|| cl.replicate()) {
            Err(e) => fail!("replicate() fails: {:?}", e),
            Ok(x) => x,
        };
        let (items, ended) = drain(&mut evs, total + 1);
        ensure!(
            ended,
            "a server that sends a packet every {:?}, with a heartbeat interval of {:?}: {} items of {} events and no end: {}",
            period,
            interval,
            items.len(),
            total,
            items.iter().rev().take(1).map(|x| clip(&format!("{:?}", x), 300)).collect::<Vec<_>>().join("")
        );
        check_items(&steps, items)
    });
    check_log(&log)?;
    c.nontrivial = true;
    r
}

/// An event that takes several packets: pauses between these, or silence in one of them.
fn c21_large(s: &mut Src, c: &mut Case) -> Res {
    let silent = s.flip();
    let (mut steps, crc, crc_end) = timeline_end(s);
    let n = if silent { 2 } else { 4 };
    let interval = if silent { Duration::from_millis(*s.pick(&[1000, 0, 500, 3000])) } else { Duration::from_secs(*s.pick(&[12, 13])) };
    let pause = interval.mul_f64(0.92);
    let hold = interval + PATIENCE;
    // of a type that is not decoded
    let ev = Ev::Unknown(200, vec![0; (n - 1) * 0xff_ffff + 10]);
    let h = Hdr { ts: 0, server_id: 1, log_pos: 0, flags: 0 };
    let bytes = ev.wire(&h, crc_end);
    let whole = pkt(&bytes);
    let mut raw = vec![];
    let mut heads = vec![];
    let seq = 1 + steps.len();
    for (i, x) in whole.chunks(0xff_ffff).enumerate() {
        heads.push(raw.len());
        let k = x.len();
        raw.extend_from_slice(&[k as u8, (k >> 8) as u8, (k >> 16) as u8, (seq + i) as u8]);
        raw.extend_from_slice(x);
    }
    drop(whole);
    let cut = heads[1] + *s.pick(&[0usize, 1, 3, 4, 5, 14]);
    let raw = Arc::new(raw);
    let lead: Vec<Vec<u8>> = steps.iter().map(|x| pkt(&x.bytes)).collect();
    let source: net::Source = Box::new(move |_, _| {
        let mut out: Vec<Out> = lead.iter().map(|x| Out::Packet(x.clone())).collect();
        if silent {
            out.push(Out::Raw(raw.clone(), 0, cut));
            return Ok(Stream { out, end: End::Silence(hold), cut: None });
        }
        for (i, &at) in heads.iter().enumerate() {
            if i > 0 {
                out.push(Out::Pause(pause));
            }
            out.push(Out::Raw(raw.clone(), at, heads.get(i + 1).copied().unwrap_or(raw.len())));
        }
        Ok(Stream { out, end: End::Close, cut: None })
    });
    let (mut p, mut cl) = setup_c21(s, source, crc)?;
    p.idle = Duration::from_secs(60) + interval;
    cl.options.heartbeat_interval = interval;
    c.note(|| match silent {
        true => format!("heartbeat interval {:?}; silence after {} bytes of an event of two packets", interval, cut),
        false => format!("heartbeat interval {:?}; {:?} between the {} packets of an event", interval, pause, n),
    });
    c.label(if silent { "silence in a large event" } else { "pauses in a large event" });
    c.nontrivial = true;
    if !silent {
        steps.push(Step { ev, h, bytes, bad: false });
    }
    let (r, log) = serve(&p, |port| -> Res {
        cl.options.port = port;
        let mut evs = match sut(|| cl.replicate()) {
            Err(e) => fail!("replicate() fails: {:?}", e),
            Ok(x) => x,
        };
        for st in &steps {
            match sut(|| evs.next()) {
                Some(Ok((hd, e))) if !st.bad => check_item(&st.ev, &st.h, st.bytes.len(), Ok((hd, e)))?,
                Some(Err(_)) if st.bad => {}
                x => fail!("{} gives {}", clip(&st.ev.describe(), 100), clip(&format!("{:?}", x), 300)),
            }
        }
        if !silent {
            return Ok(());
        }
        let t = Instant::now();
        let x = sut(|| evs.next());
        let took = t.elapsed();
        let timeout = match &x {
            Some(Err(Error::IoError(e))) => matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut),
            Some(Err(e)) => format!("{:?}", e).to_lowercase().contains("time") || format!("{:?}", e).to_lowercase().contains("within the specified interval"),
            _ => false,
        };
        ensure!(timeout, "silence of {:?} in a large event (heartbeat interval {:?}) gives {} instead of a timeout", took, interval, clip(&format!("{:?}", x), 300));
        ensure!(took < interval + ALLOWANCE, "silence in a large event is noticed after {:?} only, with a heartbeat interval of {:?}", took, interval);
        Ok(())
    });
    if !silent {
        check_log(&log)?;
    }
    r
}

/// Most of the time of a case is spent waiting, so all kinds of cases run at the same time.
fn c21(s: &mut Src, c: &mut Case) -> Res {
    match s.weighted(&[60, 30, 10, 4]) {
        0 => c21_silence(s, c),
        1 => c21_alive(s, c),
        3 => c21_large(s, c),
        _ => {
            c.label("a packet in every interval");
            c21_beats(s, c)
        }
    }
}

pub fn props() -> Vec<Prop> {
    let mut c09 = c09_parts();
    c09.push(part("stream", 12_000, 250_000, c09_stream));
    c09.push(part("names", 6_000, 60_000, c09_names));
    vec![
        Prop {
            id: "C09",
            level: "exploration",
            rule: "a case is non-trivial if its history has three events or more (parts unknown and names: the algorithm or setting is an unknown one)",
            assumptions: &["Checksum values are not verified by the library, as documented, so only their removal is checked."],
            parts: c09,
        },
        Prop {
            id: "C16",
            level: "exploration",
            rule: "a case is non-trivial if the password is not empty or the plugin is not supported",
            assumptions: &["The model server in harness/src/net.rs follows the documented client/server protocol.", "Scrambles are 7-bit without NUL, as servers make them. TLS is not implemented by the library."],
            parts: vec![part("conversations", 60_000, 1_500_000, c16)],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "a case is non-trivial if a dump is requested",
            assumptions: &["The model server in harness/src/net.rs follows the documented client/server protocol.", "Heartbeat intervals up to one year."],
            parts: vec![part("conversations", 100_000, 3_000_000, c17), part("large", 240, 4_000, c17_large)],
        },
        Prop {
            id: "C24",
            level: "exploration",
            rule: "a case is non-trivial if encryption is demanded, or asked for and offered",
            assumptions: &["The library implements no TLS: a refusal is all that can be observed. It may be an error or, as on the pinned tree, a panic."],
            parts: vec![part("conversations", 12_000, 300_000, c24)],
        },
        Prop {
            id: "C18",
            level: "fault_enumeration",
            rule: "a case is non-trivial if the failing step comes after the greeting",
            assumptions: &["The model server in harness/src/net.rs follows the documented client/server protocol."],
            parts: vec![part("conversations", 70_000, 2_000_000, c18), part("refused", 500, 5_000, c18_refused)],
        },
        Prop {
            id: "C19",
            level: "exploration",
            rule: "a case is non-trivial if a packet was replaced or the stream was edited",
            assumptions: &["Panics, aborts and endless CPU use are violations; what the client makes of a malformed packet is not judged."],
            parts: vec![part("conversations", 100_000, 4_000_000, c19), part("commits", 150_000, 6_000_000, c19_commit)],
        },
        Prop {
            id: "C20",
            level: "fault_enumeration",
            rule: "a case is non-trivial if three events or more are complete before the end",
            assumptions: &["The model server in harness/src/net.rs follows the documented client/server protocol.", "Events of up to 50 MB."],
            parts: vec![part("streams", 50_000, 1_500_000, c20), part("large", 64, 1_200, c20_large), part("long", 60, 2_000, c20_long)],
        },
        Prop {
            id: "C21",
            level: "fault_enumeration",
            rule: "every case is non-trivial: the server falls silent, pauses for 90 to 95 % of the heartbeat interval, or keeps sending that often",
            assumptions: &["A silence must be noticed within the heartbeat interval plus 28 s and not within the interval."],
            parts: vec![
                Part { name: "conversations", quick: 500, thorough: 10_000, threads: 500, f: c21 },
            ],
        },
    ]
}
