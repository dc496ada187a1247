//! A model server for the MySQL/MariaDB replication protocol: it judges every packet of the
//! client by its own implementation of the protocol and answers by the plan of the case.
use crate::engine::*;
use crate::enc::{Sid, W};
use crate::hist::Sent;
use openssl::pkey::Private;
use openssl::rsa::{Padding, Rsa};
use sha1::Sha1;
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const NATIVE: &str = "mysql_native_password";
pub const SHA2: &str = "caching_sha2_password";
/// A client that sends nothing for so long is waiting for something that will never come.
const IDLE: Duration = Duration::from_secs(10);

pub fn rsa() -> &'static Rsa<Private> {
    key(1)
}
/// The key pair of a server, one of a few. Some are larger than the usual ones.
pub fn key(server: u32) -> &'static Rsa<Private> {
    static K: [OnceLock<Rsa<Private>>; 4] = [const { OnceLock::new() }; 4];
    let (i, bits) = match server % 16 {
        0 => (0, 4096),
        1..=5 => (1, 2048),
        6..=10 => (2, 2048),
        _ => (3, 3072),
    };
    K[i].get_or_init(|| Rsa::generate(bits).expect("rsa"))
}

fn sha1(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha1::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
fn sha256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}

/// What a server accepts as proof of the password.
pub fn proof(plugin: &str, password: &str, nonce: &[u8]) -> Vec<u8> {
    if password.is_empty() {
        return vec![];
    }
    let pw = password.as_bytes();
    if plugin == NATIVE {
        let a = sha1(&[pw]);
        let b = sha1(&[nonce, &sha1(&[&a])]);
        a.iter().zip(b).map(|(x, y)| x ^ y).collect()
    } else {
        let a = sha256(&[pw]);
        let b = sha256(&[&sha256(&[&a]), nonce]);
        a.iter().zip(b).map(|(x, y)| x ^ y).collect()
    }
}

// --------------------------------------------------------------------------------------- plans

#[derive(Clone, Debug)]
pub struct ErrPkt {
    pub code: u16,
    pub state: Option<String>,
    pub msg: String,
    /// what is left of a character that the server cut
    pub cut: Vec<u8>,
}
impl ErrPkt {
    pub fn new(code: u16, msg: &str) -> ErrPkt {
        ErrPkt { code, state: Some("HY000".into()), msg: msg.into(), cut: vec![] }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut w = W::new();
        w.u8(0xff).u16(self.code);
        if let Some(s) = &self.state {
            w.u8(b'#').b(s.as_bytes());
        }
        w.b(self.msg.as_bytes()).b(&self.cut);
        w.0
    }
    /// The text of the client's error must carry the code, the SQL state and the message.
    pub fn within(&self, text: &str) -> bool {
        let esc = format!("{:?}", self.msg);
        let code = self.code.to_string();
        let has_code = text.match_indices(&code).any(|(i, _)| {
            let b = text.as_bytes();
            (i == 0 || !b[i - 1].is_ascii_digit()) && b.get(i + code.len()).map(|c| !c.is_ascii_digit()).unwrap_or(true)
        });
        has_code && (text.contains(&self.msg) || text.contains(&esc[1..esc.len() - 1]) || {
            // escaped twice by a Debug of a Debug
            let e2 = format!("{:?}", &esc[1..esc.len() - 1]);
            text.contains(&e2[1..e2.len() - 1])
        }) && self.state.as_ref().map(|s| !s.bytes().all(|c| c.is_ascii_alphanumeric()) || text.contains(s.as_str())).unwrap_or(true)
    }
}

#[derive(Clone, Debug)]
pub enum Fault {
    /// An error packet in place of the packet
    Err(ErrPkt),
    /// The connection ends there
    Close,
    /// Only so many bytes of the packet, then the connection ends
    Partial(usize),
    /// Another payload and sequence number, and on with the conversation
    Payload(Vec<u8>, u8),
    /// The payload after these edits, and on with the conversation
    Edit(Vec<(u8, u64, u8)>),
    /// These bytes as they are, then the connection ends
    Raw(Vec<u8>),
    /// The packet after so many bytes and this pause
    Gap(usize, Duration),
    /// Nothing any more: hold the connection for that long after `Partial` bytes of the packet
    Silence(usize, Duration),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Last {
    /// OK or ERR, whichever is right
    Normal,
    Other(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Auth {
    pub offered: String,
    pub switch: Option<(String, Vec<u8>)>,
    /// caching SHA-2: the account is in the cache of the server
    pub cached: bool,
    /// The password of the account
    pub account: String,
    pub refusal: ErrPkt,
    pub last: Last,
}

pub enum End {
    Eof,
    Err(ErrPkt),
    Close,
    Packet(Vec<u8>),
    /// Silence for that long, then close
    Silence(Duration),
}

pub enum Out {
    /// a packet with this payload
    Packet(Vec<u8>),
    Pause(Duration),
    /// bytes that are no whole packet
    Raw(Arc<Vec<u8>>, usize, usize),
    /// goes on once the client has come so far
    Wait(Arc<Gate>, usize),
    /// a packet, whose first bytes are sent before the client has come so far
    Split(Vec<u8>, usize, Arc<Gate>, usize),
}

/// How far the client has come.
#[derive(Default)]
pub struct Gate {
    n: Mutex<usize>,
    cv: Condvar,
}

impl Gate {
    pub fn pass(&self) {
        *self.n.lock().unwrap() += 1;
        self.cv.notify_all();
    }
    /// False if it takes too long.
    fn wait(&self, k: usize) -> bool {
        let g = self.n.lock().unwrap();
        let (g, _) = self.cv.wait_timeout_while(g, GATE, |n| *n < k).unwrap();
        *g >= k
    }
}

/// How long the client may take to deliver what it has
pub const GATE: Duration = Duration::from_secs(20);

pub struct Stream {
    pub out: Vec<Out>,
    pub end: End,
    /// the connection is lost after so many bytes of the stream
    pub cut: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dump {
    pub gtid: Option<Vec<(Sid, Vec<(u64, u64)>)>>,
    pub file: String,
    pub pos: u64,
    pub flags: u16,
    pub server_id: u32,
}

pub type Vars = BTreeMap<String, Option<String>>;
pub type Source<'a> = Box<dyn Fn(&Dump, &Vars) -> Result<Stream, String> + Send + Sync + 'a>;

pub struct Plan<'a> {
    pub version: String,
    pub scramble: Vec<u8>,
    pub conn_id: u32,
    pub caps: u64,
    pub collation: u8,
    pub status: u16,
    pub auth: Auth,
    /// what the client must present
    pub user: String,
    pub password: String,
    pub db: Option<String>,
    /// @@global.binlog_checksum
    pub checksum: Option<String>,
    /// the row of SHOW MASTER STATUS
    pub master: Option<Vec<String>>,
    pub server_id: u32,
    pub source: Source<'a>,
    pub fault: Option<(usize, Fault)>,
    /// seed of the TCP segmentation; 0: one write for each packet
    pub split: u64,
    /// pauses of the server before each packet until the stream starts
    pub lag: Duration,
    /// the client is not expected to make sense of what it gets
    pub lenient: bool,
    /// how long the server waits for the client
    pub idle: Duration,
    /// the greeting ends with a NUL after the plugin's name (not so before 5.5.10 and 5.6.2)
    pub nul: bool,
}

pub const CAPS_MYSQL: u64 = 0x81ff_f7ff & !(1 << 11) & !(1 << 5);
pub const CAPS_MARIA: u64 = 0x1f_81ff_f7fe & !(1 << 11) & !(1 << 5);

impl<'a> Plan<'a> {
    pub fn new(maria: bool, source: Source<'a>) -> Plan<'a> {
        Plan {
            version: if maria { "5.5.5-10.6.12-MariaDB-log".into() } else { "8.0.32".into() },
            scramble: b"abcdefghijklmnopqrst".to_vec(),
            conn_id: 7,
            caps: if maria { CAPS_MARIA } else { CAPS_MYSQL },
            collation: 45,
            status: 2,
            auth: Auth {
                offered: NATIVE.into(),
                switch: None,
                cached: true,
                account: "secret".into(),
                refusal: ErrPkt { code: 1045, state: Some("28000".into()), msg: "Access denied for user".into(), cut: vec![] },
                last: Last::Normal,
            },
            user: "repl".into(),
            password: "secret".into(),
            db: None,
            checksum: Some("CRC32".into()),
            master: Some(vec!["binlog.000001".into(), "4".into(), String::new(), String::new()]),
            server_id: 1,
            source,
            fault: None,
            split: 0,
            lag: Duration::ZERO,
            lenient: false,
            idle: IDLE,
            nul: true,
        }
    }
}

/// Packets of a history of events.
pub fn packets(v: &[Sent]) -> Vec<Out> {
    v.iter()
        .map(|s| {
            let mut p = Vec::with_capacity(s.bytes.len() + 1);
            p.push(0);
            p.extend_from_slice(&s.bytes);
            Out::Packet(p)
        })
        .collect()
}

// ----------------------------------------------------------------------------------------- log

#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    Query(String),
    Dump(Dump),
    Register { server_id: u32, rest_ok: bool },
    Quit,
    Other(Vec<u8>),
}

#[derive(Default, Debug)]
pub struct Log {
    pub accepted: bool,
    /// a handshake response arrived
    pub response: bool,
    /// the server's verdict
    pub authed: Option<bool>,
    pub errs: Vec<String>,
    pub reqs: Vec<Req>,
    pub after: Vec<Req>,
    pub vars: Vars,
    pub status_reads: usize,
    pub dump: Option<Dump>,
    /// packets sent
    pub packets: usize,
    /// packet number at the start of the stream
    pub stream_at: Option<usize>,
    pub fault_hit: bool,
    pub idle: bool,
    pub extra: usize,
    /// everything the client sent in the connection phase, packet by packet
    pub auth_packets: Vec<Vec<u8>>,
    pub raw: Vec<u8>,
    /// how much of it was before the first request (all, if it is 0)
    pub auth_len: usize,
    /// when the server fell silent and when the client went away
    pub silent_at: Option<Instant>,
    pub closed_at: Option<Instant>,
}

enum Stop {
    /// The client closed
    Closed,
    /// A fault or the end: listen to what else the client asks
    Listen,
    Idle,
    /// close without listening
    Drop,
}
type Ctl<T> = Result<T, Stop>;

struct Conn<'p, 'a> {
    sock: TcpStream,
    plan: &'p Plan<'a>,
    log: Log,
    seq: u8,
    rng: Rng,
    budget: Option<usize>,
    caps: u64,
}

fn quickack(s: &TcpStream) {
    let one: libc::c_int = 1;
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::IPPROTO_TCP,
            libc::TCP_QUICKACK,
            &one as *const _ as *const libc::c_void,
            4,
        );
    }
}

impl<'p, 'a> Conn<'p, 'a> {
    fn read_exact(&mut self, buf: &mut [u8]) -> Ctl<()> {
        let mut n = 0;
        while n < buf.len() {
            match self.sock.read(&mut buf[n..]) {
                Ok(0) => return Err(Stop::Closed),
                Ok(k) => {
                    self.log.raw.extend_from_slice(&buf[n..n + k]);
                    n += k;
                    quickack(&self.sock);
                }
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => return Err(Stop::Idle),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => return Err(Stop::Closed),
            }
        }
        Ok(())
    }
    /// A payload with the sequence numbers of its first and its last packet.
    fn recv(&mut self) -> Ctl<(Vec<u8>, u8, u8)> {
        let mut all = vec![];
        let mut seqs: Option<(u8, u8)> = None;
        loop {
            let mut h = [0u8; 4];
            self.read_exact(&mut h)?;
            let n = h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16;
            let at = all.len();
            all.resize(at + n, 0);
            self.read_exact(&mut all[at..])?;
            let first = match seqs {
                None => h[3],
                Some((first, last)) => {
                    if h[3] != last.wrapping_add(1) {
                        self.bad(format!("a packet with sequence number {} continues one with {}", h[3], last));
                    }
                    first
                }
            };
            seqs = Some((first, h[3]));
            // a payload of 16 MB or more is continued in the next packet
            if n < 0xff_ffff {
                return Ok((all, first, h[3]));
            }
        }
    }
    fn put(&mut self, b: &[u8]) -> Ctl<()> {
        let mut b = b;
        let mut lost = false;
        if let Some(left) = &mut self.budget {
            if *left < b.len() {
                b = &b[..*left];
                lost = true;
            }
            *left -= b.len();
        }
        if self.plan.split == 0 {
            self.sock.write_all(b).map_err(|_| Stop::Closed)?;
        } else {
            let mut i = 0;
            while i < b.len() {
                let n = match self.rng.below(4) {
                    0 => 1,
                    1 => 1 + self.rng.below(5),
                    2 => 1 + self.rng.below(60),
                    _ => 1 + self.rng.below(1 + b.len() as u64 / 3),
                } as usize;
                // many tiny writes only where they matter
                let n = if b.len() - i > 4000 && i > 200 { n.max(2000) } else { n };
                let e = (i + n).min(b.len());
                self.sock.write_all(&b[i..e]).map_err(|_| Stop::Closed)?;
                i = e;
                if self.rng.below(24) == 0 {
                    std::thread::sleep(Duration::from_micros(60));
                }
            }
        }
        if lost { Err(Stop::Drop) } else { Ok(()) }
    }
    fn raw_packet(&mut self, payload: &[u8], seq: u8) -> Ctl<()> {
        // a payload of 16 MB or more takes several packets, the last of which is shorter
        let mut rest = payload;
        let mut seq = seq;
        loop {
            let n = rest.len().min(0xff_ffff);
            let mut v = Vec::with_capacity(n + 4);
            v.extend_from_slice(&[n as u8, (n >> 8) as u8, (n >> 16) as u8, seq]);
            v.extend_from_slice(&rest[..n]);
            self.put(&v)?;
            rest = &rest[n..];
            if n < 0xff_ffff {
                return Ok(());
            }
            seq = seq.wrapping_add(1);
            self.seq = self.seq.wrapping_add(1);
        }
    }
    fn send(&mut self, payload: &[u8]) -> Ctl<()> {
        if !self.plan.lag.is_zero() && self.log.stream_at.is_none() {
            std::thread::sleep(self.plan.lag);
        }
        let i = self.log.packets;
        self.log.packets += 1;
        let seq = self.seq;
        self.seq = self.seq.wrapping_add(1);
        if let Some((k, f)) = &self.plan.fault {
            if *k == i {
                self.log.fault_hit = true;
                match f.clone() {
                    Fault::Err(e) => {
                        self.raw_packet(&e.bytes(), seq)?;
                        return Err(Stop::Listen);
                    }
                    Fault::Close => return Err(Stop::Drop),
                    Fault::Partial(n) => {
                        let l = payload.len();
                        let mut v = vec![l as u8, (l >> 8) as u8, (l >> 16) as u8, seq];
                        v.extend_from_slice(payload);
                        v.truncate(n.min(l + 3));
                        self.put(&v)?;
                        return Err(Stop::Drop);
                    }
                    Fault::Payload(p, s) => return self.raw_packet(&p, s),
                    Fault::Edit(ops) => {
                        let mut p = payload.to_vec();
                        for (op, at, v) in ops {
                            let n = p.len() as u64;
                            let at = if n == 0 { 0 } else { (at % n) as usize };
                            match op {
                                0 => p.truncate(at),
                                1 if n > 0 => p[at] = v,
                                2 if n > 0 => p[at] ^= 1 << (v % 8),
                                3 => p.insert(at, v),
                                4 if n > 0 => {
                                    p.remove(at);
                                }
                                5 if n > 0 => {
                                    let t = p[at..].to_vec();
                                    p.extend_from_slice(&t);
                                }
                                _ => p.push(v),
                            }
                        }
                        return self.raw_packet(&p, seq);
                    }
                    Fault::Raw(b) => {
                        self.put(&b)?;
                        return Err(Stop::Drop);
                    }
                    Fault::Gap(n, d) => {
                        let l = payload.len();
                        let mut v = vec![l as u8, (l >> 8) as u8, (l >> 16) as u8, seq];
                        v.extend_from_slice(payload);
                        let n = n.min(v.len());
                        self.put(&v[..n])?;
                        std::thread::sleep(d);
                        return self.put(&v[n..]);
                    }
                    Fault::Silence(n, d) => {
                        let l = payload.len();
                        let mut v = vec![l as u8, (l >> 8) as u8, (l >> 16) as u8, seq];
                        v.extend_from_slice(payload);
                        v.truncate(n.min(l + 3));
                        self.put(&v)?;
                        return self.silence(d);
                    }
                }
            }
        }
        self.raw_packet(payload, seq)
    }
    /// Holds the connection until the client goes away, or for that long.
    fn silence(&mut self, d: Duration) -> Ctl<()> {
        self.log.silent_at = Some(Instant::now());
        let _ = self.sock.set_read_timeout(Some(d));
        let mut b = [0u8; 1024];
        loop {
            match self.sock.read(&mut b) {
                Ok(n) if n > 0 => self.log.raw.extend_from_slice(&b[..n]),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => return Err(Stop::Drop),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                _ => {
                    self.log.closed_at = Some(Instant::now());
                    return Err(Stop::Closed);
                }
            }
        }
    }
    fn bad(&mut self, m: impl Into<String>) {
        if !self.plan.lenient {
            self.log.errs.push(m.into());
        }
    }
    fn err(&mut self, code: u16, msg: &str) -> Ctl<()> {
        self.send(&ErrPkt::new(code, msg).bytes())
    }
    fn ok(&mut self) -> Ctl<()> {
        self.send(&[0, 0, 0, 2, 0, 0, 0])
    }

    // ------------------------------------------------------------------ connection phase

    fn handshake(&mut self) -> Ctl<()> {
        let p = self.plan;
        let mut w = W::new();
        w.u8(10).b(p.version.as_bytes()).u8(0).u32(p.conn_id);
        w.b(&p.scramble[..8]).u8(0);
        w.u16(p.caps as u16).u8(p.collation).u16(p.status).u16((p.caps >> 16) as u16);
        w.u8(if p.caps & 1 << 19 != 0 { p.scramble.len() as u8 + 1 } else { 0 });
        w.b(&[0; 6]).u32((p.caps >> 32) as u32);
        w.b(&p.scramble[8..]).u8(0);
        w.b(p.auth.offered.as_bytes());
        if p.nul {
            w.u8(0);
        }
        self.send(&w.0)
    }

    /// The handshake response: (plugin, proof)
    fn response(&mut self, b: &[u8]) -> Result<(String, Vec<u8>), String> {
        fn take<'x>(r: &mut &'x [u8], n: usize, what: &str) -> Result<&'x [u8], String> {
            if r.len() < n {
                return Err(format!("handshake response ends inside of {}", what));
            }
            let (a, b) = r.split_at(n);
            *r = b;
            Ok(a)
        }
        fn text<'x>(r: &mut &'x [u8], what: &str) -> Result<&'x [u8], String> {
            let n = r.iter().position(|&c| c == 0).ok_or(format!("handshake response: {} without its end", what))?;
            let v = take(r, n, what)?;
            take(r, 1, what)?;
            Ok(v)
        }
        let mut r = b;
        let c = take(&mut r, 4, "flags")?;
        let caps = u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as u64;
        take(&mut r, 4, "packet size")?;
        let collation = take(&mut r, 1, "charset")?[0];
        let filler = take(&mut r, 23, "filler")?;
        if caps & 1 << 9 == 0 {
            return Err("the client does not speak protocol 4.1".into());
        }
        if filler[..19].iter().any(|&x| x != 0) {
            return Err("filler of the handshake response is not zero".into());
        }
        if caps & 1 << 11 != 0 {
            return Err("SSL requested with SSL disabled".into());
        }
        if caps & 1 << 5 != 0 {
            return Err("compression requested".into());
        }
        self.caps = caps & self.plan.caps;
        let user = text(&mut r, "user name")?;
        if user != self.plan.user.as_bytes() {
            return Err(format!("user {:?} instead of {:?}", String::from_utf8_lossy(user), self.plan.user));
        }
        let proof = if caps & 1 << 21 != 0 {
            let n = take(&mut r, 1, "proof")?[0] as usize;
            take(&mut r, n, "proof")?
        } else if caps & 1 << 15 != 0 {
            let n = take(&mut r, 1, "proof")?[0] as usize;
            take(&mut r, n, "proof")?
        } else {
            text(&mut r, "proof")?
        }
        .to_vec();
        let db = if caps & 1 << 3 != 0 { Some(String::from_utf8_lossy(text(&mut r, "database")?).to_string()) } else { None };
        if db != self.plan.db && !(db.is_none() && self.plan.db.as_deref() == Some("")) {
            return Err(format!("database {:?} instead of {:?}", db, self.plan.db));
        }
        if caps & 1 << 19 == 0 {
            return Err("the client does not name its plugin".into());
        }
        let plugin = String::from_utf8_lossy(text(&mut r, "plugin")?).to_string();
        if caps & 1 << 20 != 0 {
            let n = take(&mut r, 1, "attributes")?[0] as usize;
            take(&mut r, n, "attributes")?;
        }
        if !r.is_empty() {
            return Err(format!("{} bytes after the handshake response that its flags do not announce: {}", r.len(), hex(r)));
        }
        if plugin != self.plan.auth.offered {
            return Err(format!("plugin {:?} answered to {:?}", plugin, self.plan.auth.offered));
        }
        // A server reads all texts, later statements included, in the character set of the
        // declared collation (as far as it knows it).
        let wide = matches!(collation, 35 | 54..=56 | 60..=62 | 90 | 101..=151 | 159..=183);
        let utf8 = matches!(collation, 33 | 45 | 46 | 76 | 83 | 192..=215 | 223..=247 | 255);
        let ascii = user.is_ascii() && self.plan.db.iter().all(|d| d.is_ascii());
        if wide || (!ascii && !utf8) {
            return Err(format!("texts are declared to be of the collation {}", collation));
        }
        Ok((plugin, proof))
    }

    fn recv_auth(&mut self) -> Ctl<Vec<u8>> {
        let (b, seq, last) = self.recv()?;
        if seq != self.seq {
            self.bad(format!("sequence number {} instead of {} in the connection phase", seq, self.seq));
        }
        self.seq = last.wrapping_add(1);
        self.log.auth_packets.push(b.clone());
        Ok(b)
    }

    fn authenticate(&mut self) -> Ctl<()> {
        self.handshake()?;
        let b = self.recv_auth()?;
        self.log.response = true;
        let (mut plugin, mut got) = match self.response(&b) {
            Ok(x) => x,
            Err(e) => {
                self.bad(e);
                (self.plan.auth.offered.clone(), vec![])
            }
        };
        let mut nonce = self.plan.scramble.clone();
        let judge = |c: &mut Self, plugin: &str, nonce: &[u8], got: &[u8]| {
            let want = proof(plugin, &c.plan.password, nonce);
            if got != want {
                c.bad(format!("proof of the password for {}: {} instead of {}", plugin, hex(got), hex(&want)));
            }
            // the judgement of a server that knows the account's password only
            got == proof(plugin, &c.plan.auth.account, nonce)
        };
        let mut valid = if plugin == NATIVE || plugin == SHA2 { judge(self, &plugin, &nonce, &got) } else { false };
        if let Some((p, n)) = self.plan.auth.switch.clone() {
            let mut w = W::new();
            w.u8(0xfe).b(p.as_bytes()).u8(0).b(&n).u8(0);
            self.send(&w.0)?;
            got = self.recv_auth()?;
            plugin = p;
            nonce = n;
            if plugin != NATIVE && plugin != SHA2 {
                self.bad(format!("the client went on with the unsupported plugin {}", plugin));
            }
            valid = judge(self, &plugin, &nonce, &got);
        }
        if plugin == SHA2 && !got.is_empty() {
            if valid && self.plan.auth.cached {
                self.send(&[1, 3])?;
            } else {
                // full authentication; the password travels encrypted
                self.send(&[1, 4])?;
                let b = self.recv_auth()?;
                if b != [2] {
                    self.bad(format!("request of the public key: {}", hex(&b)));
                    self.err(1045, "full authentication requires an encrypted password")?;
                    return Err(Stop::Listen);
                }
                let mut w = W::new();
                let pair = key(self.plan.conn_id);
                w.u8(1).b(&pair.public_key_to_pem().expect("pem"));
                self.send(&w.0)?;
                let b = self.recv_auth()?;
                let mut plain = vec![0; pair.size() as usize];
                match pair.private_decrypt(&b, &mut plain, Padding::PKCS1_OAEP) {
                    Ok(n) => {
                        plain.truncate(n);
                        for (i, x) in plain.iter_mut().enumerate() {
                            *x ^= nonce[i % nonce.len()];
                        }
                        let mut want = self.plan.password.as_bytes().to_vec();
                        want.push(0);
                        if plain != want {
                            self.bad(format!("encrypted password: {:?} instead of {:?}", String::from_utf8_lossy(&plain), self.plan.password));
                        }
                        let mut acc = self.plan.auth.account.as_bytes().to_vec();
                        acc.push(0);
                        valid = plain == acc;
                    }
                    Err(_) => {
                        self.bad("the encrypted password cannot be decrypted");
                        valid = false;
                    }
                }
            }
        } else if plugin == SHA2 {
            valid = self.plan.auth.account.is_empty();
        }
        match self.plan.auth.last.clone() {
            Last::Other(b) => {
                self.log.authed = Some(false);
                self.send(&b)?;
                // the client may wait for more, in vain
                let _ = self.sock.set_read_timeout(Some(Duration::from_millis(60)));
                if b.first() == Some(&0xff) {
                    return Err(Stop::Listen);
                }
                // a client that takes this for success is not to fail for another reason
                Ok(())
            }
            Last::Normal => {
                self.log.authed = Some(valid);
                if valid {
                    self.ok()
                } else {
                    let e = self.plan.auth.refusal.bytes();
                    self.send(&e)?;
                    Err(Stop::Listen)
                }
            }
        }
    }

    // --------------------------------------------------------------------- command phase

    fn column(&mut self, name: &str) -> Ctl<()> {
        let mut w = W::new();
        w.lenstr(b"def").lenstr(b"").lenstr(b"").lenstr(b"").lenstr(name.as_bytes()).lenstr(b"");
        w.u8(0x0c).u16(45).u32(1024).u8(0xfd).u16(0).u8(31).u16(0);
        self.send(&w.0)
    }
    fn eof(&mut self) -> Ctl<()> {
        self.send(&[0xfe, 0, 0, 2, 0])
    }
    fn result(&mut self, cols: &[String], rows: &[Vec<Option<String>>]) -> Ctl<()> {
        let new_eof = self.caps & 1 << 24 != 0;
        let mut w = W::new();
        w.lenenc(cols.len() as u64);
        self.send(&w.0)?;
        for c in cols {
            self.column(c)?;
        }
        if !new_eof {
            self.eof()?;
        }
        for r in rows {
            let mut w = W::new();
            for c in r {
                match c {
                    None => {
                        w.u8(0xfb);
                    }
                    Some(c) => {
                        w.lenstr(c.as_bytes());
                    }
                }
            }
            self.send(&w.0)?;
        }
        if new_eof {
            self.send(&[0xfe, 0, 0, 2, 0, 0, 0])
        } else {
            self.eof()
        }
    }

    /// Value of an expression: None is an unknown variable.
    fn value(&self, e: &str) -> Result<Option<String>, String> {
        let t = e.trim();
        let l = t.to_lowercase();
        if let Some(x) = l.strip_prefix("@@") {
            let x = x.strip_prefix("global.").or(x.strip_prefix("session.")).unwrap_or(x);
            return match x.trim() {
                "binlog_checksum" => self.plan.checksum.clone().map(Some).ok_or("binlog_checksum".into()),
                "server_id" => Ok(Some(self.plan.server_id.to_string())),
                "version" => Ok(Some(self.plan.version.clone())),
                "gtid_mode" => Ok(Some("ON".into())),
                "server_uuid" => Ok(Some("24bc7850-2c16-11e6-a073-0242ac110002".into())),
                x => Err(x.to_string()),
            };
        }
        if let Some(x) = l.strip_prefix('@') {
            return Ok(self.log.vars.get(x.trim_matches('`')).cloned().flatten());
        }
        for q in ['\'', '"'] {
            if t.len() >= 2 && t.starts_with(q) && t.ends_with(q) {
                return Ok(Some(t[1..t.len() - 1].to_string()));
            }
        }
        match l.as_str() {
            "null" => return Ok(None),
            "unix_timestamp()" => return Ok(Some("1600000000".into())),
            "version()" => return Ok(Some(self.plan.version.clone())),
            _ => {}
        }
        if !t.is_empty() && t.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '-') {
            return Ok(Some(t.to_string()));
        }
        Ok(Some(t.to_string()))
    }

    fn query(&mut self, sql: &str) -> Ctl<()> {
        let t = sql.trim().trim_end_matches(';').trim();
        let l = t.to_lowercase();
        let words: Vec<&str> = l.split_whitespace().collect();
        if words.first() == Some(&"set") {
            if words.get(1).map(|w| w.starts_with("names") || w.starts_with("session") || w.starts_with("global")).unwrap_or(false) {
                return self.ok();
            }
            let mut new: Vec<(String, Option<String>)> = vec![];
            for a in split_top(t[3..].trim()) {
                let (name, e) = match a.split_once('=') {
                    Some((n, e)) => (n.trim().trim_end_matches(':').trim().to_lowercase(), e),
                    None => {
                        self.bad(format!("cannot make sense of the query {:?}", sql));
                        return self.err(1064, "You have an error in your SQL syntax");
                    }
                };
                let Some(name) = name.strip_prefix('@').map(|n| n.trim_matches('`').to_string()) else {
                    // a system variable
                    continue;
                };
                if name.starts_with('@') {
                    continue;
                }
                match self.value(e) {
                    Ok(v) => new.push((name, v)),
                    Err(v) => return self.err(1193, &format!("Unknown system variable '{}'", v)),
                }
            }
            self.log.vars.extend(new);
            return self.ok();
        }
        if l == "show master status" || l == "show binary log status" || l == "show binlog status" {
            self.log.status_reads += 1;
            let row = self.plan.master.clone();
            let n = row.as_ref().map(|r| r.len()).unwrap_or(4).max(1);
            let names = ["File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB", "Executed_Gtid_Set"];
            let cols: Vec<String> = (0..n).map(|i| names.get(i).unwrap_or(&"More").to_string()).collect();
            let rows: Vec<Vec<Option<String>>> = row.into_iter().map(|r| r.into_iter().map(Some).collect()).collect();
            return self.result(&cols, &rows);
        }
        if words.first() == Some(&"select") {
            let mut row = vec![];
            let mut cols = vec![];
            for e in split_top(t[6..].trim()) {
                match self.value(&e) {
                    Ok(v) => row.push(v),
                    Err(v) => return self.err(1193, &format!("Unknown system variable '{}'", v)),
                }
                cols.push(e.trim().to_string());
            }
            return self.result(&cols, &[row]);
        }
        if words.first() == Some(&"show") && l.contains("variables") {
            let name = l.rsplit("like").next().unwrap_or("").trim().trim_matches(|c| c == '\'' || c == '"').to_string();
            let rows = match self.value(&format!("@@{}", name)) {
                Ok(v) => vec![vec![Some(name), v]],
                Err(_) => vec![],
            };
            return self.result(&["Variable_name".into(), "Value".into()], &rows);
        }
        self.bad(format!("cannot make sense of the query {:?}", sql));
        self.err(1064, "You have an error in your SQL syntax")
    }

    fn commands(&mut self) -> Ctl<()> {
        loop {
            let (b, seq, last) = self.recv()?;
            if seq != 0 && self.log.authed == Some(false) {
                // the client goes on with the authentication
                return Err(Stop::Listen);
            }
            if seq != 0 {
                self.bad(format!("a command with sequence number {}", seq));
            }
            self.seq = last.wrapping_add(1);
            let req = parse_req(&b);
            if self.log.reqs.is_empty() {
                self.log.auth_len = self.log.raw.len().saturating_sub(b.len() + 4).max(1);
            }
            self.log.reqs.push(req.clone());
            match req {
                Req::Query(q) => self.query(&q)?,
                Req::Register { rest_ok, .. } => {
                    if !rest_ok {
                        self.bad(format!("malformed COM_REGISTER_SLAVE {}", hex(&b)));
                    }
                    self.ok()?
                }
                Req::Quit => return Err(Stop::Listen),
                Req::Other(b) => {
                    self.bad(format!("malformed or unknown command {}", hex(&b)));
                    self.err(1047, "Unknown command")?;
                }
                Req::Dump(d) => {
                    self.log.dump = Some(d.clone());
                    return self.dump(&d);
                }
            }
        }
    }

    fn gate(&mut self, g: &Gate, k: usize) -> Ctl<()> {
        if g.wait(k) {
            return Ok(());
        }
        self.bad(format!("{} of what was sent has not been delivered after {} s", if k == 1 { "the start".into() } else { format!("item {}", k - 1) }, GATE.as_secs()));
        Err(Stop::Drop)
    }

    fn dump(&mut self, d: &Dump) -> Ctl<()> {
        let st = match (self.plan.source)(d, &self.log.vars) {
            Ok(s) => s,
            Err(e) => {
                self.bad(e.clone());
                self.log.stream_at = Some(self.log.packets);
                self.err(1236, &e)?;
                return Err(Stop::Listen);
            }
        };
        self.log.stream_at = Some(self.log.packets);
        self.budget = st.cut;
        for o in &st.out {
            match o {
                Out::Packet(p) => self.send(p)?,
                Out::Pause(d) => std::thread::sleep(*d),
                Out::Raw(b, from, to) => self.put(&b[*from..*to])?,
                Out::Wait(g, k) => self.gate(g, *k)?,
                Out::Split(p, n, g, k) => {
                    let l = p.len();
                    let mut v = vec![l as u8, (l >> 8) as u8, (l >> 16) as u8, self.seq];
                    v.extend_from_slice(p);
                    self.log.packets += 1;
                    self.seq = self.seq.wrapping_add(1);
                    let n = (*n).min(v.len());
                    self.put(&v[..n])?;
                    self.gate(g, *k)?;
                    self.put(&v[n..])?;
                }
            }
        }
        match st.end {
            End::Eof => self.eof()?,
            End::Err(e) => self.send(&e.bytes())?,
            End::Packet(p) => self.send(&p)?,
            End::Close => return Err(Stop::Drop),
            End::Silence(d) => return self.silence(d),
        }
        Err(Stop::Listen)
    }

    fn run(mut self) -> Log {
        let _ = self.sock.set_nodelay(true);
        let _ = self.sock.set_read_timeout(Some(self.plan.idle));
        let _ = self.sock.set_write_timeout(Some(IDLE));
        quickack(&self.sock);
        let r = self.authenticate().and_then(|_| self.commands());
        match r {
            Err(Stop::Listen) | Err(Stop::Drop) | Ok(()) => {
                if matches!(r, Err(Stop::Drop)) {
                    let _ = self.sock.shutdown(Shutdown::Write);
                }
                // whatever the client still asks for
                loop {
                    match self.recv() {
                        Ok((b, _, _)) => {
                            let q = parse_req(&b);
                            if q != Req::Quit {
                                self.log.after.push(q);
                            }
                            if self.log.after.len() > 20 {
                                break;
                            }
                        }
                        Err(Stop::Idle) => {
                            self.log.idle = true;
                            break;
                        }
                        Err(_) => break,
                    }
                }
            }
            Err(Stop::Idle) => self.log.idle = true,
            Err(Stop::Closed) => {}
        }
        self.log
    }
}

/// Splits at commas outside of quotes and parentheses.
fn split_top(s: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut q = None;
    let mut depth = 0;
    for c in s.chars() {
        match q {
            Some(x) => {
                if c == x {
                    q = None;
                }
            }
            None => match c {
                '\'' | '"' | '`' => q = Some(c),
                '(' => depth += 1,
                ')' => depth -= 1,
                ',' if depth == 0 => {
                    out.push(String::new());
                    continue;
                }
                _ => {}
            },
        }
        out.last_mut().unwrap().push(c);
    }
    out
}

fn parse_req(b: &[u8]) -> Req {
    let bad = || Req::Other(b[..b.len().min(300)].to_vec());
    let u32at = |i: usize| b.get(i..i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()));
    let u64at = |i: usize| b.get(i..i + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
    let u16at = |i: usize| b.get(i..i + 2).map(|x| u16::from_le_bytes(x.try_into().unwrap()));
    match b.first() {
        Some(1) if b.len() == 1 => Req::Quit,
        Some(3) => match std::str::from_utf8(&b[1..]) {
            Ok(s) => Req::Query(s.to_string()),
            Err(_) => bad(),
        },
        Some(0x12) => {
            let (Some(pos), Some(flags), Some(server_id)) = (u32at(1), u16at(5), u32at(7)) else { return bad() };
            match std::str::from_utf8(&b[11..]) {
                Ok(f) => Req::Dump(Dump { gtid: None, file: f.to_string(), pos: pos as u64, flags, server_id }),
                Err(_) => bad(),
            }
        }
        Some(0x1e) => {
            let r = (|| {
                let flags = u16at(1)?;
                let server_id = u32at(3)?;
                let n = u32at(7)? as usize;
                let file = std::str::from_utf8(b.get(11..11usize.checked_add(n)?)?).ok()?.to_string();
                let mut i = 11 + n;
                let pos = u64at(i)?;
                i += 8;
                let len = u32at(i)? as usize;
                i += 4;
                if b.len() - i != len {
                    return None;
                }
                let k = u64at(i)?;
                i += 8;
                let mut set = vec![];
                for _ in 0..k {
                    let sid: Sid = b.get(i..i + 16)?.try_into().ok()?;
                    i += 16;
                    let m = u64at(i)?;
                    i += 8;
                    let mut iv = vec![];
                    for _ in 0..m {
                        let (a, e) = (u64at(i)?, u64at(i + 8)?);
                        i += 16;
                        if a == 0 || a >= e {
                            return None;
                        }
                        iv.push((a, e - 1));
                    }
                    set.push((sid, iv));
                }
                if i != b.len() {
                    return None;
                }
                Some(Dump { gtid: Some(set), file, pos, flags, server_id })
            })();
            r.map(Req::Dump).unwrap_or_else(bad)
        }
        Some(0x15) => {
            let Some(server_id) = u32at(1) else { return bad() };
            let mut i = 5;
            let mut ok = true;
            for _ in 0..3 {
                match b.get(i) {
                    Some(n) => i += 1 + *n as usize,
                    None => ok = false,
                }
            }
            Req::Register { server_id, rest_ok: ok && i + 10 == b.len() }
        }
        _ => bad(),
    }
}

// --------------------------------------------------------------------------------- in the case

thread_local! {
    static LISTENER: RefCell<Option<(TcpListener, u16, usize)>> = const { RefCell::new(None) };
}

fn listener() -> (TcpListener, u16) {
    LISTENER.with(|l| {
        let mut l = l.borrow_mut();
        if l.as_ref().map(|x| x.2 >= 1500).unwrap_or(true) {
            let t = TcpListener::bind("127.0.0.1:0").expect("listen on loopback");
            t.set_nonblocking(true).expect("nonblocking");
            let p = t.local_addr().unwrap().port();
            *l = Some((t, p, 0));
        }
        let x = l.as_mut().unwrap();
        x.2 += 1;
        (x.0.try_clone().expect("clone listener"), x.1)
    })
}

fn wait_readable(fd: i32, ms: i32) -> bool {
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    unsafe { libc::poll(&mut p, 1, ms) > 0 }
}

/// Runs `f` with the port of a server that serves one connection by the plan.
pub fn serve<R>(plan: &Plan, f: impl FnOnce(u16) -> R) -> (R, Log) {
    let (l, port) = listener();
    // connections left over from a failed case
    while let Ok((s, _)) = l.accept() {
        drop(s);
    }
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let (l, done) = (&l, &done);
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(sc, move || {
                let sock = loop {
                    if wait_readable(l.as_raw_fd(), 20) {
                        if let Ok((s, _)) = l.accept() {
                            break Some(s);
                        }
                    } else if done.load(Ordering::SeqCst) {
                        break None;
                    }
                };
                let Some(sock) = sock else { return Log::default() };
                sock.set_nonblocking(false).expect("blocking");
                let conn = Conn {
                    sock,
                    plan,
                    log: Log { accepted: true, ..Default::default() },
                    seq: 0,
                    rng: Rng::new(plan.split),
                    budget: None,
                    caps: 0,
                };
                conn.run()
            })
            .expect("server thread");
        struct Done<'x>(&'x AtomicBool);
        impl Drop for Done<'_> {
            fn drop(&mut self) {
                self.0.store(true, Ordering::SeqCst);
            }
        }
        let r = {
            let _d = Done(done);
            f(port)
        };
        let mut log = match h.join() {
            Ok(l) => l,
            Err(_) => panic!("the model server panicked"),
        };
        while let Ok((s, _)) = l.accept() {
            drop(s);
            log.extra += 1;
        }
        (r, log)
    })
}

/// What the server saw must be the protocol.
pub fn check_log(log: &Log) -> Res {
    if let Some(e) = log.errs.first() {
        return Err(Fail::new(format!("the server objects: {} (requests {})", clip(e, 400), clip(&format!("{:?}", log.reqs), 600))));
    }
    if log.extra > 0 {
        return Err(Fail::new(format!("{} more connections than one", log.extra)));
    }
    Ok(())
}
