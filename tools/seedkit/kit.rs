//! Helpers of the demonstrations: building events and a small server.
#![allow(dead_code)]
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::replica_options::ReplicaOptions;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};

/// An event with its header
pub fn event(code: u8, next: u32, body: &[u8]) -> Vec<u8> {
    let mut v = vec![1, 0, 0, 0, code, 1, 0, 0, 0];
    v.extend(((body.len() + 19) as u32).to_le_bytes());
    v.extend(next.to_le_bytes());
    v.extend([0, 0]);
    v.extend(body);
    v
}
pub fn feed(p: &mut EventParser, ev: &[u8]) -> Result<(EventHeader, BinlogEvent), Error> {
    let h = EventHeader::parse(&ev[..19])?;
    let e = p.parse_event(&h, &ev[19..])?;
    Ok((h, e))
}
pub fn lenenc(v: &mut Vec<u8>, n: usize) {
    match n {
        0..=250 => v.push(n as u8),
        251..=0xffff => {
            v.push(0xfc);
            v.extend((n as u16).to_le_bytes());
        }
        _ => {
            v.push(0xfd);
            v.extend(&(n as u32).to_le_bytes()[..3]);
        }
    }
}
/// Table map: (type code, metadata bytes) of each column
pub fn table(id: u64, cols: &[(u8, Vec<u8>)], extra: &[u8]) -> Vec<u8> {
    let mut b = id.to_le_bytes()[..6].to_vec();
    b.extend([1, 0]);
    b.extend([2, b'd', b'b', 0, 1, b't', 0]);
    lenenc(&mut b, cols.len());
    b.extend(cols.iter().map(|c| c.0));
    let m: Vec<u8> = cols.iter().flat_map(|c| c.1.clone()).collect();
    lenenc(&mut b, m.len());
    b.extend(m);
    b.extend(vec![0xff; (cols.len() + 7) / 8]);
    b.extend(extra);
    event(19, 0, &b)
}
pub fn bits(v: &[bool]) -> Vec<u8> {
    let mut b = vec![0u8; (v.len() + 7) / 8];
    for (i, x) in v.iter().enumerate() {
        b[i / 8] |= (*x as u8) << (i % 8);
    }
    b
}
/// Version 1 insert of rows given as null bitmap and cells
pub fn insert(id: u64, flags: u16, present: &[bool], rows: &[u8]) -> Vec<u8> {
    let mut b = id.to_le_bytes()[..6].to_vec();
    b.extend(flags.to_le_bytes());
    lenenc(&mut b, present.len());
    b.extend(bits(present));
    b.extend(rows);
    event(23, 0, &b)
}
pub fn query(sql: &str, next: u32) -> Vec<u8> {
    let mut b = vec![1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0];
    b.extend(b"db\0");
    b.extend(sql.as_bytes());
    event(2, next, &b)
}
pub fn my_gtid(sid: u8, n: u64, next: u32) -> Vec<u8> {
    let mut b = vec![0];
    b.extend([sid; 16]);
    b.extend(n.to_le_bytes());
    event(33, next, &b)
}
pub fn maria_gtid(domain: u32, seq: u64, flags: u8, next: u32) -> Vec<u8> {
    let mut b = seq.to_le_bytes().to_vec();
    b.extend(domain.to_le_bytes());
    b.push(flags);
    b.extend([0; 6]);
    event(162, next, &b)
}
pub fn rotate(name: &str, pos: u64) -> Vec<u8> {
    let mut b = pos.to_le_bytes().to_vec();
    b.extend(name.as_bytes());
    event(4, 0, &b)
}
pub fn xid(next: u32) -> Vec<u8> {
    event(16, next, &[1, 0, 0, 0, 0, 0, 0, 0])
}

// ------------------------------------------------------------------------------------- server

pub struct Conn {
    pub s: TcpStream,
    pub seq: u8,
    pub seen: Vec<String>,
}
impl Conn {
    pub fn recv(&mut self) -> Option<Vec<u8>> {
        let mut h = [0; 4];
        self.s.read_exact(&mut h).ok()?;
        let mut b = vec![0; h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16];
        self.s.read_exact(&mut b).ok()?;
        self.seq = h[3].wrapping_add(1);
        Some(b)
    }
    pub fn send(&mut self, b: &[u8]) {
        let mut v = (b.len() as u32).to_le_bytes()[..3].to_vec();
        v.push(self.seq);
        v.extend(b);
        let _ = self.s.write_all(&v);
        self.seq = self.seq.wrapping_add(1);
    }
    pub fn event(&mut self, ev: &[u8]) {
        let mut v = vec![0];
        v.extend(ev);
        self.send(&v);
    }
    pub fn ok(&mut self) {
        self.send(&[0, 0, 0, 2, 0, 0, 0]);
    }
    pub fn eof(&mut self) {
        self.send(&[0xfe, 0, 0, 2, 0]);
    }
    pub fn err(&mut self, code: u16, msg: &str) {
        let mut v = vec![0xff];
        v.extend(code.to_le_bytes());
        v.extend(b"#HY000");
        v.extend(msg.as_bytes());
        self.send(&v);
    }
    pub fn rows(&mut self, cells: &[&str]) {
        self.send(&[cells.len() as u8]);
        for _ in cells {
            self.send(b"\x03def\0\0\0\x01a\0\x0c\x2d\0\0\x04\0\0\xfd\0\0\x1f\0\0");
        }
        self.eof();
        let mut v = vec![];
        for c in cells {
            v.push(c.len() as u8);
            v.extend(c.as_bytes());
        }
        self.send(&v);
        self.eof();
    }
    pub fn greet(&mut self, version: &str, plugin: &str, scramble: &[u8; 20]) {
        let mut v = vec![10];
        v.extend(version.as_bytes());
        v.push(0);
        v.extend([7, 0, 0, 0]);
        v.extend(&scramble[..8]);
        v.push(0);
        v.extend([0xff, 0xf7, 45, 2, 0, 0xff, 0x80, 21]);
        v.extend([0; 10]);
        v.extend(&scramble[8..]);
        v.push(0);
        v.extend(plugin.as_bytes());
        v.push(0);
        self.send(&v);
    }
    /// Accepts whoever comes
    pub fn login(&mut self, version: &str) -> Option<Vec<u8>> {
        self.greet(version, "mysql_native_password", b"abcdefghijklmnopqrst");
        let r = self.recv()?;
        self.ok();
        Some(r)
    }
    /// Serves commands up to the dump request, which is returned. `answer` may take a query over.
    pub fn setup(&mut self, checksum: &str, mut answer: impl FnMut(&mut Conn, &str) -> bool) -> Option<Vec<u8>> {
        loop {
            let b = self.recv()?;
            match b.first()? {
                3 => {
                    let q = String::from_utf8_lossy(&b[1..]).to_string();
                    self.seen.push(q.clone());
                    if answer(self, &q) {
                        continue;
                    }
                    let l = q.to_lowercase();
                    if l.starts_with("select") {
                        self.rows(&[checksum]);
                    } else if l.starts_with("show") {
                        self.rows(&["binlog.000001", "4", "", ""]);
                    } else {
                        self.ok();
                    }
                }
                0x12 | 0x1e => {
                    self.seen.push("dump".into());
                    return Some(b);
                }
                _ => self.ok(),
            }
        }
    }
}

/// A server for one connection; its port and the result of `f`.
pub fn server<T: Send + 'static>(f: impl FnOnce(&mut Conn) -> T + Send + 'static) -> (u16, std::thread::JoinHandle<T>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let h = std::thread::spawn(move || {
        let (s, _) = l.accept().unwrap();
        s.set_nodelay(true).unwrap();
        s.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
        let mut c = Conn { s, seq: 0, seen: vec![] };
        f(&mut c)
    });
    (port, h)
}
pub fn options(binlog: mysql_cdc::binlog_options::BinlogOptions, port: u16) -> ReplicaOptions {
    ReplicaOptions {
        port,
        hostname: "127.0.0.1".into(),
        username: "repl".into(),
        password: "secret".into(),
        binlog,
        ..Default::default()
    }
}
