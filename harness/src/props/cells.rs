//! C01-C05, C07: table maps and row events are decoded to the model they were encoded from.
use super::part;
use crate::enc::*;
use crate::engine::*;
use mysql_cdc::events::event_parser::EventParser;
use std::sync::Arc;

const VAL: ValOpt = ValOpt { bad: false, big: false };

pub fn parser(crc: bool) -> Result<EventParser, Fail> {
    let mut p = EventParser::new();
    if crc {
        feed_cmp(&mut p, &Ev::fde(Some(1)), &Hdr::default(), true)?;
    }
    Ok(p)
}

/// One table, its definition and a few row events of it.
fn table_rows(s: &mut Src, c: &mut Case, table: Arc<Table>, o: RowOpt, max_events: usize) -> Result<Vec<Arc<Rows>>, Fail> {
    let crc = s.chance(1, 8);
    let mut p = parser(crc)?;
    let h = Hdr::gen(s);
    let tm = Ev::Table(table.clone());
    c.note(|| format!("{} crc {}", tm.describe(), crc));
    feed_cmp(&mut p, &tm, &h, crc)?;
    let mut all = vec![];
    loop {
        let r = Arc::new(Rows::gen(s, &table, o));
        let ev = Ev::Rows(r.clone());
        c.note(|| ev.describe());
        feed_cmp(&mut p, &ev, &h, crc)?;
        all.push(r);
        if all.len() >= max_events || !s.more(4) {
            return Ok(all);
        }
    }
}

fn cols(s: &mut Src, fam: Family, max: usize) -> Vec<Col> {
    let mut v = vec![Col::gen(s, fam)];
    while v.len() < max && s.more(10) {
        let f = if s.chance(1, 6) { Family::Any } else { fam };
        v.push(Col::gen(s, f));
    }
    v
}

fn label_col(c: &mut Case, col: &Col) {
    c.label(match col {
        Col::Tiny => "TINYINT",
        Col::Short => "SMALLINT",
        Col::Int24 => "MEDIUMINT",
        Col::Long => "INT",
        Col::LongLong => "BIGINT",
        Col::Float => "FLOAT",
        Col::Double => "DOUBLE",
        Col::Decimal(..) => "DECIMAL",
        Col::Bit(_) => "BIT",
        Col::Enum(_) => "ENUM",
        Col::Set(_) => "SET",
        Col::Year => "YEAR",
        Col::Date => "DATE",
        Col::Time => "TIME",
        Col::DateTime => "DATETIME",
        Col::Timestamp => "TIMESTAMP",
        Col::Time2(_) => "TIME2",
        Col::DateTime2(_) => "DATETIME2",
        Col::Timestamp2(_) => "TIMESTAMP2",
        Col::Char(_) => "CHAR",
        Col::VarChar(_) | Col::VarString(_) => "VARCHAR",
        Col::Blob(..) => "BLOB",
        Col::Json(_) => "JSON",
        Col::Geometry(_) => "GEOMETRY",
    });
}

fn family(s: &mut Src, c: &mut Case, fam: Family, val: ValOpt) -> Res {
    let cols = cols(s, fam, 6);
    let mut table = Table::simple(Table::gen_id(s), cols);
    if s.chance(1, 3) {
        table.nullable = table.cols.iter().map(|_| s.flip()).collect();
        table.opts = Table::gen_opts(s, &table.cols);
    }
    let table = Arc::new(table);
    for col in &table.cols {
        label_col(c, col);
    }
    let o = RowOpt { val, max_rows: 3, subset: s.chance(1, 4), nulls: s.chance(1, 3), extra: true };
    let rows = table_rows(s, c, table, o, 3)?;
    let (mut n, mut special, mut bad) = (0, 0, false);
    for r in &rows {
        for cell in r.cells() {
            n += 1;
            special += cell.special as usize;
            bad |= cell.want == Want::Err;
        }
    }
    c.label_if(bad, "unrepresentable value");
    c.nontrivial = n >= 2 && special >= 1;
    Ok(())
}

fn c01(s: &mut Src, c: &mut Case) -> Res {
    family(s, c, Family::Numeric, VAL)
}
fn c02(s: &mut Src, c: &mut Case) -> Res {
    family(s, c, Family::Decimal, VAL)
}
fn c03(s: &mut Src, c: &mut Case) -> Res {
    let bad = s.chance(1, 3);
    family(s, c, Family::Temporal, ValOpt { bad, big: false })
}
fn c04(s: &mut Src, c: &mut Case) -> Res {
    let o = ValOpt { bad: s.chance(1, 3), big: s.chance(1, 5) };
    family(s, c, Family::Text, o)
}

/// Values longer than any two- or three-byte length.
fn c04_large(s: &mut Src, c: &mut Case) -> Res {
    let k = 2 + s.below(3) as u8;
    let n = match k {
        2 => 65535,
        3 => *s.pick(&[65536usize, 65537, 1 << 20, (1 << 24) - 1]),
        _ => *s.pick(&[65536usize, 1 << 23, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 65537]),
    };
    let col = match s.below(3) {
        0 => Col::Blob(252, k),
        1 => Col::Json(k),
        _ => Col::Geometry(k),
    };
    let b = s.bytes(n);
    let mut w = W::new();
    w.le(k as usize, n as u64).b(&b);
    let blob = Cell { bytes: w.0, want: Want::Blob(b), special: true };
    let tail = Cell { bytes: vec![7], want: Want::Tiny(7), special: false };
    c.note(|| format!("{:?} of {} bytes", col, n));
    c.label_if(n >= 1 << 24, "16 MB or more");
    let table = Arc::new(Table::simple(1, vec![col, Col::Tiny]));
    let r = Rows {
        kind: 0,
        v2: true,
        table: table.clone(),
        flags: 1,
        extra: vec![],
        before: vec![true; 2],
        after: vec![true; 2],
        rows: vec![(vec![Some(blob), Some(tail)], None)],
        pad: false,
    };
    let mut p = EventParser::new();
    feed_cmp(&mut p, &Ev::Table(table), &Hdr::default(), false)?;
    feed_cmp(&mut p, &Ev::Rows(Arc::new(r)), &Hdr::default(), false)?;
    c.nontrivial = true;
    Ok(())
}

/// Every DECIMAL(p,s) by turns, several values each, through whole rows.
fn c02_layouts(s: &mut Src, c: &mut Case) -> Res {
    let k = s.draw(1579);
    // pairs (p, sc) with sc <= min(p, 30)
    let (mut p, mut left) = (1u64, k);
    while left > p.min(30) {
        left -= p.min(30) + 1;
        p += 1;
        if p > 65 {
            p = 1;
        }
    }
    let table = Arc::new(Table::simple(1, vec![Col::Decimal(p as u8, left as u8), Col::Tiny]));
    let o = RowOpt { val: VAL, max_rows: 8, subset: false, nulls: false, extra: false };
    let rows = table_rows(s, c, table, o, 1)?;
    c.label_if(p == 65, "DECIMAL(65,*)");
    c.label_if(left == 30, "DECIMAL(*,30)");
    c.nontrivial = rows.iter().any(|r| r.cells().any(|c| c.special));
    Ok(())
}

/// Column sets of every width, all image subsets and NULL patterns.
fn c05(s: &mut Src, c: &mut Case) -> Res {
    let n = s.draw_with(1100, |r| match r.below(40) {
        0 => 245 + r.below(12),
        1 => 1000 + r.below(20),
        2 => 60 + r.below(70),
        3..=12 => 6 + r.below(28),
        _ => r.below(10),
    }) as usize
        + 1;
    let fam = if n > 40 { Family::Small } else { *s.pick(&[Family::Small, Family::Any, Family::Numeric]) };
    let cols: Vec<Col> = (0..n).map(|_| Col::gen(s, fam)).collect();
    let table = Arc::new(Table::gen(s, cols, false));
    let o = RowOpt { val: VAL, max_rows: if n > 100 { 2 } else { 8 }, subset: true, nulls: true, extra: true };
    let rows = table_rows(s, c, table, o, 3)?;
    let absent = rows.iter().any(|r| r.before.iter().chain(&r.after).any(|x| !x));
    let nulls = rows.iter().any(|r| {
        r.rows.iter().any(|(a, b)| {
            a.iter().zip(&r.before).any(|(x, &p)| p && x.is_none())
                || b.as_ref().map(|b| b.iter().zip(&r.after).any(|(x, &p)| p && x.is_none())).unwrap_or(false)
        })
    });
    c.label_if(absent, "columns absent from the image");
    c.label_if(nulls, "NULL cells");
    c.label_if(absent && nulls, "absent and NULL");
    c.label_if(n > 250, "3-byte column count");
    c.label_if(rows.iter().any(|r| r.rows.is_empty()), "event without rows");
    c.label_if(rows.iter().any(|r| r.rows.len() > 1), "several rows");
    c.label_if(rows.iter().any(|r| !r.extra.is_empty()), "extra header data");
    for r in &rows {
        c.label(["insert", "update", "delete"][r.kind as usize]);
    }
    c.nontrivial = n > 1 && (absent || nulls) && rows.iter().any(|r| r.rows.len() > 1);
    Ok(())
}

/// A single wide bitmap corner at a time: the same row with each subset of up to 10 columns.
fn c05_small(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.below(18);
    let cols: Vec<Col> = (0..n).map(|i| if i % 2 == 0 { Col::Tiny } else { Col::Short }).collect();
    let table = Arc::new(Table::simple(7, cols));
    let mk = |s: &mut Src| {
        let m = s.draw((1 << n) - 2) + 1;
        (0..n).map(|i| m >> i & 1 == 1).collect::<Vec<bool>>()
    };
    let kind = s.below(3) as u8;
    let before = mk(s);
    let after = if kind == 1 { mk(s) } else { before.clone() };
    let mut k = 0u64;
    let mut image = |s: &mut Src, p: &[bool]| -> Image {
        let nulls = s.draw((1 << n) - 1);
        (0..n)
            .map(|i| {
                k += 1;
                if !p[i] || nulls >> i & 1 == 1 {
                    None
                } else if i % 2 == 0 {
                    Some(Cell { bytes: vec![k as u8], want: Want::Tiny(k as u8), special: false })
                } else {
                    let v = k as u16 * 257;
                    Some(Cell { bytes: v.to_le_bytes().to_vec(), want: Want::Small(v), special: false })
                }
            })
            .collect()
    };
    let mut rows = vec![];
    for _ in 0..1 + s.below(4) {
        let a = image(s, &before);
        let b = if kind == 1 { Some(image(s, &after)) } else { None };
        rows.push((a, b));
    }
    let r = Rows { kind, v2: s.flip(), table: table.clone(), flags: 1, extra: vec![], before, after, rows, pad: s.flip() };
    let mut p = EventParser::new();
    let h = Hdr::default();
    feed_cmp(&mut p, &Ev::Table(table), &h, false)?;
    let ev = Ev::Rows(Arc::new(r));
    c.note(|| ev.describe());
    feed_cmp(&mut p, &ev, &h, false)?;
    c.nontrivial = n > 2;
    Ok(())
}

/// Events of many rows, of wide tables, and of both.
fn c05_large(s: &mut Src, c: &mut Case) -> Res {
    let n = *s.pick(&[1usize, 2, 3, 8, 9, 64, 65, 255, 256, 1017, 4096]);
    let most = (400_000 / n).min(140_000);
    let rows = match s.below(3) {
        0 => most,
        1 => *s.pick(&[256usize, 257, 1025, 4097, 65_536, 65_537]),
        _ => 1 + s.below(most),
    }
    .min(most);
    let cols: Vec<Col> = (0..n).map(|i| if i % 3 == 2 { Col::Short } else { Col::Tiny }).collect();
    let table = Arc::new(Table::simple(7, cols));
    let kind = s.below(3) as u8;
    let before = gen_subset(s, n, true);
    let after = if kind == 1 { gen_subset(s, n, true) } else { before.clone() };
    let mut r = Rng::new(s.draw(u64::MAX));
    let null = *s.pick(&[0u64, 1, 8, 15]);
    let mut image = |p: &[bool]| -> Image {
        (0..n)
            .map(|i| {
                let k = r.next();
                if !p[i] || k >> 20 & 15 < null {
                    None
                } else if i % 3 == 2 {
                    let v = k as u16;
                    Some(Cell { bytes: v.to_le_bytes().to_vec(), want: Want::Small(v), special: false })
                } else {
                    Some(Cell { bytes: vec![k as u8], want: Want::Tiny(k as u8), special: false })
                }
            })
            .collect()
    };
    let rows: Vec<_> = (0..rows).map(|_| (image(&before), if kind == 1 { Some(image(&after)) } else { None })).collect();
    c.note(|| format!("{} rows of {} columns, {}", rows.len(), n, ["insert", "update", "delete"][kind as usize]));
    c.label_if(rows.len() > 65_535, "more than 65535 rows");
    c.label_if(n > 1000, "more than 1000 columns");
    c.nontrivial = rows.len() > 255;
    let r = Rows { kind, v2: s.flip(), table: table.clone(), flags: 1, extra: vec![], before, after, rows, pad: s.flip() };
    let mut p = EventParser::new();
    let h = Hdr::default();
    feed_cmp(&mut p, &Ev::Table(table), &h, false)?;
    feed_cmp(&mut p, &Ev::Rows(Arc::new(r)), &h, false).map_err(|f| Fail::new(clip(&f.msg, 600).to_string()))
}

fn c07(s: &mut Src, c: &mut Case) -> Res {
    let n = s.draw_with(1100, |r| match r.below(30) {
        0 => 245 + r.below(12),
        1 => 120 + r.below(20),
        2 => r.below(1100),
        _ => r.below(12),
    }) as usize
        + 1;
    let cols: Vec<Col> = (0..n).map(|_| Col::gen(s, Family::Any)).collect();
    let crc = s.chance(1, 4);
    let table = Table::gen(s, cols, true);
    let h = Hdr::gen(s);
    for o in &table.opts {
        c.label(match o {
            Opt::Signedness(_) => "signedness",
            Opt::DefaultCharset(_) => "default charset",
            Opt::ColumnCharset(_) => "column charset",
            Opt::ColumnName(_) => "column name",
            Opt::SetStr(_) => "set values",
            Opt::EnumStr(_) => "enum values",
            Opt::Geometry(_) => "geometry type",
            Opt::Pk(_) => "primary key",
            Opt::PkPrefix(_) => "primary key with prefix",
            Opt::EnumSetDefault(_) => "enum/set default charset",
            Opt::EnumSetColumn(_) => "enum/set column charset",
            Opt::Visibility(_) => "visibility",
        });
    }
    c.label_if(table.opts.is_empty(), "no optional metadata");
    c.label_if(n > 250, "3-byte column count");
    c.nontrivial = table.opts.len() >= 2 && n >= 2;
    let ev = Ev::Table(Arc::new(table));
    c.note(|| ev.describe());
    let mut p = parser(crc)?;
    feed_cmp(&mut p, &ev, &h, crc)
}

/// Definitions of more than 64 KB: thousands of columns, names and value lists without end.
fn c07_large(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + *s.pick(&[5usize, 300, 1016, 4095, 65_600]);
    let fixed = s.flip();
    let first = Col::gen(s, Family::Any);
    let cols: Vec<Col> = (0..n).map(|i| if fixed && i % 97 != 5 { first.clone() } else { Col::gen(s, Family::Any) }).collect();
    let mut r = Rng::new(s.draw(u64::MAX));
    let mut text = |max: u64| -> String {
        let k = 1 + r.below(max);
        (0..k).map(|i| (b'a' + ((i + k) % 26) as u8) as char).collect()
    };
    let mut table = Table::gen(s, cols, false);
    let mut opts = Table::gen_opts(s, &table.cols);
    let which = s.below(4);
    for k in 0..4 {
        if k != which && s.flip() {
            continue;
        }
        let o = match k {
            0 => Opt::ColumnName((0..n).map(|_| text(64)).collect()),
            1 => {
                let m = *s.pick(&[300usize, 3_000, 65_535]);
                Opt::EnumStr(vec![vec!["a".into()], (0..m).map(|_| text(300)).collect(), vec![]])
            }
            2 => Opt::SetStr((0..1 + s.below(400)).map(|_| (0..64).map(|_| text(255)).collect()).collect()),
            _ => Opt::ColumnCharset((0..n).map(|i| i as u32).collect()),
        };
        opts.retain(|x| std::mem::discriminant(x) != std::mem::discriminant(&o));
        let at = s.below(opts.len() + 1);
        opts.insert(at, o);
    }
    table.opts = opts;
    let ev = Ev::Table(Arc::new(table));
    let size = ev.payload().len();
    c.note(|| format!("{} columns, {} bytes", n, size));
    c.label_if(size > 0xffff, "more than 64 KB");
    c.label_if(n > 0xffff, "more than 65535 columns");
    c.nontrivial = size > 0xffff;
    let h = Hdr::gen(s);
    let crc = s.flip();
    let mut p = parser(crc)?;
    feed_cmp(&mut p, &ev, &h, crc).map_err(|f| Fail::new(clip(&f.msg, 600).to_string()))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "a case is non-trivial if its row events carry at least two cells and one of them has a value beyond the smallest range of its type (multi-byte, high bit set, zero year)",
            assumptions: &["The encoder in harness/src/enc.rs follows the documented binlog row format."],
            parts: vec![part("rows", 4_000_000, 100_000_000, c01)],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "a case is non-trivial if a DECIMAL of more than nine digits or a negative one is decoded",
            assumptions: &["The encoder in harness/src/enc.rs follows the documented DECIMAL storage format; minus zero is never stored."],
            parts: vec![part("layouts", 2_000_000, 50_000_000, c02_layouts), part("rows", 1_500_000, 50_000_000, c02)],
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "a case is non-trivial if it has two cells or more and one of them has a fraction, a year above 2047, hours above 99, a moment after 2038 or a negative time",
            assumptions: &["The encoder in harness/src/enc.rs follows the documented temporal formats."],
            parts: vec![part("rows", 4_000_000, 100_000_000, c03)],
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "a case is non-trivial if it has two cells or more and one of them is longer than 12 bytes or not UTF-8",
            assumptions: &["The encoder in harness/src/enc.rs follows the documented string and blob formats.", "A CHAR/VARCHAR value that is not UTF-8 cannot be represented in the cell type (String), so an error is expected."],
            parts: vec![part("rows", 1_000_000, 25_000_000, c04), part("large", 60, 1500, c04_large)],
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "a case is non-trivial if the table has more than one column, columns are absent from an image or NULL, and an event has several rows (part small: more than two columns)",
            assumptions: &["Row images have at least one column, as the server writes them."],
            parts: vec![part("tables", 800_000, 20_000_000, c05), part("small", 2_000_000, 50_000_000, c05_small), part("large", 200, 5_000, c05_large)],
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "a case is non-trivial if the table has two columns or more and two optional metadata fields or more",
            assumptions: &["The encoder in harness/src/enc.rs follows the documented table map format.", "Numbers in the metadata are at most 32 bits wide, as they are in a server."],
            parts: vec![part("tables", 1_500_000, 40_000_000, c07), part("large", 400, 10_000, c07_large)],
        },
    ]
}
