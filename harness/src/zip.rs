//! What the archive has to be: entry specifications and an independent strict ZIP64 parser.
//!
//! The parser does not know the layout the implementation chooses (e.g. which extra fields it
//! uses); it checks what APPNOTE.TXT and the property statements demand, over a random access
//! window, so that it also works for archives much larger than memory.

use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FType {
    File,
    Dir,
    Symlink,
}

pub type Civil = (i32, u32, u32, u32, u32, u32);

/// Encodes a valid date-time; the caller guarantees that it is representable.
pub fn dos_datetime(c: Civil) -> (u16, u16) {
    let date = (((c.0 - 1980) as u16) << 9) | ((c.1 as u16) << 5) | c.2 as u16;
    let time = ((c.3 as u16) << 11) | ((c.4 as u16) << 5) | (c.5 as u16 / 2);
    (date, time)
}

pub fn days_in_month(y: i32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
        2 => 28,
        _ => 0,
    }
}

/// Converts seconds since the Unix epoch to calendar fields (proleptic Gregorian, UTC).
pub fn civil_from_unix(secs: i128) -> (i128, u32, u32, u32, u32, u32) {
    let days = secs.div_euclid(86400);
    let sod = secs.rem_euclid(86400) as u32;
    // Days since 0000-03-01
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = yoe + era * 400 + i128::from(m <= 2);
    (y, m, d, sod / 3600, sod / 60 % 60, sod % 60)
}

/// Random access view of an archive.
pub trait Window {
    fn len(&self) -> u64;
    /// Fails if the bytes can't be read.
    fn get(&mut self, off: u64, len: usize) -> Result<Vec<u8>, String>;
}

impl Window for &[u8] {
    fn len(&self) -> u64 {
        <[u8]>::len(self) as u64
    }
    fn get(&mut self, off: u64, len: usize) -> Result<Vec<u8>, String> {
        let o = usize::try_from(off).map_err(|e| e.to_string())?;
        <[u8]>::get(self, o..o.saturating_add(len))
            .map(<[u8]>::to_vec)
            .ok_or_else(|| format!("archive has no bytes {off}+{len}"))
    }
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub name: Vec<u8>,
    pub size: u64,
    pub crc: u32,
    pub date: u16,
    pub time: u16,
    pub ext_attr: u32,
    pub host: u8,
    pub local_off: u64,
    pub data_off: u64,
    /// End of data; equals `end` if there is no data descriptor
    pub dd_off: u64,
    pub dd_crc_off: Option<u64>,
    pub end: u64,
    pub cd_off: u64,
    pub cd_crc_off: u64,
    pub cd_end: u64,
    pub utf8: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub ents: Vec<Parsed>,
    pub cd_off: u64,
    pub cd_end: u64,
    pub len: u64,
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}

impl Cur<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8], String> {
        let r = self.b.get(self.p..self.p + n).ok_or("truncated structure")?;
        self.p += n;
        Ok(r)
    }
    fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
}

fn zip64_extra(extra: &[u8]) -> Result<Option<Vec<u8>>, String> {
    let mut p = 0;
    let mut found = None;
    while p < extra.len() {
        if extra.len() - p < 4 {
            return Err("truncated extra field".into());
        }
        let tag = u16::from_le_bytes([extra[p], extra[p + 1]]);
        let len = u16::from_le_bytes([extra[p + 2], extra[p + 3]]) as usize;
        let body = extra
            .get(p + 4..p + 4 + len)
            .ok_or("extra field longer than its container")?;
        if tag == 1 {
            if found.is_some() {
                return Err("two zip64 extra fields".into());
            }
            found = Some(body.to_vec());
        }
        p += 4 + len;
    }
    Ok(found)
}

/// Parses the whole structure. Data bytes are not looked at.
/// `wild_crc(i)` tells that the CRC of entry i is not to be checked for consistency.
pub fn parse(win: &mut dyn Window) -> Result<Layout, String> {
    let len = win.len();
    if len < 22 {
        return Err(format!("archive has only {len} bytes"));
    }
    // End of central directory, comment must be empty for the record to be at the very end
    let eocd_off = len - 22;
    let b = win.get(eocd_off, 22)?;
    let mut c = Cur { b: &b, p: 0 };
    if c.u32()? != 0x0605_4b50 {
        return Err("no end of central directory record at the end".into());
    }
    let disk = c.u16()?;
    let cd_disk = c.u16()?;
    let n_here = c.u16()?;
    let n_total = c.u16()?;
    let cd_size32 = c.u32()?;
    let cd_off32 = c.u32()?;
    if c.u16()? != 0 {
        return Err("archive comment length is not 0".into());
    }
    if !(disk == 0 || disk == 0xffff) || !(cd_disk == 0 || cd_disk == 0xffff) {
        return Err("wrong disk numbers in the end record".into());
    }
    // Zip64 locator and record
    let loc_off = eocd_off
        .checked_sub(20)
        .ok_or("no room for the zip64 locator")?;
    let b = win.get(loc_off, 20)?;
    let mut c = Cur { b: &b, p: 0 };
    if c.u32()? != 0x0706_4b50 {
        return Err("no zip64 end of central directory locator".into());
    }
    if c.u32()? != 0 {
        return Err("wrong disk number in the zip64 locator".into());
    }
    let z_off = c.u64()?;
    if c.u32()? != 1 {
        return Err("wrong number of disks in the zip64 locator".into());
    }
    if z_off.checked_add(56).is_none_or(|e| e > loc_off) {
        return Err(format!("zip64 end record offset {z_off} is wrong"));
    }
    let b = win.get(z_off, 56)?;
    let mut c = Cur { b: &b, p: 0 };
    if c.u32()? != 0x0606_4b50 {
        return Err("no zip64 end of central directory record at the located offset".into());
    }
    let z_size = c.u64()?;
    if z_size.checked_add(12 + z_off) != Some(loc_off) {
        return Err(format!("zip64 end record has wrong size {z_size}"));
    }
    let _made = c.u16()?;
    let needed = c.u16()?;
    if needed < 45 {
        return Err(format!("zip64 end record needs version {needed}"));
    }
    if c.u32()? != 0 || c.u32()? != 0 {
        return Err("wrong disk numbers in the zip64 end record".into());
    }
    let n1 = c.u64()?;
    let n = c.u64()?;
    let cd_size = c.u64()?;
    let cd_off = c.u64()?;
    if n1 != n {
        return Err(format!("entry counts differ: {n1} and {n}"));
    }
    if cd_off.checked_add(cd_size) != Some(z_off) {
        return Err(format!(
            "central directory {cd_off}+{cd_size} does not end at the end record {z_off}"
        ));
    }
    for (what, v) in [("on this disk", n_here), ("total", n_total)] {
        if v != 0xffff && u64::from(v) != n {
            return Err(format!("entry count {what} in the end record is {v}, not {n}"));
        }
    }
    if cd_size32 != u32::MAX && u64::from(cd_size32) != cd_size {
        return Err("central directory size in the end record is wrong".into());
    }
    if cd_off32 != u32::MAX && u64::from(cd_off32) != cd_off {
        return Err("central directory offset in the end record is wrong".into());
    }
    if n > cd_size / 46 {
        return Err(format!("central directory of {cd_size} B is too small for {n} entries"));
    }

    // Central directory
    let mut ents = Vec::with_capacity(n as usize);
    let mut p = cd_off;
    let mut next_local = 0u64;
    for i in 0..n {
        let ctx = |e: String| format!("central header {i}: {e}");
        let b = win.get(p, 46).map_err(ctx)?;
        let mut c = Cur { b: &b, p: 0 };
        if c.u32()? != 0x0201_4b50 {
            return Err(ctx("wrong signature".into()));
        }
        let made = c.u16()?;
        let needed = c.u16()?;
        let flags = c.u16()?;
        let method = c.u16()?;
        let time = c.u16()?;
        let date = c.u16()?;
        let crc = c.u32()?;
        let csize32 = c.u32()?;
        let usize32 = c.u32()?;
        let nlen = c.u16()? as usize;
        let elen = c.u16()? as usize;
        let clen = c.u16()? as usize;
        let disk = c.u16()?;
        let _int = c.u16()?;
        let ext = c.u32()?;
        let off32 = c.u32()?;
        let rest = win.get(p + 46, nlen + elen + clen).map_err(ctx)?;
        let name = rest[..nlen].to_vec();
        let extra = &rest[nlen..nlen + elen];
        let z = zip64_extra(extra).map_err(ctx)?;
        if needed < 45 && z.is_some() {
            return Err(ctx(format!("zip64 used but version needed is {needed}")));
        }
        if method != 0 {
            return Err(ctx(format!("compression method {method}")));
        }
        let body = z.unwrap_or_default();
        let mut zc = Cur { b: &body, p: 0 };
        let size = if usize32 == u32::MAX { zc.u64().map_err(ctx)? } else { u64::from(usize32) };
        let csize = if csize32 == u32::MAX { zc.u64().map_err(ctx)? } else { u64::from(csize32) };
        let local_off = if off32 == u32::MAX { zc.u64().map_err(ctx)? } else { u64::from(off32) };
        if disk == 0xffff {
            if zc.u32().map_err(ctx)? != 0 {
                return Err(ctx("wrong disk number".into()));
            }
        } else if disk != 0 {
            return Err(ctx("wrong disk number".into()));
        }
        if size != csize {
            return Err(ctx(format!("stored entry has sizes {csize} and {size}")));
        }
        if local_off != next_local {
            return Err(ctx(format!("local header is said to be at {local_off}, expected {next_local}")));
        }

        // Local header
        let lctx = |e: String| format!("local header {i} at {local_off}: {e}");
        let b = win.get(local_off, 30).map_err(lctx)?;
        let mut c = Cur { b: &b, p: 0 };
        if c.u32()? != 0x0403_4b50 {
            return Err(lctx("wrong signature".into()));
        }
        let lneeded = c.u16()?;
        let lflags = c.u16()?;
        let lmethod = c.u16()?;
        let ltime = c.u16()?;
        let ldate = c.u16()?;
        let lcrc = c.u32()?;
        let lcs32 = c.u32()?;
        let lus32 = c.u32()?;
        let lnlen = c.u16()? as usize;
        let lelen = c.u16()? as usize;
        let rest = win.get(local_off + 30, lnlen + lelen).map_err(lctx)?;
        if rest[..lnlen] != name[..] {
            return Err(lctx("name differs from the central directory".into()));
        }
        if lmethod != 0 {
            return Err(lctx(format!("compression method {lmethod}")));
        }
        if (ldate, ltime) != (date, time) {
            return Err(lctx("modification time differs from the central directory".into()));
        }
        let utf8 = flags & 0x800 != 0;
        if utf8 != (lflags & 0x800 != 0) {
            return Err(lctx("language flags differ".into()));
        }
        if (flags | lflags) & !0x808 != 0 {
            return Err(lctx(format!("unexpected flags {flags:x} {lflags:x}")));
        }
        let lz = zip64_extra(&rest[lnlen..]).map_err(lctx)?;
        if lneeded < 45 && lz.is_some() {
            return Err(lctx(format!("zip64 used but version needed is {lneeded}")));
        }
        let has_dd = lflags & 8 != 0;
        let zbody = lz.unwrap_or_default();
        let is_zip64 = lcs32 == u32::MAX || lus32 == u32::MAX;
        let mut zc = Cur { b: &zbody, p: 0 };
        let lus = if lus32 == u32::MAX { zc.u64().map_err(lctx)? } else { u64::from(lus32) };
        let lcs = if lcs32 == u32::MAX { zc.u64().map_err(lctx)? } else { u64::from(lcs32) };
        for v in [lus, lcs] {
            if v != size && !(has_dd && v == 0) {
                return Err(lctx(format!("size {v} instead of {size}")));
            }
        }
        if lcrc != crc && !(has_dd && lcrc == 0) {
            return Err(lctx(format!("crc {lcrc:08x} instead of {crc:08x}")));
        }
        let data_off = local_off + 30 + (lnlen + lelen) as u64;
        let dd_off = data_off
            .checked_add(size)
            .filter(|e| *e <= cd_off)
            .ok_or_else(|| lctx("data reaches into the central directory".into()))?;
        let mut end = dd_off;
        let mut dd_crc_off = None;
        if has_dd {
            if !is_zip64 {
                return Err(lctx("data descriptor without zip64 is not expected".into()));
            }
            let b = win.get(dd_off, 24).map_err(lctx)?;
            let mut c = Cur { b: &b, p: 0 };
            if c.u32()? != 0x0807_4b50 {
                return Err(lctx("wrong data descriptor signature".into()));
            }
            let dcrc = c.u32()?;
            if dcrc != crc {
                return Err(lctx(format!("data descriptor crc {dcrc:08x}, central {crc:08x}")));
            }
            let (a, b) = (c.u64()?, c.u64()?);
            if a != size || b != size {
                return Err(lctx(format!("data descriptor sizes {a}, {b} instead of {size}")));
            }
            dd_crc_off = Some(dd_off + 4);
            end = dd_off + 24;
        }
        next_local = end;
        let cd_end = p + 46 + (nlen + elen + clen) as u64;
        if cd_end > z_off {
            return Err(ctx("central directory is longer than announced".into()));
        }
        ents.push(Parsed {
            name,
            size,
            crc,
            date,
            time,
            ext_attr: ext,
            host: (made >> 8) as u8,
            local_off,
            data_off,
            dd_off,
            dd_crc_off,
            end,
            cd_off: p,
            cd_crc_off: p + 16,
            cd_end,
            utf8,
        });
        p = cd_end;
    }
    if next_local != cd_off {
        return Err(format!("entries end at {next_local}, central directory starts at {cd_off}"));
    }
    if p != z_off {
        return Err(format!("central directory ends at {p}, should at {z_off}"));
    }
    Ok(Layout { ents, cd_off, cd_end: z_off, len })
}

/// What one entry should look like in the archive.
#[derive(Clone, Debug)]
pub struct Want {
    pub name: Vec<u8>,
    pub size: u64,
    /// None if it is not to be compared
    pub crc: Option<u32>,
    pub dos: (u16, u16),
    pub ftype: FType,
    pub perm: u32,
}

/// The error tells whether only metadata (type, permissions, time) differ.
pub fn compare(l: &Layout, want: &[Want]) -> Result<(), (bool, String)> {
    if l.ents.len() != want.len() {
        return Err((false, format!("archive has {} entries, expected {}", l.ents.len(), want.len())));
    }
    for (i, (e, x)) in l.ents.iter().zip(want).enumerate() {
        let mut s = String::new();
        if e.name != x.name {
            let _ = write!(
                s,
                "name {:?} instead of {:?}; ",
                String::from_utf8_lossy(&e.name[..e.name.len().min(80)]),
                String::from_utf8_lossy(&x.name[..x.name.len().min(80)])
            );
        }
        if !e.utf8 && !e.name.is_ascii() {
            let _ = write!(s, "non-ascii name without the UTF-8 flag; ");
        }
        if e.size != x.size {
            let _ = write!(s, "size {} instead of {}; ", e.size, x.size);
        }
        if let Some(c) = x.crc {
            if e.crc != c {
                let _ = write!(s, "crc {:08x} instead of {c:08x}; ", e.crc);
            }
        }
        let content_differs = !s.is_empty();
        if (e.date, e.time) != x.dos {
            let _ = write!(s, "date/time {:04x}/{:04x} instead of {:04x}/{:04x}; ", e.date, e.time, x.dos.0, x.dos.1);
        }
        let ft = match x.ftype {
            FType::File => 0o100_000,
            FType::Dir => 0o040_000,
            FType::Symlink => 0o120_000,
        };
        let mode = e.ext_attr >> 16;
        if e.host != 3 || mode != ft | x.perm {
            let _ = write!(s, "host {} mode {mode:o} instead of {:o}; ", e.host, ft | x.perm);
        }
        if !s.is_empty() {
            return Err((!content_differs, format!("entry {i}: {s}")));
        }
    }
    Ok(())
}
