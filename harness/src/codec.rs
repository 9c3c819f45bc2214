//! Independent implementation of the frame layout, written from SPECIFICATON.md.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame {
    pub version: [u8; 3],
    pub id: u64,
    pub ty: u8,
    pub ref_id: Option<u64>,
    pub ns: Option<String>,
    pub name: String,
    pub extra: Vec<u8>,
    pub data: Vec<u8>,
}

pub const INIT: u8 = 0;
pub const RESP: u8 = 1;
pub const END: u8 = 2;
pub const ERR: u8 = 3;

impl Frame {
    pub fn new(ty: u8, id: u64, ref_id: Option<u64>, ns: Option<&str>, name: &str, data: Vec<u8>) -> Self {
        Frame {
            version: [0, 9, 0],
            id,
            ty,
            ref_id,
            ns: ns.map(|s| s.to_string()),
            name: name.to_string(),
            extra: vec![],
            data,
        }
    }
    pub fn header(&self) -> Vec<u8> {
        let mut h = vec![];
        h.extend_from_slice(&self.version);
        h.extend_from_slice(&self.id.to_be_bytes());
        h.push(self.ty);
        match self.ref_id {
            Some(r) => {
                h.push(0xFF);
                h.extend_from_slice(&r.to_be_bytes());
            }
            None => h.push(0),
        }
        let ns = self.ns.as_deref().unwrap_or("");
        h.extend_from_slice(&(ns.len() as u16).to_be_bytes());
        h.extend_from_slice(ns.as_bytes());
        h.extend_from_slice(&(self.name.len() as u16).to_be_bytes());
        h.extend_from_slice(self.name.as_bytes());
        h.extend_from_slice(&self.extra);
        h
    }
    pub fn encode(&self) -> Vec<u8> {
        let h = self.header();
        assemble((h.len() + self.data.len()) as u64, h.len() as u16, &h, &self.data)
    }
    pub fn short(&self) -> String {
        format!(
            "{}#{:x}{}{}/{}[{}]",
            ["init", "resp", "end", "err"].get(self.ty as usize).unwrap_or(&"?"),
            self.id,
            self.ref_id.map(|r| format!("->{:x}", r)).unwrap_or_default(),
            self.ns.as_ref().map(|n| format!(" {}", cut(n))).unwrap_or_default(),
            cut(&self.name),
            self.data.len()
        )
    }
}

pub fn cut(s: &str) -> String {
    if s.chars().count() > 24 {
        format!("{}..({}B)", s.chars().take(20).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}

pub fn assemble(total: u64, hlen: u16, header: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(10 + header.len() + data.len());
    v.extend_from_slice(&total.to_be_bytes());
    v.extend_from_slice(&hlen.to_be_bytes());
    v.extend_from_slice(header);
    v.extend_from_slice(data);
    v
}

#[derive(Debug)]
pub enum Parse {
    /// Not enough bytes for a complete frame
    Incomplete,
    Bad(String),
}

/// Parses one frame at the start of `b`; returns it with the number of bytes it takes
pub fn parse(b: &[u8]) -> Result<(Frame, usize), Parse> {
    if b.len() < 10 {
        return Err(Parse::Incomplete);
    }
    let total = u64::from_be_bytes(b[0..8].try_into().unwrap());
    let hlen = u16::from_be_bytes(b[8..10].try_into().unwrap()) as u64;
    if total < hlen {
        return Err(Parse::Bad(format!("total length {} below header length {}", total, hlen)));
    }
    if total > (1 << 40) {
        return Err(Parse::Bad(format!("absurd total length {}", total)));
    }
    let h_end = 10 + hlen as usize;
    if b.len() < h_end {
        return Err(Parse::Incomplete);
    }
    let h = &b[10..h_end];
    let mut p = 0usize;
    let mut take = |n: usize| -> Result<&[u8], Parse> {
        if p + n > h.len() {
            return Err(Parse::Bad("header too short for its fields".into()));
        }
        let s = &h[p..p + n];
        p += n;
        Ok(s)
    };
    let version: [u8; 3] = take(3)?.try_into().unwrap();
    let id = u64::from_be_bytes(take(8)?.try_into().unwrap());
    let ty = take(1)?[0];
    let ref_id = match take(1)?[0] {
        0 => None,
        0xFF => Some(u64::from_be_bytes(take(8)?.try_into().unwrap())),
        x => return Err(Parse::Bad(format!("reference indicator {:#x}", x))),
    };
    let n = u16::from_be_bytes(take(2)?.try_into().unwrap()) as usize;
    let ns = if n > 0 { Some(take(n)?.to_vec()) } else { None };
    let n = u16::from_be_bytes(take(2)?.try_into().unwrap()) as usize;
    let name = take(n)?.to_vec();
    let extra = h[p..].to_vec();
    let utf8 = |v: Vec<u8>| String::from_utf8(v).map_err(|_| Parse::Bad("text is not UTF-8".into()));
    let ns = match ns {
        Some(n) => Some(utf8(n)?),
        None => None,
    };
    let name = utf8(name)?;
    if version[0] != 0 {
        return Err(Parse::Bad(format!("version {:?}", version)));
    }
    if ty > 3 {
        return Err(Parse::Bad(format!("event type {}", ty)));
    }
    let d_end = 10 + total as usize;
    if b.len() < d_end {
        return Err(Parse::Incomplete);
    }
    let data = b[h_end..d_end].to_vec();
    Ok((Frame { version, id, ty, ref_id, ns, name, extra, data }, d_end))
}

/// All frames in `b`; the second value is the number of trailing bytes that do not form a complete frame.
pub fn parse_all(b: &[u8]) -> Result<(Vec<Frame>, usize), String> {
    let mut v = vec![];
    let mut o = 0;
    while o < b.len() {
        match parse(&b[o..]) {
            Ok((f, n)) => {
                v.push(f);
                o += n;
            }
            Err(Parse::Incomplete) => break,
            Err(Parse::Bad(m)) => {
                return Err(format!("byte {} after {} frames: {}", o, v.len(), m));
            }
        }
    }
    Ok((v, b.len() - o))
}
