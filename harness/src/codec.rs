//! Independent encoder and decoder for the blocks of a Hyperbee log (the protobuf schema of JavaScript Hyperbee).
pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn put_bytes(out: &mut Vec<u8>, field: u8, b: &[u8]) {
    out.push(field << 3 | 2);
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Level {
    pub keys: Vec<u64>,
    pub children: Vec<u64>,
}

pub fn encode_index(levels: &[Level]) -> Vec<u8> {
    let mut out = vec![];
    for l in levels {
        let mut b = vec![];
        for (f, xs) in [(1u8, &l.keys), (2, &l.children)] {
            if !xs.is_empty() {
                let mut p = vec![];
                xs.iter().for_each(|x| put_varint(&mut p, *x));
                put_bytes(&mut b, f, &p);
            }
        }
        put_bytes(&mut out, 1, &b);
    }
    out
}
pub fn encode_node(index: &[u8], key: &[u8], value: Option<&[u8]>) -> Vec<u8> {
    let mut out = vec![];
    put_bytes(&mut out, 1, index);
    put_bytes(&mut out, 2, key);
    if let Some(v) = value {
        put_bytes(&mut out, 3, v);
    }
    out
}
/// `metadata`: (contentFeed, userData)
pub fn encode_header(metadata: Option<(Option<&[u8]>, Option<&[u8]>)>) -> Vec<u8> {
    let mut out = vec![];
    put_bytes(&mut out, 1, b"hyperbee");
    if let Some((c, u)) = metadata {
        let mut m = vec![];
        if let Some(c) = c {
            put_bytes(&mut m, 1, c);
        }
        if let Some(u) = u {
            put_bytes(&mut m, 2, u);
        }
        put_bytes(&mut out, 2, &m);
    }
    out
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn varint(&mut self) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = *self.0.first()?;
            self.0 = &self.0[1..];
            v |= ((b & 0x7f) as u64).checked_shl(7 * i)?;
            if b < 0x80 {
                return Some(v);
            }
        }
        None
    }
    fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        let n = usize::try_from(n).ok()?;
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    /// (field, bytes) of the next length-delimited field
    fn field(&mut self) -> Option<(u64, &'a [u8])> {
        let t = self.varint()?;
        if t & 7 != 2 {
            return None;
        }
        let n = self.varint()?;
        Some((t >> 3, self.take(n)?))
    }
}

fn packed(b: &[u8]) -> Option<Vec<u64>> {
    let mut r = Rd(b);
    let mut v = vec![];
    while !r.0.is_empty() {
        v.push(r.varint()?);
    }
    Some(v)
}

pub fn decode_index(b: &[u8]) -> Option<Vec<Level>> {
    let mut r = Rd(b);
    let mut out = vec![];
    while !r.0.is_empty() {
        let (1, lb) = r.field()? else { return None };
        let mut l = Level::default();
        let mut lr = Rd(lb);
        while !lr.0.is_empty() {
            match lr.field()? {
                (1, p) => l.keys.extend(packed(p)?),
                (2, p) => l.children.extend(packed(p)?),
                _ => return None,
            }
        }
        out.push(l);
    }
    Some(out)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Block {
    pub levels: Vec<Level>,
    pub key: Vec<u8>,
    pub value: Option<Vec<u8>>,
}
/// Strict: unknown fields, missing required fields and trailing bytes are errors.
pub fn decode_block(b: &[u8]) -> Option<Block> {
    let mut r = Rd(b);
    let (mut index, mut key, mut value) = (None, None, None);
    while !r.0.is_empty() {
        match r.field()? {
            (1, x) => index = Some(x),
            (2, x) => key = Some(x.to_vec()),
            (3, x) => value = Some(x.to_vec()),
            _ => return None,
        }
    }
    Some(Block { levels: decode_index(index?)?, key: key?, value })
}
