//! DER encoder and a strict parser for the supported subset.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Int(Vec<u8>),
    Oct(Vec<u8>),
    Bits(Vec<u8>, u8),
    Null,
    Oid(Vec<u8>),
    Seq(Vec<Node>),
}
pub fn len_bytes(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|&b| b == 0).collect();
    let mut v = vec![0x80 | b.len() as u8];
    v.extend(b);
    v
}
pub fn tlv(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend(len_bytes(content.len()));
    v.extend_from_slice(content);
    v
}
impl Node {
    pub fn enc(&self) -> Vec<u8> {
        match self {
            Node::Int(b) => tlv(2, b),
            Node::Oct(b) => tlv(4, b),
            Node::Bits(b, u) => {
                let mut v = vec![*u];
                v.extend_from_slice(b);
                tlv(3, &v)
            }
            Node::Null => tlv(5, &[]),
            Node::Oid(b) => tlv(6, b),
            Node::Seq(v) => tlv(0x30, &v.iter().flat_map(|n| n.enc()).collect::<Vec<u8>>()),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Node::Seq(v) => 1 + v.iter().map(|n| n.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Node::Seq(v) => 1 + v.iter().map(|n| n.count()).sum::<usize>(),
            _ => 1,
        }
    }
}
/// How the specification judges an input.
#[derive(Debug, PartialEq, Eq)]
pub enum Judge {
    /// valid DER of the supported subset
    Tree(Node),
    /// framing error: must be rejected
    Reject(&'static str),
    /// readable framing, but a form that DER does not produce: either answer is allowed, but an
    /// accepted tree must be this one
    Lax(Node),
}
pub fn judge(b: &[u8], max_depth: usize) -> Judge {
    let mut lax = false;
    match parse(b, &mut lax, 1, max_depth) {
        Err(e) => Judge::Reject(e),
        Ok((n, rest)) => {
            if !rest.is_empty() {
                return Judge::Reject("trailing bytes");
            }
            if lax { Judge::Lax(n) } else { Judge::Tree(n) }
        }
    }
}
fn parse<'a>(b: &'a [u8], lax: &mut bool, depth: usize, max: usize) -> Result<(Node, &'a [u8]), &'static str> {
    if depth > max {
        *lax = true; // beyond the nesting the property speaks about
    }
    let (&tag, b) = b.split_first().ok_or("no tag")?;
    let (&l0, mut b) = b.split_first().ok_or("no length")?;
    let len = if l0 < 0x80 {
        l0 as usize
    } else {
        let k = (l0 & 0x7f) as usize;
        if k == 0 {
            *lax = true; // indefinite form (read as length 0 by lenient parsers)
        }
        if b.len() < k {
            return Err("truncated length");
        }
        let (lb, r) = b.split_at(k);
        b = r;
        let mut v = 0u128;
        let sig: Vec<u8> = lb.iter().copied().skip_while(|&x| x == 0).collect();
        if sig.len() > 8 {
            return Err("length past the end");
        }
        for x in &sig {
            v = v << 8 | *x as u128;
        }
        if sig.len() != lb.len() || v < 128 {
            *lax = true; // not minimal
        }
        if v > b.len() as u128 {
            return Err("length past the end");
        }
        v as usize
    };
    if len > b.len() {
        return Err("length past the end");
    }
    let (c, rest) = b.split_at(len);
    let n = match tag {
        2 => {
            if c.is_empty() || c.len() > 1 && (c[0] == 0 && c[1] < 0x80 || c[0] == 0xff && c[1] >= 0x80) {
                *lax = true;
            }
            Node::Int(c.to_vec())
        }
        4 => Node::Oct(c.to_vec()),
        3 => {
            let (&u, d) = c.split_first().ok_or("empty bit string")?;
            if u > 7 || (d.is_empty() && u != 0) || (u > 0 && u < 8 && !d.is_empty() && d[d.len() - 1] & ((1 << u) - 1) != 0) {
                *lax = true;
            }
            Node::Bits(d.to_vec(), u)
        }
        5 => {
            if !c.is_empty() {
                *lax = true;
            }
            Node::Null
        }
        6 => {
            if c.is_empty() {
                *lax = true;
            }
            Node::Oid(c.to_vec())
        }
        0x30 => {
            let mut v = vec![];
            let mut left = c;
            while !left.is_empty() {
                let (n, r) = parse(left, lax, depth + 1, max)?;
                v.push(n);
                left = r;
            }
            Node::Seq(v)
        }
        _ => return Err("unsupported tag"),
    };
    Ok((n, rest))
}
