//! Strict base64 (RFC 4648, canonical) and the PEM line grammar.
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(v >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
pub fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    let q = s.len() / 4;
    for (i, c) in s.chunks(4).enumerate() {
        let pad = if i + 1 == q { c.iter().rev().take_while(|&&b| b == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut v = 0u32;
        for (j, b) in c.iter().enumerate() {
            let x = if j >= 4 - pad { 0 } else { A.iter().position(|a| a == b)? as u32 };
            v = v << 6 | x;
        }
        let b = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        if b[3 - pad..].iter().any(|&x| x != 0) {
            return None;
        }
        out.extend_from_slice(&b[..3 - pad]);
    }
    Some(out)
}
pub fn format(label: &str, d: &[u8]) -> String {
    let mut s = format!("-----BEGIN {label}-----\n");
    let b = b64(d);
    let mut rest = b.as_str();
    loop {
        let k = rest.len().min(64);
        s.push_str(&rest[..k]);
        s.push('\n');
        rest = &rest[k..];
        if rest.is_empty() {
            break;
        }
    }
    s.push_str(&format!("-----END {label}-----"));
    s
}
/// What a text denotes: Ok(label, data) or not well-formed. Lines end in LF or CRLF and are
/// stripped of surrounding white space.
pub fn parse(text: &str) -> Option<(String, Vec<u8>)> {
    enum L<'a> {
        Begin(&'a str),
        End(&'a str),
        BadMarker,
        Other(&'a str),
    }
    let lines: Vec<L> = text
        .split('\n')
        .map(|l| l.trim())
        .map(|l| {
            for (p, end) in [("-----BEGIN ", false), ("-----END ", true)] {
                if l.starts_with(p) {
                    let r = &l[p.len()..];
                    return match r.strip_suffix("-----") {
                        None => L::BadMarker,
                        Some(x) if end => L::End(x),
                        Some(x) => L::Begin(x),
                    };
                }
            }
            L::Other(l)
        })
        .collect();
    if lines.iter().any(|l| matches!(l, L::BadMarker)) {
        return None;
    }
    let begins: Vec<usize> = (0..lines.len()).filter(|&i| matches!(lines[i], L::Begin(_))).collect();
    let ends: Vec<usize> = (0..lines.len()).filter(|&i| matches!(lines[i], L::End(_))).collect();
    let ([b], [e]) = (&begins[..], &ends[..]) else { return None };
    if b >= e {
        return None;
    }
    let (L::Begin(x), L::End(y)) = (&lines[*b], &lines[*e]) else { unreachable!() };
    if x != y {
        return None;
    }
    let body: String = lines[b + 1..*e].iter().map(|l| if let L::Other(s) = l { *s } else { "" }).collect();
    Some((x.to_string(), unb64(body.as_bytes())?))
}
