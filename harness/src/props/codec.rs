//! C19 PEM, C20 ASN.1, C21 key import, C22 untrusted input.
use super::rsa::{OID, alg_id, der_int, n128, pkcs8, random_prime, rsa_private, spki};
use crate::engine::*;
use crate::oracle::big::Int;
use crate::oracle::der::{self, Judge, Node, judge};
use crate::oracle::pem as opem;
use vpcalls as v;
use vpcalls::cryptography::pem::asn1::Asn1;

// ------------------------------------------------------------------ C19

pub static C19: Prop = Prop {
    id: "C19",
    rule: "a case is (label, data) formatted and parsed back (also re-wrapped, indented, CRLF, surrounded), or a text parsed and judged by an independent PEM grammar with strict canonical base64; every data length 0..=400, every final base64 quantum, mutated and random texts; distinct by text",
    scenarios: &[
        Scenario::sweep("pem-lengths", 401, 3000, pem_lengths),
        Scenario::sweep("pem-quantum", 64 * 6, 64 * 64 * 6, pem_quantum),
        Scenario::sweep("pem-labels", 300, 300, pem_labels),
        Scenario::sweep("pem-lines", 400, 4000, pem_lines),
        Scenario::sweep("pem-split", 240, 2400, pem_split),
        Scenario::sweep("pem-chars", 420, 1800, pem_chars),
        Scenario::sweep("pem-large", 28, 120, pem_large),
        Scenario::random("pem-wrap", 4, pem_wrap),
        Scenario::random("pem-mutate", 8, pem_mutate),
        Scenario::random("pem-grammar", 6, pem_grammar),
    ],
    cap: 1 << 30,
};
const LABELS: &[&str] = &["PRIVATE KEY", "PUBLIC KEY", "CERTIFICATE", "X", "", "A B  C", "-", "-----", "BEGIN ", "a-b-", "RSA PRIVATE KEY", "é ü", "🔑", "=", "x "];
fn gen_label(t: &mut Tape) -> String {
    if t.chance(3, 4) {
        return t.pick(LABELS).to_string();
    }
    let n = t.range(0, 30);
    (0..n)
        .map(|_| match t.below(4) {
            0 => *t.pick(&['-', ' ', '=', 'A', 'é', '字', '\u{1}', '\t']),
            _ => (32 + t.below(95) as u8) as char,
        })
        .collect()
}
fn pem_text(cx: &mut Cx, text: &str, want: Option<(&str, &[u8])>, what: &str) {
    cx.case(&[text.as_bytes()]);
    let ctx = || format!("{what}: {text:?}");
    let Some(got) = cx.must("PEM parse", ctx, || v::pem_parse(text)) else { return };
    match (got, want) {
        (Ok((l, d)), Some((wl, wd))) => {
            if l != wl || d != wd {
                cx.viol("PEM parsed to a different label or data", format!("{}: got ({l:?}, {}) want ({wl:?}, {})", ctx(), hex(&d), hex(wd)));
            }
            cx.class(what);
        }
        (Err(e), Some(_)) => cx.viol("well-formed PEM rejected", format!("{}: {e}", ctx())),
        (Ok((l, d)), None) => cx.viol("malformed PEM accepted", format!("{}: got ({l:?}, {})", ctx(), hex(&d))),
        (Err(_), None) => cx.class("rejected"),
    }
}
fn pem_round(cx: &mut Cx, label: &str, data: &[u8]) {
    let ctx = || format!("label {label:?} data {}", hex(data));
    let Some(s) = cx.must("PEM format", ctx, || v::pem_format(label, data)) else { return };
    let want = opem::format(label, data);
    if s != want {
        cx.viol("PEM text is not the standard form", format!("{}: got {s:?} want {want:?}", ctx()));
    }
    pem_text(cx, &s, Some((label, data)), "formatted text");
    cx.sample(97, || format!("{label:?} {} bytes -> {} chars", data.len(), s.len()));
}
fn pem_lengths(i: u64, t: &mut Tape, cx: &mut Cx) {
    for k in 0..4 {
        let d = match k {
            0 => vec![0; i as usize],
            1 => vec![0xff; i as usize],
            _ => t.bytes(i as usize),
        };
        let l = *t.pick(LABELS);
        pem_round(cx, l, &d);
    }
}
/// every pair of trailing characters of the last quantum, with 0, 1 or 2 '=' signs
fn pem_quantum(i: u64, t: &mut Tape, cx: &mut Cx) {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let a = A[(i % 64) as usize] as char;
    let form = i / 64 % 6;
    let b0 = i / 384 % 64;
    for j in 0..64u64 {
        let b = A[((j + b0) % 64) as usize] as char;
        let q = match form {
            0 => format!("{b}{a}=="),
            1 => format!("A{b}{a}="),
            2 => format!("Q{b}{a}B"),
            3 => format!("{b}{a}="),
            4 => format!("{b}{a}"),
            _ => format!("A{b}{a}"),
        };
        let pre = *t.pick(&["", "QUJD", "AAAA////"]);
        let text = format!("-----BEGIN K-----\n{pre}{q}\n-----END K-----\n");
        let w = opem::parse(&text);
        pem_text(cx, &text, w.as_ref().map(|(l, d)| (l.as_str(), d.as_slice())), "final quantum");
    }
}
fn pem_labels(i: u64, t: &mut Tape, cx: &mut Cx) {
    let c = match i {
        0..128 => i as u8 as char,
        128..256 => char::from_u32(0x80 + (i as u32 - 128) * 37).unwrap_or('x'),
        _ => char::from_u32(0x1f000 + i as u32).unwrap_or('x'),
    };
    if "\n\r\u{b}\u{c}\u{85}\u{2028}\u{2029}".contains(c) {
        return;
    }
    let d = t.blob(0, 100);
    for l in [format!("{c}"), format!("A{c}B"), format!("{c}A"), format!("A{c}"), format!("{c}{c}{c}")] {
        pem_round(cx, &l, &d);
        // the label of the END line differs in that one character
        let other = if c == 'A' { 'B' } else { 'A' };
        let bad = format!("-----BEGIN {l}-----\nAAAA\n-----END {}-----\n", l.replace(c, &other.to_string()));
        let w = pem_judge(&bad);
        if let Some(w) = w {
            pem_text(cx, &bad, w.as_ref().map(|(l, d)| (l.as_str(), d.as_slice())), "differing END label");
        }
    }
}
/// None: the statement leaves the answer open
fn pem_judge(text: &str) -> Option<Option<(String, Vec<u8>)>> {
    // unusual white space: which characters count as indentation is not specified
    if text.chars().any(|c| matches!(c, '\u{b}' | '\u{c}') || c.is_whitespace() && !c.is_ascii()) {
        return None;
    }
    let w = opem::parse(text);
    if w.is_none() {
        // a BEGIN/END line that is malformed and lies outside the body of an otherwise good text
        let kept: Vec<&str> = text
            .split('\n')
            .filter(|l| {
                let l = l.trim();
                !((l.starts_with("-----BEGIN ") || l.starts_with("-----END ")) && !(l.ends_with("-----") && l.len() >= if l.starts_with("-----B") { 16 } else { 14 }))
            })
            .collect();
        if kept.len() != text.split('\n').count() && opem::parse(&kept.join("\n")).is_some() {
            // inside the body it is not base64, so it must be rejected
            let mut inside = false;
            let mut in_body = false;
            for l in text.split('\n').map(|l| l.trim()) {
                if kept.iter().any(|k| k.trim() == l) {
                    if l.starts_with("-----BEGIN ") {
                        in_body = true;
                    } else if l.starts_with("-----END ") {
                        in_body = false;
                    }
                } else if in_body {
                    inside = true;
                }
            }
            if !inside {
                return None;
            }
        }
    }
    Some(w)
}
fn noise(t: &mut Tape) -> &'static str {
    *t.pick(&["", "some text", "AAAA", "-----", "----- BEGIN X-----", "Proc-Type: 4,ENCRYPTED", "BEGIN X", "-----begin X-----", "x -----BEGIN X-----", "====", "-----BEGIN", "-----END"])
}
fn rewrap(t: &mut Tape, label: &str, data: &[u8]) -> String {
    let b = opem::b64(data);
    let nl = *t.pick(&["\n", "\r\n", "\n", " \n", "\t\r\n"]);
    let indent = *t.pick(&["", "    ", "\t", " \t ", ""]);
    let mut s = String::new();
    for _ in 0..t.below(4) {
        s += indent;
        s += noise(t);
        s += nl;
    }
    s += &format!("{indent}-----BEGIN {label}-----{nl}");
    let mut r = b.as_str();
    let fixed = t.below(3);
    let w0 = t.range(1, 100);
    while !r.is_empty() {
        let w = if fixed > 0 { w0 } else { t.range(0, 70) };
        let k = w.min(r.len());
        s += indent;
        s += &r[..k];
        s += nl;
        r = &r[k..];
        if fixed == 2 && t.chance(1, 20) {
            s += nl;
        }
    }
    s += &format!("{indent}-----END {label}-----");
    let k = t.below(4);
    for _ in 0..k {
        s += nl;
        s += indent;
        s += noise(t);
    }
    s
}
fn pem_wrap(_: u64, t: &mut Tape, cx: &mut Cx) {
    let l = gen_label(t);
    let d = t.blob(0, 300);
    pem_round(cx, &l, &d);
    let s = rewrap(t, &l, &d);
    pem_text(cx, &s, Some((&l, &d)), "re-wrapped text");
}
fn pem_lines(i: u64, t: &mut Tape, cx: &mut Cx) {
    let l = gen_label(t);
    let d = t.blob(0, 200);
    let s = rewrap(t, &l, &d);
    pem_text(cx, &s, Some((&l, &d)), "re-wrapped text");
    // every single-line deletion and duplication
    let lines: Vec<&str> = s.split('\n').collect();
    for k in 0..lines.len() {
        let mut a = lines.clone();
        if i % 2 == 0 {
            a.remove(k);
        } else {
            a.insert(k, lines[k]);
        }
        let x = a.join("\n");
        if let Some(w) = pem_judge(&x) {
            pem_text(cx, &x, w.as_ref().map(|(l, d)| (l.as_str(), d.as_slice())), "line removed or doubled");
        }
    }
}
fn judged(cx: &mut Cx, text: &str, what: &str) {
    if let Some(w) = pem_judge(text) {
        pem_text(cx, text, w.as_ref().map(|(l, d)| (l.as_str(), d.as_slice())), what);
    }
}
/// complete base64 strings one after the other, on one line or on several, and '=' at line ends
fn pem_split(i: u64, t: &mut Tape, cx: &mut Cx) {
    let parts: Vec<String> = (0..2 + i % 3).map(|k| opem::b64(&t.seeded(((i / 3 + k * 7) % 50) as usize))).collect();
    let nl = *t.pick(&["\n", "\r\n", "\n\n", "\n \n"]);
    for sep in ["", nl] {
        let s = format!("-----BEGIN K-----\n{}\n-----END K-----\n", parts.join(sep));
        judged(cx, &s, "several base64 strings");
    }
    // one string cut in two: the cut anywhere, '=' signs kept, dropped, doubled or moved
    let b = opem::b64(&t.seeded((i % 40) as usize));
    let body = b.trim_end_matches('=');
    let eq = &b[body.len()..];
    for cut in 0..=body.len() {
        let (x, y) = body.split_at(cut);
        for s in [
            format!("{x}{nl}{y}{eq}"),
            format!("{x}{eq}{nl}{y}"),
            format!("{x}={nl}{y}{eq}"),
            format!("{x}{nl}={y}{eq}"),
            format!("{x}{nl}{y}{nl}{eq}"),
            format!("{x}{nl}{y}"),
            format!("{x}=={nl}{y}"),
            format!("{x} {y}{eq}"),
            format!("{x}{nl}{y}{eq}="),
        ] {
            judged(cx, &format!("-----BEGIN K-----\n{s}\n-----END K-----\n"), "string cut in two");
        }
    }
}
/// one character, every one up to U+00FF and some above, at every place of a small text
fn pem_chars(i: u64, t: &mut Tape, cx: &mut Cx) {
    let c = match i {
        0..256 => char::from_u32(i as u32).unwrap(),
        256..320 => b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[i as usize - 256] as char,
        320..384 => char::from_u32(0x100 * (1 + t.below(0xd0) as u32) + b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[i as usize - 320] as u32).unwrap_or('\u{ff21}'),
        _ => *t.pick(&['\u{feff}', '\u{200b}', '\u{ff1d}', '\u{2010}', '\u{2212}', '\u{ff0d}', '\u{ff0b}', '\u{ff0f}', '\u{ad}', '\u{10ffff}', '\u{1d400}', '\u{301}']),
    };
    let n = t.range(0, 7);
    let text: Vec<char> = format!("n\n-----BEGIN K J-----\n{}\n-----END K J-----\nn", opem::b64(&t.seeded(n))).chars().collect();
    for k in 0..=text.len() {
        let mut s = text.clone();
        s.insert(k, c);
        judged(cx, &s.iter().collect::<String>(), "one character inserted");
        if k < text.len() {
            let mut s = text.clone();
            s[k] = c;
            judged(cx, &s.iter().collect::<String>(), "one character replaced");
        }
    }
}
/// data of up to several MB, and bodies of very many lines (short, empty or blank ones included)
fn pem_large(i: u64, t: &mut Tape, cx: &mut Cx) {
    let sizes = [3 << 10, 12_287, 12_288, 12_289, 24 << 10, 49_151, 49_152, 49_153, 65_535, 65_536, 100_000, 300_001, 1 << 20, (3 << 20) + 1];
    let n = sizes[i as usize % sizes.len()] + (i as usize / (2 * sizes.len())) * 7919;
    let mut d = t.sub_rng().bytes(n);
    if t.chance(1, 3) {
        d[n / 2..].fill(0);
    }
    let label = *t.pick(LABELS);
    if (i as usize / sizes.len()) % 2 == 0 {
        pem_round(cx, label, &d);
        return;
    }
    // every body line w characters, with a blank line after every g of them and notes around
    let b = opem::b64(&d);
    let w = *t.pick(&[1usize, 2, 3, 4, 7, 64, 76, 1000, 100_000]);
    let g = *t.pick(&[1usize, 2, 50, 1_000_000]);
    let mut s = String::with_capacity(b.len() * 4);
    for _ in 0..*t.pick(&[0usize, 1, 300, 2000]) {
        s += "a note\n";
    }
    s += &format!("-----BEGIN {label}-----\n");
    for (k, line) in b.as_bytes().chunks(w).enumerate() {
        s += std::str::from_utf8(line).unwrap();
        s += "\n";
        if k % g == g - 1 {
            s += "\n";
        }
    }
    s += &format!("-----END {label}-----\n");
    for _ in 0..*t.pick(&[0usize, 1, 300, 2000]) {
        s += "a note\n";
    }
    pem_text(cx, &s, Some((label, &d)), "re-wrapped text of many lines");
}
fn pem_mutate(_: u64, t: &mut Tape, cx: &mut Cx) {
    let l = gen_label(t);
    let d = t.blob(0, 120);
    let mut s: Vec<char> = rewrap(t, &l, &d).chars().collect();
    for _ in 0..t.range(1, 3) {
        let c = *t.pick(&['A', '=', '-', '\n', ' ', '\r', '+', '_', '/', 'z', 'é', '\0', 'B', '5']);
        if s.is_empty() {
            break;
        }
        let k = t.below(s.len() as u64) as usize;
        match t.below(4) {
            0 => s[k] = c,
            1 => s.insert(k, c),
            2 => {
                s.remove(k);
            }
            _ => {
                let j = t.below(s.len() as u64) as usize;
                s.swap(k, j);
            }
        }
    }
    let s: String = s.into_iter().collect();
    if let Some(w) = pem_judge(&s) {
        pem_text(cx, &s, w.as_ref().map(|(l, d)| (l.as_str(), d.as_slice())), "mutated text");
    } else {
        let _ = cx.must("PEM parse", || format!("{s:?}"), || v::pem_parse(&s));
        cx.class("answer not specified");
    }
}
fn pem_grammar(_: u64, t: &mut Tape, cx: &mut Cx) {
    let mut s = String::new();
    for _ in 0..t.below(9) {
        let l = *t.pick(&["A", "B", "A ", ""]);
        match t.below(10) {
            0 | 1 => s += &format!("-----BEGIN {l}-----"),
            2 | 3 => s += &format!("-----END {l}-----"),
            4 => s += noise(t),
            5 => s += &format!("-----BEGIN {l}----"),
            6 => s += &format!("-----END {l}--"),
            _ => {
                let d = t.blob(0, 9);
                let b = opem::b64(&d);
                let k = t.below(b.len() as u64 + 1) as usize;
                s += if t.chance(3, 4) { &b } else { &b[..k] };
            }
        }
        s += *t.pick(&["\n", "\n", "\r\n", "\n\n", " \n", "", "\r"]);
    }
    if let Some(w) = pem_judge(&s) {
        pem_text(cx, &s, w.as_ref().map(|(l, d)| (l.as_str(), d.as_slice())), "assembled text");
    } else {
        let _ = cx.must("PEM parse", || format!("{s:?}"), || v::pem_parse(&s));
        cx.class("answer not specified");
    }
}

// ------------------------------------------------------------------ C20

pub static C20: Prop = Prop {
    id: "C20",
    rule: "a case is a byte string given to the ASN.1 parser: the DER encoding of a generated tree (depth up to 64, content lengths across 127/128, 255/256, 65535/65536 and 2^24), every truncation and several extensions, inflated or deflated lengths and re-tagged elements of it, all strings of up to 2 bytes, and random bytes; judged by an independent strict parser; distinct by input",
    scenarios: &[
        Scenario::sweep("asn1-short", 257, 257 + 2048, asn1_short),
        Scenario::sweep("asn1-content", 5 * 300, 5 * 700, asn1_content),
        Scenario::sweep("asn1-large", 15, 35, asn1_large),
        Scenario::sweep("asn1-depth", 64, 64, asn1_depth),
        Scenario::sweep("asn1-extra", 256, 512, asn1_extra),
        Scenario::sweep("asn1-frame", 300, 6000, asn1_frame),
        Scenario::random("asn1-tree", 6, asn1_tree),
        Scenario::random("asn1-mutate", 8, asn1_mutate),
        Scenario::random("asn1-bytes", 4, asn1_bytes),
    ],
    cap: 2 << 30,
};
pub fn conv(a: &Asn1) -> Node {
    match a {
        Asn1::Integer(b) => Node::Int(b.clone()),
        Asn1::OctetString(b) => Node::Oct(b.clone()),
        Asn1::BitString(b, u) => Node::Bits(b.clone(), *u),
        Asn1::Null => Node::Null,
        Asn1::ObjectIdentifier(b) => Node::Oid(b.clone()),
        Asn1::Sequence(s) => Node::Seq(s.iter().map(conv).collect()),
    }
}
fn show(n: &Node) -> String {
    let s = format!("{n:?}");
    if s.len() > 600 { format!("{}..", s.chars().take(600).collect::<String>()) } else { s }
}
fn asn1_judged(cx: &mut Cx, b: &[u8], what: &str) {
    cx.case(&[b]);
    let ctx = || format!("{what}: {}", hex(b));
    let Some(r) = cx.must("ASN.1 parse", ctx, || v::asn1_parse(b)) else { return };
    match (judge(b, 64), r) {
        (Judge::Tree(w), Ok(g)) => {
            let g = conv(&g);
            if g != w {
                cx.viol("ASN.1 parsed to a different tree", format!("{}: got {} want {}", ctx(), show(&g), show(&w)));
            }
            cx.class("tree recovered");
        }
        (Judge::Tree(_), Err(e)) => cx.viol("valid DER rejected", format!("{}: {e}", ctx())),
        (Judge::Reject(why), Ok(g)) => cx.viol(&format!("framing error accepted: {why}"), format!("{}: got {}", ctx(), show(&conv(&g)))),
        (Judge::Reject(why), Err(_)) => cx.class(&format!("rejected: {why}")),
        (Judge::Lax(w), Ok(g)) => {
            let g = conv(&g);
            if g != w {
                cx.viol("ASN.1 parsed to a different tree", format!("{}: got {} want {}", ctx(), show(&g), show(&w)));
            }
            cx.class("non-DER form accepted");
        }
        (Judge::Lax(_), Err(_)) => cx.class("non-DER form rejected"),
    }
}
fn asn1_expect(cx: &mut Cx, n: &Node, what: &str) -> Vec<u8> {
    let b = n.enc();
    cx.case(&[&b]);
    let ctx = || format!("{what}: {} = {}", show(n), hex(&b));
    if let Some(r) = cx.must("ASN.1 parse", ctx, || v::asn1_parse(&b)) {
        match r {
            Err(e) => cx.viol("valid DER rejected", format!("{}: {e}", ctx())),
            Ok(g) => {
                let g = conv(&g);
                if g != *n {
                    cx.viol("ASN.1 parsed to a different tree", format!("{}: got {}", ctx(), show(&g)));
                }
            }
        }
    }
    cx.class("tree recovered");
    cx.sample(61, || format!("{} nodes, depth {}, {} bytes", n.count(), n.depth(), b.len()));
    b
}
fn valid_int(mut b: Vec<u8>) -> Vec<u8> {
    if b.is_empty() {
        b.push(0);
    }
    if b.len() > 1 && (b[0] == 0 && b[1] < 0x80 || b[0] == 0xff && b[1] >= 0x80) {
        b[0] = 1;
    }
    b
}
fn leaf(t: &mut Tape, max: usize) -> Node {
    match t.below(6) {
        0 | 1 => Node::Int(valid_int(t.blob(1, max.max(1)))),
        2 => Node::Oct(t.blob(0, max)),
        3 => {
            let mut b = t.blob(0, max);
            let u = if b.is_empty() { 0 } else { t.below(8) as u8 };
            if let Some(l) = b.last_mut() {
                *l &= 0xffu8 << u;
            }
            Node::Bits(b, u)
        }
        4 => Node::Null,
        _ => Node::Oid(t.blob(1, max.clamp(1, 40))),
    }
}
fn tree(t: &mut Tape, depth: usize, budget: &mut usize) -> Node {
    if *budget > 0 {
        *budget -= 1;
    }
    if depth <= 1 || *budget == 0 || t.chance(2, 5) {
        let max = if t.chance(1, 12) { 400 } else { 20 };
        return leaf(t, max);
    }
    let n = if t.chance(1, 10) { t.range(0, 12) } else { t.range(0, 4) };
    let mut v = vec![];
    for _ in 0..n {
        v.push(tree(t, depth - 1, budget));
    }
    Node::Seq(v)
}
fn gen_tree(t: &mut Tape) -> Node {
    let d = t.range(1, 8);
    let mut b = 30;
    tree(t, d, &mut b)
}
fn asn1_short(i: u64, t: &mut Tape, cx: &mut Cx) {
    match i {
        0 => {
            asn1_judged(cx, &[], "short");
            for a in 0..=255u8 {
                asn1_judged(cx, &[a], "short");
            }
        }
        1..=256 => {
            for b in 0..=255u8 {
                let x = [(i - 1) as u8, b];
                asn1_judged(cx, &x, "short");
                let tail = t.blob(0, 6);
                asn1_judged(cx, &[&x[..], &tail].concat(), "short");
            }
        }
        _ => {
            // all three-byte strings with a supported tag (a slice of them per item)
            let k = i - 257;
            let tag = [2u8, 3, 4, 5, 6, 0x30, 0x31, 0xa0][(k % 8) as usize];
            for c in 0..=255u8 {
                asn1_judged(cx, &[tag, (k / 8) as u8, c], "short");
            }
        }
    }
}
fn one(kind: u64, c: Vec<u8>) -> Node {
    match kind {
        0 => Node::Int(valid_int(c)),
        1 => Node::Oct(c),
        2 => Node::Bits(c, 0),
        3 => Node::Oid(if c.is_empty() { vec![0x2a] } else { c }),
        _ => Node::Seq(vec![Node::Oct(c), Node::Null]),
    }
}
fn asn1_content(i: u64, t: &mut Tape, cx: &mut Cx) {
    let c = t.bytes((i / 5) as usize);
    let n = one(i % 5, c);
    let b = asn1_expect(cx, &n, "content");
    for k in 0..b.len().min(6) {
        asn1_judged(cx, &b[..k], "truncated");
    }
    asn1_judged(cx, &b[..b.len() - 1], "truncated");
    asn1_judged(cx, &[&b[..], &[0]].concat(), "extended");
}
fn asn1_large(i: u64, t: &mut Tape, cx: &mut Cx) {
    let len = [65535usize, 65536, 70000, 1 << 24, (1 << 24) - 1, 1 << 16 | 0x8000, 200_000][(i / 5) as usize % 7];
    let len = if i >= 10 && !cx.thorough { [65534usize, 65536, 70000][(i % 3) as usize] } else { len };
    let c = t.seeded(len);
    let n = one(i % 5, c);
    let b = asn1_expect(cx, &n, "large content");
    for k in [1, b.len() / 2, b.len() - 1] {
        asn1_judged(cx, &b[..k], "truncated");
    }
}
fn asn1_depth(i: u64, t: &mut Tape, cx: &mut Cx) {
    for _ in 0..6 {
        let mut n = leaf(t, 5);
        for _ in 0..i {
            n = match t.below(4) {
                0 => Node::Seq(vec![n, leaf(t, 3)]),
                1 => Node::Seq(vec![leaf(t, 3), n]),
                _ => Node::Seq(vec![n]),
            };
        }
        asn1_expect(cx, &n, "nested");
    }
    // the chain without any leaf
    let mut n = Node::Seq(vec![]);
    for _ in 0..i {
        n = Node::Seq(vec![n]);
    }
    asn1_expect(cx, &n, "nested");
}
/// all truncations and extensions of one encoding, and all changes to every length byte
/// every pair of bytes, and runs of one byte, as content beside good elements
fn asn1_extra(i: u64, t: &mut Tape, cx: &mut Cx) {
    let x = i as u8;
    let good = gen_tree(t).enc();
    let good = if good.len() > 60 { vec![2, 1, 9] } else { good };
    let places = |e: &[u8]| {
        vec![
            der::tlv(0x30, e),
            der::tlv(0x30, &[&good[..], e].concat()),
            der::tlv(0x30, &[e, &good].concat()),
            der::tlv(0x30, &[&der::tlv(0x30, &[&[5, 0], e].concat())[..], &good].concat()),
            [&good[..], e].concat(),
            [e, &good].concat(),
        ]
    };
    for y in 0..=255u8 {
        for p in places(&[x, y]) {
            asn1_judged(cx, &p, "two bytes beside good elements");
        }
    }
    for n in [1usize, 3, 4, 5, 6, 8, 16, 17, 127, 128, 129, 255, 256, 257] {
        for p in places(&vec![x; n]) {
            asn1_judged(cx, &p, "a run of one byte beside good elements");
        }
    }
}
fn asn1_frame(_: u64, t: &mut Tape, cx: &mut Cx) {
    let n = gen_tree(t);
    let b = asn1_expect(cx, &n, "tree");
    if b.len() > 500 {
        return;
    }
    for k in 0..b.len() {
        asn1_judged(cx, &b[..k], "truncated");
    }
    let ext = t.blob(1, 5);
    asn1_judged(cx, &[&b[..], &ext].concat(), "extended");
    asn1_judged(cx, &[&b[..], &b].concat(), "doubled");
    for k in 0..b.len().min(60) {
        for d in [1u8, 255, 0x80, 0x10] {
            let mut x = b.clone();
            x[k] = x[k].wrapping_add(d);
            asn1_judged(cx, &x, "byte changed");
        }
        let mut x = b.clone();
        x[k] = t.byte();
        asn1_judged(cx, &x, "byte changed");
    }
}
fn asn1_tree(_: u64, t: &mut Tape, cx: &mut Cx) {
    let n = if t.chance(1, 10) {
        let (d, mut b) = (t.range(1, 64), 150);
        tree(t, d, &mut b)
    } else {
        gen_tree(t)
    };
    let b = asn1_expect(cx, &n, "tree");
    let k = t.below(b.len() as u64) as usize;
    asn1_judged(cx, &b[..k], "truncated");
}
/// re-encodes a tree with defects in the framing of one element
fn enc_bad(n: &Node, at: &mut i64, t: &mut Tape) -> Vec<u8> {
    let here = *at == 0;
    *at -= 1;
    let content = match n {
        Node::Seq(v) => v.iter().flat_map(|c| enc_bad(c, at, t)).collect::<Vec<u8>>(),
        Node::Int(b) | Node::Oct(b) | Node::Oid(b) => b.clone(),
        Node::Bits(b, u) => [&[*u][..], b].concat(),
        Node::Null => vec![],
    };
    let tag = match n {
        Node::Int(_) => 2,
        Node::Oct(_) => 4,
        Node::Bits(..) => 3,
        Node::Null => 5,
        Node::Oid(_) => 6,
        Node::Seq(_) => 0x30,
    };
    if !here {
        return der::tlv(tag, &content);
    }
    let l = content.len() as u64;
    let claimed = match t.below(8) {
        0 => l + 1,
        1 => l.wrapping_sub(1),
        2 => l + t.below(300),
        3 => u64::MAX,
        4 => 1 << 63 | l,
        5 => 1 << 32 | l,
        6 => l + 128,
        _ => l,
    };
    let mut out = vec![];
    out.push(if t.chance(1, 3) { t.byte() } else { tag });
    match t.below(6) {
        0 => out.push(l as u8),
        1 => {
            let k = *t.pick(&[1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 126, 127]);
            out.push(0x80 | k as u8);
            let lead = t.below(3) == 0;
            let full: Vec<u8> = std::iter::repeat_n(if lead { 1 } else { 0 }, k.saturating_sub(8)).chain(claimed.to_be_bytes()).collect();
            out.extend_from_slice(&full[full.len() - k.min(full.len())..]);
        }
        2 => {
            out.push(0x80);
        }
        _ => out.extend(if claimed < 128 { vec![claimed as u8] } else { der::len_bytes(claimed as usize) }),
    }
    out.extend(content);
    out
}
fn asn1_mutate(_: u64, t: &mut Tape, cx: &mut Cx) {
    let n = gen_tree(t);
    let mut at = t.below(n.count() as u64) as i64;
    let mut b = enc_bad(&n, &mut at, t);
    if t.chance(1, 4) && !b.is_empty() {
        let k = t.below(b.len() as u64) as usize;
        b.truncate(k);
    }
    if b.len() <= 1500 {
        asn1_judged(cx, &b, "reframed");
    }
}
fn asn1_bytes(_: u64, t: &mut Tape, cx: &mut Cx) {
    let mut b = t.blob(0, 80);
    for x in b.iter_mut() {
        if t.chance(1, 3) {
            *x = *t.pick(&[2, 3, 4, 5, 6, 0x30, 0, 1, 2, 3, 0x80, 0x81, 0x82, 0x84, 0x88]);
        }
    }
    asn1_judged(cx, &b, "bytes");
}

// ------------------------------------------------------------------ C21

pub static C21: Prop = Prop {
    id: "C21",
    rule: "a case is (label, DER, kind of key) given to key import and judged by an independent reading of PKCS#8 / SubjectPublicKeyInfo; accepted keys are probed with raw operations that determine modulus and exponent (m^x mod n against the reference); valid keys of 2 to 4096 bits and one-field defects of every kind; distinct by (label, DER)",
    scenarios: &[
        Scenario::sweep("import-sizes", 520, 1040, import_sizes),
        Scenario::sweep("import-defects", 4 * DEFECTS, 40 * DEFECTS, import_defects),
        Scenario::sweep("import-oid", 9 * 4, 9 * 32, import_oid),
        Scenario::heavy_plain("import-large", 16, 64, import_large),
        Scenario::heavy_plain("import-huge", 56, 224, import_huge),
        Scenario::random("import-valid", 4, import_valid),
        Scenario::random("import-mutate", 6, import_mutate),
    ],
    cap: 1 << 30,
};
#[derive(Debug)]
enum Verdict {
    Import(Int, Int),
    Reject(&'static str),
    Either(Option<(Int, Int)>),
}
fn nonneg(b: &[u8]) -> bool {
    b.first().is_none_or(|&x| x < 0x80)
}
fn judge_key(label: &str, b: &[u8], private: bool) -> Verdict {
    if label != if private { "PRIVATE KEY" } else { "PUBLIC KEY" } {
        return Verdict::Reject("label");
    }
    let mut lax = false;
    let mut open = |b: &[u8]| match judge(b, 64) {
        Judge::Tree(n) => Some(n),
        Judge::Lax(n) => {
            lax = true;
            Some(n)
        }
        Judge::Reject(_) => None,
    };
    let Some(Node::Seq(s)) = open(b) else { return Verdict::Reject("outer structure") };
    let (alg, inner) = if private {
        if s.len() != 3 {
            return Verdict::Reject("outer structure");
        }
        match &s[0] {
            Node::Int(v) if v.iter().all(|&x| x == 0) => {}
            _ => return Verdict::Reject("PKCS#8 version"),
        }
        let Node::Oct(i) = &s[2] else { return Verdict::Reject("outer structure") };
        (&s[1], i.clone())
    } else {
        if s.len() != 2 {
            return Verdict::Reject("outer structure");
        }
        let Node::Bits(i, u) = &s[1] else { return Verdict::Reject("outer structure") };
        if *u != 0 {
            return Verdict::Reject("unused bits");
        }
        (&s[0], i.clone())
    };
    if *alg != alg_id() {
        return Verdict::Reject("algorithm identifier");
    }
    let Some(Node::Seq(f)) = open(&inner) else { return Verdict::Reject("key structure") };
    let mut ints: Vec<Vec<u8>> = vec![];
    for x in &f {
        let Node::Int(b) = x else {
            if private && f.len() == 10 {
                return Verdict::Either(None); // multi-prime form
            }
            return Verdict::Reject("field type");
        };
        ints.push(b.clone());
    }
    if ints.len() != if private { 9 } else { 2 } {
        return Verdict::Reject("number of fields");
    }
    let (nb, xb) = if private { (&ints[1], &ints[3]) } else { (&ints[0], &ints[1]) };
    let (n, x) = (Int::from_be(nb), Int::from_be(xb));
    if private && ints[0] != [0] {
        lax = true;
    }
    let plain = ints.iter().all(|b| nonneg(b));
    if !nonneg(nb) || !nonneg(xb) || n.bits() < 2 {
        return Verdict::Either(None);
    }
    if lax || !plain { Verdict::Either(Some((n, x))) } else { Verdict::Import(n, x) }
}
/// Operations that determine the modulus (exponent permitting) and the exponent.
fn probe(cx: &mut Cx, t: &mut Tape, k: &v::Rsa, n: &Int, x: &Int, ctx: &dyn Fn() -> String, enough: u32) {
    let cost = x.bits() * n.bits();
    let mut ms = vec![n.dec(), n.clone(), n128(2), Int::from_be(&t.bytes(n.bytes() + 1))];
    if n.bits() > 4096 && x.bits() == 1 {
        // close to n: the reduction shows all of n and takes few steps
        ms = vec![n.clone(), n.add(&n128(12345))];
    } else if cost > 2_000_000 {
        ms = vec![n.dec().dec()];
    } else {
        for _ in 0..enough {
            ms.push(Int::from_be(&t.bytes(n.bytes())));
        }
        ms.push(n.add(&n128(2)));
        ms.push(n.shl(1).dec());
    }
    for m in ms {
        let want = m.modpow(x, n);
        let mb = m.to_be();
        let Some(g) = cx.must("operation with an imported key", ctx, || v::rsa_enc(k, &mb)) else { return };
        if Int::from_be(&g) != want {
            cx.viol("imported key computes with another modulus or exponent", format!("{}: m={} got {} want {}", ctx(), hex(&mb), hex(&g), hex(&want.to_be())));
            return;
        }
    }
}
fn import_judged(cx: &mut Cx, t: &mut Tape, label: &str, b: &[u8], private: bool, text: bool, what: &str) {
    cx.case(&[label.as_bytes(), &[private as u8], b]);
    let ctx = || format!("{what}: label {label:?} as {} key: {}", if private { "private" } else { "public" }, hex(b));
    let s = if text { rewrap(t, label, b) } else { String::new() };
    let r = cx.must("key import", ctx, || match (private, text) {
        (true, false) => v::import_priv(label, b).map(v::rsa_priv),
        (false, false) => v::import_pub(label, b).map(v::rsa_pub),
        (true, true) => v::import_priv_text(&s).map(v::rsa_priv),
        (false, true) => v::import_pub_text(&s).map(v::rsa_pub),
    });
    let Some(r) = r else { return };
    match (judge_key(label, b, private), r) {
        (Verdict::Import(n, x), Ok(k)) => {
            probe(cx, t, &k, &n, &x, &ctx, 2);
            cx.class(if private { "private key imported" } else { "public key imported" });
            cx.class_n("modulus bits imported", n.bits());
        }
        (Verdict::Import(..), Err(e)) => cx.viol("valid key rejected", format!("{}: {e}", ctx())),
        (Verdict::Reject(why), Ok(_)) => cx.viol(&format!("imported despite wrong {why}"), ctx()),
        (Verdict::Reject(why), Err(_)) => cx.class(&format!("rejected: {why}")),
        (Verdict::Either(Some((n, x))), Ok(k)) => {
            probe(cx, t, &k, &n, &x, &ctx, 1);
            cx.class("unspecified form accepted");
        }
        (Verdict::Either(_), _) => cx.class("answer not specified"),
    }
}
fn others(t: &mut Tape) -> [Int; 6] {
    std::array::from_fn(|_| Int::from_be(&t.blob(0, 40)))
}
/// modulus >= 2 and exponent; at least one of them small so that the operation is cheap
fn gen_key(t: &mut Tape, nbits: u64, xbits: u64) -> (Int, Int) {
    let exact = |t: &mut Tape, bits: u64| {
        let b = t.bytes((bits as usize).div_ceil(8));
        let mut v = Int::from_be(&b);
        v = v.rem(&n128(1).shl(bits));
        if bits > 0 {
            v.set_bit(bits - 1, true);
        }
        v
    };
    let n = if nbits <= 62 && nbits >= 20 { random_prime(t, nbits) } else { exact(t, nbits.max(2)) };
    (n, exact(t, xbits))
}
fn encode(t: &mut Tape, n: &Int, x: &Int, private: bool) -> Vec<u8> {
    if private {
        let o = others(t);
        pkcs8(n, x, &o).enc()
    } else {
        spki(n, x).enc()
    }
}
fn label_of(private: bool) -> &'static str {
    if private { "PRIVATE KEY" } else { "PUBLIC KEY" }
}
fn import_sizes(i: u64, t: &mut Tape, cx: &mut Cx) {
    let private = i % 2 == 0;
    let bits = i / 2;
    // a modulus of every size with a tiny exponent, and an exponent of every size with a small prime modulus
    let big = if bits < 200 { bits } else { 200 + (bits - 200) * 17 };
    let (n, _) = gen_key(t, big.clamp(2, 4200), 2);
    for x in [n128(1), n128(3)] {
        let b = encode(t, &n, &x, private);
        import_judged(cx, t, label_of(private), &b, private, bits % 3 == 0, "modulus size");
    }
    let (n, x) = gen_key(t, 40, big.min(4200));
    let b = encode(t, &n, &x, private);
    import_judged(cx, t, label_of(private), &b, private, bits % 3 == 0, "exponent size");
}
fn import_large(i: u64, t: &mut Tape, cx: &mut Cx) {
    let private = i % 2 == 0;
    let bits = [512u64, 521, 768, 1024][(i / 2) as usize % 4];
    let (n, x) = if private { gen_key(t, bits, bits - 1) } else { (gen_key(t, 2 * bits, 2).0, n128(65537)) };
    let b = encode(t, &n, &x, private);
    import_judged(cx, t, label_of(private), &b, private, true, "large key");
}
/// moduli and exponents far above the usual sizes; the other number is small, so that reading a
/// single byte of the large one wrongly still shows in what the key computes
fn import_huge(i: u64, t: &mut Tape, cx: &mut Cx) {
    let private = i % 2 == 0;
    let bits = [4097u64, 4103, 4104, 4105, 4112, 5000, 6144, 8191, 8192, 8200, 12_288, 15_360, 16_384, 16_385][(i / 4) as usize % 14] + (i / 56) * 131;
    let (n, x) = if i / 2 % 2 == 0 { (gen_key(t, bits, 1).0, n128(1)) } else { gen_key(t, 40, bits) };
    let b = encode(t, &n, &x, private);
    import_judged(cx, t, label_of(private), &b, private, i % 3 == 0, "very large key");
}
fn import_valid(_: u64, t: &mut Tape, cx: &mut Cx) {
    let private = t.chance(1, 2);
    let (n, x) = if t.chance(1, 2) {
        let (a, c) = (t.range(2, 600) as u64, t.range(0, 6) as u64);
        gen_key(t, a, c)
    } else {
        let (a, c) = (t.range(20, 60) as u64, t.range(0, 600) as u64);
        gen_key(t, a, c)
    };
    let b = encode(t, &n, &x, private);
    let text = t.chance(1, 3);
    import_judged(cx, t, label_of(private), &b, private, text, "valid key");
    cx.sample(41, || format!("{} key, {} bit modulus, {} bit exponent", label_of(private), n.bits(), x.bits()));
}
fn import_oid(i: u64, t: &mut Tape, cx: &mut Cx) {
    let (n, x) = gen_key(t, 40, 10);
    let k = (i % 9) as usize;
    for private in [false, true] {
        for d in 0..8 {
            let mut oid = OID.to_vec();
            match i / 9 % 4 {
                0 => oid[k] ^= 1 << d,
                1 => {
                    oid.truncate(k);
                    if d > 0 {
                        oid.extend_from_slice(&OID[k..]);
                        oid.push(d);
                    }
                }
                2 => {
                    oid.remove(k);
                }
                _ => oid.insert(k, t.byte()),
            }
            let alg = Node::Seq(vec![Node::Oid(oid), Node::Null]);
            let node = if private {
                Node::Seq(vec![Node::Int(vec![0]), alg, Node::Oct(rsa_private(&n, &x, &others(t)).enc())])
            } else {
                Node::Seq(vec![alg, Node::Bits(Node::Seq(vec![der_int(&n), der_int(&x)]).enc(), 0)])
            };
            import_judged(cx, t, label_of(private), &node.enc(), private, false, "object identifier");
        }
    }
}
const DEFECTS: u64 = 40;
fn import_defects(i: u64, t: &mut Tape, cx: &mut Cx) {
    let private = i / DEFECTS % 2 == 0;
    let (n, x) = gen_key(t, 50, 30);
    defect(cx, t, i % DEFECTS, &n, &x, private);
}
fn retype(t: &mut Tape, n: &Node) -> Node {
    let b = match n {
        Node::Int(b) | Node::Oct(b) | Node::Oid(b) | Node::Bits(b, _) => b.clone(),
        Node::Null => vec![],
        Node::Seq(_) => n.enc(),
    };
    match t.below(7) {
        0 => Node::Oct(b),
        1 => Node::Bits(b, 0),
        2 => Node::Oid(b),
        3 => Node::Null,
        4 => Node::Seq(vec![n.clone()]),
        5 => Node::Seq(vec![]),
        _ => Node::Int(b),
    }
}
fn edit(t: &mut Tape, v: &mut Vec<Node>) {
    let k = if v.is_empty() { 0 } else { t.below(v.len() as u64) as usize };
    match t.below(6) {
        0 if !v.is_empty() => {
            v.remove(k);
        }
        1 => {
            let l = leaf(t, 5);
            v.insert(k, l);
        }
        2 if !v.is_empty() => {
            let c = v[k].clone();
            v.insert(k, c);
        }
        3 => {
            let l = leaf(t, 5);
            v.push(l);
        }
        4 if v.len() > 1 => {
            let j = t.below(v.len() as u64) as usize;
            v.swap(k, j);
        }
        _ => {
            if !v.is_empty() {
                v[k] = retype(t, &v[k].clone());
            }
        }
    }
}
fn defect(cx: &mut Cx, t: &mut Tape, kind: u64, n: &Int, x: &Int, private: bool) {
    let label = label_of(private);
    let o = others(t);
    let mut inner = if private {
        let Node::Seq(v) = rsa_private(n, x, &o) else { unreachable!() };
        v
    } else {
        vec![der_int(n), der_int(x)]
    };
    let mut alg = vec![Node::Oid(OID.to_vec()), Node::Null];
    let mut version = Node::Int(vec![0]);
    let mut lbl = label.to_string();
    let mut unused = 0;
    let mut swap_container = false;
    let mut outer_edit = false;
    let mut tail: Vec<u8> = vec![];
    let mut inner_tail: Vec<u8> = vec![];
    match kind {
        0 => lbl = label_of(!private).to_string(),
        1 => lbl = "RSA ".to_string() + label,
        2 => lbl = t.pick(&["", "private key", "PRIVATE  KEY", "ENCRYPTED PRIVATE KEY", "CERTIFICATE", " PRIVATE KEY", "PRIVATE KEY ", "PUBLIC KEY ", "EC PRIVATE KEY", "PUBLIC", "public key", "PUBLICKEY"]).to_string(),
        3 => alg[1] = leaf(t, 4),
        4 => {
            alg.pop();
        }
        5 => alg.push(leaf(t, 4)),
        6 => edit(t, &mut alg),
        7 => alg = vec![],
        8 => alg[1] = Node::Seq(vec![]),
        9 => alg.reverse(),
        10 => version = Node::Int(vec![t.range(1, 127) as u8]),
        11 => version = Node::Int(vec![1, 0]),
        12 => version = leaf(t, 3),
        13 => version = Node::Int(vec![0, 0]),
        14 => version = Node::Int(vec![0x80]),
        15..18 => edit(t, &mut inner),
        18 => {
            inner.pop();
        }
        19 => {
            let l = leaf(t, 4);
            inner.push(l);
        }
        20 => {
            let k = t.below(inner.len() as u64) as usize;
            inner[k] = retype(t, &inner[k].clone());
        }
        21 => inner = vec![Node::Seq(inner)],
        22 => inner = vec![],
        23 => unused = t.range(1, 7) as u8,
        24 => swap_container = true,
        25 | 26 => outer_edit = true,
        27 => tail = t.blob(1, 6),
        28 => inner_tail = t.blob(1, 6),
        29 => {
            if private {
                inner[0] = Node::Int(vec![t.byte()]);
            }
        }
        30 => {
            let k = t.below(inner.len() as u64) as usize;
            if let Node::Int(b) = &mut inner[k] {
                b.insert(0, 0); // non-minimal integer
            }
        }
        31 => {
            let k = t.below(inner.len() as u64) as usize;
            if let Node::Int(b) = &mut inner[k] {
                b[0] |= 0x80; // negative
            }
        }
        32 => {
            // the inner structure of the other kind
            inner = if private { vec![der_int(n), der_int(x)] } else { match rsa_private(n, x, &o) { Node::Seq(v) => v, _ => unreachable!() } };
        }
        33 => {
            // a complete key of the other kind under this label
            let b = if private { spki(n, x).enc() } else { pkcs8(n, x, &o).enc() };
            return import_judged(cx, t, label, &b, private, false, "key of the other kind");
        }
        34 => {
            // the bare inner structure (PKCS#1)
            let b = Node::Seq(inner).enc();
            return import_judged(cx, t, label, &b, private, false, "PKCS#1 structure");
        }
        35 => {
            let b = Node::Seq(vec![if private { pkcs8(n, x, &o) } else { spki(n, x) }]).enc();
            return import_judged(cx, t, label, &b, private, false, "wrapped once more");
        }
        36 => {
            let k = t.below(inner.len() as u64) as usize;
            inner[k] = Node::Int(vec![0]);
        }
        37 => {
            // a field is a long integer
            let k = t.below(inner.len() as u64) as usize;
            let mut b = t.bytes(700);
            b[0] = 1;
            if !(private && (k == 1 || k == 3) || !private) {
                inner[k] = Node::Int(b);
            }
        }
        _ => {}
    }
    let mut ib = Node::Seq(inner).enc();
    ib.extend(inner_tail);
    let container = if private != swap_container { Node::Oct(ib) } else { Node::Bits(ib, unused) };
    let mut outer = if private { vec![version, Node::Seq(alg), container] } else { vec![Node::Seq(alg), container] };
    if outer_edit {
        edit(t, &mut outer);
    }
    let mut b = Node::Seq(outer).enc();
    b.extend(tail);
    let text = kind != 2 && t.chance(1, 4);
    import_judged(cx, t, &lbl, &b, private, text, "defective key");
}
fn import_mutate(_: u64, t: &mut Tape, cx: &mut Cx) {
    let private = t.chance(1, 2);
    let nb = t.range(20, 60) as u64;
    let (n, x) = gen_key(t, nb, 20);
    if t.chance(1, 2) {
        let k = t.below(DEFECTS);
        return defect(cx, t, k, &n, &x, private);
    }
    let mut b = encode(t, &n, &x, private);
    for _ in 0..t.range(1, 3) {
        let k = t.below(b.len() as u64) as usize;
        match t.below(4) {
            0 => b[k] ^= 1 << t.below(8),
            1 => b[k] = t.byte(),
            2 => b.insert(k, t.byte()),
            _ => {
                b.remove(k);
            }
        }
        if b.is_empty() {
            break;
        }
    }
    import_judged(cx, t, label_of(private), &b, private, false, "mutated key");
}

// ------------------------------------------------------------------ C22

pub static C22: Prop = Prop {
    id: "C22",
    rule: "a case is one untrusted input given to one decoder (PEM, ASN.1, private/public key import, digest hex, OAEP unpadding) watched for panics, aborts, stack exhaustion (2 MiB thread), more than 30 s of CPU and more than 1 MiB + 1024 x input of live heap; all ASN.1 inputs of up to 3 bytes (thorough; a third of them in quick), nesting up to 200000 levels, every claimed-length encoding, random and structured bytes; distinct by (decoder, input)",
    scenarios: &[
        Scenario::sweep("deep", 60, 120, deep),
        Scenario::sweep("bytes3", 2 * 256, 6 * 256, bytes3),
        Scenario::sweep("lengths", 256 * 8, 256 * 64, lengths),
        Scenario::sweep("big-inputs", 40, 160, big_inputs),
        Scenario::sweep("unpad-sizes", 300, 3000, unpad_sizes),
        Scenario::sweep("hex-sizes", 300, 1000, hex_sizes),
        Scenario::random("asn1-untrusted", 8, asn1_untrusted),
        Scenario::random("import-untrusted", 6, import_untrusted),
        Scenario::random("pem-untrusted", 4, pem_untrusted),
        Scenario::random("oaep-untrusted", 4, oaep_untrusted),
        Scenario::random("hex-untrusted", 2, hex_untrusted),
    ],
    cap: 1 << 30,
};
fn guard<T>(cx: &mut Cx, what: &'static str, input: &[u8], f: impl FnOnce() -> Result<T, String>) {
    cx.case(&[what.as_bytes(), input]);
    let limit = (1 << 20) + 1024 * input.len();
    let r = cx.call(|| peak_of(|| f().is_ok()));
    match r {
        Err(e) => cx.viol(&format!("{what}: panic"), format!("{what} on {} bytes {}: panicked: {e}", input.len(), hex(input))),
        Ok((ok, peak)) => {
            cx.class(&format!("{what}: {}", if ok { "value" } else { "error" }));
            if peak > limit {
                cx.viol(&format!("{what}: memory out of proportion"), format!("{what} on {} bytes {}: {peak} bytes of heap", input.len(), hex(input)));
            }
        }
    }
}
fn g_asn1(cx: &mut Cx, b: &[u8]) {
    guard(cx, "ASN.1 parsing", b, || v::asn1_parse(b));
}
fn g_import(cx: &mut Cx, b: &[u8]) {
    guard(cx, "private key import", b, || v::import_priv("PRIVATE KEY", b));
    guard(cx, "public key import", b, || v::import_pub("PUBLIC KEY", b));
}
fn g_pem(cx: &mut Cx, s: &str) {
    guard(cx, "PEM parsing", s.as_bytes(), || v::pem_parse(s));
}
fn g_oaep(cx: &mut Cx, label: &[u8], em: &[u8], k: usize) {
    let mut input = em.to_vec();
    input.extend_from_slice(label);
    guard(cx, "RSA unpadding", &input, || v::oaep_decode(label, em, k));
}
/// opens `levels` nested elements around `core` without recursion
fn nest(core: &[u8], levels: usize, tag: u8, form: u64) -> Vec<u8> {
    // lengths from the inside out
    let mut heads: Vec<Vec<u8>> = Vec::with_capacity(levels);
    let mut len = core.len();
    for _ in 0..levels {
        let mut h = vec![tag];
        match form {
            0 => h.extend(der::len_bytes(len)),
            1 => {
                h.push(0x84);
                h.extend_from_slice(&(len as u32).to_be_bytes());
            }
            _ => {
                h.push(0x88);
                h.extend_from_slice(&(len as u64).to_be_bytes());
            }
        }
        len += h.len();
        heads.push(h);
    }
    let mut out = Vec::with_capacity(len);
    for h in heads.iter().rev() {
        out.extend_from_slice(h);
    }
    out.extend_from_slice(core);
    out
}
fn deep(i: u64, t: &mut Tape, cx: &mut Cx) {
    let levels = [1usize, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 500, 1000, 2000, 5000, 20_000, 60_000, 200_000][(i % 20) as usize];
    let form = i / 20 % 3;
    for core in [vec![], vec![5, 0], vec![0x30], vec![0xff, 0], vec![0x30, 0x84, 0xff, 0xff, 0xff, 0xff]] {
        let b = nest(&core, levels, 0x30, form);
        g_asn1(cx, &b);
        if levels <= 20_000 || form == 0 {
            g_import(cx, &b);
            // in the place of the inner key
            let k1 = Node::Seq(vec![Node::Int(vec![0]), alg_id(), Node::Oct(b.clone())]).enc();
            guard(cx, "private key import", &k1, || v::import_priv("PRIVATE KEY", &k1));
            let k2 = Node::Seq(vec![alg_id(), Node::Bits(b.clone(), 0)]).enc();
            guard(cx, "public key import", &k2, || v::import_pub("PUBLIC KEY", &k2));
        }
        // siblings after the deep part, and a truncated chain
        let mut s = b.clone();
        s.truncate(s.len() - t.range(0, 3).min(s.len() - 1));
        g_asn1(cx, &s);
    }
    cx.class_n("nesting levels", levels as u64);
}
fn bytes3(i: u64, t: &mut Tape, cx: &mut Cx) {
    let a = (i % 256) as u8;
    if i < 256 {
        for b in 0..=255u8 {
            g_asn1(cx, &[a, b]);
        }
        g_asn1(cx, &[a]);
        g_asn1(cx, &[]);
    }
    let part = i / 256;
    for b in 0..=255u8 {
        for c in 0..=255u8 {
            if (b as u64 + c as u64 + a as u64) % 6 == part {
                g_asn1(cx, &[a, b, c]);
            }
        }
    }
    let b = t.blob(3, 30);
    g_asn1(cx, &[&[a], &b[..]].concat());
}
/// every length-of-length byte and many claimed lengths in front of a little data, at several places
fn lengths(i: u64, t: &mut Tape, cx: &mut Cx) {
    let l0 = (i % 256) as u8;
    let k = (l0 & 0x7f) as usize;
    let mut field: Vec<u8> = match i / 256 % 4 {
        0 => vec![0; k],
        1 => vec![0xff; k],
        2 => {
            let mut f = vec![0; k];
            if let Some(x) = f.last_mut() {
                *x = t.byte();
            }
            if k > 4 {
                f[k - 4] = t.byte();
            }
            f
        }
        _ => t.bytes(k),
    };
    if i / 1024 % 2 == 1 && k > 0 {
        field.truncate(t.below(k as u64) as usize);
    }
    let data = t.blob(0, 20);
    for tag in [2u8, 3, 4, 5, 6, 0x30] {
        let b = [&[tag, l0][..], &field, &data].concat();
        g_asn1(cx, &b);
        let w = der::tlv(0x30, &b);
        g_asn1(cx, &w);
        g_import(cx, &b);
        let k1 = Node::Seq(vec![Node::Int(vec![0]), alg_id(), Node::Oct(b.clone())]).enc();
        guard(cx, "private key import", &k1, || v::import_priv("PRIVATE KEY", &k1));
        let k2 = Node::Seq(vec![alg_id(), Node::Bits(b.clone(), 0)]).enc();
        guard(cx, "public key import", &k2, || v::import_pub("PUBLIC KEY", &k2));
    }
}
fn big_inputs(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = [100_000usize, 1 << 20][(i % 2) as usize];
    match i / 2 % 10 {
        0 => {
            let b = der::tlv(0x30, &[5u8, 0].repeat(n / 2));
            g_asn1(cx, &b);
        }
        1 => {
            let b = der::tlv(0x30, &[0x30u8, 0].repeat(n / 2));
            g_asn1(cx, &b);
            g_import(cx, &b);
        }
        2 => g_asn1(cx, &vec![0x30; n]),
        3 => g_asn1(cx, &vec![0x80; n]),
        4 => {
            let s = "A".repeat(n);
            g_pem(cx, &s);
            g_pem(cx, &format!("-----BEGIN X-----\n{s}\n-----END X-----"));
            g_pem(cx, &format!("-----BEGIN {s}-----\n-----END {s}-----"));
        }
        5 => {
            g_pem(cx, &"\n".repeat(n));
            g_pem(cx, &format!("-----BEGIN X-----\n{}\n-----END X-----", "\n".repeat(n)));
            g_pem(cx, &"-----BEGIN X-----\n".repeat(n / 18));
        }
        6 => {
            let b = t.seeded(n);
            g_asn1(cx, &b);
            g_import(cx, &b);
            g_oaep(cx, b"", &b, b.len());
            g_oaep(cx, &b, &b[..100], 100);
        }
        7 => {
            // binary tree of sequences
            let mut b: Vec<u8> = vec![5, 0];
            while b.len() < n / 4 {
                b = der::tlv(0x30, &[b.clone(), b].concat());
            }
            g_asn1(cx, &b);
            g_import(cx, &b);
        }
        8 => {
            let x = der::tlv(2, &vec![0x7f; n]);
            g_asn1(cx, &x);
            let k2 = Node::Seq(vec![alg_id(), Node::Bits(der::tlv(0x30, &[x.clone(), vec![2, 1, 3]].concat()), 0)]).enc();
            guard(cx, "public key import", &k2, || v::import_pub("PUBLIC KEY", &k2));
        }
        _ => {
            for len in [20usize, 28, 32, 48, 64] {
                let s = vec![b'a'; n];
                guard(cx, "digest hex parsing", &s, || v::hash_from_hex(len, &s));
            }
        }
    }
}
const KS: &[usize] = &[0, 1, 2, 31, 32, 33, 34, 64, 65, 66, 67, 68, 96, 100, 127, 128, 255, 256, 257, 512, 1 << 20, 1 << 31, 1 << 32, usize::MAX - 1, usize::MAX, usize::MAX / 2, 1 << 62];
fn unpad_sizes(i: u64, t: &mut Tape, cx: &mut Cx) {
    let em = t.bytes(i as usize);
    let label = t.blob(0, 10);
    for d in [0isize, 1, -1, 32, -32, 33] {
        let k = (i as isize + d).max(0) as usize;
        g_oaep(cx, &label, &em, k);
    }
    for &k in KS {
        g_oaep(cx, &label, &em, k);
    }
}
fn hex_sizes(i: u64, t: &mut Tape, cx: &mut Cx) {
    for n in [20usize, 28, 32, 48, 64] {
        let digits: Vec<u8> = (0..i).map(|_| *t.pick(b"0123456789abcdefABCDEF")).collect();
        guard(cx, "digest hex parsing", &digits, || v::hash_from_hex(n, &digits));
        let raw = t.bytes(i as usize);
        guard(cx, "digest hex parsing", &raw, || v::hash_from_hex(n, &raw));
    }
}
fn junk(t: &mut Tape, n: usize) -> Vec<u8> {
    let mut b = t.blob(0, n);
    let p = t.below(4);
    for x in b.iter_mut() {
        if t.below(4) < p {
            *x = *t.pick(&[2, 3, 4, 5, 6, 0x30, 0x30, 0, 1, 2, 3, 0x80, 0x81, 0x82, 0x84, 0x88, 0x90, 0x91, 0xff]);
        }
    }
    b
}
fn asn1_untrusted(_: u64, t: &mut Tape, cx: &mut Cx) {
    let b = if t.chance(1, 2) {
        junk(t, 120)
    } else {
        let n = gen_tree(t);
        let mut at = t.below(n.count() as u64) as i64;
        let mut b = enc_bad(&n, &mut at, t);
        if t.chance(1, 2) {
            let k = t.below(b.len() as u64 + 1) as usize;
            b.truncate(k);
        }
        b
    };
    g_asn1(cx, &b);
    cx.sample(331, || format!("ASN.1 {}", hex(&b)));
}
fn import_untrusted(_: u64, t: &mut Tape, cx: &mut Cx) {
    let private = t.chance(1, 2);
    let b = match t.below(4) {
        0 => {
            let j = junk(t, 60);
            if private { Node::Seq(vec![Node::Int(vec![0]), alg_id(), Node::Oct(j)]).enc() } else { Node::Seq(vec![alg_id(), Node::Bits(j, 0)]).enc() }
        }
        1 => {
            // fields of any type and any length, also empty
            let n = *t.pick(&[0usize, 1, 2, 2, 8, 9, 9, 9, 10]);
            let mut inner = vec![];
            for _ in 0..n {
                let b = t.blob(0, 6);
                inner.extend(if t.chance(4, 5) { der::tlv(2, &b) } else { leaf(t, 6).enc() });
            }
            let s = der::tlv(0x30, &inner);
            if private { Node::Seq(vec![Node::Int(vec![0]), alg_id(), Node::Oct(s)]).enc() } else { Node::Seq(vec![alg_id(), Node::Bits(s, 0)]).enc() }
        }
        2 => gen_tree(t).enc(),
        _ => {
            let n = Int::from_be(&t.blob(0, 40));
            let x = Int::from_be(&t.blob(0, 40));
            let mut b = encode(t, &n, &x, private);
            for _ in 0..t.range(1, 4) {
                let k = t.below(b.len() as u64) as usize;
                b[k] = t.byte();
            }
            b
        }
    };
    if private {
        guard(cx, "private key import", &b, || v::import_priv("PRIVATE KEY", &b));
    } else {
        guard(cx, "public key import", &b, || v::import_pub("PUBLIC KEY", &b));
    }
}
fn pem_untrusted(_: u64, t: &mut Tape, cx: &mut Cx) {
    let s = if t.chance(1, 3) {
        let b = t.blob(0, 200);
        String::from_utf8_lossy(&b).into_owned()
    } else {
        let (l, d) = (gen_label(t), t.blob(0, 80));
        let mut c: Vec<char> = rewrap(t, &l, &d).chars().collect();
        for _ in 0..t.range(0, 6) {
            if c.is_empty() {
                break;
            }
            let k = t.below(c.len() as u64) as usize;
            match t.below(3) {
                0 => c[k] = *t.pick(&['é', '\u{2028}', '-', '\n', '=', '\u{feff}', '\0', '🔑']),
                1 => {
                    c.truncate(k);
                }
                _ => {
                    let e = c.len().min(k + t.range(1, 20));
                    c.drain(k..e);
                }
            }
        }
        c.into_iter().collect()
    };
    g_pem(cx, &s);
    guard(cx, "private key import", s.as_bytes(), || v::import_priv_text(&s));
    guard(cx, "public key import", s.as_bytes(), || v::import_pub_text(&s));
}
fn oaep_untrusted(_: u64, t: &mut Tape, cx: &mut Cx) {
    let label = t.blob(0, 20);
    let em = match t.below(4) {
        0 => t.blob(0, 300),
        _ => {
            // a masked data block of any content: passes the mask, then anything
            let dbl = t.size(0, 150);
            let mut db = t.bytes(dbl);
            if t.chance(3, 4) && db.len() >= 32 {
                let h = crate::oracle::hash::sha256(&label);
                db[..32].copy_from_slice(&h);
                let z = t.below(db.len() as u64 - 31) as usize;
                db[32..32 + z].fill(0);
                if t.chance(1, 3) && 32 + z < db.len() {
                    db[32 + z] = 1;
                }
            }
            let seed = t.arr::<32>();
            let first = if t.chance(1, 4) { t.byte() } else { 0 };
            crate::oracle::oaep::mask(&seed, &db, first)
        }
    };
    let k = match t.below(4) {
        0 => *t.pick(KS),
        1 => (em.len() as u64 + t.below(70)) as usize,
        _ => em.len(),
    };
    g_oaep(cx, &label, &em, k);
}
fn hex_untrusted(_: u64, t: &mut Tape, cx: &mut Cx) {
    let b = if t.chance(1, 2) { t.blob(0, 200) } else { (0..t.range(0, 140)).map(|_| *t.pick(b"0123456789abcdefABCDEFg/:@`G ")).collect() };
    for n in [20usize, 28, 32, 48, 64] {
        guard(cx, "digest hex parsing", &b, || v::hash_from_hex(n, &b));
    }
}

