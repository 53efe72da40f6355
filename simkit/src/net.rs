//! The simulated network: what can happen to a document between publisher and client.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

/// One fault on one delivered document. `a` and `b` are scaled to the document when applied,
/// so a fault stays meaningful while a plan is being minimised.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub k: String,
    #[serde(default)]
    pub a: u64,
    #[serde(default)]
    pub b: u64,
}

pub const KINDS: &[&str] = &[
    "truncate", "truncate_line", "flip_bit", "set_byte", "insert_byte", "delete_range", "lose_line", "dup_line", "swap_lines",
    "drop_newline", "repeat_range", "zero_block", "splice_older", "empty", "error_page", "garble_token", "lose_token", "dup_token", "add_newline", "quote",
];

/// Faults that touch single rows or a cut; enough for row-isolation checks.
pub const ROW_KINDS: &[&str] = &[
    "truncate", "truncate_line", "flip_bit", "set_byte", "insert_byte", "delete_range", "lose_line", "dup_line", "swap_lines", "drop_newline",
    "repeat_range", "zero_block", "splice_older", "garble_token", "lose_token", "dup_token", "add_newline", "quote",
];

pub fn gen_fault(rng: &mut Rng, kinds: &[&str]) -> Fault {
    Fault { k: rng.pick(kinds).to_string(), a: rng.u64() >> 12, b: rng.u64() >> 12 }
}

fn lines_of(b: &[u8]) -> Vec<(usize, usize)> {
    // (start, end) with end excluding the newline
    let mut v = vec![];
    let mut s = 0;
    for (i, c) in b.iter().enumerate() {
        if *c == b'\n' {
            v.push((s, i));
            s = i + 1;
        }
    }
    if s < b.len() {
        v.push((s, b.len()));
    }
    v
}

fn tokens_of(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = None;
    for (i, c) in b.iter().enumerate() {
        let sep = c.is_ascii_whitespace() || *c == b':' || *c == b',';
        match (sep, s) {
            (false, None) => s = Some(i),
            (true, Some(st)) => {
                v.push((st, i));
                s = None;
            }
            _ => {}
        }
    }
    if let Some(st) = s {
        v.push((st, b.len()));
    }
    v
}

const JUNK: &[&[u8]] = &[b"MM", b"****", b"", b"-", b"9999999999", b"NaN", b"inf", b"1e400", b"-1", b"0", b"99", b"\xC3\xA9", b"\xFF", b"null", b"(", b"0.0.0", b"12:60", b"+", b"13", b"32", b"1e-400", b"2147483647", b"-2147483648", b"0x10", b"18446744073709551615", b"99999", b"1", b"-0", b"0.001"];
const BYTES: &[u8] = b"0123456789 .-+#\"'\r\t,:;()[]{}<>MNSEW\x00\x7f\x80\xc3\xe2\xff\nTZ/";

/// Applies the fault; returns the delivered bytes and whether anything changed.
/// `older` is an earlier publication of the same document (for splices).
pub fn apply(doc: Vec<u8>, f: &Fault, older: &dyn Fn() -> Vec<u8>) -> (Vec<u8>, bool) {
    let n = doc.len() as u64;
    let before = doc.clone();
    let mut d = doc;
    let at = |x: u64, m: u64| -> usize { if m == 0 { 0 } else { (x % m) as usize } };
    match f.k.as_str() {
        "truncate" => d.truncate(at(f.a, n + 1)),
        "truncate_line" => {
            // cut inside or at the edge of one line; the rest of the document follows
            let ls = lines_of(&d);
            if !ls.is_empty() {
                let (s, e) = ls[at(f.a, ls.len() as u64)];
                let cut = s + at(f.b, (e - s) as u64 + 1);
                d.drain(cut..e);
            }
        }
        "flip_bit" => {
            if n > 0 {
                d[at(f.a, n)] ^= 1 << (f.b % 8);
            }
        }
        "set_byte" => {
            if n > 0 {
                d[at(f.a, n)] = BYTES[at(f.b, BYTES.len() as u64)];
            }
        }
        "insert_byte" => d.insert(at(f.a, n + 1), BYTES[at(f.b, BYTES.len() as u64)]),
        "delete_range" => {
            let s = at(f.a, n + 1);
            let e = (s + 1 + at(f.b, 300)).min(d.len());
            if s < e {
                d.drain(s..e);
            }
        }
        "lose_line" => {
            let ls = lines_of(&d);
            if !ls.is_empty() {
                let (s, e) = ls[at(f.a, ls.len() as u64)];
                d.drain(s..(e + 1).min(d.len()));
            }
        }
        "dup_line" => {
            let ls = lines_of(&d);
            if !ls.is_empty() {
                let (s, e) = ls[at(f.a, ls.len() as u64)];
                let mut line = d[s..e].to_vec();
                line.push(b'\n');
                let to = ls[at(f.b, ls.len() as u64)].0;
                d.splice(to..to, line);
            }
        }
        "swap_lines" => {
            let ls = lines_of(&d);
            if ls.len() > 1 {
                let i = at(f.a, ls.len() as u64);
                let j = at(f.b, ls.len() as u64);
                let mut v: Vec<Vec<u8>> = ls.iter().map(|(s, e)| d[*s..*e].to_vec()).collect();
                v.swap(i, j);
                let tail = d.last() == Some(&b'\n');
                d = v.join(&b'\n');
                if tail {
                    d.push(b'\n');
                }
            }
        }
        "drop_newline" => {
            let ls: Vec<usize> = (0..d.len()).filter(|i| d[*i] == b'\n').collect();
            if !ls.is_empty() {
                d.remove(ls[at(f.a, ls.len() as u64)]);
            }
        }
        "repeat_range" => {
            let s = at(f.a, n + 1);
            let e = (s + 1 + at(f.b, 400)).min(d.len());
            let chunk = d[s.min(e)..e].to_vec();
            d.splice(e..e, chunk);
        }
        "zero_block" => {
            let s = at(f.a, n + 1);
            let e = (s + 1 + at(f.b, 64)).min(d.len());
            for x in &mut d[s.min(e)..e] {
                *x = 0;
            }
        }
        "burst" => {
            // a run of one line overwritten with bytes that are no text, or with other alphabets
            let ls = lines_of(&d);
            let k = if f.a % 2 == 0 { at(f.a / 16, ls.len() as u64) } else { ((f.a / 16) % 256).trailing_zeros() as usize };
            if let Some((s, e)) = ls.get(k).copied() {
                let s = s + at(f.b / 64, (e - s) as u64 + 1);
                let e = e.min(s + 1 + at(f.b, 60));
                let junk: &[u8] = [&b"\xff"[..], b"\xc3\xa9", b"\xe2\x80\x8a", b"\xf0\x9f\x8c\x8a"][at(f.a / 2, 4)];
                let new: Vec<u8> = junk.iter().copied().cycle().take((e - s).div_ceil(junk.len()) * junk.len()).collect();
                d.splice(s..e, new);
            }
        }
        "splice_older" => {
            // the transfer continues from an older cached copy at the same offset
            let old = older();
            let cut = at(f.a, n + 1);
            d.truncate(cut);
            if cut < old.len() {
                d.extend_from_slice(&old[cut..]);
            }
        }
        "empty" => d.clear(),
        "error_page" => {
            let pages: [&[u8]; 4] = [
                b"<!DOCTYPE HTML>\n<html><head>\n<title>404 Not Found</title>\n</head><body>\n<h1>Not Found</h1>\n</body></html>\n",
                b"{\"error\": {\"message\":\"No Predictions data was found. Please make sure the Datum input is valid.\"}}",
                b"503 Service Unavailable\n", b"\n\n\n",
            ];
            d = pages[at(f.a, 4)].to_vec();
        }
        "garble_token" | "lose_token" | "dup_token" => {
            let ts = tokens_of(&d);
            if !ts.is_empty() {
                let (s, e) = ts[at(f.a, ts.len() as u64)];
                let new: Vec<u8> = match f.k.as_str() {
                    "garble_token" => JUNK[at(f.b, JUNK.len() as u64)].to_vec(),
                    "lose_token" => vec![],
                    _ => {
                        let mut v = d[s..e].to_vec();
                        v.push(b' ');
                        v.extend_from_slice(&d[s..e]);
                        v
                    }
                };
                d.splice(s..e, new);
            }
        }
        "head_token" | "line_head_token" => {
            // what a decoder reads first: the start of the document, or of one of its lines
            let ls = lines_of(&d);
            let (s, _) = if f.k == "head_token" || ls.is_empty() { (0, 0) } else { ls[at(f.a / 7, ls.len() as u64)] };
            let e = d.len().min(s + if f.k == "head_token" { 600 } else { 60 });
            let ts = tokens_of(&d[s..e]);
            if !ts.is_empty() {
                let (a, b) = ts[at(f.a, ts.len() as u64)];
                d.splice(s + a..s + b, JUNK[at(f.b, JUNK.len() as u64)].iter().copied());
            }
        }
        "digits" | "head_digits" => {
            // a run of digits wherever it stands; in the first lines, or anywhere
            let ls = lines_of(&d);
            let k = if f.k == "digits" { at(f.a / 13, ls.len() as u64) } else { ((f.a / 13) % 64).trailing_zeros().min(6) as usize };
            if let Some((s, e)) = ls.get(k).copied() {
                let e = e.min(s + 400);
                let mut runs: Vec<(usize, usize)> = vec![];
                for i in s..e {
                    if d[i].is_ascii_digit() {
                        match runs.last_mut() {
                            Some(r) if r.1 == i => r.1 = i + 1,
                            _ => runs.push((i, i + 1)),
                        }
                    }
                }
                if !runs.is_empty() {
                    let (a, b) = runs[at(f.a, runs.len() as u64)];
                    let old = d[a..b].to_vec();
                    let new: Vec<u8> = match f.b % 11 {
                        0 => vec![b'9'; b - a],
                        1 => vec![b'0'; b - a],
                        2 => [&b"9"[..], &old[1..]].concat(),
                        3 => [&old[..b - a - 1], &b"9"[..]].concat(),
                        4 => [&old[..], &b"0"[..]].concat(),
                        5 => [&b"-"[..], &old[..]].concat(),
                        6 => old[1..].to_vec(),
                        7 => b"1".to_vec(),
                        8 => vec![b'9'; 19],
                        9 => [&b"1"[..], &old[..]].concat(),
                        _ => old.iter().map(|c| b'0' + b'9' - c).collect(),
                    };
                    d.splice(a..b, new);
                }
            }
        }
        "add_newline" => d.insert(at(f.a, n + 1), b'\n'),
        "quote" => {
            // a stray quote at the start of a token
            let ts = tokens_of(&d);
            if !ts.is_empty() {
                let (s, _) = ts[at(f.a, ts.len() as u64)];
                d.insert(s, if f.b % 4 == 0 { b'\'' } else { b'"' });
            }
        }
        _ => {}
    }
    let changed = d != before;
    (d, changed)
}
