// Blocks of CGD files.
use super::sx::*;
use rust_systre::io::parse_cgd_blocks::*;
use rust_systre::io::parse_cgd_line::*;
use std::io::{Error, ErrorKind, Read};

/// how a line should be understood on its own
enum L { Unread, Bad, Line { key: Option<String>, fields: Vec<Field>, rest: String } }
fn read_line(s: &[u8]) -> L {
    let t = match std::str::from_utf8(s) { Ok(t) => t, Err(_) => return L::Unread };
    match parse_cgd_line(t) {
        Err(_) => L::Bad,
        Ok((rest, mut fields)) => {
            let key = match fields.first() { Some(Field::Key(k)) => Some(k.to_ascii_lowercase()), _ => None };
            if key.is_some() { fields.remove(0); }
            L::Line { key, fields, rest: rest.to_string() }
        }
    }
}
/// the lines of a text, without line ends
fn split(s: &[u8]) -> Vec<Vec<u8>> {
    let mut r: Vec<Vec<u8>> = vec![];
    let mut a = 0;
    for i in 0..=s.len() {
        if i == s.len() && a == i { break; }
        if i == s.len() || s[i] == b'\n' {
            let b = if i < s.len() && i > a && s[i - 1] == b'\r' { i - 1 } else { i };
            r.push(s[a..b].to_vec());
            a = i + 1;
        }
    }
    r
}
fn kinds(notes: &[Note]) -> String { notes.iter().map(|n| match n { Note::Error(_) => 'E', Note::Warning(_) => 'W' }).collect() }
fn same_key(a: &Option<String>, b: &Option<String>) -> bool { a == b }

/// `failed`: the last line stands for an error of the reader
fn compare(lines: &[Vec<u8>], failed: bool, blocks: &[Block]) {
    let n = lines.len();
    let read: Vec<L> = lines.iter().enumerate().map(|(i, s)| if failed && i + 1 == n { L::Unread } else { read_line(s) }).collect();
    let key = |i: usize| match &read[i] { L::Line { key, .. } => key.clone(), _ => None };
    let is_end = |i: usize| key(i).map_or(false, |k| k == "end");
    let kept = |i: usize| match &read[i] { L::Line { key, fields, rest } => key.is_some() || !fields.is_empty() || !rest.is_empty(), _ => true };
    let mut at = 0;
    let mut b = 0;
    while at < n {
        // lines at..stop belong together, the last being an end statement or not
        let stop = (at..n).find(|&i| is_end(i)).map_or(n, |i| i + 1);
        let ended = is_end(stop - 1);
        let lines_kept: Vec<usize> = (at..stop).filter(|&i| kept(i)).collect();
        if lines_kept.is_empty() { break; }
        check(b < blocks.len(), c"no block is lost");
        if b >= blocks.len() { return; }
        let (ty, start, end, entries) = blocks[b].verif_parts();
        let begin = (at..stop).find(|&i| key(i).is_some() && !is_end(i));
        let last = *lines_kept.last().unwrap();
        match begin {
            Some(i) => check(ty == key(i).unwrap() && start == i, c"block type and first line"),
            None => check(ty == "--void--" && start == if ended { stop - 1 } else { lines_kept[0] }, c"block without type"),
        }
        check(end == if ended { stop - 1 } else { last }, c"last line of a block");
        check(entries.len() == lines_kept.len(), c"every line with content is an entry of its block, exactly once");
        for (e, &i) in entries.iter().zip(&lines_kept) {
            let (et, k, f, notes, number, content) = e.verif_parts();
            check(number == i, c"line number");
            let mut want = String::new();
            match &read[i] {
                L::Unread => check(*et == EntryType::Error && k.is_none() && f.is_empty() && content.is_none(), c"unreadable line"),
                L::Bad => check(*et == EntryType::Error && k.is_none() && f.is_empty() && content.as_ref().map_or(false, |c| c.as_bytes() == &lines[i][..]), c"malformed line"),
                L::Line { key: own, fields, rest } => {
                    check(content.as_ref().map_or(false, |c| c.as_bytes() == &lines[i][..]), c"text of a line");
                    check(f == fields, c"fields of a line");
                    if !rest.is_empty() {
                        want.push('E');
                        check(matches!(notes.first(), Some(Note::Error(m)) if m.ends_with(&format!("'{}'", rest))), c"unparsed text is quoted in a note");
                    }
                    if is_end(i) {
                        check(*et == EntryType::End && same_key(k, own), c"end statement");
                        if begin.is_none() { want.push('E'); }
                        if !fields.is_empty() { want.push('W'); }
                    } else if begin == Some(i) {
                        check(*et == EntryType::Begin && same_key(k, own), c"block type line");
                        if !fields.is_empty() { want.push('W'); }
                    } else if own.is_some() {
                        check(*et == EntryType::Data && same_key(k, own), c"data with a key");
                    } else if fields.is_empty() {
                        check(*et == EntryType::Empty && k.is_none(), c"line with nothing but unparsed text");
                    } else {
                        // key of the last keyed data line of the block
                        let j = (at..i).rev().find(|&j| key(j).is_some() && begin != Some(j));
                        check(*et == EntryType::Data && same_key(k, &j.and_then(|j| key(j))), c"data without a key have the last key of the block");
                        if begin.map_or(true, |s| s > i) { want.push('E'); }
                    }
                }
            }
            if let L::Unread | L::Bad = &read[i] { want.push('E'); }
            if !ended && begin.is_some() && i == last { want.push('E'); }
            check(kinds(notes) == want, c"errors and warnings of a line");
        }
        b += 1;
        at = stop;
    }
    check(b == blocks.len(), c"no further block");
}
const LINES: [&[u8]; 16] = [b"", b"Foo", b"1 2", b"end", b"# c", b"\tBAR 1 x", b"END x", b"\"q\" 3", b"a \"s\"b", b"9e", b"\"", b"\xff", b"  eNd # t", b"Endx", b"\"end\"", b"end \""];

#[no_mangle]
pub extern "C-unwind" fn harness_blocks_lines() {
    let n = idx(c"lines", 0, sz(3, 4) as usize);
    let mut s: Vec<u8> = vec![];
    let crlf = idx(c"crlf", 0, 1) == 1;
    for i in 0..n {
        s.extend_from_slice(LINES[idx(c"line", 0, 15)]);
        if i + 1 < n || idx(c"newline", 0, 1) == 1 { s.extend_from_slice(if crlf { b"\r\n" } else { b"\n" }); }
    }
    compare(&split(&s), false, &parse_blocks(&s[..]));
    cover(c"end");
}
/// longer files of fewer kinds of lines
#[no_mangle]
pub extern "C-unwind" fn harness_blocks_many() {
    let mut s: Vec<u8> = vec![];
    for _ in 0..sz(6, 7) { s.extend_from_slice([&b"Aa"[..], b"b 1", b"1 2", b"End", b"", b"\xc3"][idx(c"line", 0, 5)]); s.push(b'\n'); }
    compare(&split(&s), false, &parse_blocks(&s[..]));
    cover(c"end");
}
/// every short text
#[no_mangle]
pub extern "C-unwind" fn harness_blocks_any() {
    let n = idx(c"len", 0, sz(4, 5) as usize);
    let pre: &[u8] = [&b""[..], b"x\n", b"x\na 1\n", b"end\n", b"x\nend"][idx(c"before", 0, 4)];
    let mut s = pre.to_vec();
    for _ in 0..n { let c = int(c"c", 0, 127) as u8; s.push(if c >= b'0' && c <= b'9' { b'7' } else { c }); }
    compare(&split(&s), false, &parse_blocks(&s[..]));
    cover(c"end");
}
/// a reader that returns few bytes at a time, is interrupted, and possibly fails
struct Source<'a> { data: &'a [u8], at: usize, cuts: [usize; 2], interrupt: usize, fail: Option<usize>, calls: usize, kind: ErrorKind }
impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        check(self.calls < 40, c"an input that fails is not read forever");
        if self.interrupt == self.calls { return Err(Error::from(ErrorKind::Interrupted)); }
        if self.fail == Some(self.at) { return Err(Error::from(self.kind)); }
        let mut end = self.data.len();
        for &c in &self.cuts { if c > self.at && c < end { end = c; } }
        if let Some(f) = self.fail { if f < end { end = f; } }
        let k = (end - self.at).min(buf.len());
        buf[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
const FILES: [&[u8]; 4] = [b"a\nb 1\r\n2\nend\n", b"end\n1 x\n\xff\nk", b"A\n\xc3\xa4 1\nEnd\nb\nc", b"9e\nx\n#\n\"q\"\n"];
#[no_mangle]
pub extern "C-unwind" fn harness_blocks_reads() {
    let data = FILES[idx(c"file", 0, 3)];
    let mut cuts = [0; 2];
    for i in 0..2 { cuts[i] = idx(c"cut", if i == 0 { 0 } else { cuts[0] }, data.len()); }
    let src = Source { data, at: 0, cuts, interrupt: idx(c"interrupt", 0, 4), fail: None, calls: 0, kind: ErrorKind::Other };
    compare(&split(data), false, &parse_blocks(src));
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_blocks_fails() {
    let data = FILES[idx(c"file", 0, 3)];
    let k = idx(c"fail", 0, data.len());
    let cuts = [idx(c"cut", 0, k), 0];
    let kind = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::TimedOut][idx(c"kind", 0, 2)];
    let src = Source { data, at: 0, cuts, interrupt: idx(c"interrupt", 0, 3), fail: Some(k), calls: 0, kind };
    // lines that were read completely, and the error
    let mut lines: Vec<Vec<u8>> = split(&data[..k]);
    if k > 0 && data[k - 1] != b'\n' { lines.pop(); }
    lines.push(vec![]);
    compare(&lines, true, &parse_blocks(src));
    cover(c"end");
}
/// many blocks of many lines, some long, more than is read at once
#[no_mangle]
pub extern "C-unwind" fn harness_blocks_large() {
    let body: [&str; 7] = ["Atom 1 4 0.25 1/3", " 2 4 \"x\"", "edge 1 2", "# only a comment", "", "\"name\" 7", "\u{e4} 5"];
    let blocks = [2, 12][idx(c"blocks", 0, 1)];
    let lines = [4, 40][idx(c"lines", 0, 1)];
    let (first, step) = (idx(c"first", 0, 6), idx(c"step", 0, sz(2, 6) as usize));
    let odd = idx(c"odd", 0, sz(4, 4) as usize);
    let at = if odd == 0 { 0 } else { idx(c"at", 0, 1) * (blocks - 1) };
    let mut s: Vec<u8> = vec![];
    for b in 0..blocks {
        // one block without type or end statement, or with a line that is very long or cannot be read
        if odd != 1 || b != at { s.extend_from_slice(["CRYSTAL\n", "Foo\r\n", "crystal\n"][b % 3].as_bytes()); }
        for i in 0..lines {
            s.extend_from_slice(body[(first + i * step + b) % 7].as_bytes());
            if odd == 3 && b == at && i == lines / 2 { for _ in 0..9001 - s.len() % 2 { s.push(b'x'); } s.extend_from_slice("\u{e4}".as_bytes()); }
            if odd == 4 && b == at && i == lines / 2 { s.push(0xff); }
            s.push(b'\n');
        }
        if odd != 2 || b != at { s.extend_from_slice(["End\n", "END\n\n"][b % 2].as_bytes()); }
    }
    compare(&split(&s), false, &parse_blocks(&s[..]));
    cover(c"end");
}
