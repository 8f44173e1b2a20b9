//! Collects the literals in the sources of the crate under test, as words and numbers for the
//! generators: what the code compares with is what peers should be trying.

use std::collections::BTreeSet;
use std::fs;
use std::path::Path;

fn files(d: &Path, v: &mut Vec<std::path::PathBuf>) {
    println!("cargo:rerun-if-changed={}", d.display());
    let mut l: Vec<_> = fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    l.sort();
    for p in l {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if p.is_dir() {
            if n != "test" && n != "tests" && n != "util" {
                files(&p, v);
            }
        } else if n.ends_with(".rs") && !n.starts_with("test") {
            println!("cargo:rerun-if-changed={}", p.display());
            v.push(p);
        }
    }
}

fn ident(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}

fn scan(s: &[u8], words: &mut BTreeSet<Vec<u8>>, nums: &mut BTreeSet<u64>) {
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == b'/' && at(i + 1) == b'/' {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && at(i + 1) == b'*' {
            i += 2;
            while i < s.len() && !(s[i] == b'*' && at(i + 1) == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            let mut w = vec![];
            i += 1;
            while i < s.len() && s[i] != b'"' {
                if s[i] == b'\\' {
                    i += 1;
                    match at(i) {
                        b'n' => w.push(b'\n'),
                        b'r' => w.push(b'\r'),
                        b't' => w.push(b'\t'),
                        b'0' => w.push(0),
                        b'x' => {
                            let h = String::from_utf8_lossy(s.get(i + 1..i + 3).unwrap_or(b"")).to_string();
                            w.push(u8::from_str_radix(&h, 16).unwrap_or(0));
                            i += 2;
                        }
                        b => w.push(b),
                    }
                } else {
                    w.push(s[i]);
                }
                i += 1;
            }
            i += 1;
            // not the texts of messages
            if (2..=64).contains(&w.len()) && !w.contains(&b' ') && !w.contains(&b'{') {
                words.insert(w);
            }
        } else if c == b'\'' {
            // a byte or character, or a lifetime
            if at(i + 1) == b'\\' {
                i += 3;
                while i < s.len() && s[i] != b'\'' {
                    i += 1;
                }
                i += 1;
            } else if at(i + 2) == b'\'' {
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let from = i;
            while ident(at(i)) {
                i += 1;
            }
            let mut t: String = s[from..i].iter().map(|b| *b as char).filter(|c| *c != '_').collect();
            for x in ["usize", "u64", "u32", "u16", "u8", "isize", "i64", "i32", "i16", "i8"] {
                t = t.strip_suffix(x).unwrap_or(&t).to_string();
            }
            let n = match t.get(..2) {
                Some("0x") => u64::from_str_radix(&t[2..], 16),
                Some("0b") => u64::from_str_radix(&t[2..], 2),
                Some("0o") => u64::from_str_radix(&t[2..], 8),
                _ => t.parse(),
            };
            if let Ok(n) = n {
                nums.insert(n);
            }
        } else if ident(c) {
            while ident(at(i)) {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let src = Path::new(&std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("../../repo/src");
    let (mut words, mut nums) = (BTreeSet::new(), BTreeSet::new());
    let mut v = vec![];
    files(&src, &mut v);
    for f in v {
        scan(&fs::read(f).unwrap_or_default(), &mut words, &mut nums);
    }
    let mut o = String::from("pub const WORDS: &[&[u8]] = &[b\"ab\"");
    for w in &words {
        o += &format!(", &{:?}", w);
    }
    o += "];\npub const NUMBERS: &[u64] = &[8";
    for n in nums.iter().filter(|n| **n > 8) {
        o += &format!(", {}", n);
    }
    o += "];\n";
    let out = Path::new(&std::env::var("OUT_DIR").unwrap()).join("literals.rs");
    fs::write(out, o).unwrap();
}
