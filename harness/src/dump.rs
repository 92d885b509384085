//! Projection of the crate's public API onto JSON values TLC can read (no nulls, 32-bit integers).
//! Options are sequences of length 0 or 1, byte strings are sequences of integers, times are
//! <<day, second of day>>, and unbounded naturals are little-endian base-10000 limbs.

use ruplicity::collections::{BackupSet, Collections, SignatureChain, SignatureFile};
use ruplicity::manifest::{Manifest, ParseError};
use ruplicity::signatures::{Entry, EntryType};
use serde_json::{json, Value};
use std::os::unix::ffi::OsStrExt;
use time::Timespec;

pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| json!(*x)).collect())
}

pub fn to_bytes(v: &Value) -> Vec<u8> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
}

pub fn limbs(mut n: u64) -> Value {
    let mut v = vec![];
    while n > 0 {
        v.push(json!(n % 10000));
        n /= 10000;
    }
    Value::Array(v)
}

pub fn opt(v: Option<Value>) -> Value {
    match v {
        Some(v) => json!([v]),
        None => json!([]),
    }
}

pub fn time(t: Timespec) -> Value {
    let d = t.sec.div_euclid(86400);
    let s = t.sec.rem_euclid(86400);
    if d.abs() > i32::MAX as i64 || t.nsec != 0 {
        return json!([0, -1]);
    }
    json!([d, s])
}

pub fn lines(s: &str) -> Value {
    let mut v: Vec<&str> = s.split('\n').collect();
    // a text that ends in a newline has no further line
    let complete = v.last() == Some(&"");
    if complete {
        v.pop();
    }
    json!({"l": v.iter().map(|l| bytes(l.as_bytes())).collect::<Vec<_>>(), "nl": complete})
}

pub fn set(s: &BackupSet, q: &[usize]) -> Value {
    json!({
        "full": s.is_full(), "inc": s.is_incremental(),
        "t0": time(s.start_time()), "t1": time(s.end_time()),
        "complete": s.is_complete(), "partial": s.is_partial(),
        "comp": s.is_compressed(), "enc": s.is_encrypted(),
        "man": bytes(s.manifest_path().as_bytes()),
        "nvol": s.num_volumes().min(i32::MAX as usize),
        "vols": q.iter().map(|n| opt(s.volume_path(*n).map(|p| bytes(p.as_bytes())))).collect::<Vec<_>>(),
        "row": bytes(format!("{}", s).as_bytes()),
    })
}

fn sigfile(s: &SignatureFile) -> Value {
    json!({"name": bytes(s.file_name.as_bytes()), "t": time(s.time),
           "comp": s.compressed, "enc": s.encrypted})
}

fn sigchain(s: &SignatureChain) -> Value {
    json!({"full": sigfile(s.full_signature()),
           "incs": s.inc_signatures().map(sigfile).collect::<Vec<_>>(),
           "t0": time(s.start_time()), "t1": time(s.end_time())})
}

pub fn collections(c: &Collections, q: &[usize], text: bool) -> Value {
    let chains: Vec<Value> = c
        .backup_chains()
        .map(|ch| {
            let mut v = json!({"full": set(ch.full_set(), q),
                   "incs": ch.inc_sets().map(|s| set(s, q)).collect::<Vec<_>>(),
                   "t0": time(ch.start_time()), "t1": time(ch.end_time())});
            if text {
                v["text"] = lines(&format!("{}", ch));
            }
            v
        })
        .collect();
    let mut v = json!({"chains": chains,
           "sigs": c.signature_chains().map(sigchain).collect::<Vec<_>>(),
           "n": c.num_snapshots().min(i32::MAX as usize)});
    if text {
        v["text"] = lines(&format!("{}", c));
        v["sigtext"] = Value::Array(
            c.signature_chains().map(|s| lines(&format!("{}", s))).collect(),
        );
    }
    v
}

pub fn etype(t: EntryType) -> Value {
    match t {
        EntryType::File => json!(["File", 0]),
        EntryType::Dir => json!(["Dir", 0]),
        EntryType::HardLink => json!(["HardLink", 0]),
        EntryType::SymLink => json!(["SymLink", 0]),
        EntryType::Fifo => json!(["Fifo", 0]),
        EntryType::Unknown(b) => json!(["Unknown", b]),
    }
}

pub fn entry(e: &Entry) -> Value {
    let path_ok = match e.path() {
        Some(p) => p.as_os_str().as_bytes() == e.path_bytes(),
        None => false,
    };
    json!({
        "p": bytes(e.path_bytes()),
        "pok": path_ok,
        "t": time(e.mtime()),
        "uid": opt(e.userid().map(limbs)),
        "gid": opt(e.groupid().map(limbs)),
        "mode": opt(e.mode().map(|m| limbs(m as u64))),
        "un": opt(e.username().map(|s| bytes(s.as_bytes()))),
        "gn": opt(e.groupname().map(|s| bytes(s.as_bytes()))),
        "ty": etype(e.entry_type()),
        "sz": opt(e.size_hint().map(|(a, b)| json!([limbs(a as u64), limbs(b as u64)]))),
        "ln": opt(e.linked_path().map(|p| bytes(p.as_os_str().as_bytes()))),
    })
}

pub fn manifest(m: &Manifest, probe: usize) -> Value {
    let n = m.last_volume_index();
    json!({
        "host": bytes(m.hostname().as_bytes()),
        "dir": opt(m.local_dir().map(|p| bytes(p.as_os_str().as_bytes()))),
        "n": n.min(i32::MAX as usize),
        "vols": (1..n.min(1 << 16) + 1).map(|i| {
            let v = match m.volume(i) { Some(v) => v, None => return json!([]) };
            json!([{
                "s": bytes(v.start_path_bytes()),
                "sp": opt(v.start_path().map(|p| bytes(p.as_os_str().as_bytes()))),
                "sb": opt(v.start_block().map(|b| limbs(b as u64))),
                "e": bytes(v.end_path_bytes()),
                "ep": opt(v.end_path().map(|p| bytes(p.as_os_str().as_bytes()))),
                "eb": opt(v.end_block().map(|b| limbs(b as u64))),
                "ht": bytes(v.hash_type().as_bytes()),
                "h": bytes(v.hash()),
            }])
        }).collect::<Vec<_>>(),
        // volume numbers that must not exist
        "none": vec![0, n + 1, n + 2 + probe, usize::MAX].iter().map(|i| m.volume(*i).is_some()).collect::<Vec<_>>(),
    })
}

pub fn parse_error(e: &ParseError) -> Value {
    // the message must be obtainable without panicking; its wording is nobody's business
    let _ = format!("{}", e);
    match *e {
        ParseError::Io(ref e) => json!(["Io", format!("{:?}", e.kind())]),
        ParseError::MissingKeyword(ref k) => json!(["MissingKeyword", k]),
        ParseError::MissingHash => json!(["MissingHash", ""]),
        ParseError::MissingHashType => json!(["MissingHashType", ""]),
        ParseError::MissingPath => json!(["MissingPath", ""]),
        ParseError::OutOfOrderVolume(_) => json!(["OutOfOrderVolume", ""]),
        ParseError::ParseInt(_) => json!(["ParseInt", ""]),
        ParseError::Utf8(_) => json!(["Utf8", ""]),
    }
}
