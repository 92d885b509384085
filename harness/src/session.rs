//! The case kinds.

use crate::backend::{kind_of, Fault, MemBackend, State};
use crate::dump;
use ruplicity::backend::local::LocalBackend;
use ruplicity::backend::Backend;
use ruplicity::collections::Collections;
use ruplicity::manifest::Manifest;
use ruplicity::signatures::{Chain, EntryType};
use ruplicity::timefmt::{parse_time_str, TimeDisplay};
use ruplicity::{Backup, ManifestRef, Snapshot, SnapshotEntries};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::ffi::OsString;
use std::io::BufReader;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::rc::Rc;
use time::Timespec;

fn unb64(s: &str) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len() * 3 / 4);
    let (mut acc, mut n) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => break,
        };
        acc = (acc << 6) | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    out
}

fn nums(v: &Value) -> Vec<usize> {
    v.as_array().map_or(vec![], |a| {
        a.iter()
            .map(|x| match x {
                Value::String(s) => s.parse().unwrap(),
                _ => x.as_u64().unwrap() as usize,
            })
            .collect()
    })
}

fn os(v: &Value) -> OsString {
    OsString::from_vec(dump::to_bytes(v))
}

pub fn collections(case: &Value) -> Value {
    let names: Vec<PathBuf> =
        case["names"].as_array().unwrap().iter().map(|n| PathBuf::from(os(n))).collect();
    let c = Collections::from_filenames(&names);
    dump::collections(&c, &nums(&case["q"]), case["text"].as_bool().unwrap_or(false))
}

pub fn manifest(case: &Value) -> Value {
    let data = unb64(case["b64"].as_str().unwrap());
    let cap = case["chunk"].as_u64().unwrap_or(8192) as usize;
    let mut rd = BufReader::with_capacity(cap.max(1), &data[..]);
    match Manifest::parse(&mut rd) {
        Ok(m) => json!({"ok": true, "m": dump::manifest(&m, 7), "look": lookups(&m, &case["q"])}),
        Err(e) => json!({"ok": false, "err": dump::parse_error(&e)}),
    }
}

fn lookups(m: &Manifest, q: &Value) -> Value {
    Value::Array(
        q.as_array()
            .map_or(vec![], |a| a.clone())
            .iter()
            .map(|p| {
                let p = dump::to_bytes(p);
                json!({"first": dump::opt(m.first_volume_of_path(&p).map(|n| json!(n))),
                       "last": dump::opt(m.last_volume_of_path(&p).map(|n| json!(n)))})
            })
            .collect(),
    )
}

pub fn time(case: &Value) -> Value {
    // parse each string; display each given time in both zones
    let parsed: Vec<Value> = case["parse"]
        .as_array()
        .map_or(vec![], |a| a.clone())
        .iter()
        .map(|s| {
            let b = dump::to_bytes(s);
            match std::str::from_utf8(&b) {
                Ok(s) => dump::opt(parse_time_str(s).map(dump::time)),
                Err(_) => json!([]),
            }
        })
        .collect();
    let shown: Vec<Value> = case["show"]
        .as_array()
        .map_or(vec![], |a| a.clone())
        .iter()
        .map(|t| {
            // <<day, second>> or, for extreme times, seconds as text
            let sec = match t {
                Value::String(s) => s.parse::<i64>().unwrap(),
                Value::Object(o) => o["sec"].as_str().unwrap().parse::<i64>().unwrap(),
                _ => t[0].as_i64().unwrap() * 86400 + t[1].as_i64().unwrap(),
            };
            let ns = t.get("ns").map_or(0, |n| n.as_i64().unwrap() as i32);
            let ts = Timespec::new(sec, ns);
            json!({"utc": dump::bytes(format!("{}", ts.into_utc_display()).as_bytes()),
                   "local": dump::bytes(format!("{}", ts.into_local_display()).as_bytes())})
        })
        .collect();
    json!({"parse": parsed, "show": shown, "year": time::now_utc().tm_year + 1900})
}

pub fn etype(case: &Value) -> Value {
    Value::Array(
        nums(&case["b"])
            .iter()
            .map(|b| {
                let t = EntryType::new(*b as u8);
                json!({"b": b, "ty": dump::etype(t), "d": dump::bytes(format!("{}", t).as_bytes())})
            })
            .collect(),
    )
}

/// The local backend on its own: what it lists and what it opens.
pub fn local(case: &Value) -> Value {
    let be = LocalBackend::new(PathBuf::from(os(&case["dir"])));
    let listed = |be: &LocalBackend| match be.file_names() {
        Ok(it) => json!({"ok": true, "names": it.map(|n| dump::bytes(n.as_bytes())).collect::<Vec<_>>()}),
        Err(e) => json!({"ok": false, "err": format!("{:?}", e.kind())}),
    };
    let first = listed(&be);
    let open: Vec<Value> = case["open"]
        .as_array()
        .unwrap()
        .iter()
        .map(|n| match be.open_file(&PathBuf::from(os(n))) {
            Ok(mut f) => {
                let mut v = vec![];
                match std::io::Read::read_to_end(&mut f, &mut v) {
                    Ok(_) => json!({"ok": true, "data": dump::bytes(&v)}),
                    Err(e) => json!({"ok": false, "err": format!("{:?}", e.kind()), "late": true}),
                }
            }
            Err(e) => json!({"ok": false, "err": format!("{:?}", e.kind()), "late": false}),
        })
        .collect();
    // a backup on it: opens exactly when the directory can be listed
    let backup = match Backup::new(be) {
        Ok(_) => json!({"ok": true}),
        Err(e) => json!({"ok": false, "err": format!("{:?}", e.kind())}),
    };
    json!({"list": first, "open": open, "backup": backup})
}

pub fn session(case: &Value) -> Value {
    let mut st = State::default();
    st.chunk = case["chunk"].as_u64().unwrap_or(0) as usize;
    st.interrupts = case["intr"].as_u64().unwrap_or(0) as usize;
    for f in case["files"].as_array().unwrap() {
        st.files.push((dump::to_bytes(&f["n"]), Rc::new(unb64(f["b64"].as_str().unwrap_or("")))));
    }
    let state = Rc::new(RefCell::new(st));
    let steps: Vec<Value> = case["steps"].as_array().unwrap().clone();
    if case["backend"].as_str() == Some("local") {
        let dir = PathBuf::from(case["dir"].as_str().unwrap());
        for (n, d) in &state.borrow().files {
            std::fs::write(dir.join(OsString::from_vec(n.clone())), &d[..]).unwrap();
        }
        Value::Array(drive(LocalBackend::new(&dir), &state, &steps))
    } else {
        Value::Array(drive(MemBackend(state.clone()), &state, &steps))
    }
}

fn drive<B: Backend>(backend: B, state: &Rc<RefCell<State>>, steps: &[Value]) -> Vec<Value> {
    let mut out = Vec::new();
    let mut backend = Some(backend);
    let mut i = 0;
    while i < steps.len() {
        if steps[i]["s"] == "open" {
            let mut used = 0;
            let r = catch_unwind(AssertUnwindSafe(|| {
                state.borrow_mut().opens.clear();
                let l0 = state.borrow().lists;
                let b = backend.take().unwrap();
                match Backup::new(Lend(b, state.clone())) {
                    Ok(b) => {
                        let mut o = vec![json!({"ok": true, "opens": opens(state),
                                            "lists": state.borrow().lists - l0})];
                        used = opened(&b, state, &steps[i + 1..], &mut o);
                        (o, Some(b.into_inner().0))
                    }
                    Err(e) => (
                        vec![json!({"ok": false, "err": format!("{:?}", e.kind()), "opens": opens(state)})],
                        None,
                    ),
                }
            }));
            match r {
                Ok((o, b)) => {
                    out.extend(o);
                    backend = b;
                    if backend.is_none() {
                        // Backup::new consumed the backend and failed: the rest cannot run
                        // (the driver starts another session on the same state)
                        return out;
                    }
                }
                Err(e) => {
                    out.push(json!({"panic": crate::panic_msg(&e)}));
                    return out;
                }
            }
            i += 1 + used;
        } else {
            let v = control(state, &steps[i]);
            out.push(v);
            i += 1;
        }
    }
    out
}

/// Passes a backend through, so that sessions on any backend have one type.
/// It also records what the library asks for.
struct Lend<B>(B, Rc<RefCell<State>>);

impl<B: Backend> Backend for Lend<B> {
    type FileName = B::FileName;
    type FileNameIter = B::FileNameIter;
    type FileStream = B::FileStream;
    fn file_names(&self) -> std::io::Result<B::FileNameIter> {
        self.1.borrow_mut().lists += 1;
        self.0.file_names()
    }
    fn open_file(&self, name: &std::path::Path) -> std::io::Result<B::FileStream> {
        self.1.borrow_mut().opens.push(name.as_os_str().as_bytes().to_vec());
        self.0.open_file(name)
    }
}

fn opens(state: &Rc<RefCell<State>>) -> Value {
    let mut st = state.borrow_mut();
    let v = Value::Array(st.opens.iter().map(|n| dump::bytes(n)).collect());
    st.opens.clear();
    v
}

/// Steps that act on the backend's state only.
fn control(state: &Rc<RefCell<State>>, step: &Value) -> Value {
    let mut st = state.borrow_mut();
    match step["s"].as_str().unwrap() {
        "fault" => {
            let n = dump::to_bytes(&step["n"]);
            let mut f = Fault::default();
            match step["kind"].as_str().unwrap() {
                "open" => f.open = Some(kind_of(step["e"].as_str().unwrap())),
                "read" => {
                    f.read =
                        Some((step["at"].as_u64().unwrap() as usize, kind_of(step["e"].as_str().unwrap())))
                }
                "cut" => f.cut = Some(step["at"].as_u64().unwrap() as usize),
                _ => (),
            }
            st.faults.insert(n, f);
        }
        "heal" => {
            st.faults.clear();
            st.list_fault = None;
        }
        "listfault" => st.list_fault = Some(kind_of(step["e"].as_str().unwrap())),
        "set" => {
            let n = dump::to_bytes(&step["n"]);
            let d = Rc::new(unb64(step["b64"].as_str().unwrap()));
            if let Some(f) = st.files.iter_mut().find(|f| f.0 == n) {
                f.1 = d;
            } else {
                st.files.push((n, d));
            }
        }
        "del" => {
            let n = dump::to_bytes(&step["n"]);
            st.files.retain(|f| f.0 != n);
        }
        s => panic!("harness: unknown step {}", s),
    }
    json!({"ok": true})
}

fn opened<B: Backend>(
    backup: &Backup<B>,
    state: &Rc<RefCell<State>>,
    steps: &[Value],
    out: &mut Vec<Value>,
) -> usize {
    let snaps: Vec<Snapshot> = match backup.snapshots() {
        Ok(s) => s.into_iter().collect(),
        Err(e) => {
            out.push(json!({"snaps_err": format!("{:?}", e.kind())}));
            return steps.len();
        }
    };
    // the same snapshots, reached by skipping ahead: at once, and from half way there
    let fresh = || backup.snapshots().unwrap().into_iter();
    let jumped: Vec<Snapshot> = (0..snaps.len()).map_while(|i| fresh().nth(i)).collect();
    let twice: Vec<Snapshot> = (0..snaps.len())
        .map_while(|i| {
            let mut it = fresh();
            match i {
                0 => it.next(),
                _ => it.nth(i / 2).and_then(|_| it.nth(i - i / 2 - 1)),
            }
        })
        .collect();
    let ways = [snaps, jumped, twice];
    let mut hs: Vec<Option<SnapshotEntries>> = (0..16).map(|_| None).collect();
    let mut ms: Vec<Option<ManifestRef>> = (0..16).map(|_| None).collect();
    let mut n = 0;
    for step in steps {
        let kind = step["s"].as_str().unwrap();
        if kind == "open" {
            break;
        }
        n += 1;
        if kind == "close" {
            out.push(json!({"ok": true, "opens": opens(state)}));
            break;
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            let l0 = state.borrow().lists;
            let mut v = step_open(backup, state, &ways[n % 3], &mut hs, &mut ms, kind, step);
            if let Some(o) = v.as_object_mut() {
                // what the backend was asked during this step
                o.insert("lists".to_owned(), json!(state.borrow().lists - l0));
                if !o.contains_key("opens") {
                    o.insert("opens".to_owned(), opens(state));
                }
            }
            v
        }));
        match r {
            Ok(v) => out.push(v),
            Err(e) => {
                let _ = opens(state);
                out.push(json!({"panic": crate::panic_msg(&e)}))
            }
        }
    }
    n
}

fn step_open<'a, B: Backend>(
    backup: &'a Backup<B>,
    state: &Rc<RefCell<State>>,
    snaps: &'a [Snapshot<'a>],
    hs: &mut Vec<Option<SnapshotEntries<'a>>>,
    ms: &mut Vec<Option<ManifestRef<'a>>>,
    kind: &str,
    step: &Value,
) -> Value {
    let idx = |k: &str| step[k].as_u64().unwrap() as usize;
    state.borrow_mut().opens.clear();
    match kind {
        "snaps" => {
            let q = nums(&step["q"]);
            // a fresh enumeration every time
            let v: Vec<Value> = backup
                .snapshots()
                .unwrap()
                .into_iter()
                .map(|s| {
                    json!({"t": dump::time(s.time()), "full": s.is_full(), "inc": s.is_incremental(),
                           "nvol": s.num_volumes().min(i32::MAX as usize), "set": dump::set(s.as_backup_set(), &q)})
                })
                .collect();
            json!({"snaps": v, "opens": opens(state)})
        }
        "coll" => {
            let s = backup.snapshots().unwrap();
            dump::collections(s.as_collections(), &nums(&step["q"]), step["text"].as_bool().unwrap_or(false))
        }
        "entries" | "manifest" if idx("i") >= snaps.len() => json!({"nosnap": true}),
        "entries" => match snaps[idx("i")].entries() {
            Ok(e) => {
                hs[idx("h")] = Some(e);
                json!({"ok": true, "opens": opens(state)})
            }
            Err(e) => json!({"ok": false, "err": format!("{:?}", e.kind()), "opens": opens(state)}),
        },
        "dump" => match hs[idx("h")] {
            Some(ref e) => json!({"e": e.as_signature().map(|e| dump::entry(&e)).collect::<Vec<_>>()}),
            None => json!({"nohandle": true}),
        },
        // paths and times only
        "list" => match hs[idx("h")] {
            Some(ref e) => json!({"e": e.as_signature().map(|e| json!({
                "p": dump::bytes(e.path_bytes()), "t": dump::time(e.mtime())})).collect::<Vec<_>>()}),
            None => json!({"nohandle": true}),
        },
        // the entries, and how they are shown: all, all through the other type, one by one, and
        // what is left after k of them
        "text" => match hs[idx("h")] {
            Some(ref e) => {
                let mut rest = e.as_signature();
                let k = step["k"].as_u64().unwrap_or(0) as usize;
                if k > 0 {
                    rest.nth(k - 1);
                }
                json!({"e": e.as_signature().map(|e| dump::entry(&e)).collect::<Vec<_>>(),
                       "text": dump::lines(&format!("{}", e)),
                       "text2": dump::lines(&format!("{}", e.as_signature().into_display())),
                       "rest": dump::lines(&rest.into_display().to_string()),
                       "rows": e.as_signature().map(|e| dump::bytes(format!("{}", e).as_bytes())).collect::<Vec<_>>()})
            }
            None => json!({"nohandle": true}),
        },
        // a signature chain without a backup around it: every snapshot and its text
        "sigtext" => {
            let coll = backup.snapshots().unwrap().as_collections();
            let sc = match coll.signature_chains().nth(idx("i")) {
                Some(s) => s,
                None => return json!({"nochain": true}),
            };
            let r = Chain::from_sigchain(sc, &MemBackend(state.clone()));
            match r {
                Ok(c) => json!({"ok": true, "snaps": c.snapshots().map(|s| json!({
                    "e": s.files().map(|e| dump::entry(&e)).collect::<Vec<_>>(),
                    "text": dump::lines(&s.to_string())})).collect::<Vec<_>>()}),
                Err(e) => json!({"ok": false, "err": format!("{:?}", e.kind())}),
            }
        }
        "drop" => {
            hs[idx("h")] = None;
            json!({"ok": true})
        }
        "manifest" => match snaps[idx("i")].manifest() {
            Ok(m) => {
                ms[idx("m")] = Some(m);
                json!({"ok": true, "opens": opens(state)})
            }
            Err(e) => json!({"ok": false, "err": dump::parse_error(&e), "opens": opens(state)}),
        },
        "mdump" => match ms[idx("m")] {
            Some(ref m) => json!({"m": dump::manifest(m, 3), "look": lookups(m, &step["q"])}),
            None => json!({"nohandle": true}),
        },
        "mdrop" => {
            ms[idx("m")] = None;
            json!({"ok": true})
        }
        "iter" => iter(backup, state, hs, step),
        _ => control(state, step),
    }
}

/// Drives one of the library's enumerations: every operation's answer.
///
/// Owned operations (count, last, collect) use the enumeration up: a new one follows.
fn walk<I, F, G>(mk: F, ident: G, len: Option<fn(&I) -> usize>, fork: Option<fn(&I) -> I>, ops: &Value) -> Value
where
    I: Iterator,
    F: Fn() -> I,
    G: Fn(I::Item) -> Value,
{
    let mut it = mk();
    let mut res = vec![];
    let opt = |v: Option<Value>| Value::Array(v.into_iter().collect());
    for op in ops.as_array().unwrap() {
        let k = match &op[1] {
            Value::String(s) => s.parse().unwrap(),
            v => v.as_u64().unwrap_or(0) as usize,
        };
        let own = |it: &mut I| std::mem::replace(it, mk());
        res.push(match op[0].as_str().unwrap() {
            "next" => opt(it.next().map(&ident)),
            "nth" => opt(it.nth(k).map(&ident)),
            "skip" => opt(it.by_ref().skip(k).next().map(&ident)),
            "len" => json!([len.unwrap()(&it).min(i32::MAX as usize)]),
            "hint" => {
                let (a, b) = it.size_hint();
                json!([a.min(1 << 30), b.map_or(vec![], |b| vec![b.min(1 << 30)])])
            }
            "rest" => Value::Array(it.by_ref().map(&ident).collect()),
            "stepby" => Value::Array(it.by_ref().step_by(k).map(&ident).collect()),
            "take" => Value::Array(it.by_ref().take(k).map(&ident).collect()),
            "fork" => Value::Array(fork.unwrap()(&it).map(&ident).collect()),
            "count" => json!([own(&mut it).count().min(i32::MAX as usize)]),
            "last" => opt(own(&mut it).last().map(&ident)),
            "collect" => Value::Array(own(&mut it).map(&ident).collect()),
            "reset" => {
                own(&mut it);
                json!([])
            }
            o => panic!("harness: unknown iterator op {}", o),
        });
    }
    json!({"ok": true, "res": res})
}

fn exact<I: ExactSizeIterator>(it: &I) -> usize {
    it.len()
}

/// step: what is enumerated ("what", "i", "h") and the operations.
fn iter<B: Backend>(
    backup: &Backup<B>,
    state: &Rc<RefCell<State>>,
    hs: &[Option<SnapshotEntries>],
    step: &Value,
) -> Value {
    let coll = backup.snapshots().unwrap().as_collections();
    let k = step["i"].as_u64().unwrap_or(0) as usize;
    let ops = &step["ops"];
    match step["what"].as_str().unwrap() {
        // snapshots of a signature chain, identified by the time of what they list first
        "sig" => {
            let sc = match coll.signature_chains().nth(k) {
                Some(s) => s,
                None => return json!({"nochain": true}),
            };
            let chain = match Chain::from_sigchain(sc, &MemBackend(state.clone())) {
                Ok(c) => c,
                Err(e) => return json!({"ok": false, "err": format!("{:?}", e.kind())}),
            };
            let ident = |s: ruplicity::signatures::Snapshot| {
                s.files().next().map_or(json!([]), |e| dump::time(e.mtime()))
            };
            walk(|| chain.snapshots(), ident, Some(exact), None, ops)
        }
        "snaps" => walk(
            || backup.snapshots().unwrap().into_iter(),
            |s| dump::time(s.time()),
            None,
            None,
            ops,
        ),
        "entries" => match hs[step["h"].as_u64().unwrap() as usize] {
            Some(ref e) => walk(
                || e.as_signature(),
                |e| dump::bytes(e.path_bytes()),
                None,
                Some(Clone::clone),
                ops,
            ),
            None => json!({"nohandle": true}),
        },
        "chains" => walk(
            || coll.backup_chains(),
            |c| dump::time(c.start_time()),
            Some(exact),
            Some(Clone::clone),
            ops,
        ),
        "incs" => match coll.backup_chains().nth(k) {
            Some(c) => walk(
                || c.inc_sets(),
                |s| dump::time(s.end_time()),
                Some(exact),
                Some(Clone::clone),
                ops,
            ),
            None => json!({"nochain": true}),
        },
        "sigchains" => walk(
            || coll.signature_chains(),
            |c| dump::time(c.start_time()),
            Some(exact),
            Some(Clone::clone),
            ops,
        ),
        "incsigs" => match coll.signature_chains().nth(k) {
            Some(c) => walk(
                || c.inc_signatures(),
                |s| dump::time(s.time),
                Some(exact),
                Some(Clone::clone),
                ops,
            ),
            None => json!({"nochain": true}),
        },
        w => panic!("harness: unknown enumeration {}", w),
    }
}
