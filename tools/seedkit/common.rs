// Shared by the demonstrations: an in-memory backend and a tiny signature archive writer.
#![allow(dead_code)]
use ruplicity::backend::Backend;
use std::collections::BTreeMap;
use std::io;
use std::path::Path;

pub struct Mem {
    pub files: BTreeMap<String, Vec<u8>>,
    pub chunk: usize,
    pub opened: std::cell::RefCell<Vec<String>>,
    pub broken: std::cell::RefCell<Vec<String>>,
}

pub struct Chunked(io::Cursor<Vec<u8>>, usize);

impl io::Read for Chunked {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.1);
        self.0.read(&mut buf[..n])
    }
}

impl Mem {
    pub fn new(files: Vec<(&str, Vec<u8>)>) -> Self {
        Mem {
            files: files.into_iter().map(|(n, d)| (n.to_owned(), d)).collect(),
            chunk: 1 << 20,
            opened: Default::default(),
            broken: Default::default(),
        }
    }
}

impl<'m> Backend for &'m Mem {
    type FileName = String;
    type FileNameIter = std::vec::IntoIter<String>;
    type FileStream = Chunked;
    fn file_names(&self) -> io::Result<Self::FileNameIter> {
        Ok(self.files.keys().cloned().collect::<Vec<_>>().into_iter())
    }
    fn open_file(&self, name: &Path) -> io::Result<Chunked> {
        let name = name.to_str().unwrap().to_owned();
        self.opened.borrow_mut().push(name.clone());
        if self.broken.borrow().contains(&name) {
            return Err(io::Error::new(io::ErrorKind::ConnectionReset, "the network is down"));
        }
        match self.files.get(&name) {
            Some(d) => Ok(Chunked(io::Cursor::new(d.clone()), self.chunk)),
            None => Err(io::Error::new(io::ErrorKind::NotFound, "no such file")),
        }
    }
}

#[derive(Clone)]
pub struct Ent {
    pub path: Vec<u8>,
    pub mode: u32,
    pub uid: u64,
    pub gid: u64,
    pub mtime: u64,
    pub tp: u8,
    pub link: Vec<u8>,
    pub data: Vec<u8>,
}

pub fn ent(path: &str, mtime: u64) -> Ent {
    Ent {
        path: path.as_bytes().to_vec(),
        mode: 0o644,
        uid: 1000,
        gid: 100,
        mtime,
        tp: b'0',
        link: vec![],
        data: b"data".to_vec(),
    }
}

/// The data of a signature entry: so many blocks of the given length.
pub fn sigdata(block: u32, n: usize) -> Vec<u8> {
    let mut v = vec![0x72, 0x73, 0x01, 0x36];
    v.extend_from_slice(&block.to_be_bytes());
    v.extend_from_slice(&8u32.to_be_bytes());
    v.extend(std::iter::repeat(7u8).take(12 * n));
    v
}

fn put(h: &mut [u8], at: usize, v: &[u8]) {
    h[at..at + v.len()].copy_from_slice(v);
}

fn block(name: &[u8], e: &Ent, tp: u8, link: &[u8], data: &[u8], out: &mut Vec<u8>) {
    let mut h = [0u8; 512];
    put(&mut h, 0, &name[..name.len().min(100)]);
    put(&mut h, 100, format!("{:07o}\0", e.mode).as_bytes());
    put(&mut h, 108, format!("{:07o}\0", e.uid).as_bytes());
    put(&mut h, 116, format!("{:07o}\0", e.gid).as_bytes());
    put(&mut h, 124, format!("{:011o}\0", data.len()).as_bytes());
    put(&mut h, 136, format!("{:011o}\0", e.mtime).as_bytes());
    put(&mut h, 148, b"        ");
    h[156] = tp;
    put(&mut h, 157, &link[..link.len().min(100)]);
    put(&mut h, 257, b"ustar  \0");
    put(&mut h, 265, format!("u{}", e.uid).as_bytes());
    put(&mut h, 297, format!("g{}", e.gid).as_bytes());
    let sum: u32 = h.iter().map(|&b| b as u32).sum();
    put(&mut h, 148, format!("{:06o}\0 ", sum).as_bytes());
    out.extend_from_slice(&h);
    out.extend_from_slice(data);
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

/// An uncompressed signature archive with the given entries.
pub fn sigtar(entries: &[Ent]) -> Vec<u8> {
    let mut out = vec![];
    for e in entries {
        if e.link.len() > 100 {
            let mut l = e.link.clone();
            l.push(0);
            block(b"././@LongLink", e, b'K', b"", &l, &mut out);
        }
        if e.path.len() > 100 {
            let mut l = e.path.clone();
            l.push(0);
            block(b"././@LongLink", e, b'L', b"", &l, &mut out);
        }
        block(&e.path, e, e.tp, &e.link, &e.data, &mut out);
    }
    out.extend_from_slice(&[0u8; 1024]);
    out
}

/// Timestamp of the n-th minute of a day.
pub fn ts(n: usize) -> String {
    format!("20150617T{:02}{:02}00Z", n / 60, n % 60)
}

/// The files of a chain whose k-th signature contains the k-th list of entries.
pub fn chain(sigs: &[Vec<Ent>]) -> Vec<(String, Vec<u8>)> {
    let mut files = vec![];
    for (k, s) in sigs.iter().enumerate() {
        let man = manifest(&[("x", None, "z", None)]);
        if k == 0 {
            files.push((format!("duplicity-full.{}.manifest", ts(0)), man));
            files.push((format!("duplicity-full.{}.vol1.difftar.gz", ts(0)), vec![]));
            files.push((format!("duplicity-full-signatures.{}.sigtar", ts(0)), sigtar(s)));
        } else {
            let t = format!("{}.to.{}", ts(k - 1), ts(k));
            files.push((format!("duplicity-inc.{}.manifest", t), man));
            files.push((format!("duplicity-inc.{}.vol1.difftar.gz", t), vec![]));
            files.push((format!("duplicity-new-signatures.{}.sigtar", t), sigtar(s)));
        }
    }
    files
}

pub fn mem(files: &[(String, Vec<u8>)]) -> Mem {
    Mem::new(files.iter().map(|(n, d)| (n.as_str(), d.clone())).collect())
}

pub fn manifest(vols: &[(&str, Option<usize>, &str, Option<usize>)]) -> Vec<u8> {
    let mut s = String::from("Hostname host\nLocaldir /data\n");
    let b = |x: Option<usize>| x.map_or(String::new(), |n| format!(" {}", n));
    for (i, v) in vols.iter().enumerate() {
        s += &format!(
            "Volume {}:\n    StartingPath   {} {}\n    EndingPath     {} {}\n    Hash SHA1 0011223344\n",
            i + 1, v.0, b(v.1), v.2, b(v.3)
        );
    }
    s.into_bytes()
}

/// The paths (and modification times) of every snapshot of the archive.
pub fn listings(m: &Mem) -> Vec<Vec<(String, i64)>> {
    let b = ruplicity::Backup::new(m).unwrap();
    let mut all = vec![];
    for s in b.snapshots().unwrap() {
        let es = s.entries().unwrap();
        all.push(
            es.as_signature()
                .map(|e| (String::from_utf8_lossy(e.path_bytes()).into_owned(), e.mtime().sec))
                .collect(),
        );
    }
    all
}

pub fn check<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        println!("FAIL: {}\n  got  {:?}\n  want {:?}", what, got, want);
        std::process::exit(1);
    }
}
