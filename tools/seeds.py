"""Planted bugs: written from the text of the properties and the code, not from the checks."""
SEEDS = []
SIG, COL, LIB, MAN = "src/signatures.rs", "src/collections/mod.rs", "src/lib.rs", "src/manifest.rs"
FNM, TIM, RAW, LOC = "src/collections/file_naming.rs", "src/timefmt.rs", "src/rawpath.rs", "src/backend/local.rs"


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("C01-compact-deleted", "C01", [(SIG,
"""                    path_snapshots.snapshots.push(new_snapshot);
""",
"""                    match path_snapshots.snapshots.last_mut() {
                        // a deletion followed by another record carries no information
                        Some(last) if last.info.is_none() => *last = new_snapshot,
                        _ => path_snapshots.snapshots.push(new_snapshot),
                    }
""")],
"a path deleted by one backup and created again by a later one; the snapshot in between is listed",
"the deletion record is dropped, so the snapshot between deletion and re-creation lists the old file",
r"""
fn main() {
    let mut del = ent("deleted/a", 0);
    del.data.clear();
    let m = mem(&chain(&[
        vec![ent("snapshot/a", 1), ent("snapshot/b", 1)],
        vec![del],
        vec![ent("snapshot/a", 3)],
    ]));
    let l = |v: &[(&str, i64)]| v.iter().map(|(p, t)| (p.to_string(), *t)).collect::<Vec<_>>();
    check("listings", listings(&m), vec![l(&[("a", 1), ("b", 1)]), l(&[("b", 1)]), l(&[("a", 3), ("b", 1)])]);
}
""")

seed("C01-merge-byte-order", "C01", [(SIG,
"""            self.files.sort_by(|a, b| a.path.cmp(&b.path));
""",
"""            self.files
                .sort_by(|a, b| a.path.as_bytes().cmp(b.path.as_bytes()));
""")],
"a directory and a sibling whose name extends the directory's name with a character below '/', new in an incremental backup",
"the merged list is in byte order, so listings are out of order and later changes of some paths are recorded twice",
r"""
fn main() {
    let d = |t| { let mut e = ent("snapshot/a/", t); e.tp = b'5'; e.data.clear(); e };
    let m = mem(&chain(&[
        vec![d(1), ent("snapshot/a/x", 1), ent("snapshot/a-b", 1)],
        vec![ent("snapshot/c", 2)],
        vec![ent("snapshot/a/x", 3), ent("snapshot/a-b", 3)],
    ]));
    let l = |v: &[(&str, i64)]| v.iter().map(|(p, t)| (p.to_string(), *t)).collect::<Vec<_>>();
    check("listings", listings(&m), vec![
        l(&[("a", 1), ("a/x", 1), ("a-b", 1)]),
        l(&[("a", 1), ("a/x", 1), ("a-b", 1), ("c", 2)]),
        l(&[("a", 1), ("a/x", 3), ("a-b", 3), ("c", 2)]),
    ]);
}
""")

seed("C03-redo-end-time", "C03", [(COL,
"""                if replace_last {
                    self.end_time = end_time;
                    self.incsets.pop();
""",
"""                if replace_last {
                    self.incsets.pop();
""")],
"an interrupted incremental backup redone from the same parent, and a further backup made from the redone one",
"the chain keeps the end time of the replaced backup, so the chain's end time is wrong and later backups are left out",
r"""
fn main() {
    let names = vec![
        "duplicity-full.20150101T000000Z.manifest",
        "duplicity-inc.20150101T000000Z.to.20150102T000000Z.vol1.difftar.gz",
        "duplicity-inc.20150101T000000Z.to.20150103T000000Z.manifest",
        "duplicity-inc.20150103T000000Z.to.20150104T000000Z.manifest",
    ];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    check("snapshots", c.num_snapshots(), 3);
    let chain = c.backup_chains().next().unwrap();
    let last = chain.inc_sets().last().unwrap();
    check("end time", chain.end_time(), last.end_time());
}
""")

seed("C03-inc-same-chain-only", "C03", [(COL,
"""                for chain in &mut backup_chains {
                    rejected_set = chain.add_inc(rejected_set.unwrap());
                    if rejected_set.is_none() {
                        break;
                    }
                }
""",
"""                // sets are sorted by time: start from the most recent chain
                for chain in backup_chains.iter_mut().rev().take(1) {
                    rejected_set = chain.add_inc(rejected_set.unwrap());
                    if rejected_set.is_none() {
                        break;
                    }
                }
""")],
"two chains that overlap in time: an incremental backup of the older chain made after the newer full backup",
"incremental backups of any chain but the newest are left out",
r"""
fn main() {
    let names = vec![
        "duplicity-full.20150101T000000Z.manifest",
        "duplicity-full.20150102T000000Z.manifest",
        "duplicity-inc.20150101T000000Z.to.20150103T000000Z.manifest",
        "duplicity-inc.20150102T000000Z.to.20150104T000000Z.manifest",
    ];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let n: Vec<_> = c.backup_chains().map(|c| c.inc_sets().count()).collect();
    check("incremental backups", n, vec![1, 1]);
}
""")

seed("C05-suffix-case", "C05", [(FNM,
"""            compressed: is_compressed(lower_fname.as_ref()),
            encrypted: is_encrypted(lower_fname.as_ref()),
""",
"""            compressed: is_compressed(filename),
            encrypted: is_encrypted(filename),
""")],
"a file name with an upper case suffix",
"upper case .GZ or .GPG is no longer recognised as compression or encryption",
r"""
fn main() {
    let names = vec!["DUPLICITY-FULL.20150101T000000Z.VOL1.DIFFTAR.GZ"];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let s = c.backup_chains().next().unwrap().full_set();
    check("compressed", s.is_compressed(), true);
    check("encrypted", s.is_encrypted(), false);
}
""")

seed("C06-inc-sets-by-end", "C06", [(COL,
"""                } => my_start == start_time && my_end == end_time,
""",
"""                } => my_end == end_time && my_start <= start_time.max(my_end),
""")],
"two incremental backups that end at the same time and start at different ones, such as one per chain",
"the files of one incremental backup are attributed to another that ended at the same time",
r"""
fn main() {
    let names = vec![
        "duplicity-full.20150101T000000Z.manifest",
        "duplicity-full.20150102T000000Z.manifest",
        "duplicity-inc.20150101T000000Z.to.20150103T000000Z.vol1.difftar.gz",
        "duplicity-inc.20150102T000000Z.to.20150103T000000Z.vol2.difftar.gz",
    ];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let n: Vec<Vec<Option<&str>>> = c.backup_chains()
        .map(|c| c.inc_sets().map(|s| s.volume_path(2)).collect()).collect();
    let mut flat: Vec<_> = n.concat();
    flat.sort();
    check("volume 2 of the two sets", flat, vec![None, Some(names[3])]);
}
""")

seed("C06-num-volumes", "C06", [(COL,
"""    pub fn num_volumes(&self) -> usize {
        self.volumes_paths.len()
""",
"""    pub fn num_volumes(&self) -> usize {
        // volumes are numbered from one
        self.volumes_paths.keys().next_back().cloned().unwrap_or(0)
""")],
"a gap in the volume numbers",
"the highest number is reported instead of the number of volumes",
r"""
fn main() {
    let names = vec![
        "duplicity-full.20150101T000000Z.vol1.difftar.gz",
        "duplicity-full.20150101T000000Z.vol4.difftar.gz",
    ];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    check("volumes", c.backup_chains().next().unwrap().full_set().num_volumes(), 2);
}
""")

seed("C07-block-width", "C07", [(MAN,
"""                Some(usize::from_str(s)?)
""",
"""                Some(u16::from_str(s)?.into())
""")],
"a file cut between volumes at a block number above 65535",
"manifests with large block numbers are rejected",
r"""
fn main() {
    let m = manifest(&[("a", None, "b", Some(65536)), ("b", Some(65537), "c", None)]);
    match ruplicity::manifest::Manifest::parse(&mut &m[..]) {
        Ok(m) => check("block", m.volume(2).unwrap().start_block(), Some(65537)),
        Err(e) => check("manifest", format!("{}", e), String::new()),
    }
}
""")

seed("C08-path-order", "C08", [(RAW,
"""    #[derive(Clone, Debug, Eq, Ord, PartialEq, PartialOrd)]
    pub struct RawPath(PathBuf);
""",
"""    #[derive(Clone, Debug, Eq, PartialEq)]
    pub struct RawPath(PathBuf);

    impl PartialOrd for RawPath {
        fn partial_cmp(&self, other: &RawPath) -> Option<std::cmp::Ordering> {
            Some(self.cmp(other))
        }
    }

    impl Ord for RawPath {
        fn cmp(&self, other: &RawPath) -> std::cmp::Ordering {
            self.as_bytes().cmp(other.as_bytes())
        }
    }
""")],
"a directory and a sibling whose name extends the directory's name with a character below '/', around a volume boundary",
"paths are compared byte by byte, unlike the order of paths in a backup, so volumes are missed",
r"""
fn main() {
    let m = manifest(&[("a", None, "a/x", None), ("a-b", None, "b", None)]);
    let m = ruplicity::manifest::Manifest::parse(&mut &m[..]).unwrap();
    check("a/x", (m.first_volume_of_path(b"a/x"), m.last_volume_of_path(b"a/x")), (Some(1), Some(1)));
    check("a-b", (m.first_volume_of_path(b"a-b"), m.last_volume_of_path(b"a-b")), (Some(2), Some(2)));
}
""")

seed("C09-volume-gap", "C09", [(MAN,
"""            if i != volumes.len() + 1 {
""",
"""            if i <= volumes.len() {
""")],
"a manifest in which a volume number is skipped",
"a manifest that lacks a volume is accepted and the following volumes get wrong numbers",
r"""
fn main() {
    let m = manifest(&[("a", None, "b", None), ("b", None, "c", None)]);
    let s = String::from_utf8(m).unwrap().replace("Volume 2", "Volume 3");
    check("accepted", ruplicity::manifest::Manifest::parse(&mut s.as_bytes()).is_ok(), false);
}
""")

seed("C11-open-twice", "C11", [(SIG,
"""        chain.add_sigfile(file, coll.full_signature())?;
""",
"""        chain.add_sigfile(file, coll.full_signature())?;
        // fail early if some signature is not available
        for inc in coll.inc_signatures().skip(1) {
            backend.open_file(inc.file_name.as_ref())?;
        }
""")],
"a chain with two or more incremental signatures",
"one request opens signature files twice",
r"""
fn main() {
    let m = mem(&chain(&[vec![ent("snapshot/a", 1)], vec![ent("snapshot/b", 2)], vec![ent("snapshot/c", 3)]]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    assert!(s.entries().is_ok());
    let mut o = m.opened.borrow().clone();
    o.sort();
    let mut d = o.clone();
    d.dedup();
    check("files opened", o, d);
}
""")

seed("C12-swallow-inc-error", "C12", [(SIG,
"""            let file = backend.open_file(inc.file_name.as_ref())?;
            chain.add_sigfile(file, &inc)?;
        }
""",
"""            let file = match backend.open_file(inc.file_name.as_ref()) {
                Ok(file) => file,
                Err(_) => break,
            };
            chain.add_sigfile(file, &inc)?;
        }
""")],
"the backend fails to open an incremental signature once and works afterwards",
"the failure is not reported and the incomplete chain is kept for later requests",
r"""
fn main() {
    let files = chain(&[vec![ent("snapshot/a", 1)], vec![ent("snapshot/b", 2)]]);
    let m = mem(&files);
    m.broken.borrow_mut().push(format!("duplicity-new-signatures.{}.to.{}.sigtar", ts(0), ts(1)));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().nth(1).unwrap();
    check("request with a failing file succeeds", s.entries().is_ok(), false);
    m.broken.borrow_mut().clear();
    check("entries later", s.entries().unwrap().as_signature().count(), 2);
}
""")

seed("C13-damage-aborts", "C13", [(SIG,
"""                let mut tarfile = unwrap_or_continue!(tarfile);
""",
"""                let mut tarfile = tarfile?;
""")],
"a signature file damaged in the header of an entry",
"a damaged entry makes the whole chain unreadable",
r"""
fn main() {
    let mut files = chain(&[vec![ent("snapshot/a", 1), ent("snapshot/b", 1)], vec![ent("snapshot/c", 2)]]);
    for f in &mut files {
        if f.0.starts_with("duplicity-full-sig") {
            f.1[1024 + 20] ^= 0x55;
        }
    }
    let m = mem(&files);
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let l = match s.entries() {
        Ok(e) => e.as_signature().map(|e| e.path_bytes().to_vec()).collect(),
        Err(_) => vec![],
    };
    check("entries before the damage", l.contains(&b"a".to_vec()), true);
}
""")

seed("C13-short-signature", "C13", [(SIG,
"""    let magic = file.read_u32::<BigEndian>().ok()?;
""",
"""    // every signature starts with a magic number
    let magic = file.read_u32::<BigEndian>().unwrap();
""")],
"a signature file cut in the data of an entry stored as a signature, or such an entry with no data",
"loading the damaged signature crashes",
r"""
fn main() {
    let mut e = ent("signature/a", 1);
    e.data = sigdata(512, 2);
    let mut b = ent("signature/b", 1);
    b.data = sigdata(512, 2);
    let mut files = chain(&[vec![e, b]]);
    for f in &mut files {
        if f.0.starts_with("duplicity-full-sig") {
            f.1.truncate(1536 + 2);
        }
    }
    let l = listings(&mem(&files));
    check("listing", l[0][0].0.clone(), "a".to_owned());
}
""")

seed("C14-day-pad", "C14", [(TIM,
"""            write!(f, "{}", time::strftime("%b %d  %Y", &self.0).unwrap())
""",
"""            write!(f, "{}", time::strftime("%b %e  %Y", &self.0).unwrap())
""")],
"a time in the first nine days of a month of another year",
"the day is padded with a space, not a zero, as it is for times of this year",
r"""
use ruplicity::timefmt::TimeDisplay;
fn main() {
    check("time", time::Timespec::new(951999999, 0).into_utc_display().to_string(), "Mar 02  2000".to_string());
    check("time", time::Timespec::new(953999999, 0).into_utc_display().to_string(), "Mar 25  2000".to_string());
}
""")

seed("C15-long-link", "C15", [(SIG,
"""                        let link = tarfile
                            .link_name_bytes()
""",
"""                        let link = header
                            .link_name_bytes()
""")],
"a symbolic link whose target is longer than 100 bytes",
"long link targets are cut at 100 bytes",
r"""
fn main() {
    let mut e = ent("snapshot/l", 1);
    e.tp = b'2';
    e.data.clear();
    e.link = "x/".repeat(70).into_bytes();
    let want = e.link.clone();
    let m = mem(&chain(&[vec![e]]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let es = s.entries().unwrap();
    let l = es.as_signature().next().unwrap().linked_path().unwrap().to_path_buf();
    check("link", l.to_str().unwrap().len(), want.len());
}
""")

seed("C15-wide-block", "C15", [(SIG,
"""        let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
        let sign_block_len_bytes = 4 + ss_len;
""",
"""        let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
        let file_block_len_bytes = file_block_len_bytes & 0xffff;
        let sign_block_len_bytes = 4 + ss_len;
""")],
"a large file, whose signature has blocks of 65536 bytes or more",
"the size bounds of large files are wrong",
r"""
fn main() {
    let mut e = ent("signature/a", 1);
    e.data = sigdata(70_000, 3);
    let m = mem(&chain(&[vec![e]]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let es = s.entries().unwrap();
    check("size", es.as_signature().next().unwrap().size_hint(), Some((140_001, 210_000)));
}
""")

seed("C16-total-volumes", "C16", [(COL,
"""                .map(|i| i.volumes_paths.len())
                .fold(0, |a, i| a + i);
""",
"""                .map(|i| i.volumes_paths.len())
                .fold(0, |a, i| if i == 0 { 0 } else { a + i });
""")],
"an incremental set without volumes after one with volumes",
"the total number of volumes of the chain restarts at a set without volumes",
r"""
fn main() {
    let names = vec![
        "duplicity-full.20150101T000000Z.vol1.difftar.gz",
        "duplicity-inc.20150101T000000Z.to.20150102T000000Z.vol1.difftar.gz",
        "duplicity-inc.20150102T000000Z.to.20150103T000000Z.manifest",
    ];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let t = c.to_string();
    check("total", t.contains("Total number of contained volumes: 2\n"), true);
}
""")

seed("C17-narrow-index", "C17", [(SIG,
"""                let new_snapshot = PathSnapshot {
                    info: info,
                    index: snapshot_id,
                };
""",
"""                let new_snapshot = PathSnapshot {
                    info: info,
                    index: snapshot_id & 0xff,
                };
"""), (SIG,
"""        let index = self.index; // prevents borrow checker complains
""",
"""        let index = self.index & 0xff; // prevents borrow checker complains
""")],
"a chain of more than 256 backups",
"snapshot numbers wrap around after 256, so listings of late snapshots are wrong",
r"""
fn main() {
    let mut sigs = vec![vec![ent("snapshot/a", 1)]];
    for k in 1..300 {
        sigs.push(if k == 200 { vec![ent("snapshot/b", 200)] } else { vec![] });
    }
    let l = listings(&mem(&chain(&sigs)));
    check("snapshots", l.len(), 300);
    check("last", l[299].len(), 2);
    check("early", l[100].len(), 1);
}
""")

seed("C17-nth-resume", "C17", [(SIG,
"""        if id < self.chain.num_snapshots {
            self.snapshot_id = id + 1;
""",
"""        if id < self.chain.num_snapshots {
            self.snapshot_id += n.max(1);
""")],
"skipping ahead by two or more and then going on with the same iterator",
"after skipping ahead the iterator returns the same snapshot again",
r"""
fn main() {
    let m = mem(&chain(&[vec![ent("snapshot/a", 1)], vec![ent("snapshot/b", 2)], vec![ent("snapshot/c", 3)], vec![]]));
    let c = ruplicity::collections::Collections::from_filenames(m.files.keys());
    let ch = ruplicity::signatures::Chain::from_sigchain(c.signature_chains().next().unwrap(), &&m).unwrap();
    let mut it = ch.snapshots();
    check("skip", it.nth(2).unwrap().files().count(), 3);
    check("left", it.count(), 1);
}
""")

seed("C18-lossy-name", "C18", [(LOC,
"""                return Some(entry.file_name());
""",
"""                return Some(entry.file_name().to_string_lossy().into_owned().into());
""")],
"a file in the directory whose name is not valid UTF-8",
"the local backend lists a name that does not exist",
r"""
use ruplicity::backend::{local::LocalBackend, Backend};
use std::os::unix::ffi::OsStringExt;
fn main() {
    let d = std::env::current_dir().unwrap().join("dir");
    std::fs::create_dir(&d).unwrap();
    let n = std::ffi::OsString::from_vec(b"x\xffy".to_vec());
    std::fs::write(d.join(&n), b"hello").unwrap();
    let b = LocalBackend::new(&d);
    let l: Vec<_> = b.file_names().unwrap().into_iter().collect();
    check("names", l, vec![n]);
}
""")

seed("C18-short-read", "C18", [(SIG,
"""    let magic = file.read_u32::<BigEndian>().ok()?;
    if magic != 0x72730136 {
        None
    } else {
        // read the header
        let file_block_len_bytes = file.read_u32::<BigEndian>().ok()? as usize;
        let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
""",
"""    // read the header at once
    let mut header = [0; 12];
    if file.read(&mut header).ok()? < header.len() {
        return None;
    }
    let mut header = &header[..];
    let magic = header.read_u32::<BigEndian>().ok()?;
    if magic != 0x72730136 {
        None
    } else {
        let file_block_len_bytes = header.read_u32::<BigEndian>().ok()? as usize;
        let ss_len = header.read_u32::<BigEndian>().ok()? as usize;
""")],
"a backend that delivers the data in small pieces, or a piece that ends inside the header of a signature",
"size bounds get lost depending on how the backend splits the data",
r"""
fn main() {
    let mut e = ent("signature/a", 1);
    e.data = sigdata(512, 3);
    let mut m = mem(&chain(&[vec![e]]));
    m.chunk = 7;
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let es = s.entries().unwrap();
    check("size", es.as_signature().next().unwrap().size_hint(), Some((1025, 1536)));
}
""")

seed("C07-wide-escape", "C07", [(MAN,
"""            result.push(num);
            i += 3;
""",
"""            result.extend(char::from(num).to_string().bytes());
            i += 3;
""")],
"a path with a byte above 127, which manifests store escaped",
"escaped bytes above 127 are turned into two bytes",
r"""
fn main() {
    let m = manifest(&[("\"caf\\xc3\\xa9\"", None, "\"c\\xff\"", None)]);
    let m = ruplicity::manifest::Manifest::parse(&mut &m[..]).unwrap();
    check("start", m.volume(1).unwrap().start_path_bytes(), "caf\u{e9}".as_bytes());
    check("end", m.volume(1).unwrap().end_path_bytes(), b"c\xff");
}
""")

seed("C10-bounded-cache", "C10", [(LIB,
"""        let manifests = (0..collections.num_snapshots())
""",
"""        let manifests = (0..collections.num_snapshots().min(16))
"""), (LIB,
"""                ._manifest(self.man_id, self.set.manifest_path())?,
""",
"""                ._manifest(self.man_id % 16, self.set.manifest_path())?,
""")],
"an archive of more than 16 snapshots, and the manifests of two snapshots 16 apart requested from one opened backup",
"two snapshots share a place in the manifest cache, so one gets the manifest of the other",
r"""
fn main() {
    let mut files = chain(&(0..20).map(|_| vec![]).collect::<Vec<_>>());
    let mut k = 0;
    for f in &mut files {
        if f.0.ends_with(".manifest") {
            f.1 = manifest(&[(&format!("p{}", k), None, "z", None)]);
            k += 1;
        }
    }
    let m = mem(&files);
    let b = ruplicity::Backup::new(&m).unwrap();
    for (k, s) in b.snapshots().unwrap().into_iter().enumerate() {
        let m = s.manifest().unwrap();
        check("manifest", m.volume(1).unwrap().start_path_bytes().to_vec(), format!("p{}", k).into_bytes());
    }
}
""")

seed("C16-flush-often", "C16", [(SIG,
"""        for file in self.0.clone() {
            try_or_fmt_err!(write!(&mut tw, "{}\\n", file));
        }
""",
"""        for (i, file) in self.0.clone().enumerate() {
            try_or_fmt_err!(write!(&mut tw, "{}\\n", file));
            // limit the memory used by long listings
            if i % 64 == 63 {
                try_or_fmt_err!(tw.flush());
            }
        }
""")],
"a listing of more than 64 entries with fields of different widths",
"the columns are aligned only within groups of 64 lines",
r"""
fn main() {
    let mut es: Vec<_> = (0..100).map(|i| ent(&format!("snapshot/{:03}", i), 1)).collect();
    es[80].uid = 2_000_000;
    let m = mem(&chain(&[es]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let t = s.entries().unwrap().to_string();
    let mut w: Vec<_> = t.lines().map(|l| l.len()).collect();
    w.dedup();
    check("line widths", w.len(), 1);
}
""")

seed("C02-empty-signature", "C02", [(SIG,
"""            self.num_snapshots += 1;
""",
"""            // a signature without entries is not a snapshot of its own
            let id = self.num_snapshots;
            let used = |f: &PathSnapshots| f.snapshots.last().map_or(false, |s| s.index == id);
            if id == 0 || self.files.iter().any(used) {
                self.num_snapshots += 1;
            }
""")],
"a chain with an incremental backup in which nothing had changed, followed by others",
"the signatures after an empty one are counted one short: a snapshot is listed from the signature of the next one, the last cannot be listed at all",
r"""
fn main() {
    let m = mem(&chain(&[vec![ent("snapshot/a", 1)], vec![], vec![ent("snapshot/b", 3)], vec![ent("snapshot/c", 4)]]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().nth(1).unwrap();
    let e: Vec<_> = s.entries().unwrap().as_signature().map(|e| e.path_bytes().to_vec()).collect();
    check("second snapshot", e, vec![b"a".to_vec()]);
}
""")

seed("C04-adjacent-duplicates", "C04", [(COL,
"""        let fnames_vec: Vec<_> = filenames.into_iter().collect();
""",
"""        let mut fnames_vec: Vec<_> = filenames.into_iter().collect();
        // the same file could be there both encrypted and not
        fnames_vec.dedup_by(|a, b| {
            let (a, b) = (a.as_ref(), b.as_ref());
            a.extension() != b.extension() && a.file_stem() == b.file_stem()
        });
""")],
"a volume that is there with two suffixes, listed by the backend one right after the other",
"only the first of the two is seen, but both if another file comes in between: flags and path of the volume depend on the order of the listing",
r"""
fn main() {
    let n = |x: &str| format!("duplicity-full.{}.vol1.difftar.{}", ts(0), x);
    let man = format!("duplicity-full.{}.manifest", ts(0));
    let see = |names: Vec<String>| {
        let c = ruplicity::collections::Collections::from_filenames(&names);
        let s = c.backup_chains().next().unwrap().full_set();
        (s.volume_path(1).unwrap().to_owned(), s.is_compressed(), s.is_encrypted())
    };
    let a = see(vec![n("gz"), n("gpg"), man.clone()]);
    let b = see(vec![n("gpg"), n("gz"), man.clone()]);
    let c = see(vec![n("gz"), man, n("gpg")]);
    check("adjacent", a, b.clone());
    check("apart", b, c);
}
""")

seed("C01-append-in-order", "C01", [(SIG,
"""            self.files.extend(new_files.into_iter());
            self.files.sort_by(|a, b| a.path.cmp(&b.path));
""",
"""            // no need to sort if everything comes after what is already there
            let ordered = match (self.files.last(), new_files.first()) {
                (Some(last), Some(first)) => last.path.as_bytes() < first.path.as_bytes(),
                _ => true,
            };
            self.files.extend(new_files.into_iter());
            if !ordered {
                self.files.sort_by(|a, b| a.path.cmp(&b.path));
            }
""")],
"the last path of a backup is 'a-b' (or any name with a byte below '/') and the next backup adds 'a/x'",
"the new paths are appended out of order, and what happens to the paths in later backups is recorded twice",
r"""
fn main() {
    let d = |t| { let mut e = ent("snapshot/a/", t); e.tp = b'5'; e.data.clear(); e };
    let m = mem(&chain(&[
        vec![d(1), ent("snapshot/a-b", 1)],
        vec![ent("snapshot/a/x", 2)],
        vec![ent("snapshot/a/x", 3), ent("snapshot/a-b", 3)],
    ]));
    let l = |v: &[(&str, i64)]| v.iter().map(|(p, t)| (p.to_string(), *t)).collect::<Vec<_>>();
    check("listings", listings(&m), vec![
        l(&[("a", 1), ("a-b", 1)]),
        l(&[("a", 1), ("a/x", 2), ("a-b", 1)]),
        l(&[("a", 1), ("a/x", 3), ("a-b", 3)]),
    ]);
}
""")

seed("C01-unchanged-entry", "C01", [(SIG,
"""                    path_snapshots.snapshots.push(new_snapshot);
""",
"""                    // an entry as it was before does not need to be recorded again
                    let unchanged = {
                        let old = path_snapshots.snapshots.last().and_then(|s| s.info.as_ref());
                        match (old, new_snapshot.info.as_ref()) {
                            (Some(a), Some(b)) => {
                                (a.mtime, a.entry_type, a.uid, a.gid, a.mode, a.size_hint)
                                    == (b.mtime, b.entry_type, b.uid, b.gid, b.mode, b.size_hint)
                            }
                            _ => false,
                        }
                    };
                    if !unchanged {
                        path_snapshots.snapshots.push(new_snapshot);
                    }
""")],
"a symbolic link that is made to point elsewhere by a later backup, all else (also its time) being as before",
"the later snapshots still show the old target of the link",
r"""
fn main() {
    let l = |to: &str| { let mut e = ent("snapshot/l", 5); e.tp = b'2'; e.data.clear(); e.link = to.as_bytes().to_vec(); e };
    let m = mem(&chain(&[vec![l("old")], vec![ent("snapshot/z", 2)], vec![l("new")]]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s: Vec<_> = b.snapshots().unwrap().into_iter().map(|s| {
        let e = s.entries().unwrap();
        let f = e.as_signature().next().unwrap();
        f.linked_path().unwrap().to_str().unwrap().as_bytes().to_vec()
    }).collect();
    check("targets", s, vec![b"old".to_vec(), b"old".to_vec(), b"new".to_vec()]);
}
""")

seed("C03-redo-any-parent", "C03", [(COL,
"""                    start_time == last.tp.start_time() && end_time > last.tp.end_time()
""",
"""                    // made anew from the same parent, or from one before it
                    start_time <= last.tp.start_time() && end_time > last.tp.end_time()
""")],
"an incremental backup made from a backup that is not there (or from one that has been superseded), after two others",
"the orphan takes the place of the last backup of the chain, which is no longer listed",
r"""
fn main() {
    let man = |a: usize, b: usize| format!("duplicity-inc.{}.to.{}.manifest", ts(a), ts(b));
    let names = vec![format!("duplicity-full.{}.manifest", ts(0)), man(0, 5), man(5, 9), man(4, 12)];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let ch = c.backup_chains().next().unwrap();
    let ms: Vec<_> = ch.inc_sets().map(|s| s.manifest_path().to_owned()).collect();
    check("incremental sets", ms, names[1..3].to_vec());
}
""")

seed("C05-volume-saturates", "C05", [(FNM,
"""    s.parse::<usize>().ok()
""",
"""    // be tolerant with numbers that are too large
    s.parse::<usize>().ok().or_else(|| Some(usize::max_value()))
""")],
"a foreign file whose name has the form of a volume with a number above 2^64-1, next to a set",
"the foreign file counts as a volume of the set",
r"""
fn main() {
    let n = |v: &str| format!("duplicity-full.{}.vol{}.difftar.gz", ts(0), v);
    let names = vec![n("1"), n("99999999999999999999"), format!("duplicity-full.{}.manifest", ts(0))];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    check("volumes", c.backup_chains().next().unwrap().full_set().num_volumes(), 1);
}
""")

seed("C09-keyword-prefix", "C09", [(MAN,
"""        if kw != key {
            return Err(ParseError::MissingKeyword(key.to_owned()));
        }
        let path = match words.next() {
""",
"""        // accept also a keyword directly followed by a colon
        if !kw.starts_with(key) {
            return Err(ParseError::MissingKeyword(key.to_owned()));
        }
        let path = match words.next() {
""")],
"a manifest in which the keyword of a path is run together with the path",
"the path is lost and the block number is read as the path; no error is reported",
r"""
fn main() {
    let t = b"Hostname h\nLocaldir /x\nVolume 1:\n    StartingPath.   17\n    EndingPath     z  \n    Hash SHA1 00\n";
    let r = ruplicity::manifest::Manifest::parse(&mut &t[..]);
    check("rejected", r.is_err(), true);
}
""")

seed("C15-link-slash", "C15", [(SIG,
"""                            .map(|b| RawPath::from_bytes(b.into_owned()));
""",
"""                            // like the paths, without the slash at the end
                            .map(|b| {
                                let len = b.iter().rposition(|&c| c != b'/').map_or(b.len(), |p| p + 1);
                                RawPath::from_bytes(b[..len].to_vec())
                            });
""")],
"a symbolic link to a directory written with a slash at the end",
"the target of the link is reported without the slash",
r"""
fn main() {
    let mut e = ent("snapshot/l", 5);
    e.tp = b'2';
    e.data.clear();
    e.link = b"../dir/".to_vec();
    let m = mem(&chain(&[vec![e]]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    check("target", e.as_signature().next().unwrap().linked_path().map(|b| b.to_str().unwrap().as_bytes().to_vec()), Some(b"../dir/".to_vec()));
}
""")

seed("C06-partial-manifest-hides", "C06", [(COL,
"""    pub fn is_complete(&self) -> bool {
        !self.manifest_path.is_empty()
""",
"""    pub fn is_complete(&self) -> bool {
        // the volumes listed in the manifest must be there as well
        !self.manifest_path.is_empty() && self.volumes_paths.keys().next().map_or(true, |&v| v <= 1)
""")],
"a set that has its manifest but whose first volume is not there",
"the set is reported as incomplete, and its manifest cannot be read",
r"""
fn main() {
    let names = vec![format!("duplicity-full.{}.manifest", ts(0)), format!("duplicity-full.{}.vol2.difftar.gz", ts(0))];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    check("complete", c.backup_chains().next().unwrap().full_set().is_complete(), true);
}
""")
