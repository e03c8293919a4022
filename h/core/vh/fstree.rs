//! File system tree: keys, values, and values moved out to blobs.
use super::*;
use crate::dml::{Cacheable, CacheRef};
use speedy::LittleEndian;
use symrt as s;
use tokio::vexec;

const M56: u64 = (1 << 56) - 1;
fn off() -> u64 {
    let x = s::u64();
    s::assume(x <= M56);
    x
}
fn names() -> [PropertyName; 5] {
    [PropertyName::Atime, PropertyName::BaseMountpoint, PropertyName::Mountpoint, PropertyName::Name, PropertyName::RecordSize]
}
fn objkey(i: u64) -> ObjKey {
    match i {
        0 => ObjKey::DirEntry(off()),
        1 => ObjKey::Inode,
        2 => ObjKey::Extent(off()),
        3 => ObjKey::ExtAttr(off()),
        4 => ObjKey::Property(names()[s::choice(5) as usize]),
        _ => ObjKey::DyingInode(off()),
    }
}
/// keys keep their components, and are ordered by object, kind, offset
fn keys() {
    let (i, j) = (s::choice(6), s::choice(6));
    let (a, b) = (s::u64(), s::u64());
    let (x, y) = (objkey(i), objkey(j));
    let (p, q) = (FSKey::new(a, x), FSKey::new(b, y));
    s::check(p.object() == a && p.objtype() as u64 == i, "object and kind of a key");
    s::check(p.offset() == x.offset(), "offset of a key");
    s::check(p.is_direntry() == (i == 0) && p.is_inode() == (i == 1) && p.is_extattr() == (i == 3) && p.is_dying_inode() == (i == 5), "kind predicates");
    let want = if a != b { a < b } else if i != j { i < j } else { x.offset() < y.offset() };
    s::check((p < q) == want, "order of keys");
    s::check((p == q) == (a == b && i == j && x.offset() == y.offset()), "equality of keys");
    s::check(FSKey::min_value() <= p, "the least key");
    let v = p.write_to_vec().unwrap();
    let v: Vec<u8> = v;
    s::check(v.len() == 16 && <FSKey as Readable<LittleEndian>>::read_from_buffer(&v).unwrap() == p, "encoding of a key");
    s::reach(1);
}
/// ranges contain exactly the keys they should
fn ranges() {
    let (ino, o, k, x) = (s::u64(), s::u64(), s::choice(6), s::u64());
    let obj = s::u64();
    let ok = objkey(k);
    let key = FSKey::new(obj, ok);
    let ko = ok.offset();
    let has = |r: Range<FSKey>| r.contains(&key);
    match s::param(0) {
        0 => {
            s::assume(o <= M56);
            s::check(has(FSKey::dirent_range(ino, o)) == (obj == ino && k == 0 && ko >= o), "directory entries from an offset on");
        }
        1 => s::check(has(FSKey::extattr_range(ino)) == (obj == ino && k == 3), "extended attributes"),
        2 => s::check(has(FSKey::dying_inode_range()) == (obj == 0 && k == 5), "dying inodes"),
        3 => {
            s::assume(ino < u64::MAX);
            s::check(has(FSKey::obj_range(ino)) == (obj == ino), "everything of an object");
        }
        4 => {
            s::assume(o <= M56 && x <= M56);
            s::check(has(FSKey::extent_range(ino, o..x)) == (obj == ino && k == 2 && ko >= o && ko < x), "extents in a range");
        }
        5 => {
            s::assume(o <= M56);
            s::check(has(FSKey::extent_range(ino, o..)) == (obj == ino && k == 2 && ko >= o), "extents from an offset on");
        }
        6 => {
            s::assume(o <= M56);
            s::check(has(FSKey::extent_range(ino, ..o)) == (obj == ino && k == 2 && ko < o), "extents up to an offset");
        }
        _ => s::check(has(FSKey::extent_range(ino, ..)) == (obj == ino && k == 2), "all extents"),
    }
    s::reach(1);
}
/// keys of hash tables depend on all of the name, and stay within 56 bits
fn hashed() {
    let n = s::param(0) as usize;
    let mut v = vec![0u8; n];
    s::bytes(&mut v);
    for b in &v {
        s::assume(*b != b'/');
    }
    let name = OsString::from_vec(v.clone());
    let k = ObjKey::dir_entry(&name);
    s::check(matches!(k, ObjKey::DirEntry(h) if h <= M56), "hash of a name has 56 bits");
    let (u, y) = (ObjKey::extattr(ExtAttrNamespace::User, &name), ObjKey::extattr(ExtAttrNamespace::System, &name));
    s::check(matches!(u, ObjKey::ExtAttr(h) if h <= M56) && matches!(y, ObjKey::ExtAttr(h) if h <= M56), "hash of an attribute has 56 bits");
    let i = s::u64();
    s::check(matches!(ObjKey::dying_inode(i), ObjKey::DyingInode(h) if h <= M56), "hash of an inode number has 56 bits");
    s::check(k == ObjKey::dir_entry(&OsString::from_vec(v)), "the hash is a function of the name");
    s::reach(1);
}
fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    s::bytes(&mut v);
    v
}
fn dbs(n: usize) -> InlineExtent { InlineExtent::new(Arc::new(DivBufShared::from(bytes(n)))) }
fn name(n: usize) -> OsString { OsString::from_vec(bytes(n)) }
fn ns() -> ExtAttrNamespace {
    if s::choice(2) == 0 { ExtAttrNamespace::User } else { ExtAttrNamespace::System }
}
fn dirent(n: usize) -> Dirent { Dirent { ino: s::u64(), dtype: s::u8(), name: name(n) } }
fn xattr(n: usize) -> ExtAttr {
    if s::choice(2) == 0 {
        ExtAttr::Inline(InlineExtAttr { namespace: ns(), name: name(n), extent: dbs(s::choice(n as u64 + 1) as usize) })
    } else {
        ExtAttr::Blob(BlobExtAttr { namespace: ns(), name: name(n), extent: BlobExtent { lsize: s::u32(), rid: RID(s::u64()) } })
    }
}
fn ts() -> Timespec { Timespec::new(s::u64() as i64, s::u32()) }
fn inode() -> Inode {
    Inode {
        size: s::u64(), bytes: s::u64(), nlink: s::u64(), flags: s::u64(), atime: ts(), mtime: ts(), ctime: ts(), birthtime: ts(),
        uid: s::u32(), gid: s::u32(), perm: s::u16(),
        file_type: match s::choice(7) {
            0 => FileType::Fifo,
            1 => FileType::Char(s::u64() as _),
            2 => FileType::Dir,
            3 => FileType::Block(s::u64() as _),
            4 => FileType::Reg(s::u8()),
            5 => FileType::Link(name(s::choice(4) as usize)),
            _ => FileType::Socket,
        },
    }
}
fn value(kind: u64, n: usize) -> FSValue {
    let m = s::choice(n as u64 + 1) as usize;
    match kind {
        0 => FSValue::DirEntry(dirent(m)),
        1 => FSValue::inode(inode()),
        2 => FSValue::InlineExtent(dbs(m)),
        3 => FSValue::BlobExtent(BlobExtent { lsize: s::u32(), rid: RID(s::u64()) }),
        4 => FSValue::ExtAttr(xattr(m)),
        5 => FSValue::ExtAttrs((0..m).map(|_| xattr(1)).collect()),
        6 => FSValue::DirEntries((0..m).map(|_| dirent(1)).collect()),
        7 => FSValue::Property(match s::choice(5) {
            0 => Property::Atime(s::bool()),
            1 => Property::RecordSize(s::u8()),
            2 => Property::Mountpoint(text(m)),
            3 => Property::Name(text(m)),
            _ => Property::BaseMountpoint(text(m)),
        }),
        _ => FSValue::DyingInode(DyingInode::from(s::u64())),
    }
}
fn text(n: usize) -> String {
    let v = bytes(n);
    for b in &v {
        s::assume(*b < 128);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// what is decoded is what was encoded, and nothing is decoded from half of it
fn codec() {
    let v = value(s::param(0), s::param(1) as usize);
    let buf: Vec<u8> = Writable::<LittleEndian>::write_to_vec(&v).unwrap();
    s::check(Writable::<LittleEndian>::bytes_needed(&v).unwrap() == buf.len(), "announced size of the encoding");
    let w = FSValue::read_from_buffer(&buf).unwrap();
    s::check(w == v, "decoding yields the encoded value");
    let cut = s::choice(buf.len() as u64) as usize;
    s::check(FSValue::read_from_buffer(&buf[..cut]).is_err(), "a truncated value is refused");
    s::check(w.stat_space() == v.stat_space() && w.needs_flush() == v.needs_flush(), "space and flushing don't depend on the history of a value");
    s::reach(1);
}
// ---- values moved to blobs
use std::sync::Mutex;
struct Dml {
    /// (content, freed)
    recs: Mutex<Vec<(Option<Vec<u8>>, bool)>>,
    fail: u64,
    n: Mutex<u64>,
}
impl Dml {
    fn new(fail: u64) -> Self { Dml { recs: Default::default(), fail, n: Mutex::new(0) } }
    fn fails(&self) -> bool {
        let mut n = self.n.lock().unwrap();
        *n += 1;
        *n == self.fail
    }
    fn live(&self) -> usize { self.recs.lock().unwrap().iter().filter(|r| r.0.is_some()).count() }
}
impl DML for Dml {
    type Addr = RID;
    fn delete(&self, a: &RID, _: TxgT) -> Pin<Box<dyn Future<Output = Result<()>> + Send>> {
        let mut r = self.recs.lock().unwrap();
        s::check((a.0 as usize) < r.len() && r[a.0 as usize].0.is_some(), "only blobs in use are freed");
        r[a.0 as usize].0 = None;
        drop(r);
        future::ok(()).boxed()
    }
    fn evict(&self, _: &RID) {}
    fn get<T: Cacheable, R: CacheRef>(&self, _: &RID) -> Pin<Box<dyn Future<Output = Result<Box<R>>> + Send>> { unimplemented!() }
    fn pop<T: Cacheable, R: CacheRef>(&self, a: &RID, _: TxgT) -> Pin<Box<dyn Future<Output = Result<Box<T>>> + Send>> {
        if self.fails() {
            return future::err(Error::EIO).boxed();
        }
        let mut r = self.recs.lock().unwrap();
        s::check((a.0 as usize) < r.len() && r[a.0 as usize].0.is_some(), "only blobs in use are taken back");
        let v = r[a.0 as usize].0.take().unwrap();
        future::ok(Box::new(T::deserialize(DivBufShared::from(v)))).boxed()
    }
    fn put<T: Cacheable>(&self, c: T, _: crate::dml::Compression, _: TxgT) -> Pin<Box<dyn Future<Output = Result<RID>> + Send>> {
        if self.fails() {
            return future::err(Error::ENOSPC).boxed();
        }
        let v = c.make_ref().serialize()[..].to_vec();
        let mut r = self.recs.lock().unwrap();
        r.push((Some(v), false));
        future::ok(RID(r.len() as u64 - 1)).boxed()
    }
    fn repay(&self, _: crate::writeback::Credit) {}
    fn sync_all(&self, _: TxgT) -> Pin<Box<dyn Future<Output = Result<()>> + Send>> { unimplemented!() }
}
/// content of the given kind of size: 0 small, 1 exactly at the threshold, 2 just above
fn payload(k: u64) -> Vec<u8> {
    let n = match k { 0 => 2, 1 => BLOB_THRESHOLD, _ => BLOB_THRESHOLD + 1 };
    let mut v = vec![7u8; n];
    v[0] = s::u8();
    v[n - 1] = s::u8();
    v
}
fn ie(v: Vec<u8>) -> InlineExtent { InlineExtent::new(Arc::new(DivBufShared::from(v))) }
fn iea(v: Vec<u8>) -> ExtAttr { ExtAttr::Inline(InlineExtAttr { namespace: ns(), name: name(2), extent: ie(v) }) }
fn copy(v: &FSValue) -> FSValue {
    // deep copy
    let b: Vec<u8> = Writable::<LittleEndian>::write_to_vec(v).unwrap();
    FSValue::read_from_buffer(&b).unwrap()
}
fn blobs() {
    let d = Dml::new(0);
    let mut bt = BTreeMap::<RID, FSValue>::new();
    let n = s::param(0);
    let mut big = 0usize;
    for i in 0..n {
        let k = s::choice(3);
        let v = match s::choice(4) {
            0 => FSValue::InlineExtent(ie(payload(k))),
            1 => FSValue::ExtAttr(iea(payload(k))),
            2 => {
                let k2 = s::choice(3);
                big = big.wrapping_add((k2 == 2) as usize);
                FSValue::ExtAttrs(vec![iea(payload(k)), iea(payload(k2))])
            }
            _ => {
                if k == 2 {
                    big = big.wrapping_sub(1);
                }
                FSValue::DirEntry(dirent(2))
            }
        };
        big = big.wrapping_add((k == 2) as usize);
        bt.insert(RID(i), v);
    }
    let want: Vec<FSValue> = bt.values().map(copy).collect();
    let space: Vec<i64> = bt.values().map(|v| v.stat_space()).collect();
    
    let bt = vexec::run(FSValue::flush_bt(bt, &d, TxgT(1))).unwrap().unwrap();
    s::check(bt.len() == want.len() && bt.keys().copied().eq((0..n).map(RID)), "flushing keeps the keys");
    s::check(d.live() == big, "exactly the values above the threshold are moved out");
    for (v, sp) in bt.values().zip(space) {
        s::check(v.stat_space() == sp, "moving a value out doesn't change the space it accounts for");
    }
    // as it would be read back from the tree
    let bt2: Vec<FSValue> = bt.values().map(copy).collect();
    for (v, w) in bt2.into_iter().zip(want) {
        let before = d.live();
        if s::choice(2) == 0 {
            let x = vexec::run(v.dpop(&d, TxgT(2))).unwrap().unwrap();
            s::check(x == w, "taking a value back in yields what was moved out");
        } else {
            vexec::run(v.ddrop(&d, TxgT(2))).unwrap().unwrap();
        }
        s::check(before >= d.live(), "taking back frees");
    }
    s::check(d.live() == 0, "every blob is freed");
    s::reach(1);
}
symrt::entries! {
    h_fskey => keys();
    h_fsrange => ranges();
    h_fshash => hashed();
    h_fsvalue => codec();
    h_fsblobs => blobs();
}
