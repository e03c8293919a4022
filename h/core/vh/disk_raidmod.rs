//! gives the checks of the layers above access to arrays on simulated disks
use super::*;
pub use super::vdev_raid::vh_disk::{raid, Geo};
use crate::mirror::vh_disk::mirror;
/// params 0-3: n, k, f, chunk; n = 1: no RAID
pub fn params(lpz: LbaT, size: LbaT) -> Geo { Geo::params(lpz, size) }
pub fn make(g: Geo) -> RaidImpl { if g.n == 1 { null(0, 1, g.size, g.lpz) } else { RaidImpl::Raid(raid(g, 0)) } }
/// a bare mirror on disks first, first + 1 ...
pub fn null(first: usize, n: usize, size: LbaT, lpz: LbaT) -> RaidImpl {
    let m = mirror(first, size, lpz, &vec![0; n]);
    let l = null_raid::Label { uuid: Uuid::from_uuid(uuid::Uuid::from_u128(0x3000 + first as u128)), child: m.uuid() };
    RaidImpl::Null(NullRaid::open(l, [(m.uuid(), m)].into_iter().collect()))
}
pub use super::vdev_raid::vh_disk::all_bytes;
use crate::mirror::vh_disk::open_many;
use crate::vdev_block::vh_disk::import;
/// opens the array from what the disks hold; n = 1: a bare mirror of k disks
pub async fn reopen(g: Geo) -> Result<(RaidImpl, LabelReader)> {
    if g.n == 1 {
        let mut v = vec![];
        for i in 0..g.k as usize {
            v.push(import(i, g.size, g.lpz).await?);
        }
        let (m, mut r) = open_many(v);
        return match r.deserialize::<Label>() {
            Ok(Label::NullRaid(l)) => Ok((RaidImpl::Null(NullRaid::open(l, [(m.uuid(), m)].into_iter().collect())), r)),
            _ => Err(Error::EINVAL),
        };
    }
    let mut last = None;
    let mut mirrors = BTreeMap::new();
    for i in 0..g.n {
        let x = import(i, g.size, g.lpz).await?;
        let (m, mut r) = open_many(vec![x]);
        match r.deserialize::<Label>() {
            Ok(Label::Raid(l)) => last = Some((l, r)),
            _ => return Err(Error::EINVAL),
        }
        mirrors.insert(m.uuid(), m);
    }
    let (l, r) = last.unwrap();
    Ok((RaidImpl::Raid(VdevRaid::open(l, mirrors)), r))
}
pub fn stripe(g: Geo) -> LbaT { if g.n == 1 { 1 } else { g.stripe() } }
symrt::entries! {}
