//! Reference model: a storage is a list of sorted maps.
use detsim::*;
use std::collections::BTreeMap;
use storage_core::backend::{ReadOps, WriteOps};
use storage_core::{DbDesc, DbMapDesc, DbMapId};

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
pub type State = Vec<Map>;

pub fn w(n: u64) -> u64 {
    choose(Stream::Work, n)
}
pub fn wchance(a: u64, b: u64) -> bool {
    chance(Stream::Work, a, b)
}
pub fn desc(n: usize) -> DbDesc {
    storage_core::types::construct::db_desc((0..n).map(|i| DbMapDesc::new(format!("map{i}"))))
}
/// Keys that are prefixes of one another, empty, or at the edges of the byte range.
pub fn key() -> Vec<u8> {
    let n = w(5) as usize;
    let al = [0u8, 0xff, b'a', 1, 0xfe];
    (0..n).map(|_| al[w(if n > 3 { 5 } else { 3 }) as usize]).collect()
}
pub fn value() -> Vec<u8> {
    let len = match w(8) {
        0 => 0,
        1 => 300 + w(400),
        2 if wchance(1, 3) => 2000 + w(7000),
        _ => 1 + w(12),
    };
    let b = w(256) as u8;
    (0..len).map(|i| b.wrapping_add((i % 251) as u8)).collect()
}
pub fn short(b: &[u8]) -> String {
    if b.len() > 16 { format!("{:02x?}..({} bytes)", &b[..8], b.len()) } else { format!("{b:02x?}") }
}
pub fn show(s: &[(Vec<u8>, Vec<u8>)]) -> String {
    s.iter().map(|(k, v)| format!("{}={}", short(k), short(v))).collect::<Vec<_>>().join(", ")
}

#[derive(Clone, Debug)]
pub enum Op {
    Put(usize, Vec<u8>, Vec<u8>),
    Del(usize, Vec<u8>),
    Get(usize, Vec<u8>),
    Prefix(usize, Vec<u8>),
    From(usize, Vec<u8>),
}
/// A key for this map: often one it already holds.
pub fn key_for(st: &State, m: usize) -> Vec<u8> {
    if !st[m].is_empty() && wchance(2, 3) {
        let i = w(st[m].len() as u64) as usize;
        let mut k = st[m].keys().nth(i).unwrap().clone();
        match w(8) {
            0 => {
                k.pop();
            }
            1 => k.push(0),
            2 => k.push(0xff),
            _ => {}
        }
        k
    } else {
        key()
    }
}
pub fn read_op(st: &State) -> Op {
    let m = w(st.len() as u64) as usize;
    let k = key_for(st, m);
    match w(3) {
        0 => Op::Get(m, k),
        1 => Op::Prefix(m, k),
        _ => Op::From(m, k),
    }
}
/// A large batch of changes over one or two maps.
pub fn bulk_ops(st: &State) -> Vec<Op> {
    let n = [40, 70, 130, 300, 600, 1100][w(6) as usize] + w(30);
    let (a, b) = (w(st.len() as u64) as usize, w(st.len() as u64) as usize);
    let (split, base, del) = (w(3), w(3) * 500, w(5) == 0);
    count("op.bulk", 1);
    (0..n)
        .map(|i| {
            let m = if split > 0 && i % 8 == 0 { b } else { a };
            let k = ((base + i) as u16).to_be_bytes().to_vec();
            if del && i % 3 == 0 { Op::Del(m, k) } else { Op::Put(m, k, vec![i as u8; 1 + (i % 5) as usize]) }
        })
        .collect()
}
pub fn any_op(st: &State) -> Op {
    let m = w(st.len() as u64) as usize;
    match w(8) {
        0..=3 => Op::Put(m, key_for(st, m), value()),
        4 | 5 => Op::Del(m, key_for(st, m)),
        _ => read_op(st),
    }
}
pub fn apply(st: &mut State, op: &Op) {
    match op {
        Op::Put(m, k, v) => {
            st[*m].insert(k.clone(), v.clone());
        }
        Op::Del(m, k) => {
            st[*m].remove(k);
        }
        _ => {}
    }
}
fn expected(st: &State, op: &Op) -> Vec<(Vec<u8>, Vec<u8>)> {
    match op {
        Op::Get(m, k) => st[*m].get(k).map(|v| (k.clone(), v.clone())).into_iter().collect(),
        Op::Prefix(m, k) => st[*m].iter().filter(|(x, _)| x.starts_with(k)).map(|(k, v)| (k.clone(), v.clone())).collect(),
        Op::From(m, k) => st[*m].range(k.clone()..).map(|(k, v)| (k.clone(), v.clone())).collect(),
        _ => unreachable!(),
    }
}
type Res<T> = Result<T, storage_core::Error>;
pub fn run_read(tx: &impl ReadOps, op: &Op) -> Res<Vec<(Vec<u8>, Vec<u8>)>> {
    match op {
        Op::Get(m, k) => Ok(tx.get(DbMapId::new(*m), k)?.map(|v| (k.clone(), v.into_owned())).into_iter().collect()),
        Op::Prefix(m, k) => Ok(tx.prefix_iter(DbMapId::new(*m), k.clone())?.collect()),
        Op::From(m, k) => Ok(tx.greater_equal_iter(DbMapId::new(*m), k.clone())?.collect()),
        _ => unreachable!(),
    }
}
/// Run a read and compare with the model.
pub fn read_checked(tx: &impl ReadOps, st: &State, op: &Op, class: &str) -> Res<()> {
    let got = run_read(tx, op)?;
    check!(got == expected(st, op), class, "{op:?} returned [{}], the model says [{}]", show(&got), show(&expected(st, op)));
    Ok(())
}
pub fn write_op(tx: &mut impl WriteOps, op: &Op) -> Res<()> {
    match op {
        Op::Put(m, k, v) => tx.put(DbMapId::new(*m), k.clone(), v.clone()),
        Op::Del(m, k) => tx.del(DbMapId::new(*m), k),
        _ => unreachable!(),
    }
}
pub fn is_write(op: &Op) -> bool {
    matches!(op, Op::Put(..) | Op::Del(..))
}
/// Everything in the storage, as this transaction sees it.
pub fn dump(tx: &impl ReadOps, maps: usize) -> Res<State> {
    (0..maps)
        .map(|m| {
            let v: Vec<_> = tx.prefix_iter(DbMapId::new(m), vec![])?.collect();
            Ok(v.into_iter().collect())
        })
        .collect()
}
pub fn diff(a: &State, b: &State) -> String {
    let mut out = vec![];
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        for (k, v) in x {
            match y.get(k) {
                None => out.push(format!("map{i} {} = {} only in the storage", short(k), short(v))),
                Some(z) if z != v => out.push(format!("map{i} {} = {} in the storage, {} expected", short(k), short(v), short(z))),
                _ => {}
            }
        }
        for (k, v) in y {
            if !x.contains_key(k) {
                out.push(format!("map{i} {} = {} missing from the storage", short(k), short(v)));
            }
        }
    }
    out.truncate(6);
    out.join("; ")
}
