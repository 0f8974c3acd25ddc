//! The generic delta collections: layers of data and amount deltas over plain maps.
use crate::util::*;
use accounting::*;
use common::primitives::amount::SignedAmount;
use detsim::*;
use std::collections::BTreeMap;

type K = u8;
type V = u16;
type DC = DeltaDataCollection<K, V>;
type AC = DeltaAmountCollection<K>;
type State = (BTreeMap<K, V>, BTreeMap<K, u128>);

#[derive(Clone)]
struct Layer {
    d: DC,
    a: AC,
    st: State,
}

fn view(base: &State, layers: &[Layer]) -> Result<State, Error> {
    let mut st: State = (BTreeMap::new(), BTreeMap::new());
    for k in 0..6u8 {
        let mut v = base.0.get(&k).copied();
        let mut a = amt(base.1.get(&k).copied().unwrap_or(0));
        for l in layers {
            v = match l.d.get_data(&k) {
                GetDataResult::Present(x) => Some(*x),
                GetDataResult::Deleted => None,
                GetDataResult::Missing => v,
            };
            a = combine_amount_delta(a, l.a.data().get(&k).copied())?;
        }
        if let Some(v) = v {
            st.0.insert(k, v);
        }
        if a.into_atoms() != 0 {
            st.1.insert(k, a.into_atoms());
        }
    }
    Ok(st)
}
fn flush(base: &State, d: DC, a: AC) -> Result<State, Error> {
    let mut st = base.clone();
    for (k, e) in d.consume() {
        match combine_data_with_delta(st.0.get(&k).copied(), Some(e))? {
            Some(v) => st.0.insert(k, v),
            None => st.0.remove(&k),
        };
    }
    for (k, x) in a.consume() {
        let r = combine_amount_delta(amt(st.1.get(&k).copied().unwrap_or(0)), Some(x))?.into_atoms();
        if r == 0 {
            st.1.remove(&k);
        } else {
            st.1.insert(k, r);
        }
    }
    Ok(st)
}
fn same(what: &str, base: &State, layers: &[Layer]) {
    let want = layers.last().map_or(base, |l| &l.st);
    match view(base, layers) {
        Ok(got) if got == *want => {}
        got => violation("delta-state", format!("{what}: the combined state is {got:?}, expected {want:?}")),
    }
}
fn signed() -> i128 {
    match w(8) {
        0 => i128::MAX,
        1 => i128::MIN,
        2 => i128::MIN + 1,
        3 => 0,
        4 => (1i128 << w(126)) * if wchance(1, 2) { 1 } else { -1 },
        _ => w(200) as i128 - 100,
    }
}

pub fn layers() {
    let mut base: State = (BTreeMap::new(), BTreeMap::new());
    for k in 0..6 {
        if wchance(1, 3) {
            base.0.insert(k, w(3) as u16);
        }
        if wchance(1, 3) {
            base.1.insert(k, amount(i128::MAX as u128).max(1));
        }
    }
    let new = |st: &State| Layer { d: DC::new(), a: AC::new(), st: st.clone() };
    let mut layers = vec![new(&base)];
    // Undo information of the elements that were applied to the top layer.
    let mut undo: Vec<(State, Result<(K, DataDeltaUndo<V>), (K, SignedAmount)>)> = vec![];
    for _ in 0..(8 + w(60)) {
        match w(14) {
            0..=3 => {
                // A data delta, with an `old` that usually is what is there.
                let k = w(6) as u8;
                let l = layers.last_mut().unwrap();
                let cur = l.st.0.get(&k).copied();
                let old = if wchance(5, 6) { cur } else if wchance(1, 2) { None } else { Some(w(3) as u16) };
                let new = if wchance(1, 3) && (old.is_some() || cur.is_none()) { None } else { Some(w(3) as u16) };
                let known = l.d.data().contains_key(&k);
                let keep = l.d.clone();
                let r = l.d.merge_delta_data_element(k, DataDelta::new(old, new));
                ev!("data {k}: {old:?} -> {new:?} (there: {cur:?}, known {known}) = {r:?}");
                match r {
                    Ok(u) if old == cur => {
                        let before = l.st.clone();
                        match new {
                            Some(v) => l.st.0.insert(k, v),
                            None => l.st.0.remove(&k),
                        };
                        undo.push((before, Ok((k, u))));
                        count("delta_applied", 1);
                        nontrivial();
                    }
                    Ok(_) => {
                        // The layer has no entry for the key, so only combining it with what is below can tell.
                        check!(!known, "delta-admitted", "a data delta from {old:?} was combined with a delta to {cur:?}");
                        let mut d = DC::new();
                        let mut ok = true;
                        for l in &layers {
                            ok = ok && d.merge_delta_data(l.d.clone()).is_ok();
                        }
                        if ok && flush(&base, d, AC::new()).is_ok() {
                            violation("delta-admitted", format!("a data delta from {old:?} was applied to {cur:?} in {base:?}"));
                        }
                        layers.last_mut().unwrap().d = keep;
                        count("delta_refused", 1);
                    }
                    Err(e) => {
                        if old == cur {
                            violation("delta-refused", format!("a data delta from {old:?} to {new:?} was refused ({e}) where {cur:?} is"));
                        }
                        l.d = keep;
                        count("delta_refused", 1);
                    }
                }
            }
            4..=7 => {
                let k = w(6) as u8;
                let l = layers.last_mut().unwrap();
                let cur = l.st.1.get(&k).copied().unwrap_or(0) as i128;
                let here = l.a.data().get(&k).map_or(0, |x| x.into_atoms());
                let how = w(4);
                let x = match how {
                    0 => signed(),
                    1 => -((amount(cur as u128) as i128).min(cur)),
                    _ => amount((i128::MAX - cur) as u128) as i128,
                };
                let keep = l.a.clone();
                let r = match x {
                    x if x > 0 && wchance(1, 2) => l.a.add_unsigned(k, amt(x as u128)),
                    x if x < 0 && wchance(1, 2) => l.a.sub_unsigned(k, amt(x.unsigned_abs())),
                    _ => l.a.merge_delta_amount_element(k, SignedAmount::from_atoms(x)),
                };
                ev!("amount {k}: {cur} {x:+} (layer {here}) = {r:?}");
                let want = cur.checked_add(x).filter(|v| *v >= 0);
                match (r, want) {
                    (Ok(()), Some(v)) => {
                        let before = l.st.clone();
                        if v == 0 {
                            l.st.1.remove(&k);
                        } else {
                            l.st.1.insert(k, v as u128);
                        }
                        undo.push((before, Err((k, SignedAmount::from_atoms(x)))));
                        count("amount_applied", 1);
                        nontrivial();
                    }
                    (Ok(()), None) => {
                        check!(here.checked_add(x).is_some(), "delta-admitted", "the overflow of {here} {x:+} was not noticed");
                        // Below zero or too large: this must show when it is combined with what is below.
                        let mut a = AC::new();
                        let mut ok = true;
                        for l in &layers {
                            ok = ok && a.merge_delta_amounts(l.a.clone()).is_ok();
                        }
                        if (ok && flush(&base, DC::new(), a).is_ok()) || view(&base, &layers).is_ok() {
                            violation("delta-admitted", format!("an amount of {cur} {x:+} was admitted"));
                        }
                        layers.last_mut().unwrap().a = keep;
                        count("amount_refused", 1);
                    }
                    (Err(e), want) => {
                        // A sub_unsigned(2^127) is refused because it has no positive counterpart.
                        let odd = x == i128::MIN;
                        if here.checked_add(x).is_some() && !odd {
                            violation("delta-refused", format!("{here} {x:+} was refused ({e}); {want:?}"));
                        }
                        check!(l.a == keep, "delta-refused", "a refused amount changed the collection");
                        count("amount_refused", 1);
                    }
                }
            }
            8 | 9 => {
                // Undo the latest elements of the top layer.
                for _ in 0..(1 + w(3)) {
                    let Some((before, u)) = undo.pop() else { break };
                    let l = layers.last_mut().unwrap();
                    let r = match u {
                        Ok((k, u)) => l.d.undo_merge_delta_data_element(k, u),
                        Err((k, x)) => l.a.undo_merge_delta_amounts(AC::from_iter([(k, x)])),
                    };
                    ev!("undo = {r:?}");
                    if let Err(e) = r {
                        violation("delta-undo", format!("the undo of a delta failed: {e}"));
                    }
                    l.st = before;
                    count("delta_undone", 1);
                }
            }
            10 => {
                let mut x = layers.last().unwrap().a.clone();
                if x.undo_merge_delta_amounts(AC::from_iter([(w(6) as u8, SignedAmount::MIN)])).is_ok() {
                    violation("delta-admitted", "an amount without a negative was undone".into());
                }
                if layers.len() < 5 {
                    let n = new(&layers.last().unwrap().st);
                    layers.push(n);
                    undo.clear();
                }
            }
            11 | 12 if layers.len() > 1 => {
                let i = 1 + w(layers.len() as u64 - 1) as usize;
                let top = layers[i].clone();
                let before = layers[i - 1].clone();
                let (d, a) = (top.d.clone(), top.a.clone());
                let l = &mut layers[i - 1];
                ev!("merge {i}");
                let u = match l.d.merge_delta_data(d) {
                    Ok(u) => u,
                    Err(e) => violation("delta-merge", format!("merging data deltas failed: {e}")),
                };
                if let Err(e) = l.a.merge_delta_amounts(a) {
                    violation("delta-merge", format!("merging amount deltas failed: {e}"));
                }
                l.st = top.st.clone();
                count("merge", 1);
                if wchance(1, 3) {
                    let mut x = l.clone();
                    let r = (x.d.undo_merge_delta_data(u), x.a.undo_merge_delta_amounts(top.a.clone()));
                    if r.0.is_err() || r.1.is_err() {
                        violation("delta-undo", format!("the undo of a merge failed: {r:?}"));
                    }
                    x.st = before.st.clone();
                    let mut v = layers[..i - 1].to_vec();
                    v.push(x);
                    same("after a merge and its undo", &base, &v);
                    count("merge_undone", 1);
                }
                layers.remove(i);
                if i == layers.len() {
                    undo.clear();
                }
            }
            13 => {
                if wchance(1, 3) {
                    layers.pop();
                    count("layer_dropped", 1);
                } else {
                    let l = layers.remove(0);
                    match flush(&base, l.d, l.a) {
                        Ok(st) if st == l.st => base = st,
                        r => violation("delta-flush", format!("flushing gave {r:?}, expected {:?}", l.st)),
                    }
                    count("flush", 1);
                }
                if layers.is_empty() {
                    layers.push(new(&base));
                    undo.clear();
                } else if layers.len() == 1 {
                    undo.clear();
                }
                undo.clear();
            }
            _ => continue,
        }
        for i in 0..layers.len() {
            same("a layer", &base, &layers[..=i]);
        }
    }
}

/// A valid sequence of deltas does the same to the base however it is grouped.
pub fn grouping() {
    let mut base: State = (BTreeMap::new(), BTreeMap::new());
    for k in 0..3 {
        if wchance(1, 2) {
            base.0.insert(k, w(3) as u16);
        }
        if wchance(1, 2) {
            base.1.insert(k, amount(i128::MAX as u128).max(1));
        }
    }
    let mut st = base.clone();
    let mut seq: Vec<(DC, AC)> = vec![];
    for _ in 0..(2 + w(14)) {
        let (mut d, mut a) = (DC::new(), AC::new());
        for k in 0..3u8 {
            if wchance(1, 2) {
                let old = st.0.get(&k).copied();
                let new = if wchance(1, 3) { None } else { Some(w(3) as u16) };
                d.merge_delta_data_element(k, DataDelta::new(old, new)).map(|_| ()).unwrap_or_else(|e| violation("delta-refused", format!("{e}")));
                match new {
                    Some(v) => st.0.insert(k, v),
                    None => st.0.remove(&k),
                };
            }
            if wchance(1, 2) {
                let cur = st.1.get(&k).copied().unwrap_or(0) as i128;
                let x = if wchance(1, 2) { -((amount(cur as u128) as i128).min(cur)) } else { amount((i128::MAX - cur) as u128) as i128 };
                a.merge_delta_amount_element(k, SignedAmount::from_atoms(x)).unwrap_or_else(|e| violation("delta-refused", format!("{e}")));
                if cur + x == 0 {
                    st.1.remove(&k);
                } else {
                    st.1.insert(k, (cur + x) as u128);
                }
            }
        }
        seq.push((d, a));
    }
    ev!("{} deltas over {base:?}, ending in {st:?}: {seq:?}", seq.len());
    nontrivial();
    for _ in 0..(1 + w(3)) {
        let mut s = seq.clone();
        while s.len() > 1 {
            let i = w(s.len() as u64 - 1) as usize;
            let (d, a) = s.remove(i + 1);
            ev!("combine {i} and {}", i + 1);
            if let Err(e) = s[i].0.merge_delta_data(d).map(|_| ()) {
                violation("delta-grouping", format!("combining neighbouring data deltas failed: {e}"));
            }
            if let Err(e) = s[i].1.merge_delta_amounts(a) {
                violation("delta-grouping", format!("combining neighbouring amount deltas failed: {e}"));
            }
        }
        let (d, a) = s.pop().unwrap();
        match flush(&base, d, a) {
            Ok(got) if got == st => {}
            got => violation("delta-grouping", format!("this grouping gives {got:?}, expected {st:?}")),
        }
        count("grouping", 1);
    }
}
