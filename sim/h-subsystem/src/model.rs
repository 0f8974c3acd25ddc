//! Reference model shared by the scenarios: what was submitted, what ran, what is running.
use detsim::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Mut,
    Ref,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Submitted,
    Running,
    Done,
    /// the caller was told that the call failed
    Refused,
}
#[derive(Default)]
pub struct Model {
    pub ops: BTreeMap<(usize, u64), Vec<(Kind, St)>>,
    pub running_mut: BTreeMap<usize, u32>,
    pub running_ref: BTreeMap<usize, u32>,
    /// set just before a shutdown request or a failure
    pub down: bool,
    pub down_at: u64,
    pub hook_begin: Vec<usize>,
    pub hook_end: Vec<usize>,
    pub main_done: bool,
    pub next_caller: u64,
    pub overlaps: u64,
    pub oks: u64,
    pub errs: u64,
    pub bg_left: BTreeMap<usize, u64>,
    pub dropped: Vec<usize>,
}
static M: SimCell<Option<Model>> = SimCell::new(None);
pub fn m<R>(f: impl FnOnce(&mut Model) -> R) -> R {
    M.with(|x| f(x.get_or_insert_with(Default::default)))
}
pub fn new_caller() -> u64 {
    m(|m| {
        m.next_caller += 1;
        m.next_caller
    })
}
pub fn go_down(why: &str) {
    ev!("shutdown cause: {why}");
    m(|m| {
        if !m.down {
            m.down = true;
            m.down_at = now_ns();
        }
    })
}
pub fn submit(sub: usize, caller: u64, k: Kind) -> usize {
    m(|m| {
        let v = m.ops.entry((sub, caller)).or_default();
        v.push((k, St::Submitted));
        v.len() - 1
    })
}
pub fn begin(sub: usize, caller: u64, seq: usize, k: Kind) {
    ev!("sub {sub}: {k:?} ({caller},{seq}) begins");
    m(|m| {
        check!(!m.hook_begin.contains(&sub), "U03/call-after-hook", "subsystem {sub} started call ({caller},{seq}) after its shutdown hook began");
        let v = m.ops.get_mut(&(sub, caller)).expect("known call");
        check!(v[seq].0 == k, "U01/wrong-kind", "call ({caller},{seq}) ran as {k:?}");
        match v[seq].1 {
            St::Submitted => {}
            St::Refused => violation("U01/executed-after-error", format!("subsystem {sub} executes call ({caller},{seq}) although its caller was told that it failed")),
            s => violation("U01/duplicate", format!("subsystem {sub} executes call ({caller},{seq}) again ({s:?})")),
        }
        for (i, o) in v[..seq].iter().enumerate() {
            if o.0 == Kind::Mut && o.1 != St::Done {
                let c = if k == Kind::Mut { "U01/order" } else { "U02/stale-read" };
                violation(c, format!("subsystem {sub} executes {k:?} call ({caller},{seq}) before the earlier mutating call ({caller},{i}) of the same caller is done ({:?})", o.1));
            }
        }
        v[seq].1 = St::Running;
        let (rm, rr) = (m.running_mut.entry(sub).or_default(), m.running_ref.entry(sub).or_default());
        check!(*rm == 0, "U02/exclusion", "subsystem {sub}: {k:?} call ({caller},{seq}) runs while a mutating call is running");
        if k == Kind::Mut {
            check!(*rr == 0, "U02/exclusion", "subsystem {sub}: mutating call ({caller},{seq}) runs while {rr} read-only calls are running");
            *rm += 1;
        } else {
            *rr += 1;
            if *rr > 1 {
                m.overlaps += 1;
            }
        }
    })
}
pub fn end(sub: usize, caller: u64, seq: usize, k: Kind) {
    m(|m| {
        m.ops.get_mut(&(sub, caller)).unwrap()[seq].1 = St::Done;
        *(if k == Kind::Mut { m.running_mut.get_mut(&sub) } else { m.running_ref.get_mut(&sub) }).unwrap() -= 1;
    });
    ev!("sub {sub}: {k:?} ({caller},{seq}) ends");
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Answer {
    pub sub: usize,
    pub caller: u64,
    pub seq: usize,
    pub version: u64,
}
pub fn answered(sub: usize, caller: u64, seq: usize, r: &Result<Answer, subsystem::error::CallError>) {
    ev!("caller {caller} got {r:?} for ({sub},{seq})");
    m(|m| {
        let st = &mut m.ops.get_mut(&(sub, caller)).unwrap()[seq].1;
        match r {
            Ok(a) => {
                check!((a.sub, a.caller, a.seq) == (sub, caller, seq), "U01/wrong-answer", "call ({caller},{seq}) on {sub} was answered with {a:?}");
                check!(*st == St::Done, "U01/early-answer", "call ({caller},{seq}) on {sub} was answered while {st:?}");
                m.oks += 1;
            }
            Err(e) => {
                check!(m.down, "U01/refused", "call ({caller},{seq}) on running subsystem {sub} failed with {e}");
                check!(*st == St::Submitted, "U01/lost-answer", "call ({caller},{seq}) on {sub} failed with {e} but it is {st:?}");
                *st = St::Refused;
                m.errs += 1;
            }
        }
    })
}
