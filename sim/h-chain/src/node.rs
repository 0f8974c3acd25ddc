//! A node's chain: the shipped chainstate on the shipped storage on the shipped LMDB backend, over the simulated LMDB.
use crate::world::*;
use chainstate::chainstate_interface::ChainstateInterface;
use chainstate::{BlockSource, ChainstateConfig, ChainstateError, DefaultTransactionVerificationStrategy};
use common::chain::{Block, ChainConfig, GenBlock};
use common::primitives::{BlockHeight, Id};
use common::time_getter::TimeGetter;
use detsim::*;
use lmdb::sim::{self, Op};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use storage_lmdb::resize_callback::MapResizeCallback;

#[derive(Default)]
pub struct Faults {
    /// The process dies at the n-th database operation from now.
    pub crash_in: Option<u64>,
    /// From the n-th operation, that many operations fail.
    pub err_in: Option<u64>,
    pub err_left: u64,
    pub err: Option<lmdb::Error>,
    /// What happened.
    pub crashed: bool,
    pub errors: u64,
    pub dead: bool,
    pub at: Option<Op>,
}
pub struct Crash;
pub type FaultCell = Arc<Mutex<Faults>>;

pub struct Opts {
    pub heavy: bool,
    pub attempts: usize,
    pub orphans: usize,
    pub map_kb: u64,
}
pub struct Node {
    pub path: PathBuf,
    cfg: Arc<ChainConfig>,
    now: u64,
    pub opts: Opts,
    pub cs: Option<Box<dyn ChainstateInterface>>,
    pub faults: FaultCell,
}
/// How an operation of the node ended.
pub enum End<T> {
    Done(T),
    /// Killed, or it stopped itself (panicked) because of an injected storage error.
    Crashed,
}

fn hook(f: FaultCell) -> Box<dyn FnMut(Op, usize) -> Option<lmdb::Error> + Send> {
    Box::new(move |op, _| {
        let mut g = f.lock().unwrap();
        if g.dead {
            return Some(lmdb::Error::Panic);
        }
        if op == Op::Abort {
            return None;
        }
        if let Some(n) = &mut g.crash_in {
            if *n == 0 {
                g.crash_in = None;
                g.crashed = true;
                g.at = Some(op);
                drop(g);
                resume_unwind(Box::new(Crash));
            }
            *n -= 1;
        }
        if op == Op::CommitDone {
            return None;
        }
        if let Some(n) = &mut g.err_in {
            if *n > 0 {
                *n -= 1;
                return None;
            }
            if g.err_left == 0 {
                g.err_in = None;
                return None;
            }
            // A full map only shows when writing, a lack of transactions only when starting one.
            let e = g.err.unwrap();
            let fits = match e {
                lmdb::Error::MapFull => matches!(op, Op::Put | Op::Del | Op::Commit),
                lmdb::Error::ReadersFull | lmdb::Error::TlsFull => op == Op::BeginRo,
                lmdb::Error::TxnFull => matches!(op, Op::Put | Op::Del),
                lmdb::Error::BadTxn => matches!(op, Op::Commit),
                lmdb::Error::NotFound | lmdb::Error::KeyExist => false,
                _ => !matches!(op, Op::Resize),
            };
            if fits {
                g.err_left -= 1;
                g.errors += 1;
                g.at = Some(op);
                return Some(e);
            }
        }
        None
    })
}

impl Node {
    pub fn new(w: &World, k: usize, opts: Opts) -> Self {
        // Distinct names of one existing directory: nothing is written there, the contents live in the simulated engine.
        let path = PathBuf::from(format!("/tmp{}", "/../tmp".repeat(k)));
        Node { path, cfg: w.cfg.clone(), now: w.now, opts, cs: None, faults: Default::default() }
    }
    pub fn use_faults(&self) {
        sim::set_hook(Some(hook(self.faults.clone())));
    }
    fn open_now(&self) -> Result<Box<dyn ChainstateInterface>, ChainstateError> {
        let rs = lmdb::DatabaseResizeSettings { min_resize_step: 16 << 10, max_resize_step: 1 << 20, default_resize_ratio_percentage: 30, resize_trigger_percentage: 0.9 };
        let b = storage_lmdb::Lmdb::new(self.path.clone(), storage_lmdb::memsize::MemSize::from_kilobytes(self.opts.map_kb).into(), rs, MapResizeCallback::default());
        let store = chainstate_storage::Store::new(b, &self.cfg)?;
        let now = self.now;
        let time = TimeGetter::new(Arc::new(Fixed(now)));
        let c = ChainstateConfig::new().with_heavy_checks_enabled(self.opts.heavy).with_max_db_commit_attempts(self.opts.attempts).with_max_orphan_blocks(self.opts.orphans);
        chainstate::make_chainstate(self.cfg.clone(), c, store, DefaultTransactionVerificationStrategy::new(), None, time, None)
    }
    pub fn open(&mut self) -> End<Result<(), ChainstateError>> {
        let r = catch_unwind(AssertUnwindSafe(|| self.open_now()));
        match r {
            Ok(Ok(c)) => {
                self.cs = Some(c);
                End::Done(Ok(()))
            }
            Ok(Err(e)) => End::Done(Err(e)),
            Err(p) => self.died(p),
        }
    }
    /// The node is gone; only what is on the disk stays.
    pub fn kill(&mut self) {
        self.faults.lock().unwrap().dead = true;
        let c = self.cs.take();
        let _ = catch_unwind(AssertUnwindSafe(|| drop(c)));
        sim::release(&self.path);
        *self.faults.lock().unwrap() = Faults::default();
    }
    pub fn power_loss(&mut self) {
        self.kill();
        sim::lose_unsynced(&self.path);
    }
    pub fn stop(&mut self) {
        drop(self.cs.take());
    }
    fn died<T>(&mut self, p: Box<dyn std::any::Any + Send>) -> End<T> {
        let (injected, at) = {
            let f = self.faults.lock().unwrap();
            (f.crashed || f.errors > 0, f.at)
        };
        if p.is::<Crash>() {
            count(&format!("fault.crash_at_{:?}", at.unwrap()).to_lowercase(), 1);
            ev!("the node is killed at {:?}", at.unwrap());
            return End::Crashed;
        }
        let m = panic_text(&*p);
        if !injected || m.contains("Inconsistent chainstate") {
            let loc = panics().last().map(|(l, _)| l.clone()).unwrap_or_default();
            let m: String = m.chars().take(400).collect();
            violation("panic", format!("the node panicked at {loc}: {m}"));
        }
        count("fault.stopped_by_error", 1);
        ev!("the node stops after an injected error: {m}");
        End::Crashed
    }
    pub fn op<T>(&mut self, f: impl FnOnce(&mut dyn ChainstateInterface) -> T) -> End<T> {
        let cs = self.cs.as_mut().expect("node is up");
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut **cs)));
        match r {
            Ok(v) => End::Done(v),
            Err(p) => self.died(p),
        }
    }
    pub fn process(&mut self, b: Block, source: BlockSource) -> End<Result<bool, ChainstateError>> {
        self.op(|c| c.process_block(b, source).map(|r| r.is_some()))
    }
    pub fn view(&self) -> &dyn ChainstateInterface {
        &**self.cs.as_ref().expect("node is up")
    }
    pub fn tip(&self) -> Id<GenBlock> {
        self.view().get_best_block_id().expect("best block id")
    }
    pub fn dump(&self) -> Dump {
        sim::dump(&self.path)
    }
    pub fn id_at(&self, h: u64) -> Option<Id<GenBlock>> {
        self.view().get_block_id_from_height(BlockHeight::new(h)).expect("height index")
    }
}
struct Fixed(u64);
impl common::time_getter::TimeGetterFn for Fixed {
    fn get_time(&self) -> common::primitives::time::Time {
        common::primitives::time::Time::from_secs_since_epoch(self.0)
    }
}
