//! The node's part under test: the shipped mempool and chainstate subsystems in the shipped manager.
use chainstate::chainstate_interface::ChainstateInterface;
use chainstate::{BlockSource, ChainstateConfig, ChainstateError, DefaultTransactionVerificationStrategy};
use common::chain::{Block, ChainConfig, GenBlock, SignedTransaction};
use common::primitives::Id;
use common::primitives::time::Time;
use common::time_getter::{TimeGetter, TimeGetterFn};
use detsim::*;
use mempool::tx_origin::{LocalTxOrigin, RemoteTxOrigin};
use mempool::{MempoolConfig, MempoolInit, MempoolInterface, TxOptions, TxStatus, error::Error};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;
use subsystem::blocking::BlockingHandle;
use subsystem::{Handle, Manager, ManagerConfig};
use utils::shallow_clone::ShallowClone as _;

pub struct Clock(pub Arc<AtomicU64>);
impl TimeGetterFn for Clock {
    fn get_time(&self) -> Time {
        Time::from_secs_since_epoch(self.0.load(Ordering::SeqCst))
    }
}
pub struct Node {
    pub cs: Handle<dyn ChainstateInterface>,
    pub mp: Handle<dyn MempoolInterface>,
    trigger: subsystem::ShutdownTrigger,
    main: Option<tokio::task::JoinHandle<()>>,
    rt: Option<tokio::runtime::Runtime>,
}
#[derive(Clone)]
pub struct Client {
    cs: Handle<dyn ChainstateInterface>,
    mp: Handle<dyn MempoolInterface>,
}
impl Node {
    pub fn start(cfg: Arc<ChainConfig>, mcfg: MempoolConfig, now: Arc<AtomicU64>, max_age: u64, workers: usize) -> Self {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_time().build().unwrap();
        let time = TimeGetter::new(Arc::new(Clock(now)));
        let store = chainstate_storage::Store::new(storage_inmemory::InMemory::new(), &cfg).expect("storage");
        let ccfg = ChainstateConfig { max_tip_age: Duration::from_secs(max_age).into(), ..ChainstateConfig::new().with_heavy_checks_enabled(false) };
        let cs = chainstate::make_chainstate(cfg.clone(), ccfg, store, DefaultTransactionVerificationStrategy::new(), None, time.clone(), None).expect("chainstate");
        let mut mgr = Manager::new_with_config(ManagerConfig::new("sim").disable_shutdown_timeout());
        let cs: Handle<dyn ChainstateInterface> = mgr.add_subsystem("chainstate", cs);
        let init = MempoolInit::new(cfg, mcfg, cs.shallow_clone(), time).expect("mempool configuration");
        let mp: Handle<dyn MempoolInterface> = mgr.add_custom_subsystem("mempool", move |h, _| init.init(h));
        let trigger = mgr.make_shutdown_trigger();
        let main = rt.spawn(async move { mgr.main().await });
        Node { cs, mp, trigger, main: Some(main), rt: Some(rt) }
    }
    pub fn client(&self) -> Client {
        Client { cs: self.cs.shallow_clone(), mp: self.mp.shallow_clone() }
    }
    pub fn stop(mut self) {
        self.trigger.clone().initiate();
        let rt = self.rt.take().unwrap();
        let r = rt.block_on(self.main.take().unwrap());
        if let Err(e) = r {
            violation("panic", format!("the node stops with {e}"));
        }
    }
}
impl Client {
    pub fn cs<R: Send + 'static>(&self, f: impl FnOnce(&(dyn ChainstateInterface + 'static)) -> R + Send + 'static) -> R {
        BlockingHandle::new(self.cs.shallow_clone()).call(f).unwrap_or_else(|e| violation("panic", format!("chainstate does not answer: {e}")))
    }
    pub fn cs_mut<R: Send + 'static>(&self, f: impl FnOnce(&mut (dyn ChainstateInterface + 'static)) -> R + Send + 'static) -> R {
        BlockingHandle::new(self.cs.shallow_clone()).call_mut(f).unwrap_or_else(|e| violation("panic", format!("chainstate does not answer: {e}")))
    }
    pub fn mp<R: Send + 'static>(&self, f: impl FnOnce(&(dyn MempoolInterface + 'static)) -> R + Send + 'static) -> R {
        BlockingHandle::new(self.mp.shallow_clone()).call(f).unwrap_or_else(|e| violation("panic", format!("the mempool does not answer: {e}")))
    }
    pub fn mp_mut<R: Send + 'static>(&self, f: impl FnOnce(&mut (dyn MempoolInterface + 'static)) -> R + Send + 'static) -> R {
        BlockingHandle::new(self.mp.shallow_clone()).call_mut(f).unwrap_or_else(|e| violation("panic", format!("the mempool does not answer: {e}")))
    }
    /// Hands in a transaction, from a peer or locally (peer 0).
    pub fn submit(&self, tx: SignedTransaction, peer: u64) -> Result<TxStatus, Error> {
        self.mp_mut(move |m| {
            if peer == 0 {
                let o = if detsim::choose(Stream::Work, 2) == 0 { LocalTxOrigin::Mempool } else { LocalTxOrigin::P2p };
                m.add_transaction_local(tx, o, TxOptions::default_for(o.into())).map(|d| match d {
                    mempool::TransactionDuplicateStatus::New => TxStatus::InMempool,
                    mempool::TransactionDuplicateStatus::Duplicate => TxStatus::InMempoolDuplicate,
                })
            } else {
                let o = RemoteTxOrigin::new(p2p_types::PeerId::from_u64(peer));
                m.add_transaction_remote(tx, o, TxOptions::default_for(o.into()))
            }
        })
    }
    pub fn process(&self, b: Block) -> Result<bool, ChainstateError> {
        self.cs_mut(move |c| c.process_block(b, BlockSource::Local).map(|r| r.is_some()))
    }
    pub fn tip(&self) -> Id<GenBlock> {
        self.cs(|c| c.get_best_block_id().expect("best block id"))
    }
    pub fn all(&self) -> Vec<SignedTransaction> {
        self.mp(|m| m.get_all_in_insertion_order())
    }
    /// Waits until the mempool has seen everything that happened so far.
    pub fn settle(&self) {
        self.cs(|c| c.wait_for_all_events());
        // What the events made the mempool do comes before this, background work after it when nothing else is left.
        let mut last = None;
        for _ in 0..40 {
            let now = self.mp(|m| (m.best_block_id(), m.get_all_in_insertion_order().len(), m.memory_usage()));
            sleep_ns(2_000_000);
            if last == Some(now) {
                sleep_ns(50_000_000);
                let again = self.mp(|m| (m.best_block_id(), m.get_all_in_insertion_order().len(), m.memory_usage()));
                if again == now {
                    return;
                }
            }
            last = Some(now);
        }
        inconclusive("the mempool does not settle");
    }
}
