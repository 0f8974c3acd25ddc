//! A whole node less wallet and RPC: the shipped chainstate, mempool and p2p subsystems in the shipped manager, with an
//! address and a clock of its own.
use chainstate::chainstate_interface::ChainstateInterface;
use chainstate::{BlockSource, ChainstateConfig, ChainstateError, DefaultTransactionVerificationStrategy};
use common::chain::{Block, ChainConfig, GenBlock, SignedTransaction, Transaction};
use common::primitives::time::Time;
use common::primitives::{Id, Idable};
use common::time_getter::{MonotonicTimeGetter, TimeGetter, TimeGetterFn};
use detsim::*;
use mempool::{MempoolConfig, MempoolInit, MempoolInterface};
use p2p::config::P2pConfig;
use p2p::interface::p2p_interface::P2pInterface;
use p2p::interface::types::ConnectedPeer;
use p2p::peer_manager::peerdb::storage_impl::PeerDbStorageImpl;
use p2p::protocol::ProtocolConfig;
use p2p_types::bannable_address::BannableAddress;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, SystemTime};
use storage_core::backend::{Backend, SharedBackend};
use storage_inmemory::{InMemory, InMemoryImpl};
use subsystem::blocking::BlockingHandle;
use subsystem::{Handle, Manager, ManagerConfig};
use utils::shallow_clone::ShallowClone as _;
use utils_networking::IpOrSocketAddress;

pub const PORT: u16 = 3031;
pub fn ip(i: usize) -> Ipv4Addr {
    Ipv4Addr::new(20, 10 + i as u8, 0, 1)
}
pub fn addr(i: usize) -> SocketAddr {
    SocketAddr::V4(SocketAddrV4::new(ip(i), PORT))
}
pub fn bannable(i: usize) -> BannableAddress {
    BannableAddress::new(ip(i).into())
}
pub fn real_now() -> u64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs()
}
struct Clock(Arc<AtomicI64>);
impl TimeGetterFn for Clock {
    fn get_time(&self) -> Time {
        let d = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap();
        let off = Duration::from_millis(self.0.load(Ordering::SeqCst).unsigned_abs());
        Time::from_duration_since_epoch(if self.0.load(Ordering::SeqCst) < 0 { d - off } else { d + off })
    }
}
/// What an operator decides about a node.
#[derive(Clone, Debug, Default)]
pub struct Setup {
    pub reserved: Vec<usize>,
    pub boot: Vec<usize>,
    pub max_tip_age: u64,
    pub header_limit: usize,
    pub block_limit: usize,
    pub tick: u64,
    pub noise: bool,
    pub workers: usize,
}
/// An in-memory database that can be closed and opened again.
#[derive(Clone, Default)]
struct Kept(Arc<std::sync::Mutex<Option<InMemoryImpl>>>);
impl Backend for Kept {
    type Impl = InMemoryImpl;
    fn open(self, desc: storage_core::DbDesc) -> storage_core::Result<InMemoryImpl> {
        let mut g = self.0.lock().unwrap();
        if g.is_none() {
            *g = Some(InMemory::new().open(desc)?);
        }
        Ok(g.as_ref().unwrap().clone())
    }
}
impl SharedBackend for Kept {
    type ImplHelper = InMemoryImpl;
}
/// What outlives a restart.
pub struct Disk {
    chain: chainstate_storage::Store<InMemory>,
    peers: Kept,
    pub skew_ms: Arc<AtomicI64>,
}
impl Disk {
    pub fn new(cfg: &ChainConfig) -> Self {
        Disk { chain: chainstate_storage::Store::new(InMemory::new(), cfg).expect("storage"), peers: Kept::default(), skew_ms: Arc::new(AtomicI64::new(0)) }
    }
}
pub struct Node {
    pub i: usize,
    pub cs: Handle<dyn ChainstateInterface>,
    pub mp: Handle<dyn MempoolInterface>,
    pub p2p: Handle<dyn P2pInterface>,
    trigger: subsystem::ShutdownTrigger,
    main: Option<tokio::task::JoinHandle<()>>,
    rt: Option<tokio::runtime::Runtime>,
}
fn list(v: &[usize]) -> Vec<IpOrSocketAddress> {
    v.iter().map(|j| IpOrSocketAddress::new_socket_address(addr(*j))).collect()
}
impl Node {
    pub fn start(i: usize, cfg: &Arc<ChainConfig>, disk: &Disk, s: &Setup) -> Self {
        detsim::net::set_local_ip(ip(i));
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(s.workers).enable_all().build().unwrap();
        let time = TimeGetter::new(Arc::new(Clock(disk.skew_ms.clone())));
        let store = disk.chain.clone();
        let ccfg = ChainstateConfig { max_tip_age: Duration::from_secs(s.max_tip_age).into(), ..ChainstateConfig::new().with_heavy_checks_enabled(false) };
        let cs = chainstate::make_chainstate(cfg.clone(), ccfg, store, DefaultTransactionVerificationStrategy::new(), None, time.clone(), None).expect("chainstate");
        let mut mgr = Manager::new_with_config(ManagerConfig::new("sim").disable_shutdown_timeout());
        let cs: Handle<dyn ChainstateInterface> = mgr.add_subsystem("chainstate", cs);
        let init = MempoolInit::new(cfg.clone(), MempoolConfig::new(), cs.shallow_clone(), time.clone()).expect("mempool configuration");
        let mp: Handle<dyn MempoolInterface> = mgr.add_custom_subsystem("mempool", move |h, _| init.init(h));
        let pcfg = P2pConfig {
            bind_addresses: vec![addr(i)],
            disable_noise: Some(!s.noise),
            reserved_nodes: list(&s.reserved),
            boot_nodes: list(&s.boot),
            peer_manager_config: p2p::peer_manager::config::PeerManagerConfig { main_loop_tick_interval: Duration::from_secs(s.tick).into(), ..Default::default() },
            ..p2p::test_helpers::test_p2p_config_with_protocol_config(ProtocolConfig { msg_header_count_limit: s.header_limit.into(), max_request_blocks_count: s.block_limit.into(), ..Default::default() })
        };
        let peers = PeerDbStorageImpl::new(disk.peers.clone()).expect("peer storage");
        let p2p = p2p::make_p2p(true, cfg.clone(), Arc::new(pcfg), cs.shallow_clone(), mp.shallow_clone(), time, MonotonicTimeGetter::default(), peers)
            .expect("p2p configuration")
            .add_to_manager("p2p", &mut mgr);
        let trigger = mgr.make_shutdown_trigger();
        let main = rt.spawn(async move { mgr.main().await });
        Node { i, cs, mp, p2p, trigger, main: Some(main), rt: Some(rt) }
    }
    pub fn stop(mut self) {
        self.trigger.clone().initiate();
        let rt = self.rt.take().unwrap();
        let r = rt.block_on(self.main.take().unwrap());
        if let Err(e) = r {
            violation("panic", format!("node {} stops with {e}", self.i));
        }
    }
    /// The process ends without a word: what its tasks were doing is lost.
    pub fn kill(mut self) {
        let before = detsim::panics().len();
        drop(self.main.take());
        // A thread of the killed node that waits for another part of it must not hold up the world.
        if let Some(rt) = self.rt.take() {
            rt.shutdown_timeout(Duration::from_secs(20));
            detsim::net::crash(ip(self.i));
        }
        detsim::forget_panics(before);
    }
    pub fn cs<R: Send + 'static>(&self, f: impl FnOnce(&(dyn ChainstateInterface + 'static)) -> R + Send + 'static) -> R {
        BlockingHandle::new(self.cs.shallow_clone()).call(f).unwrap_or_else(|e| violation("panic", format!("chainstate {} does not answer: {e}", self.i)))
    }
    pub fn cs_mut<R: Send + 'static>(&self, f: impl FnOnce(&mut (dyn ChainstateInterface + 'static)) -> R + Send + 'static) -> R {
        BlockingHandle::new(self.cs.shallow_clone()).call_mut(f).unwrap_or_else(|e| violation("panic", format!("chainstate {} does not answer: {e}", self.i)))
    }
    pub fn mp<R: Send + 'static>(&self, f: impl FnOnce(&(dyn MempoolInterface + 'static)) -> R + Send + 'static) -> R {
        BlockingHandle::new(self.mp.shallow_clone()).call(f).unwrap_or_else(|e| violation("panic", format!("mempool {} does not answer: {e}", self.i)))
    }
    fn net<R>(&self, r: Result<p2p::Result<R>, subsystem::error::CallError>, what: &str) -> R {
        match r {
            Ok(Ok(r)) => r,
            e => violation("panic", format!("p2p {} does not carry out {what}: {:?}", self.i, e.map(|r| r.map(|_| ())))),
        }
    }
    pub fn tip(&self) -> (Id<GenBlock>, u64) {
        self.cs(|c| (c.get_best_block_id().expect("best block"), c.get_best_block_height().expect("height").into_int()))
    }
    pub fn process(&self, b: Block) -> Result<bool, ChainstateError> {
        self.cs_mut(move |c| c.process_block(b, BlockSource::Local).map(|r| r.is_some()))
    }
    pub fn pool(&self) -> Vec<Id<Transaction>> {
        self.mp(|m| m.get_all_in_insertion_order().iter().map(|t| t.transaction().get_id()).collect())
    }
    pub fn peers(&self) -> Vec<ConnectedPeer> {
        let r = BlockingHandle::new(self.p2p.shallow_clone()).call_async(|p| p.get_connected_peers());
        self.net(r, "get_connected_peers")
    }
    pub fn banned(&self) -> Vec<BannableAddress> {
        let r = BlockingHandle::new(self.p2p.shallow_clone()).call_async(|p| p.list_banned());
        self.net(r, "list_banned").into_iter().map(|x| x.0).collect()
    }
    pub fn discouraged(&self) -> Vec<BannableAddress> {
        let r = BlockingHandle::new(self.p2p.shallow_clone()).call_async(|p| p.list_discouraged());
        self.net(r, "list_discouraged").into_iter().map(|x| x.0).collect()
    }
    pub fn ban(&self, j: usize, d: Duration) {
        let r = BlockingHandle::new(self.p2p.shallow_clone()).call_async_mut(move |p| p.ban(bannable(j), d));
        self.net(r, "ban")
    }
    pub fn unban(&self, j: usize) {
        let r = BlockingHandle::new(self.p2p.shallow_clone()).call_async_mut(move |p| p.unban(bannable(j)));
        self.net(r, "unban")
    }
    /// Asks to connect; refusals are part of life.
    pub fn connect(&self, j: usize) -> Result<(), String> {
        let r = BlockingHandle::new(self.p2p.shallow_clone()).call_async_mut(move |p| p.connect(IpOrSocketAddress::new_socket_address(addr(j))));
        match r {
            Ok(r) => r.map_err(|e| e.to_string()),
            Err(e) => violation("panic", format!("p2p {} does not carry out connect: {e}", self.i)),
        }
    }
    pub fn submit(&self, tx: SignedTransaction) -> Result<(), String> {
        let r = BlockingHandle::new(self.p2p.shallow_clone()).call_async_mut(move |p| p.submit_transaction(tx, Default::default()));
        match r {
            Ok(r) => r.map_err(|e| e.to_string()),
            Err(e) => violation("panic", format!("p2p {} does not carry out submit_transaction: {e}", self.i)),
        }
    }
}
