//! The service under test and what it did.
use detsim::*;
use rpc::{Builder, RpcResult, rpc_creds::RpcCreds, subscription};
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use utils_networking::broadcaster::Broadcaster;

#[derive(Default)]
pub struct Log {
    /// calls and subscriptions by their tag
    pub ran: BTreeMap<String, u64>,
    pub emitted: u64,
    pub stop: bool,
    /// the cookie file and what it has to hold as long as the server works on something
    pub cookie: Option<(String, String)>,
    pub early: bool,
}
static LOG: SimCell<Option<Log>> = SimCell::new(None);
pub fn log<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    LOG.with(|l| f(l.get_or_insert_with(Default::default)))
}
fn ran(tag: &str) {
    ev!("runs {tag}");
    log(|l| *l.ran.entry(tag.into()).or_default() += 1);
}
#[rpc::rpc(server, namespace = "h")]
trait H {
    #[method(name = "echo")]
    fn echo(&self, tag: String, n: u64) -> RpcResult<String>;
    #[method(name = "slow")]
    async fn slow(&self, tag: String, ms: u64) -> RpcResult<String>;
    #[method(name = "fail")]
    fn fail(&self, tag: String) -> RpcResult<u64>;
    #[subscription(name = "events", unsubscribe = "unsub_events", item = u64)]
    async fn events(&self, tag: String) -> subscription::Reply;
    #[subscription(name = "evens", unsubscribe = "unsub_evens", item = u64)]
    async fn evens(&self, tag: String) -> subscription::Reply;
    #[subscription(name = "count", unsubscribe = "unsub_count", item = u64)]
    async fn count_up(&self, tag: String, n: u64) -> subscription::Reply;
}
pub type Events = Arc<Mutex<Broadcaster<u64>>>;
#[derive(Clone)]
pub struct Srv(pub Events);
#[async_trait::async_trait]
impl HServer for Srv {
    fn echo(&self, tag: String, n: u64) -> RpcResult<String> {
        ran(&tag);
        Ok(format!("{tag}/{n}"))
    }
    async fn slow(&self, tag: String, ms: u64) -> RpcResult<String> {
        ran(&tag);
        tokio::time::sleep(Duration::from_millis(ms)).await;
        if let Some((path, want)) = log(|l| l.cookie.clone()) {
            let is = fsim::get(&path).map(|n| String::from_utf8_lossy(&n.data).into_owned());
            check!(is.as_ref() == Some(&want), "R02/removed_too_early", "the server still works on a request, but its cookie file {path} is {is:?} in place of {want}");
            count("worked_while_stopping", 1);
        }
        Ok(tag)
    }
    fn fail(&self, tag: String) -> RpcResult<u64> {
        ran(&tag);
        rpc::handle_result(Err::<u64, _>(std::io::Error::other(tag)))
    }
    async fn events(&self, pending: subscription::Pending, tag: String) -> subscription::Reply {
        ran(&tag);
        let rx = self.0.lock().unwrap().subscribe();
        subscription::connect_broadcast(rx, pending).await
    }
    async fn evens(&self, pending: subscription::Pending, tag: String) -> subscription::Reply {
        ran(&tag);
        let rx = self.0.lock().unwrap().subscribe();
        subscription::connect_broadcast_filter_map(rx, pending, |n| (n % 2 == 0).then_some(n * 10)).await
    }
    async fn count_up(&self, pending: subscription::Pending, tag: String, n: u64) -> subscription::Reply {
        ran(&tag);
        let sink = subscription::accept::<u64>(pending).await?;
        for i in 1..=n {
            sink.send(&i).await?;
        }
        Ok(())
    }
}
pub fn builder(addr: SocketAddr, creds: Option<RpcCreds>, ev: &Events) -> Builder {
    Builder::new(addr, creds).with_method_list("list").register(Srv(ev.clone()).into_rpc())
}
pub fn runtime() -> tokio::runtime::Runtime {
    let n = choose(Stream::Work, 3);
    if n == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(n as usize).enable_all().build().unwrap()
    }
}
