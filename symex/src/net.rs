//! An in-memory network between parties with unbounded FIFO links that records every message.
use bytes::Bytes;
use mpc_net::{ConnectionStats, Network};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;
use std::time::Duration;

/// One message as seen on the wire.
#[derive(Clone, Debug)]
pub struct Msg {
    pub from: usize,
    pub to: usize,
    pub data: Bytes,
}

pub type Log = Arc<Mutex<Vec<Msg>>>;

pub struct RecNet {
    id: usize,
    tx: Vec<Option<Mutex<Sender<Bytes>>>>,
    rx: Vec<Option<Mutex<Receiver<Bytes>>>>,
    log: Log,
    /// Threads other than the party's own that have used this network.
    seen: Mutex<HashSet<ThreadId>>,
    /// Applied to every outgoing message (fault injection).
    tamper: Option<Arc<dyn Fn(usize, usize, Bytes) -> Bytes + Send + Sync>>,
}

pub const RECV_TIMEOUT: Duration = Duration::from_secs(60);

impl RecNet {
    pub fn parties(n: usize) -> (Vec<RecNet>, Log) {
        let log: Log = Arc::new(Mutex::new(vec![]));
        let mut tx: Vec<Vec<Option<Mutex<Sender<Bytes>>>>> = (0..n).map(|_| (0..n).map(|_| None).collect()).collect();
        let mut rx: Vec<Vec<Option<Mutex<Receiver<Bytes>>>>> = (0..n).map(|_| (0..n).map(|_| None).collect()).collect();
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    let (s, r) = channel();
                    tx[i][j] = Some(Mutex::new(s));
                    rx[j][i] = Some(Mutex::new(r));
                }
            }
        }
        let nets = tx
            .into_iter()
            .zip(rx)
            .enumerate()
            .map(|(id, (tx, rx))| RecNet { id, tx, rx, log: log.clone(), seen: Mutex::default(), tamper: None })
            .collect();
        (nets, log)
    }
    pub fn with_tamper(mut self, f: Arc<dyn Fn(usize, usize, Bytes) -> Bytes + Send + Sync>) -> Self {
        self.tamper = Some(f);
        self
    }
    /// Threads a party has spawned start using a network in order of creation at even parties and in
    /// the opposite order at odd ones: two of them on one network get each other's messages.
    fn stagger(&self) {
        let me = std::thread::current().id();
        if MAIN.get() || !self.seen.lock().unwrap().insert(me) {
            return;
        }
        let name: u64 = format!("{me:?}").chars().filter(char::is_ascii_digit).collect::<String>().parse().unwrap_or(0);
        let turn = if self.id % 2 == 0 { name % 16 } else { 15 - name % 16 };
        std::thread::sleep(Duration::from_millis(turn));
    }
}

thread_local! {
    static MAIN: Cell<bool> = const { Cell::new(false) };
}

impl Network for RecNet {
    fn id(&self) -> usize {
        self.id
    }
    fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
        self.stagger();
        let data = match &self.tamper {
            Some(f) => f(self.id, to, data),
            None => data,
        };
        let ch = self.tx.get(to).and_then(|x| x.as_ref()).ok_or_else(|| eyre::eyre!("no link to {to}"))?;
        self.log.lock().unwrap().push(Msg { from: self.id, to, data: data.clone() });
        // a receiver that has already finished is not an error of the sender
        let _ = ch.lock().unwrap().send(data);
        Ok(())
    }
    fn recv(&self, from: usize) -> eyre::Result<Bytes> {
        self.stagger();
        let ch = self.rx.get(from).and_then(|x| x.as_ref()).ok_or_else(|| eyre::eyre!("no link from {from}"))?;
        ch.lock().unwrap().recv_timeout(RECV_TIMEOUT).map_err(|e| eyre::eyre!("recv from {from}: {e}"))
    }
    fn get_connection_stats(&self) -> ConnectionStats {
        ConnectionStats::new(self.id, BTreeMap::new())
    }
}

/// Runs one closure per party on its own thread and returns their results in order.
pub fn run_parties<N: Send, R: Send>(nets: Vec<N>, f: impl Fn(usize, N) -> R + Sync) -> Vec<R> {
    let f = &f;
    std::thread::scope(|s| {
        let hs: Vec<_> = nets
            .into_iter()
            .enumerate()
            .map(|(i, n)| {
                s.spawn(move || {
                    crate::entropy::set_party(i as u64 + 1);
                    MAIN.set(true);
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i, n)))
                })
            })
            .collect();
        let mut out = vec![];
        let mut first: Option<Box<dyn std::any::Any + Send>> = None;
        for h in hs {
            match h.join().expect("party thread") {
                Ok(r) => out.push(r),
                Err(p) => {
                    if first.is_none() {
                        first = Some(p)
                    }
                }
            }
        }
        if let Some(p) = first {
            std::panic::resume_unwind(p);
        }
        out
    })
}
