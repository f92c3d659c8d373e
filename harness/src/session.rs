//! Conformance sessions over the target's Unix socket, following behaviours generated from the specification.
use crate::chain::*;
use crate::world::*;
use crate::Args;
use fr_block::types::block::{Block, BlockHeader};
use fr_codec::prelude::*;
use fr_common::{ByteSequence, Hash32, StateKey};
use fr_config::StorageConfig;
use fr_fuzz::{
    fuzz_target::FuzzTargetRunner,
    types::*,
};
use fr_state::{manager::StateManager, state_utils::*};
use fr_storage::node_storage::NodeStorage;
use rand::Rng;
use serde_json::{json, Value};
use std::{collections::HashMap, path::Path, sync::Arc, time::Duration};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::UnixStream,
};

type Kvs = Vec<(Vec<u8>, Vec<u8>)>;

enum Reply {
    Msg(FuzzMessageKind),
    Closed,
}

impl Reply {
    fn kind(&self) -> &'static str {
        match self {
            Reply::Closed => "closed",
            Reply::Msg(m) => match m {
                FuzzMessageKind::PeerInfo(_) => "peer",
                FuzzMessageKind::StateRoot(_) => "root",
                FuzzMessageKind::State(_) => "state",
                FuzzMessageKind::Error(_) => "error",
                _ => "other",
            },
        }
    }
    fn root(&self) -> String {
        match self {
            Reply::Msg(FuzzMessageKind::StateRoot(r)) => hx(&r.0 .0),
            _ => String::new(),
        }
    }
    fn msg(&self) -> String {
        match self {
            Reply::Msg(FuzzMessageKind::Error(e)) => String::from_utf8_lossy(e).to_string(),
            _ => String::new(),
        }
    }
    fn kvs(&self) -> Kvs {
        match self {
            Reply::Msg(FuzzMessageKind::State(s)) => s.0.iter().map(|kv| (kv.key.0.to_vec(), kv.value.as_slice().to_vec())).collect(),
            _ => vec![],
        }
    }
}

fn j(k: &Kvs) -> Value {
    json!(k.iter().map(|(a, b)| json!([hx(a), hx(b)])).collect::<Vec<_>>())
}

fn peer(features: u32) -> PeerInfo {
    PeerInfo::new(1, features, Version::new(0, 7, 2), Version::new(1, 0, 0), "vh".into())
}

/// A running target and the current connection to it.
struct Target {
    path: String,
    s: Option<UnixStream>,
}

impl Target {
    async fn start(dir: &Path, name: &str) -> Target {
        let path = dir.join(name).to_str().unwrap().to_string();
        let p = path.clone();
        tokio::spawn(async move {
            let mut t = FuzzTargetRunner::new(peer(3)).unwrap();
            t.run_as_fuzz_target(p).await.unwrap();
        });
        Target { path, s: None }
    }
    async fn connect(&mut self) {
        self.s = None;
        for _ in 0..500 {
            if let Ok(s) = UnixStream::connect(&self.path).await {
                self.s = Some(s);
                return;
            }
            tokio::time::sleep(Duration::from_millis(10)).await;
        }
        panic!("target does not listen");
    }
    async fn raw(&mut self, bytes: &[u8]) -> Reply {
        let Some(s) = &mut self.s else { return Reply::Closed };
        if s.write_all(bytes).await.is_err() {
            self.s = None;
            return Reply::Closed;
        }
        let mut len = [0u8; 4];
        match tokio::time::timeout(Duration::from_secs(240), s.read_exact(&mut len)).await.expect("no answer") {
            Ok(_) => {}
            Err(_) => {
                self.s = None;
                return Reply::Closed;
            }
        }
        let mut b = vec![0u8; u32::from_le_bytes(len) as usize];
        s.read_exact(&mut b).await.unwrap();
        Reply::Msg(FuzzMessageKind::decode(&mut b.as_slice()).unwrap())
    }
    async fn ask(&mut self, m: FuzzMessageKind) -> Reply {
        let bytes = FuzzProtocolMessage::from_kind(m).unwrap().encode().unwrap();
        self.raw(&bytes).await
    }
}

fn initialize(b: &Node) -> FuzzMessageKind {
    FuzzMessageKind::Initialize(Initialize {
        header: b.header.clone(),
        state: State(b.kvs.iter().map(|(k, v)| KeyValue { key: fr_common::ByteArray(k.clone().try_into().unwrap()), value: ByteSequence::from_vec(v.clone()) }).collect()),
        ancestry: b.anc.iter().map(|(s, h)| AncestryItem { slot: *s, header_hash: h.clone() }).collect::<Vec<_>>().try_into().unwrap_or_else(|_| panic!()),
    })
}

/// A block of the tree: its posterior state if a fresh node accepts it.
#[derive(Clone)]
struct Node {
    header: BlockHeader,
    block: Option<Block>,
    parent: Hash32,
    label: String,
    ok: bool,
    root: String,
    kvs: Kvs,
    anc: Vec<(u32, Hash32)>,
}

async fn chain_at(n: &Node) -> Chain {
    let dir = tempfile::Builder::new().prefix("vh-").tempdir().unwrap();
    let storage = Arc::new(NodeStorage::new(StorageConfig::from_path(dir.path().join("db"))).unwrap());
    let sm = storage.state_manager();
    for (k, v) in &n.kvs {
        sm.add_raw_state_entry(&StateKey::new(k.clone().try_into().unwrap()), v.clone()).await.unwrap();
    }
    sm.commit_dirty_cache().await.unwrap();
    storage.header_db().set_best_header(n.header.clone());
    Chain { storage, dir }
}

async fn all_kvs(sm: &Arc<StateManager>, w: &World) -> Kvs {
    let mut keys: Vec<StateKey> = (1..=16u8)
        .map(|c| {
            let mut k = [0u8; 31];
            k[0] = c;
            StateKey::new(k)
        })
        .collect();
    for s in &w.services {
        keys.push(get_account_metadata_state_key(s.id).unwrap());
        keys.push(get_account_preimage_state_key(s.id, &s.code_hash).unwrap());
        if let Some(b) = &s.blob {
            keys.push(get_account_lookups_state_key(s.id, &(s.code_hash.clone(), b.len() as u32)).unwrap());
        }
    }
    for x in &w.wants {
        let h = b2(&x.data);
        keys.push(get_account_preimage_state_key(x.svc, &h).unwrap());
        keys.push(get_account_lookups_state_key(x.svc, &(h, x.data.len() as u32)).unwrap());
    }
    let mut out = vec![];
    for k in keys {
        if let Some(v) = sm.get_raw_state_entry(&k).await.unwrap() {
            let e = (k.as_slice().to_vec(), v);
            if !out.contains(&e) {
                out.push(e);
            }
        }
    }
    out
}

pub async fn run(args: &Args) {
    let md = Mode { anc: true, ..mode("atomic") };
    let full = Mode { twin: false, ..md };
    let mut sim = Sim::new(args.seed, full);
    let mut out = Out::new(&args.out);
    let mut counts: HashMap<String, (usize, usize)> = HashMap::new();
    let dir = tempfile::Builder::new().prefix("vh-").tempdir().unwrap();
    let gen = std::fs::read_to_string(&args.inp).unwrap();
    let mut fresh = Target::start(dir.path(), "fresh.sock").await;
    let mut prev_session = false;
    let mut main = Target::start(dir.path(), "main.sock").await;
    for line in gen.lines() {
        let ops: Vec<Value> = serde_json::from_str::<Value>(line).unwrap().as_array().unwrap().clone();
        let (chain, w, _, _) = sim.world().await;
        let head = chain.head();
        let kvs = all_kvs(&chain.sm(), &w).await;
        let root = hx(&chain.root().await.0);
        let anc: Vec<(u32, Hash32)> = chain_anc(&sim, &head);
        drop(chain);
        let mut tree: HashMap<i64, Node> = HashMap::new();
        tree.insert(0, Node { header: head.clone(), block: None, parent: Hash32::default(), label: "init".into(), ok: true, root, kvs, anc });
        out.ev(json!({"ev": "init"}));
        if prev_session || main.s.is_none() {
            main.connect().await;
        }
        prev_session = true;
        let id_of = |n: &Node| hx(&n.header.hash().unwrap().0);
        for o in &ops {
            let (b, p, good) = (o["b"].as_i64().unwrap(), o["p"].as_i64().unwrap(), o["good"].as_bool().unwrap());
            if main.s.is_none() {
                main.connect().await;
                out.ev(json!({"ev": "connect"}));
            }
            match o["op"].as_str().unwrap() {
                "hello" => {
                    let r = main.ask(FuzzMessageKind::PeerInfo(peer(if good { 3 } else { 1 }))).await;
                    out.ev(json!({"ev": "hello", "forking": good, "kind": r.kind()}));
                }
                "open" => {
                    let n = &tree[&0];
                    let r = main.ask(initialize(n)).await;
                    out.ev(json!({"ev": "open", "id": id_of(n), "kvs": j(&n.kvs), "kind": r.kind(), "root": r.root()}));
                }
                op @ ("child" | "again") => {
                    if op == "child" && !tree.contains_key(&b) {
                        let Some(pn) = tree.get(&p).filter(|n| n.ok).cloned() else { continue };
                        let c = chain_at(&pn).await;
                        let mut st = json!({});
                        st["want"] = Sim::p_want(&c.sm(), &w).await;
                        sim.m.mutate = if good { 0.0 } else { 1.0 };
                        let slot = pn.header.data.timeslot_index;
                        let Some((block, label)) = sim.next_block(&c, &w, &st, slot, &pn.anc).await else { continue };
                        drop(c);
                        let hash = block.header.hash().unwrap();
                        if tree.values().any(|n| n.header.hash().unwrap() == hash) {
                            continue;
                        }
                        // what a fresh node says
                        fresh.connect().await;
                        assert_eq!(fresh.ask(FuzzMessageKind::PeerInfo(peer(1))).await.kind(), "peer");
                        assert_eq!(fresh.ask(initialize(&pn)).await.kind(), "root");
                        let r = fresh.ask(FuzzMessageKind::ImportBlock(ImportBlock(block.clone()))).await;
                        let ok = r.kind() == "root";
                        let kvs = if ok { fresh.ask(FuzzMessageKind::GetState(GetState(hash.clone()))).await.kvs() } else { vec![] };
                        fresh.s = None;
                        let mut anc = pn.anc.clone();
                        anc.push((block.header.data.timeslot_index, hash.clone()));
                        if anc.len() > 24 {
                            anc.remove(0);
                        }
                        let e = counts.entry(label.clone()).or_default();
                        if ok { e.0 += 1 } else { e.1 += 1 }
                        tree.insert(b, Node { header: block.header.clone(), parent: block.header.data.parent_hash.clone(), block: Some(block), label, ok, root: r.root(), kvs, anc });
                    }
                    let Some(n) = tree.get(&b) else { continue };
                    let r = main.ask(FuzzMessageKind::ImportBlock(ImportBlock(n.block.clone().unwrap()))).await;
                    out.ev(json!({"ev": "import", "id": id_of(n), "parent": hx(&n.parent.0), "mut": n.label, "fresh": {"ok": n.ok, "root": n.root},
                        "kind": r.kind(), "root": r.root(), "msg": r.msg()}));
                }
                op @ ("get" | "early-get") => {
                    let h = match tree.get(&b) {
                        Some(n) if op == "get" => n.header.hash().unwrap(),
                        _ if b < 0 || op != "get" => h32(&mut sim.r),
                        _ => continue,
                    };
                    let r = main.ask(FuzzMessageKind::GetState(GetState(h.clone()))).await;
                    out.ev(json!({"ev": "get", "id": hx(&h.0), "kind": r.kind(), "kvs": j(&r.kvs())}));
                }
                what => {
                    let r = match what {
                        "second-open" => main.ask(initialize(&tree[&0])).await,
                        "peer-again" => main.ask(FuzzMessageKind::PeerInfo(peer(3))).await,
                        "state-root" => main.ask(FuzzMessageKind::StateRoot(StateRoot(h32(&mut sim.r)))).await,
                        "state" => main.ask(FuzzMessageKind::State(State(vec![]))).await,
                        "error" => main.ask(FuzzMessageKind::Error(b"x".to_vec())).await,
                        "garbage" => main.raw(&[3, 0, 0, 0, [7u8, 200, 3, 1][sim.r.gen_range(0..4)], 1, 2]).await,
                        "hangup" => {
                            main.s = None;
                            Reply::Closed
                        }
                        x => panic!("unknown op {x}"),
                    };
                    // a second initialisation is an ordinary one while none has happened
                    if what == "second-open" {
                        let n = &tree[&0];
                        out.ev(json!({"ev": "open", "id": id_of(n), "kvs": j(&n.kvs), "kind": r.kind(), "root": r.root()}));
                    } else {
                        out.ev(json!({"ev": "odd", "what": what, "kind": r.kind()}));
                    }
                }
            }
        }
    }
    println!("{}", json!({"events": out.n, "mutations": counts.iter().map(|(k, v)| json!([k, v.0, v.1])).collect::<Vec<_>>()}));
}

fn chain_anc(sim: &Sim, _head: &BlockHeader) -> Vec<(u32, Hash32)> {
    let mut v = sim.last_anc.clone();
    if v.len() > 24 {
        v = v.split_off(v.len() - 24);
    }
    v
}
