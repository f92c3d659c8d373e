//! The state store under generated sequences of operations.
use crate::world::*;
use crate::Args;
use fr_codec::prelude::*;
use fr_common::{Octets, StateKey};
use fr_config::StorageConfig;
use fr_db::core::core_db::CoreDB;
use fr_state::{
    cache::StateMut,
    error::StateManagerError,
    manager::{StateDelta, StateManager},
    state_utils::*,
    types::*,
};
use rand::Rng;
use serde_json::{json, Value};
use std::sync::Arc;

type Res<T> = Result<T, StateManagerError>;

#[derive(Clone)]
enum Typed {
    Storage(u32, Octets),
    Preimage(u32, fr_common::Hash32),
    Lookups(u32, fr_common::Hash32, u32),
    Slot,
    Outputs,
}

#[derive(Clone)]
struct K {
    key: StateKey,
    typed: Option<Typed>,
}

fn key_pool(r: &mut Rg, n_raw: usize, n_typed: usize) -> Vec<K> {
    let mut base = [0u8; 31];
    r.fill(&mut base);
    let mut keys: Vec<[u8; 31]> = vec![base];
    while keys.len() < n_raw {
        let mut k = keys[r.gen_range(0..keys.len())];
        if r.gen_bool(0.15) {
            r.fill(&mut k);
        } else {
            let bit = [0usize, 1, 2, 6, 7, 8, 9, 31, 100, 200, 240, 246, 247][r.gen_range(0..13)];
            k[bit / 8] ^= 0x80 >> (bit % 8);
            if r.gen_bool(0.3) {
                r.fill(&mut k[(bit / 8 + 1).min(30)..]);
            }
        }
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    let mut v: Vec<K> = keys.into_iter().map(|k| K { key: StateKey::new(k), typed: None }).collect();
    for i in 0..n_typed {
        let s = if i % 2 == 0 { 7 } else { r.gen() };
        let h = h32(r);
        let (key, t) = match i {
            0 => (get_simple_state_key(StateKeyConstant::Timeslot), Typed::Slot),
            1 => {
                let l = r.gen_range(0..100u32);
                (get_account_lookups_state_key(s, &(h.clone(), l)).unwrap(), Typed::Lookups(s, h, l))
            }
            2 => (get_account_preimage_state_key(s, &h).unwrap(), Typed::Preimage(s, h)),
            3 => (get_simple_state_key(StateKeyConstant::LastAccumulateOutputs), Typed::Outputs),
            _ => {
                let n = r.gen_range(0..40);
                let k = Octets::from_vec((0..n).map(|_| r.gen()).collect());
                (get_account_storage_state_key(s, &k).unwrap(), Typed::Storage(s, k))
            }
        };
        v.push(K { key, typed: Some(t) });
    }
    v
}

/// The encoding of symbolic value `v` (1-based) for key `k`.
fn value(k: &K, v: usize, salt: u8) -> Vec<u8> {
    let lens = [0usize, 1, 31, 32, 33, 34, 64, 300];
    let plain: Vec<u8> = (0..lens[(v - 1) % 8]).map(|i| (v as u8).wrapping_mul(37) ^ (i as u8) ^ salt).collect();
    match &k.typed {
        Some(Typed::Slot) => ((v as u32) * 1000 + salt as u32).to_le_bytes().to_vec(),
        Some(Typed::Lookups(..)) => {
            let n = v % 4;
            let mut e = vec![n as u8];
            for i in 0..n {
                e.extend(((v * 100 + i) as u32).to_le_bytes());
            }
            e
        }
        Some(Typed::Outputs) => {
            let n = v % 3;
            let mut e = vec![n as u8];
            for i in 0..n {
                e.extend((i as u32).to_le_bytes());
                e.extend([v as u8 ^ salt; 32]);
            }
            e
        }
        _ => plain,
    }
}

fn enc<T: JamEncode>(x: &T) -> Vec<u8> {
    x.encode().unwrap()
}
fn dec<T: JamDecode>(v: &[u8]) -> T {
    T::decode(&mut &v[..]).unwrap()
}

fn opt<T>(x: Res<T>) -> Res<Option<T>> {
    match x {
        Ok(v) => Ok(Some(v)),
        Err(StateManagerError::StateKeyNotInitialized(_)) => Ok(None),
        Err(e) => Err(e),
    }
}

async fn typed_get(m: &StateManager, t: &Typed, clean: bool) -> Res<Option<Vec<u8>>> {
    Ok(match (t, clean) {
        (Typed::Slot, false) => opt(m.get_timeslot().await)?.map(|x| enc(&x)),
        (Typed::Slot, true) => opt(m.get_timeslot_clean().await)?.map(|x| enc(&x)),
        (Typed::Outputs, false) => opt(m.get_last_accumulate_outputs().await)?.map(|x| enc(&x)),
        (Typed::Outputs, true) => opt(m.get_last_accumulate_outputs_clean().await)?.map(|x| enc(&x)),
        (Typed::Storage(s, k), false) => m.get_account_storage_entry(*s, k).await?.map(|x| enc(&x)),
        (Typed::Storage(s, k), true) => m.get_account_storage_entry_clean(*s, k).await?.map(|x| enc(&x)),
        (Typed::Preimage(s, k), false) => m.get_account_preimages_entry(*s, k).await?.map(|x| enc(&x)),
        (Typed::Preimage(s, k), true) => m.get_account_preimages_entry_clean(*s, k).await?.map(|x| enc(&x)),
        (Typed::Lookups(s, h, l), false) => m.get_account_lookups_entry(*s, &(h.clone(), *l)).await?.map(|x| enc(&x)),
        (Typed::Lookups(s, h, l), true) => m.get_account_lookups_entry_clean(*s, &(h.clone(), *l)).await?.map(|x| enc(&x)),
    })
}

async fn typed_add(m: &StateManager, t: &Typed, v: &[u8]) -> Res<()> {
    match t {
        Typed::Slot => m.add_timeslot(dec(v)).await,
        Typed::Outputs => m.add_last_accumulate_outputs(dec(v)).await,
        Typed::Storage(s, k) => m.add_account_storage_entry(*s, k, dec(v)).await,
        Typed::Preimage(s, k) => m.add_account_preimages_entry(*s, k, dec(v)).await,
        Typed::Lookups(s, h, l) => m.add_account_lookups_entry(*s, (h.clone(), *l), dec(v)).await,
    }
}

async fn typed_mut(m: &StateManager, t: &Typed, how: StateMut, v: &[u8]) -> Res<()> {
    let rem = how == StateMut::Remove;
    macro_rules! set {
        () => {
            |x| -> Res<()> {
                if !rem {
                    *x = dec(v);
                }
                Ok(())
            }
        };
    }
    match t {
        Typed::Slot => m.with_mut_timeslot(how, set!()).await,
        Typed::Outputs => m.with_mut_last_accumulate_outputs(how, set!()).await,
        Typed::Storage(s, k) => m.with_mut_account_storage_entry(how, *s, k, set!()).await,
        Typed::Preimage(s, k) => m.with_mut_account_preimages_entry(how, *s, k, set!()).await,
        Typed::Lookups(s, h, l) => m.with_mut_account_lookups_entry(how, *s, (h.clone(), *l), set!()).await,
    }
}

fn read_ev(ev: &str, k: &K, x: Res<Option<Vec<u8>>>) -> Value {
    let k = hx(k.key.as_slice());
    match x {
        Ok(Some(v)) => json!({"ev": ev, "k": k, "has": true, "v": hx(&v)}),
        Ok(None) => json!({"ev": ev, "k": k, "has": false, "v": ""}),
        Err(e) => json!({"ev": ev, "k": k, "has": true, "v": format!("error: {e}")}),
    }
}

pub async fn run(a: &Args) {
    let mut out = Out::new(&a.out);
    let mut r = rng(a.seed);
    let text = std::fs::read_to_string(&a.inp).unwrap();
    let mut behaviours: Vec<Vec<Value>> = vec![];
    let mut last = "";
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        if line != last {
            behaviours.push(serde_json::from_str(line).unwrap());
        }
        last = line;
    }
    for b in &behaviours {
        let dir = tempfile::tempdir().unwrap();
        let core = Arc::new(CoreDB::open(dir.path().to_path_buf(), StorageConfig::rocksdb_opts(), StorageConfig::cf_descriptors()).unwrap());
        let mut cfg = StorageConfig::from_path(dir.path().to_path_buf());
        let small = r.gen_bool(0.4);
        if small {
            cfg.state_cache_size = r.gen_range(1..5);
            cfg.cfs.state_db.cache_size = 2;
            cfg.cfs.merkle_nodes_db.cache_size = 3;
            cfg.cfs.merkle_leaf_paths_db.cache_size = 3;
        }
        let m = StateManager::from_core_db(core, &cfg);
        let (n_raw, n_typed) = if a.mode == "raw" { (12, 0) } else { (8, 6) };
        let keys = key_pool(&mut r, n_raw, n_typed);
        let salt: u8 = r.gen();
        let mut arts: Vec<Option<fr_state::manager::StateCommitArtifact>> = vec![];
        out.ev(json!({"ev": "init", "small": small, "root": hx(&m.merkle_root().await.unwrap().0)}));
        for o in b {
            let op = o["op"].as_str().unwrap();
            let ki = o["k"].as_u64().unwrap() as usize;
            let vi = o["v"].as_u64().unwrap() as usize;
            let typed = o["api"] == "typed";
            let k = if ki > 0 { keys[ki - 1].clone() } else { keys[0].clone() };
            let hk = hx(k.key.as_slice());
            let val = if vi > 0 { value(&k, vi, salt) } else { vec![] };
            let verdict = |x: Res<()>| match x {
                Ok(()) => json!({"ev": op, "k": hk, "v": hx(&val), "ok": true, "err": "", "api": o["api"]}),
                Err(e) => json!({"ev": op, "k": hk, "v": hx(&val), "ok": false, "err": e.to_string(), "api": o["api"]}),
            };
            let ev = match op {
                "add" if typed => verdict(typed_add(&m, k.typed.as_ref().unwrap(), &val).await),
                "add" => verdict(m.add_raw_state_entry(&k.key, val.clone()).await),
                "upd" if typed => verdict(typed_mut(&m, k.typed.as_ref().unwrap(), StateMut::Update, &val).await),
                "upd" => verdict(m.update_raw_state_entry(&k.key, val.clone()).await),
                "rem" if typed => verdict(typed_mut(&m, k.typed.as_ref().unwrap(), StateMut::Remove, &val).await),
                "rem" => verdict(m.remove_raw_state_entry(&k.key).await),
                "get" if typed => read_ev("get", &k, typed_get(&m, k.typed.as_ref().unwrap(), false).await),
                "get" => read_ev("get", &k, m.get_raw_state_entry(&k.key).await),
                "clean" if typed => read_ev("clean", &k, typed_get(&m, k.typed.as_ref().unwrap(), true).await),
                "clean" | "db" => read_ev("db", &k, m.get_raw_state_entry_from_db(&k.key).await),
                "rollback" => {
                    m.rollback_dirty_cache();
                    json!({"ev": "rollback"})
                }
                "evict" => {
                    m.clear_state_cache();
                    json!({"ev": "evict"})
                }
                "root" => json!({"ev": "root", "root": hx(&m.merkle_root().await.unwrap().0)}),
                "commit" => {
                    let x = m.commit_dirty_cache().await;
                    arts.clear();
                    json!({"ev": "commit", "ok": x.is_ok(), "err": x.err().map(|e| e.to_string()).unwrap_or_default(), "root": hx(&m.merkle_root().await.unwrap().0)})
                }
                "prepare" => {
                    let x = m.prepare_dirty_cache_commit().await;
                    let now = hx(&m.merkle_root().await.unwrap().0);
                    match x {
                        Ok(None) => {
                            arts.push(None);
                            json!({"ev": "prepare", "ok": true, "err": "", "none": true, "now": now, "root": "", "delta": []})
                        }
                        Ok(Some(art)) => {
                            let d: Vec<Value> = art
                                .state_delta_entries()
                                .unwrap()
                                .into_iter()
                                .map(|(k, d)| match d {
                                    StateDelta::Remove => json!({"k": hx(k.as_slice()), "w": false, "v": ""}),
                                    StateDelta::Write(v) => json!({"k": hx(k.as_slice()), "w": true, "v": hx(&v)}),
                                })
                                .collect();
                            let root = hx(&art.state_root().0);
                            arts.push(Some(art));
                            json!({"ev": "prepare", "ok": true, "err": "", "none": false, "now": now, "root": root, "delta": d})
                        }
                        Err(e) => {
                            arts.push(None);
                            json!({"ev": "prepare", "ok": false, "err": e.to_string(), "none": false, "now": now, "root": "", "delta": []})
                        }
                    }
                }
                "apply" => {
                    let i = o["i"].as_u64().unwrap() as usize;
                    let x = match &arts[i - 1] {
                        Some(art) => m.apply_dirty_cache_commit(art).await,
                        None => Ok(()),
                    };
                    arts.clear();
                    json!({"ev": "apply", "i": i, "ok": x.is_ok(), "err": x.err().map(|e| e.to_string()).unwrap_or_default(), "root": hx(&m.merkle_root().await.unwrap().0)})
                }
                x => panic!("unknown op {x}"),
            };
            out.ev(ev);
        }
        // the final contents, as read back through an empty cache
        m.rollback_dirty_cache();
        m.clear_state_cache();
        out.ev(json!({"ev": "rollback"}));
        out.ev(json!({"ev": "root", "root": hx(&m.merkle_root().await.unwrap().0)}));
        for k in &keys {
            out.ev(read_ev("get", k, m.get_raw_state_entry(&k.key).await));
            if let Some(t) = &k.typed {
                out.ev(read_ev("get", k, typed_get(&m, t, false).await));
            }
        }
    }
    println!("{} behaviours, {} events", behaviours.len(), out.n);
}


/// Do uncommitted entries survive many reads?
pub async fn pressure(cap: usize) {
    let dir = tempfile::tempdir().unwrap();
    let core = Arc::new(CoreDB::open(dir.path().to_path_buf(), StorageConfig::rocksdb_opts(), StorageConfig::cf_descriptors()).unwrap());
    let mut cfg = StorageConfig::from_path(dir.path().to_path_buf());
    if cap > 0 {
        cfg.state_cache_size = cap;
    }
    let n = if cap > 0 { cap * 4 } else { 20000 };
    let m = StateManager::from_core_db(core, &cfg);
    let k = |i: usize| Octets::from_vec((i as u32).to_le_bytes().to_vec());
    for i in 0..n {
        m.add_account_storage_entry(1, &k(i), dec(&[1, 2, 3])).await.unwrap();
    }
    m.commit_dirty_cache().await.unwrap();
    let mut failed = 0;
    for i in 0..20 {
        if let Err(e) = m.with_mut_account_storage_entry(StateMut::Update, 1, &k(i), |x| -> Res<()> { *x = dec(&[9, 9]); Ok(()) }).await {
            failed += 1;
            println!("mut {i}: {e}");
        }
    }
    for _ in 0..3 {
        for i in 20..n {
            for _ in 0..12 { m.get_account_storage_entry(1, &k(i)).await.unwrap(); }
        }
    }
    let mut lost = 0;
    for i in 0..20 {
        if enc(&m.get_account_storage_entry(1, &k(i)).await.unwrap().unwrap()) != vec![9, 9] {
            lost += 1;
        }
    }
    println!("cap {cap}: failed {failed} lost {lost} of 20");
}
