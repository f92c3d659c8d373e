//! The pool of extrinsics: calls one after another and from several threads at once.
use crate::world::*;
use crate::Args;
use fr_block::types::extrinsics::XtType;
use fr_common::Hash32;
use fr_extrinsics::pool::{OpaqueXtEntry, XtPool, XtPoolError};
use rand::{seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use std::sync::{
    atomic::{AtomicU64, Ordering},
    mpsc, Arc,
};
use std::time::Duration;

const KINDS: [fn() -> XtType; 7] =
    [|| XtType::Ticket, || XtType::Guarantee, || XtType::Assurance, || XtType::PreimageLookup, || XtType::Verdict, || XtType::Culprit, || XtType::Fault];

fn data(kind: usize, id: u64) -> Vec<u8> {
    let mut d = vec![kind as u8 + 1; 1 + id as usize % 70];
    d.extend(id.to_le_bytes());
    d
}
fn key(kind: usize, id: u64) -> Hash32 {
    let mut h = [kind as u8; 32];
    h[4..12].copy_from_slice(&id.to_be_bytes());
    Hash32::new(h)
}
fn entry(kind: usize, id: u64) -> OpaqueXtEntry {
    OpaqueXtEntry { hash: key(kind, id), data: data(kind, id), extrinsic_type: KINDS[kind]() }
}

fn add(p: &XtPool, kind: usize, id: u64, slot: u32) -> &'static str {
    match p.add_extrinsic(entry(kind, id), slot) {
        Ok(()) => "ok",
        Err(XtPoolError::Full) => "full",
        Err(_) => "error",
    }
}
/// The numbers of what is listed; -1 for what nobody handed in.
fn get(p: &XtPool, kind: usize, slot: u32) -> Value {
    match p.get_extrinsics_by_type_and_timeslot(KINDS[kind](), slot) {
        Ok(v) => v
            .iter()
            .map(|e| {
                let id = e.hash.0[4..12].try_into().map(u64::from_be_bytes).unwrap();
                if e.hash == key(kind, id) && e.data == data(kind, id) && e.extrinsic_type == KINDS[kind]() {
                    id as i64
                } else {
                    -1
                }
            })
            .collect(),
        Err(_) => json!([-2]),
    }
}
fn held(p: &XtPool) -> usize {
    p.extrinsics.read().unwrap().len()
}

pub fn run(a: &Args) {
    let mut r = rng(a.seed);
    let mut out = Out::new(&a.out);
    for i in 0..a.n {
        if i % 3 < 2 {
            one_by_one(&mut r, &mut out);
        } else if !at_once(&mut r, &mut out) {
            break;
        }
    }
    println!("{} events", out.n);
    drop(out);
    std::process::exit(0); // threads may be stuck
}

fn one_by_one(r: &mut Rg, out: &mut Out) {
    let max = *[0usize, 1, 3, 8, 20, 100].choose(r).unwrap();
    let p = XtPool::new(max);
    out.ev(json!({"ev": "new", "max": max}));
    let (ids, slots) = (r.gen_range(1..30u64), r.gen_range(1..4u32));
    for _ in 0..r.gen_range(10..70) {
        let (kind, slot) = (if r.gen_bool(0.6) { 2 } else { r.gen_range(0..7) }, r.gen_range(0..slots) * 0x1000 + 7);
        if r.gen_bool(0.65) {
            let id = r.gen_range(0..ids);
            let res = add(&p, kind, id, slot);
            out.ev(json!({"ev": "add", "kind": kind, "id": id, "slot": slot, "res": res, "held": held(&p)}));
        } else {
            out.ev(json!({"ev": "get", "kind": kind, "slot": slot, "ids": get(&p, kind, slot)}));
        }
    }
}

fn at_once(r: &mut Rg, out: &mut Out) -> bool {
    let max = *[3usize, 25, 200].choose(r).unwrap();
    let p = Arc::new(XtPool::new(max));
    let now = Arc::new(AtomicU64::new(1));
    let (tx, rx) = mpsc::channel();
    let threads = 6;
    let per = 12;
    let ids = r.gen_range(10..40u64);
    let spin = r.gen_bool(0.5);
    let start = Arc::new(std::sync::Barrier::new(threads));
    for t in 0..threads {
        let (p, now, tx, start) = (p.clone(), now.clone(), tx.clone(), start.clone());
        let mut r = Rg::seed_from_u64(r.gen());
        std::thread::spawn(move || {
            let (mut adds, mut gets) = (vec![], vec![]);
            start.wait();
            // many readings go unrecorded, so that calls meet
            for _ in 0..per {
                let (kind, slot) = (r.gen_range(0..2usize) * 3, r.gen_range(5..7u32));
                let from = now.fetch_add(1, Ordering::SeqCst);
                if t % 2 == 0 || r.gen_bool(0.2) {
                    let id = r.gen_range(0..ids);
                    let res = add(&p, kind, id, slot);
                    adds.push(json!({"kind": kind, "id": id, "slot": slot, "res": res, "from": from, "to": now.fetch_add(1, Ordering::SeqCst)}));
                } else {
                    let ids = get(&p, kind, slot);
                    gets.push(json!({"kind": kind, "slot": slot, "ids": ids, "from": from, "to": now.fetch_add(1, Ordering::SeqCst)}));
                }
                for _ in 0..if spin { r.gen_range(0..400) } else { 0 } {
                    if t % 2 == 0 {
                        // handed in before, if it was
                        if let Some(a) = adds.last() {
                            let (k, i, s) = (a["kind"].as_u64().unwrap() as usize, a["id"].as_u64().unwrap(), a["slot"].as_u64().unwrap() as u32);
                            if a["res"] == "ok" {
                                add(&p, k, i, s);
                            }
                        }
                    } else {
                        get(&p, kind, slot);
                    }
                }
            }
            let _ = tx.send((adds, gets));
        });
    }
    let (mut adds, mut gets, mut ended) = (vec![], vec![], 0);
    while ended < threads {
        let Ok((a, g)) = rx.recv_timeout(Duration::from_secs(40)) else { break };
        adds.extend(a);
        gets.extend(g);
        ended += 1;
    }
    let stuck = ended < threads;
    let mut fin = vec![];
    if !stuck {
        for kind in [0, 3] {
            for slot in 5..7 {
                fin.push(json!({"kind": kind, "slot": slot, "ids": get(&p, kind, slot)}));
            }
        }
    }
    out.ev(json!({"ev": "par", "max": max, "stuck": stuck, "adds": adds, "gets": gets, "final": fin, "held": if stuck { 0 } else { held(&p) }}));
    !stuck
}
