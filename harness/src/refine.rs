//! Packages authorized and their items refined by services whose programs are random sequences of host calls, many of them driving machines
//! of the service's own.
use crate::{
    accum::{call, Acct, Call, Pool, OWN},
    asm::*,
    chain::{add_lookup, limited, octets},
    world::*,
    Args,
};
use fr_common::{
    workloads::{ExtrinsicInfo, ImportInfo, RefinementContext, WorkExecutionError, WorkExecutionResult, WorkItem, WorkPackage, WorkPackageId},
    Hash32,
};
use fr_limited_vec::FixedVec;
use fr_pvm_invocation::{is_authorized::IsAuthorizedInvocation, refine::RefineInvocation};
use fr_pvm_types::invoke_args::{IsAuthorizedInvokeArgs, RefineInvokeArgs};
use fr_state::types::AccountPreimagesEntry;
use rand::{seq::SliceRandom, Rng};
use serde_json::{json, Value};

const SEG: usize = 4104;
const PUT: u8 = 251; // not a call: r7 stored at r8's value
const PAGE: u64 = 4096;

fn store64(a: &mut Asm, reg: u8, addr: u64) {
    let mut b = vec![62, reg];
    b.extend_from_slice(&(addr as u32).to_le_bytes());
    a.op(&b);
}

#[derive(Clone, Copy, PartialEq)]
enum Fin {
    All,
    Plain,
    Empty,
    Unreadable,
    Trap,
    Spin,
    Loop,
}

fn program(pool: &Pool, calls: &[Call], fin: Fin, heap: u16) -> Vec<u8> {
    let mut a = Asm::new();
    let mut log = 0;
    for c in calls {
        if c.n == PUT {
            a.imm64(6, c.regs[0].1);
            store64(&mut a, 6, c.regs[1].1);
            continue;
        }
        for (r, v) in &c.regs {
            a.imm64(*r, *v);
        }
        a.ecalli(c.n);
        if log < 1000 {
            store64(&mut a, 7, pool.rw + log);
            log += 8;
            if c.n == 12 {
                store64(&mut a, 8, pool.rw + log);
                log += 8;
            }
        }
    }
    match fin {
        Fin::All => drop(a.halt_with(pool.rw, PAGE * heap as u64)),
        Fin::Plain => drop(a.ret()),
        Fin::Empty => drop(a.imm64(8, 0).ret()),
        Fin::Unreadable => drop(a.halt_with(0x5000_0000, 32)),
        Fin::Trap => drop(a.trap()),
        Fin::Spin => drop(a.fallthrough().jump(0)),
        Fin::Loop => drop(a.fallthrough().jump(-1)),
    }
    Prog { ro: pool.ro.clone(), rw: vec![], heap_pages: heap, stack: 4096, code: a.blob() }.blob()
}

/// A program for a machine of the service's own; ends whatever it starts with.
fn guest(r: &mut Rg) -> Asm {
    let mut a = Asm::new();
    let reg = |r: &mut Rg| *[1u8, 2, 3, 4, 6, 7, 8, 9, 10].choose(r).unwrap();
    let addr = |r: &mut Rg| -> u64 {
        let page = *[15u64, 16, 16, 16, 17, 17, 18, 19].choose(r).unwrap();
        page * PAGE + *[0u64, 8, 100, 100, 4088, 4090, 4095].choose(r).unwrap()
    };
    for _ in 0..r.gen_range(1..14) {
        match r.gen_range(0..16) {
            0..=3 => {
                // stores
                let x = addr(r);
                let mut b = vec![*[59u8, 60, 61, 62].choose(r).unwrap(), reg(r)];
                b.extend_from_slice(&(x as u32).to_le_bytes());
                a.op(&b);
            }
            4..=7 => {
                let x = addr(r);
                let mut b = vec![*[52u8, 53, 54, 55, 56, 57, 58].choose(r).unwrap(), reg(r)];
                b.extend_from_slice(&(x as u32).to_le_bytes());
                a.op(&b);
            }
            8 | 9 => {
                let n = *[0u32, 1, 9, 26, 27, 50, 100, 101, 127, 200, 255, 256, 100_000, u32::MAX, 1 << 31].choose(r).unwrap();
                let mut b = vec![10];
                b.extend_from_slice(&n.to_le_bytes()[..*[1usize, 2, 4, 4].choose(r).unwrap()]);
                a.op(&b);
            }
            10 => drop(a.imm64(reg(r), r.gen())),
            11 => {
                let (x, y, z) = (reg(r), reg(r), reg(r));
                a.op(&[*[200u8, 201, 202, 210, 211, 212].choose(r).unwrap(), x | (y << 4), z]);
            }
            12 => drop(a.addi(reg(r), r.gen_range(-5..500))),
            13 => {
                // count r5 down, however much it is
                a.fallthrough().addi(5, -1).op(&[132, 0x55, 63]);
                let mut b = vec![82, 5 | (1 << 4), 0];
                b.extend_from_slice(&(-9i32).to_le_bytes());
                a.op(&b).fallthrough();
            }
            14 => drop(a.fallthrough()),
            _ => {
                if r.gen_bool(0.3) {
                    a.trap();
                } else {
                    a.mov(reg(r), reg(r));
                }
            }
        }
    }
    if r.gen_bool(0.7) {
        a.ret();
    }
    a
}

struct World {
    pool: Pool,
    guests: Vec<(String, Vec<u64>)>, // name, places to start
    hashes: Vec<String>,
    heap: u64,
}

fn word(r: &mut Rg) -> u64 {
    match r.gen_range(0..8) {
        0 => u64::MAX,
        1 => 1 << 32,
        2 => u32::MAX as u64,
        3 => r.gen(),
        4 => 1 << 63,
        _ => r.gen_range(0..40),
    }
}

/// An address in the caller's memory, mostly a good one.
fn place(r: &mut Rg, w: &World, write: bool) -> u64 {
    let end = w.pool.rw + w.heap * PAGE;
    match r.gen_range(0..90) {
        0 => RO,
        1 => end - 4,
        2 => end,
        3 => 0x7000_0000,
        4 => 4,
        5 => *[u64::MAX, 1 << 32, (1 << 32) + RO, 0xFFFF_FFF0].choose(r).unwrap(),
        6..=19 if !write => RO + r.gen_range(0..w.pool.ro.len() as u64),
        _ => w.pool.rw + 1024 + 8 * r.gen_range(0..300),
    }
}

fn fetch(r: &mut Rg, w: &World) -> Call {
    let k = match r.gen_range(0..20) {
        0 => word(r),
        1 => 14,
        2 => 15,
        _ => *[0u64, 1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11, 12, 12, 13, 13].choose(r).unwrap(),
    };
    let idx = |r: &mut Rg| if r.gen_bool(0.9) { r.gen_range(0..4) } else { word(r) };
    let off = if r.gen_bool(0.7) { 0 } else { *[1u64, 5, 31, 4000, 4104, 5000, u64::MAX].choose(r).unwrap() };
    let len = if r.gen_bool(0.4) { u64::MAX } else { *[0u64, 1, 7, 32, 100, 400, 4104].choose(r).unwrap() };
    let (a, i, j) = (place(r, w, true), idx(r), idx(r));
    call(1, &[(7, a), (8, off), (9, len), (10, k), (11, i), (12, j)])
}

fn one(r: &mut Rg, w: &World, svcs: &[u32]) -> Vec<Call> {
    let id = |r: &mut Rg| match r.gen_range(0..12) {
        0 => word(r),
        1 => 3,
        x => (x % 3) as u64,
    };
    let inner = |r: &mut Rg| -> u64 {
        match r.gen_range(0..14) {
            0 => *[u64::MAX, 1 << 32, (1 << 32) + 16 * PAGE, 0xFFFF_F000, 0xFFFF_FFFF].choose(r).unwrap(),
            1 => 15 * PAGE + 4090,
            2 => 19 * PAGE,
            _ => r.gen_range(16u64..19) * PAGE + *[0u64, 0, 8, 100, 4000, 4088, 4095].choose(r).unwrap(),
        }
    };
    let len = |r: &mut Rg| match r.gen_range(0..12) {
        0 => 0,
        1 => 4096,
        2 => 4097,
        3 => *[u64::MAX, 1 << 32, 1 << 20, 1 << 31, (1 << 32) - 1].choose(r).unwrap(),
        _ => r.gen_range(0..300),
    };
    match r.gen_range(0..100) {
        0..=1 => vec![call(0, &[])],
        2..=16 => vec![fetch(r, w)],
        17..=24 => {
            let s = match r.gen_range(0..10) {
                0..=4 => OWN,
                5 => 77777,
                6 => word(r),
                _ => *svcs.choose(r).unwrap() as u64,
            };
            let h = if r.gen_bool(0.9) { w.pool.p(w.hashes.choose(r).unwrap()) } else { place(r, w, false) };
            let off = if r.gen_bool(0.7) { 0 } else { *[1u64, 5, 400, u64::MAX].choose(r).unwrap() };
            let n = *[0u64, 1, 20, 100, u64::MAX].choose(r).unwrap();
            vec![call(6, &[(7, s), (8, h), (9, place(r, w, true)), (10, off), (11, n)])]
        }
        25..=32 => {
            let n = *[0u64, 1, 12, 684, 4000, 4103, 4104, 4105, 5000, u64::MAX].choose(r).unwrap();
            let at = if r.gen_bool(0.7) && n < 5001 { w.pool.rw + 1024 } else { place(r, w, false) };
            vec![call(7, &[(7, at), (8, n)])]
        }
        33..=44 => {
            let (name, starts) = w.guests.choose(r).unwrap();
            let (p, n) = w.pool.at[name];
            let pc = match r.gen_range(0..10) {
                0 => *[u64::MAX, 1 << 32, 1 << 31, 500, 1 << 63].choose(r).unwrap(),
                1 => r.gen_range(0..30),
                2..=4 => *starts.choose(r).unwrap(),
                _ => 0,
            };
            let (p, n) = match r.gen_range(0..20) {
                0 => (p, n - 1),
                1 => (p + 1, n - 1),
                2 => (p, n + 1),
                3 => (place(r, w, false), n),
                4 => (p, 0),
                5 => (p, u64::MAX),
                _ => (p, n),
            };
            vec![call(8, &[(7, p), (8, n), (9, pc)])]
        }
        45..=54 => vec![call(9, &[(7, id(r)), (8, place(r, w, true)), (9, inner(r)), (10, len(r))])],
        55..=64 => vec![call(10, &[(7, id(r)), (8, place(r, w, false)), (9, inner(r)), (10, len(r))])],
        65..=79 => {
            let page = match r.gen_range(0..16) {
                0 => *[0u64, 1, 15, (1 << 20) - 2, (1 << 20) - 1, 1 << 20, u64::MAX, (1 << 32) + 16].choose(r).unwrap(),
                1 => (1 << 20) - 3,
                _ => r.gen_range(16..20),
            };
            let n = match r.gen_range(0..14) {
                0 => *[u64::MAX, 1 << 32, (1 << 20) - 16, u64::MAX - 20].choose(r).unwrap(),
                _ => r.gen_range(0..4),
            };
            let mode = if r.gen_bool(0.05) { word(r) } else { *[0u64, 1, 2, 2, 2, 3, 4, 4, 5].choose(r).unwrap() };
            vec![call(11, &[(7, id(r)), (8, page), (9, n), (10, mode)])]
        }
        80..=92 => {
            let at = if r.gen_bool(0.9) { w.pool.rw + 1024 + 8 * r.gen_range(0..200) } else { place(r, w, true) };
            let mut v = vec![];
            if r.gen_bool(0.85) && at < w.pool.rw + PAGE * w.heap - 112 && at >= w.pool.rw + 1024 {
                let g = match r.gen_range(0..10) {
                    0 => *[0u64, 1, u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 40].choose(r).unwrap(),
                    1..=3 => r.gen_range(0..12),
                    _ => r.gen_range(20..3000),
                };
                v.push(call(PUT, &[(7, g), (8, at)]));
                v.push(call(PUT, &[(7, 0xFFFF_0000), (8, at + 8)]));
                v.push(call(PUT, &[(7, r.gen_range(0..60)), (8, at + 8 + 40)]));
                for k in 0..r.gen_range(0..3) {
                    v.push(call(PUT, &[(7, word(r)), (8, at + 16 + 8 * k)]));
                }
            } else {
                // whatever is there, but not an endless count
                if at < w.pool.rw + PAGE * w.heap - 112 && at >= w.pool.rw + 1024 {
                    v.push(call(PUT, &[(7, 5), (8, at + 48)]));
                }
            }
            v.push(call(12, &[(7, id(r)), (8, at)]));
            v
        }
        93..=97 => vec![call(13, &[(7, id(r))])],
        _ => vec![call(*[2u8, 3, 4, 5, 14, 17, 20, 25, 26, 27, 99, 100, 127].choose(r).unwrap(), &[(7, place(r, w, true)), (8, place(r, w, false)), (9, 4), (10, place(r, w, false)), (11, 4)])],
    }
}

/// A machine of the service's own going through its life.
fn life(r: &mut Rg, w: &World) -> Vec<Call> {
    let (name, starts) = w.guests.choose(r).unwrap();
    let (p, n) = w.pool.at[name];
    let pc = if r.gen_bool(0.6) { 0 } else { *starts.choose(r).unwrap() };
    let at = w.pool.rw + 1024 + 8 * r.gen_range(0..200);
    let base = w.pool.rw + 1024;
    let mut v = vec![call(8, &[(7, p), (8, n), (9, pc)])];
    let id = r.gen_range(0..3);
    let pages = |r: &mut Rg| call(11, &[(7, id), (8, r.gen_range(16..19)), (9, r.gen_range(0..4)), (10, *[0u64, 1, 2, 2, 2, 3, 4].choose(r).unwrap())]);
    if r.gen_bool(0.5) {
        v.push(call(11, &[(7, id), (8, 16), (9, 3), (10, 2)]));
    } else {
        v.push(pages(r));
    }
    let spot = |r: &mut Rg| r.gen_range(16u64..19) * PAGE + *[0u64, 0, 8, 100, 4000, 4088].choose(r).unwrap();
    if r.gen_bool(0.7) {
        v.push(call(10, &[(7, id), (8, RO + r.gen_range(0..100)), (9, spot(r)), (10, r.gen_range(1..120))]));
    }
    v.push(call(PUT, &[(7, r.gen_range(0..400)), (8, at)]));
    v.push(call(PUT, &[(7, 0xFFFF_0000), (8, at + 8)]));
    v.push(call(PUT, &[(7, r.gen_range(0..20)), (8, at + 48)]));
    for _ in 0..r.gen_range(1..5) {
        v.push(call(12, &[(7, id), (8, at)]));
        if r.gen_bool(0.5) {
            v.push(call(PUT, &[(7, r.gen_range(0..400)), (8, at)]));
        }
        if r.gen_bool(0.4) {
            v.push(pages(r));
        }
        if r.gen_bool(0.3) {
            v.push(call(9, &[(7, id), (8, base + 2000), (9, spot(r)), (10, r.gen_range(0..100))]));
        }
    }
    v.push(call(9, &[(7, id), (8, base + 2200), (9, spot(r)), (10, 40)]));
    if r.gen_bool(0.4) {
        v.push(call(13, &[(7, r.gen_range(0..3))]));
    }
    v
}

struct Case {
    accts: Vec<Acct>,
    pkg: WorkPackage,
    tr: Vec<u8>,
    imports: Vec<Vec<Vec<u8>>>,
    blobs: Vec<(Hash32, u32, Vec<u8>)>,
    offset: usize,
    core: u16,
}

fn bytes(r: &mut Rg, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.gen()).collect()
}

fn case(r: &mut Rg) -> Case {
    let slot = r.gen_range(40u32..5000);
    let at = |r: &mut Rg| -> Vec<u32> {
        match r.gen_range(0..12) {
            0 => vec![],
            1 => vec![slot],
            2 => vec![slot + 1],
            3 => vec![slot - 9, slot],
            4 => vec![slot - 9, slot + 1],
            5 => vec![slot - 9, slot - 3, slot],
            6 => vec![slot - 9, slot - 3, slot + 1],
            7 => vec![slot + 1, slot + 2, slot + 3],
            8 => vec![slot - 20, slot, slot + 5],
            _ => vec![slot - 9],
        }
    };
    let svcs = [5u32, 6, 70000];
    let mut accts: Vec<Acct> = svcs.iter().map(|s| Acct { id: *s, bal: 1 << 40, ..Default::default() }).collect();
    // old preimages
    let mut pool = Pool::new();
    let mut hashes = vec![];
    let noise = bytes(r, 120);
    pool.put("noise", &noise);
    for k in 0..4 {
        let n = [0usize, 3, 60, 500][k];
        let d = bytes(r, n);
        let s = at(r);
        let h = accts[r.gen_range(0..3)].provide(&d, &s);
        let name = format!("h{k}");
        pool.put(&name, &h.0);
        hashes.push(name);
    }
    let mut guests = vec![];
    for k in 0..3 {
        let g = guest(r);
        let mut starts: Vec<u64> = g.mask.iter().enumerate().filter(|(_, m)| **m).map(|(i, _)| i as u64).collect();
        starts.push(0);
        let name = format!("g{k}");
        pool.put(&name, &g.blob());
        guests.push((name, starts));
    }
    let ro = *[600usize, 4096, 5000].choose(r).unwrap();
    pool.seal(r, ro);
    let heap = r.gen_range(1u64..=3);
    let w = World { pool, guests, hashes, heap };
    let prog = |r: &mut Rg, auth: bool| {
        let mut calls = vec![];
        let n = r.gen_range(0..if auth { 26 } else { 40 });
        let lives = !auth && r.gen_bool(0.7);
        if lives && r.gen_bool(0.85) {
            for _ in 0..r.gen_range(1..4) {
                let (name, _) = w.guests.choose(r).unwrap();
                let (p, n) = w.pool.at[name];
                calls.push(call(8, &[(7, p), (8, n), (9, 0)]));
            }
            let n = r.gen_range(1..3);
            for id in 0..n {
                calls.push(call(11, &[(7, id), (8, 16), (9, 3), (10, 2)]));
            }
        }
        while calls.len() < n {
            if lives && r.gen_bool(0.25) {
                calls.extend(life(r, &w));
            } else if auth && r.gen_bool(0.7) {
                calls.push(fetch(r, &w));
            } else {
                calls.extend(one(r, &w, &svcs));
            }
        }
        let fin = *[Fin::All, Fin::All, Fin::All, Fin::All, Fin::All, Fin::All, Fin::Plain, Fin::Empty, Fin::Unreadable, Fin::Trap, if auth { Fin::Trap } else { Fin::Loop }, if auth { Fin::All } else { Fin::Spin }]
            .choose(r)
            .unwrap();
        program(&w.pool, &calls, fin, heap as u16)
    };
    let mut blobs = vec![];
    for k in 0..3 {
        let n = [0usize, 9, 300][k];
        let d = bytes(r, n);
        blobs.push((b2(&d), n as u32, d));
    }
    let code = |r: &mut Rg, a: &mut Acct, auth: bool| -> Hash32 {
        let meta = *[0usize, 5, 130].choose(r).unwrap();
        let meta = bytes(r, meta);
        let body = prog(r, auth);
        let mut c = account_code(&meta, &body);
        match r.gen_range(0..70) {
            0 => c = vec![],
            1 => c = vec![200],
            2 => c = account_code(&meta, &bytes(r, 40)),
            3 => drop(c.pop()),
            4 => c = vec![5, 1, 2],
            5 if auth => c = account_code(&meta, &vec![0; 64_000 + r.gen_range(0..2)]),
            6 => c.push(0),
            _ => {}
        }
        let s = if r.gen_bool(0.88) { vec![r.gen_range(0..=slot)] } else { at(r) };
        a.provide(&c, &s)
    };
    let mut items = vec![];
    let mut imports = vec![];
    for _ in 0..r.gen_range(1..4) {
        let k = r.gen_range(0..3);
        let h = code(r, &mut accts[k], false);
        let n = r.gen_range(0..3);
        imports.push((0..n).map(|_| if r.gen_bool(0.5) { bytes(r, SEG) } else { vec![r.gen(); SEG] }).collect::<Vec<_>>());
        let gas = if r.gen_bool(0.15) { r.gen_range(0..400) } else { r.gen_range(3000..12000) };
        let plen = *[0usize, 4, 64, 200].choose(r).unwrap();
        items.push(WorkItem {
            service_id: if r.gen_bool(0.05) { 99 } else { accts[k].id },
            service_code_hash: if r.gen_bool(0.03) { h32(r) } else { h },
            refine_gas_limit: gas,
            accumulate_gas_limit: r.gen(),
            export_segment_count: r.gen_range(0..3000),
            payload_blob: octets(bytes(r, plen)),
            import_segment_ids: (0..n)
                .map(|_| ImportInfo {
                    work_package_id: if r.gen_bool(0.5) { WorkPackageId::SegmentRoot(h32(r)) } else { WorkPackageId::WorkPackageHash(h32(r)) },
                    item_index: r.gen_range(0..1 << 15),
                })
                .collect(),
            extrinsic_data_info: (0..r.gen_range(0..3))
                .map(|_| {
                    let b = blobs.choose(r).unwrap();
                    ExtrinsicInfo { blob_hash: b.0.clone(), blob_length: if r.gen_bool(0.9) { b.1 } else { b.1 + 1 } }
                })
                .collect(),
        });
    }
    let k = r.gen_range(0..3);
    let h = code(r, &mut accts[k], true);
    let pkg = WorkPackage {
        authorizer_service_id: if r.gen_bool(0.05) { 99 } else { accts[k].id },
        auth_code_hash: if r.gen_bool(0.05) { h32(r) } else { h },
        context: RefinementContext {
            anchor_header_hash: h32(r),
            anchor_state_root: h32(r),
            anchor_beefy_root: h32(r),
            lookup_anchor_header_hash: h32(r),
            lookup_anchor_timeslot: slot,
            prerequisite_work_packages: (0..r.gen_range(0..3)).map(|_| h32(r)).collect(),
        },
        auth_token: octets({ let n = *[0usize, 3, 150].choose(r).unwrap(); bytes(r, n) }),
        config_blob: octets({ let n = *[0usize, 1, 70].choose(r).unwrap(); bytes(r, n) }),
        work_items: limited(items),
    };
    let tr = { let n = *[0usize, 3, 300].choose(r).unwrap(); bytes(r, n) };
    let offset = *[0usize, 0, 0, 7, 3069, 3070, 3071, 3072, 3073, 5000].choose(r).unwrap();
    Case { accts, pkg, tr, imports, blobs, offset, core: r.gen_range(0..2) }
}

fn result(w: &WorkExecutionResult) -> (&'static str, String) {
    match w {
        WorkExecutionResult::Output(o) => ("ok", hx(o.as_slice())),
        WorkExecutionResult::Error(e) => (
            match e {
                WorkExecutionError::OutOfGas => "oog",
                WorkExecutionError::Panic => "panic",
                WorkExecutionError::BadExports => "badexports",
                WorkExecutionError::Oversize => "oversize",
                WorkExecutionError::Bad => "bad",
                WorkExecutionError::Big => "big",
            },
            String::new(),
        ),
    }
}

async fn play(k: &Keys, r: &mut Rg, c: &Case, out: &mut Out) {
    let ss = base_states(k, r, 5000);
    let accts = c.accts.clone();
    let chain = Chain::new(ss, genesis_header(5000, b"refine"), |sm| async move {
        for a in &accts {
            sm.add_account_metadata(a.id, a.meta()).await.unwrap();
            for (h, v) in &a.pre {
                sm.add_account_preimages_entry(a.id, h, AccountPreimagesEntry::new(octets(v.clone()))).await.unwrap();
            }
            for ((h, n), s) in &a.look {
                add_lookup(&sm, a.id, h, *n, s).await;
            }
        }
    })
    .await;
    let p = &c.pkg;
    let ctx = &p.context;
    let ctx = json!({"hashes": [hx(&ctx.anchor_header_hash.0), hx(&ctx.anchor_state_root.0), hx(&ctx.anchor_beefy_root.0), hx(&ctx.lookup_anchor_header_hash.0)],
        "slot": ctx.lookup_anchor_timeslot, "pre": ctx.prerequisite_work_packages.iter().map(|h| hx(&h.0)).collect::<Vec<_>>()});
    let items: Vec<Value> = p
        .work_items
        .iter()
        .map(|i| {
            json!({"svc": i.service_id.to_string(), "code": hx(&i.service_code_hash.0), "g": i.refine_gas_limit.to_string(), "a": i.accumulate_gas_limit.to_string(),
            "exports": i.export_segment_count, "payload": hx(i.payload_blob.as_slice()),
            "imports": i.import_segment_ids.iter().map(|z| match &z.work_package_id {
                WorkPackageId::SegmentRoot(h) => json!([hx(&h.0), z.item_index, false]),
                WorkPackageId::WorkPackageHash(h) => json!([hx(&h.0), z.item_index, true]),
            }).collect::<Vec<_>>(),
            "xts": i.extrinsic_data_info.iter().map(|z| json!([hx(&z.blob_hash.0), z.blob_length])).collect::<Vec<_>>()})
        })
        .collect();
    let base = json!({"accounts": c.accts.iter().map(|a| a.json()).collect::<Vec<_>>(), "core": c.core, "tr": hx(&c.tr), "offset": c.offset,
        "imports": c.imports.iter().map(|l| l.iter().map(|s| hx(s)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "blobs": c.blobs.iter().map(|b| json!([[hx(&b.0.0), b.1], hx(&b.2)])).collect::<Vec<_>>(),
        "pkg": {"svc": p.authorizer_service_id.to_string(), "code": hx(&p.auth_code_hash.0), "ctx": ctx, "token": hx(p.auth_token.as_slice()), "config": hx(p.config_blob.as_slice()), "items": items}});
    let sm = chain.sm();
    for i in -1..=(p.work_items.len() as i64) {
        if i == p.work_items.len() as i64 && r.gen_bool(0.9) {
            continue;
        }
        let mut e = base.clone();
        e["ev"] = json!("refine");
        let sm = sm.clone();
        e["out"] = if i < 0 {
            e["kind"] = json!("auth");
            e["item"] = json!(0);
            let args = IsAuthorizedInvokeArgs { package: p.clone(), core_idx: c.core };
            match tokio::spawn(async move { IsAuthorizedInvocation::is_authorized(sm, &args).await }).await {
                Err(_) => json!({"res": "crash", "out": "", "used": "", "exports": []}),
                Ok(Err(x)) => json!({"res": format!("{x:?}").chars().take(100).collect::<String>(), "out": "", "used": "", "exports": []}),
                Ok(Ok(x)) => {
                    let (res, o) = result(&x.work_execution_result);
                    json!({"res": res, "out": o, "used": x.gas_used.to_string(), "exports": []})
                }
            }
        } else {
            e["kind"] = json!("refine");
            e["item"] = json!(i);
            let args = RefineInvokeArgs {
                core_idx: c.core,
                item_idx: i as usize,
                package: p.clone(),
                auth_trace: c.tr.clone(),
                import_segments: c.imports.iter().map(|l| l.iter().map(|s| FixedVec::try_from(s.clone()).unwrap_or_else(|_| panic!())).collect()).collect(),
                export_segments_offset: c.offset,
                extrinsic_data_map: c.blobs.iter().map(|b| (ExtrinsicInfo { blob_hash: b.0.clone(), blob_length: b.1 }, b.2.clone())).collect(),
            };
            match tokio::spawn(async move { RefineInvocation::refine(sm, &args).await }).await {
                Err(_) => json!({"res": "crash", "out": "", "used": "", "exports": []}),
                Ok(Err(x)) => json!({"res": format!("{x:?}").chars().take(100).collect::<String>(), "out": "", "used": "", "exports": []}),
                Ok(Ok(x)) => {
                    let (res, o) = result(&x.output);
                    json!({"res": res, "out": o, "used": x.gas_used.to_string(), "exports": x.export_segments.iter().map(|s| hx(&b2(s.as_ref()).0)).collect::<Vec<_>>()})
                }
            }
        };
        out.ev(e);
    }
}

pub async fn run(args: &Args) {
    let k = Keys::new(8);
    let mut r = rng(args.seed);
    let mut out = Out::new(&args.out);
    for _ in 0..args.n {
        let c = case(&mut r);
        play(&k, &mut r, &c, &mut out).await;
    }
    println!("{}", json!({"events": out.n}));
}
