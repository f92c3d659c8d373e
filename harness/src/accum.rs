//! Accumulation of hand-made reports by services whose programs are random sequences of host calls.
use crate::{
    asm::*,
    chain::{add_lookup, limited, octets},
    world::*,
    Args,
};
use fr_common::{
    workloads::{WorkDigest, WorkExecutionError, WorkExecutionResult, WorkReport},
    Hash32, ServiceId,
};
use fr_state::{
    manager::StateDelta,
    types::{privileges::PrivilegedServices, AccountMetadata, AccountPreimagesEntry, AccountStorageEntry},
};
use fr_transition::state::services::{transition_on_accumulate, transition_services_last_accumulate_at};
use rand::{seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const OWN: u64 = u64::MAX;
const EXPIRY: u32 = 32;

#[derive(Clone, Default)]
pub struct Acct {
    pub id: ServiceId,
    pub code: Option<Hash32>,
    pub bal: u64,
    pub g: u64,
    pub m: u64,
    pub gratis: u64,
    pub created: u32,
    pub last: u32,
    pub parent: u32,
    pub st: BTreeMap<Vec<u8>, Vec<u8>>,
    pub pre: BTreeMap<Hash32, Vec<u8>>,
    pub look: BTreeMap<(Hash32, u32), Vec<u32>>,
}

impl Acct {
    pub fn items(&self) -> u64 {
        self.st.len() as u64 + 2 * self.look.len() as u64
    }
    pub fn octets(&self) -> u64 {
        self.st.iter().map(|(k, v)| 34 + k.len() as u64 + v.len() as u64).sum::<u64>() + self.look.keys().map(|k| 81 + k.1 as u64).sum::<u64>()
    }
    pub fn threshold(&self) -> u64 {
        (100 + 10 * self.items() + self.octets()).saturating_sub(self.gratis)
    }
    pub fn provide(&mut self, data: &[u8], at: &[u32]) -> Hash32 {
        let h = b2(data);
        self.look.insert((h.clone(), data.len() as u32), at.to_vec());
        if at.len() != 0 {
            self.pre.insert(h.clone(), data.to_vec());
        }
        h
    }
    pub fn meta(&self) -> AccountMetadata {
        AccountMetadata {
            code_hash: self.code.clone().unwrap_or_default(),
            balance: self.bal,
            gas_limit_accumulate: self.g,
            gas_limit_on_transfer: self.m,
            octets_footprint: self.octets(),
            gratis_storage_offset: self.gratis,
            items_footprint: self.items() as u32,
            created_at: self.created,
            last_accumulate_at: self.last,
            parent_service_id: self.parent,
            ..Default::default()
        }
    }
    pub fn json(&self) -> Value {
        json!([self.id.to_string(), {"code": hx(&self.code.clone().unwrap_or_default().0), "bal": self.bal.to_string(), "g": self.g.to_string(), "m": self.m.to_string(),
            "octets": self.octets().to_string(), "items": self.items().to_string(), "gratis": self.gratis.to_string(), "created": self.created.to_string(),
            "last": self.last.to_string(), "parent": self.parent.to_string(),
            "st": self.st.iter().map(|(k, v)| json!([hx(k), hx(v)])).collect::<Vec<_>>(),
            "pre": self.pre.iter().map(|(k, v)| json!([hx(&k.0), hx(v)])).collect::<Vec<_>>(),
            "look": self.look.iter().map(|(k, v)| json!([[hx(&k.0.0), k.1.to_string()], v])).collect::<Vec<_>>()}])
    }
}

#[derive(Clone, Default)]
pub struct Priv {
    pub man: u32,
    pub asg: [u32; 2],
    pub des: u32,
    pub reg: u32,
    pub always: BTreeMap<u32, u64>,
}

#[derive(Clone)]
pub struct Call {
    pub n: u8,
    pub regs: Vec<(u8, u64)>,
}
pub fn call(n: u8, regs: &[(u8, u64)]) -> Call {
    Call { n, regs: regs.to_vec() }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Finish {
    Yield,
    Short,
    Unreadable,
    Trap,
    Spin,
    Plain,
}

/// Constant data every program carries, with the addresses of the things in it.
pub struct Pool {
    pub ro: Vec<u8>,
    pub at: BTreeMap<String, (u64, u64)>,
    pub rw: u64,
}
impl Pool {
    pub fn new() -> Pool {
        Pool { ro: vec![], at: BTreeMap::new(), rw: 0 }
    }
    pub fn put(&mut self, name: &str, b: &[u8]) -> u64 {
        let p = RO + self.ro.len() as u64;
        self.at.insert(name.into(), (p, b.len() as u64));
        self.ro.extend_from_slice(b);
        p
    }
    pub fn p(&self, name: &str) -> u64 {
        self.at[name].0
    }
    pub fn seal(&mut self, r: &mut Rg, len: usize) {
        while self.ro.len() < len {
            self.ro.push(r.gen());
        }
        self.rw = rw_base(self.ro.len());
    }
    /// log in the first octets of the read-write page; scratch from +1024 on
    pub fn scratch(&self) -> u64 {
        self.rw + 1024
    }
}

fn store64(a: &mut Asm, reg: u8, addr: u64) {
    let mut b = vec![62, reg];
    b.extend_from_slice(&(addr as u32).to_le_bytes());
    a.op(&b);
}

/// not a call: a loop, so that services end in another order than they began
const WAIT: u8 = 250;
fn emit(a: &mut Asm, calls: &[Call], pool: &Pool, log: &mut u64) {
    for c in calls {
        for (r, v) in &c.regs {
            a.imm64(*r, *v);
        }
        if c.n == WAIT {
            // count r9 down to nothing
            a.fallthrough().addi(9, -1);
            let mut b = vec![82, 9 | (1 << 4), 0];
            b.extend_from_slice(&(-6i32).to_le_bytes());
            a.op(&b).fallthrough();
            continue;
        }
        a.ecalli(c.n);
        if *log < 900 {
            store64(a, 7, pool.rw + *log);
            *log += 8;
            if c.n == 22 {
                store64(a, 8, pool.rw + *log);
                *log += 8;
            }
        }
    }
}

/// A program making the first list of calls when it runs for the first time and the second one later.
pub fn program(pool: &Pool, first: &[Call], later: &[Call], keep: bool, fin: Finish) -> Vec<u8> {
    let (mut la, mut lb) = (0, 0);
    let (mut x, mut y) = (Asm::new(), Asm::new());
    let mark = pool.at["mark"];
    emit(&mut x, first, pool, &mut la);
    if !later.is_empty() {
        x.imm64(7, mark.0).imm64(8, mark.1).imm64(9, RO).imm64(10, 1).ecalli(4);
        emit(&mut y, later, pool, &mut lb);
    }
    let mut a = Asm::new();
    for _ in 0..5 {
        a.trap();
    }
    let extend = |a: &mut Asm, b: &Asm| {
        a.code.extend_from_slice(&b.code);
        a.mask.extend_from_slice(&b.mask);
    };
    if later.is_empty() {
        extend(&mut a, &x);
    } else {
        a.imm64(7, OWN).imm64(8, mark.0).imm64(9, mark.1).imm64(10, pool.scratch()).imm64(11, 0).imm64(12, 0).ecalli(3);
        // branch_ne_imm r7, -1 over the first list and its jump
        let over = 7 + x.code.len() as i32 + 5;
        let mut b = vec![82, 7 | (1 << 4), 0xff];
        b.extend_from_slice(&over.to_le_bytes());
        a.op(&b);
        extend(&mut a, &x);
        a.jump(5 + y.code.len() as i32 + 1);
        extend(&mut a, &y);
        a.fallthrough();
    }
    if keep {
        let k = pool.at["log"];
        a.imm64(7, k.0).imm64(8, k.1).imm64(9, pool.rw).imm64(10, la.max(lb).max(8)).ecalli(4);
        a.imm64(7, k.0).imm64(8, k.1 - 1).imm64(9, pool.scratch()).imm64(10, 40).ecalli(4);
    }
    match fin {
        Finish::Yield => drop(a.halt_with(RO + 7, 32)),
        Finish::Short => drop(a.halt_with(RO, 31)),
        Finish::Unreadable => drop(a.halt_with(0x5000_0000, 32)),
        Finish::Trap => drop(a.trap()),
        Finish::Plain => drop(a.imm64(8, 0).ret()),
        Finish::Spin => drop(a.fallthrough().jump(0)),
    }
    Prog { ro: pool.ro.clone(), rw: vec![], heap_pages: 1, stack: 4096, code: a.blob() }.blob()
}

pub struct Case {
    pub slot: u32,
    pub accts: Vec<Acct>,
    pub pv: Priv,
    pub reports: Vec<WorkReport>,
}

pub fn digest(svc: u32, gas: u64, r: &mut Rg) -> WorkDigest {
    let res = match r.gen_range(0..4) {
        0 => WorkExecutionResult::Error([WorkExecutionError::Panic, WorkExecutionError::OutOfGas, WorkExecutionError::Bad, WorkExecutionError::Big][r.gen_range(0..4)].clone()),
        _ => WorkExecutionResult::Output(octets((0..[0usize, 3, 60, 200][r.gen_range(0..4)]).map(|_| r.gen()).collect())),
    };
    WorkDigest { service_id: svc, payload_hash: h32(r), accumulate_gas_limit: gas, refine_result: res, service_code_hash: h32(r), refine_stats: fr_common::workloads::RefineStats { refine_gas_used: 0, imports_count: 0, extrinsics_count: 0, extrinsics_octets: 0, exports_count: 0 } }
}

pub fn report(r: &mut Rg, ds: Vec<WorkDigest>) -> WorkReport {
    let mut rep = WorkReport::default();
    rep.specs.work_package_hash = h32(r);
    rep.specs.segment_root = h32(r);
    rep.authorizer_hash = h32(r);
    let n = [0usize, 1, 30, 130][r.gen_range(0..4)];
    rep.auth_trace = octets((0..n).map(|_| r.gen()).collect());
    rep.digests = limited(ds);
    rep
}

fn p_res(w: &WorkExecutionResult) -> String {
    match w {
        WorkExecutionResult::Output(o) => {
            let mut b = vec![0];
            compact(&mut b, o.len() as u64);
            b.extend_from_slice(o.as_slice());
            hx(&b)
        }
        WorkExecutionResult::Error(e) => hx(&[match e {
            WorkExecutionError::OutOfGas => 1,
            WorkExecutionError::Panic => 2,
            WorkExecutionError::BadExports => 3,
            WorkExecutionError::Oversize => 4,
            WorkExecutionError::Bad => 5,
            WorkExecutionError::Big => 6,
        }]),
    }
}

async fn priv_json(sm: &fr_state::manager::StateManager) -> Value {
    let p = sm.get_privileged_services().await.unwrap();
    json!({"man": p.manager_service.to_string(), "asg": p.assign_services.iter().map(|s| s.to_string()).collect::<Vec<_>>(), "des": p.designate_service.to_string(),
        "reg": p.registrar_service.to_string(), "always": p.always_accumulate_services.iter().map(|(s, g)| json!([s.to_string(), g.to_string()])).collect::<Vec<_>>()})
}
async fn queue_json(sm: &fr_state::manager::StateManager) -> Value {
    sm.get_auth_queue().await.unwrap().0.iter().map(|c| hx(&c.iter().flat_map(|h| h.0.to_vec()).collect::<Vec<_>>())).collect()
}
async fn staging_json(sm: &fr_state::manager::StateManager) -> Value {
    json!(hx(&sm.get_staging_set().await.unwrap().0.iter().flat_map(|v| v.clone().to_byte_array().0.to_vec()).collect::<Vec<_>>()))
}

/// Runs one case against the real node and returns the event.
pub async fn play(k: &Keys, r: &mut Rg, c: &Case) -> Value {
    let mut ss = base_states(k, r, c.slot);
    let eta = hx(&ss.entropy.0[0].0);
    ss.privileges = PrivilegedServices {
        manager_service: c.pv.man,
        assign_services: c.pv.asg.to_vec().try_into().unwrap_or_else(|_| panic!()),
        designate_service: c.pv.des,
        registrar_service: c.pv.reg,
        always_accumulate_services: c.pv.always.clone(),
    };
    let accts = c.accts.clone();
    let chain = Chain::new(ss, genesis_header(c.slot, b"acc"), |sm| async move {
        for a in &accts {
            sm.add_account_metadata(a.id, a.meta()).await.unwrap();
            for (k, v) in &a.st {
                sm.add_account_storage_entry(a.id, &octets(k.clone()), AccountStorageEntry { value: octets(v.clone()) }).await.unwrap();
            }
            for (h, v) in &a.pre {
                sm.add_account_preimages_entry(a.id, h, AccountPreimagesEntry::new(octets(v.clone()))).await.unwrap();
            }
            for ((h, n), s) in &a.look {
                add_lookup(&sm, a.id, h, *n, s).await;
            }
        }
    })
    .await;
    let sm = chain.sm();
    let (pv, queue, staging) = (priv_json(&sm).await, queue_json(&sm).await, staging_json(&sm).await);
    let reports = c.reports.clone();
    let sm2 = sm.clone();
    let ran = tokio::spawn(async move {
        let x = transition_on_accumulate(sm2.clone(), &reports).await.map_err(|e| format!("{e:?}"))?;
        let who: Vec<ServiceId> = x.accumulate_stats.keys().cloned().collect();
        transition_services_last_accumulate_at(sm2, &who).await.map_err(|e| format!("{e:?}"))?;
        Ok::<_, String>(x)
    })
    .await;
    let mut out = json!({"res": "ok", "why": "", "n": 0, "stats": [], "outputs": [], "delta": [], "priv": priv_json(&sm).await,
        "queue": queue_json(&sm).await, "staging": staging_json(&sm).await});
    match ran {
        Err(_) => out["res"] = json!("panic"),
        Ok(Err(e)) => {
            out["res"] = json!("err");
            out["why"] = json!(e.chars().take(200).collect::<String>());
        }
        Ok(Ok(x)) => {
            out["n"] = json!(x.accumulated_reports_count);
            out["stats"] = x.accumulate_stats.iter().map(|(s, e)| json!([s.to_string(), e.gas_used.to_string(), e.digests_count])).collect();
            out["outputs"] = x.output_pairs.0.iter().map(|p| json!([p.service.to_string(), hx(&p.output_hash.0)])).collect();
            match sm.prepare_dirty_cache_commit().await {
                Err(e) => {
                    out["res"] = json!("err");
                    out["why"] = json!(format!("{e:?}"));
                }
                Ok(None) => {}
                Ok(Some(art)) => {
                    let d = art.state_delta_entries().unwrap();
                    // the chapters of the state other than services have keys of one octet and zeros
                    out["delta"] = d
                        .iter()
                        .filter(|(k, _)| !(k.as_slice()[0] <= 16 && k.as_slice()[1..].iter().all(|b| *b == 0)))
                        .map(|(k, v)| match v {
                            StateDelta::Remove => json!([hx(k.as_slice()), "gone"]),
                            StateDelta::Write(v) => json!([hx(k.as_slice()), hx(v)]),
                        })
                        .collect();
                }
            }
        }
    }
    json!({"ev": "acc", "slot": c.slot, "eta": eta, "accounts": c.accts.iter().map(Acct::json).collect::<Vec<_>>(), "priv": pv, "queue": queue, "staging": staging,
        "reports": c.reports.iter().map(|x| json!({"pkg": hx(&x.specs.work_package_hash.0), "seg": hx(&x.specs.segment_root.0), "auth": hx(&x.authorizer_hash.0),
            "trace": hx(x.auth_trace.as_slice()), "digests": x.digests.iter().map(|d| json!({"svc": d.service_id.to_string(), "payload": hx(&d.payload_hash.0),
                "gas": d.accumulate_gas_limit.to_string(), "res": p_res(&d.refine_result)})).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "out": out})
}

/// Random arguments that mostly make sense.
pub struct Draw<'a> {
    pub pool: &'a Pool,
    pub ids: Vec<u32>,
    pub host: u32,
    pub slot: u32,
}
impl Draw<'_> {
    fn id(&self, r: &mut Rg) -> u64 {
        match r.gen_range(0..16) {
            0..=11 => *self.ids.choose(r).unwrap() as u64,
            12 => self.host as u64,
            13 => r.gen_range(0..70000),
            14 => (1 << 32) + self.ids[0] as u64,
            _ => 77,
        }
    }
    fn id_or_own(&self, r: &mut Rg) -> u64 {
        if r.gen_bool(0.4) {
            OWN
        } else {
            self.id(r)
        }
    }
    fn bad(&self, r: &mut Rg) -> u64 {
        [0u64, 0xffff, RO + 4096 - 3, 0x5000_0000, u64::MAX, 1 << 32, (1 << 32) + RO, 0xffff_fff0, self.pool.rw + 4096 * 2 - 5][r.gen_range(0..9)]
    }
    fn named(&self, r: &mut Rg, kind: &str) -> (u64, u64) {
        if r.gen_bool(0.02) {
            return (self.bad(r), [0u64, 1, 32, u64::MAX][r.gen_range(1..4)]);
        }
        let ks: Vec<_> = self.pool.at.iter().filter(|(k, _)| k.starts_with(kind)).collect();
        *ks.choose(r).unwrap().1
    }
    /// a place to write to, an offset and a length for something of about n octets
    fn dest(&self, r: &mut Rg, n: u64) -> (u64, u64, u64) {
        let p = match r.gen_range(0..40) {
            0 => self.bad(r),
            1 => RO,
            2 => self.pool.rw + 8192 - r.gen_range(0..40),
            3 => self.pool.rw + 4096 - 10,
            _ => self.pool.scratch() + r.gen_range(0..100),
        };
        let off = [0u64, 0, 0, 1, 5, n, n.wrapping_sub(1), u64::MAX][r.gen_range(0..8)];
        let len = [0u64, 1, 8, n, n + 1, 200, u64::MAX][r.gen_range(0..7)];
        (p, off, len)
    }
    pub fn call(&self, r: &mut Rg, n: u8) -> Call {
        let p = self.pool;
        match n {
            1 => {
                let (b, o, l) = self.dest(r, 40);
                let id = [0u64, 1, 14, 15, 15, 15, 2, 7, 16, 1 << 40][r.gen_range(0..10)];
                let l = if id == 14 || id == 15 { l.min(150) } else { l };
                call(1, &[(7, b), (8, o), (9, l), (10, id), (11, [0u64, 0, 1, 2, u64::MAX][r.gen_range(0..5)])])
            }
            2 => {
                let (h, _) = self.named(r, "h");
                let (b, o, l) = self.dest(r, 5);
                call(2, &[(7, self.id_or_own(r)), (8, h), (9, b), (10, o), (11, l.min(300))])
            }
            3 => {
                let (k, kl) = self.named(r, "k");
                let (b, o, l) = self.dest(r, 7);
                call(3, &[(7, self.id_or_own(r)), (8, k), (9, kl), (10, b), (11, o), (12, l)])
            }
            4 => {
                let (k, kl) = self.named(r, "k");
                let (v, vl) = self.named(r, "v");
                let vl = if r.gen_bool(0.3) { 0 } else { vl };
                call(4, &[(7, k), (8, kl), (9, v.min(u32::MAX as u64)), (10, vl)])
            }
            5 => {
                let (b, o, l) = self.dest(r, 96);
                call(5, &[(7, self.id_or_own(r)), (8, b), (9, o), (10, l)])
            }
            14 => {
                let (a, _) = self.named(r, "asg");
                let (z, zl) = self.named(r, "zet");
                let n = if r.gen_bool(0.05) { [1u64 << 30, u64::MAX, 1 << 61][r.gen_range(0..3)] } else { (zl / 12).min(r.gen_range(0..4)) };
                call(14, &[(7, self.id(r)), (8, a), (9, self.id(r)), (10, self.id(r)), (11, z), (12, n)])
            }
            15 => {
                let o = if r.gen_bool(0.05) { self.bad(r) } else { RO + r.gen_range(0..1400) };
                call(15, &[(7, [0u64, 0, 1, 1, 2, 1 << 33][r.gen_range(0..6)]), (8, o), (9, self.id(r))])
            }
            16 => call(16, &[(7, if r.gen_bool(0.05) { self.bad(r) } else { RO + r.gen_range(0..1900) })]),
            18 => {
                let (h, _) = self.named(r, "h");
                let l = [0u64, 5, 40, 100, 200, 100000, 1 << 32][*[0usize, 1, 1, 2, 2, 3, 4, 5, 6].choose(r).unwrap()];
                let gratis = [0u64, 0, 0, 1, 1, 50, 400, u64::MAX][r.gen_range(0..8)];
                let small = [u64::MAX, 5, 6, 65535, 65536, self.id(r), self.id(r)][r.gen_range(0..7)];
                call(18, &[(7, h), (8, l), (9, r.gen_range(0..100)), (10, r.gen_range(0..100)), (11, gratis), (12, small)])
            }
            19 => {
                let (h, _) = self.named(r, "h");
                call(19, &[(7, h), (8, r.gen()), (9, r.gen_range(0..50))])
            }
            20 => {
                let m = if r.gen_bool(0.04) { self.bad(r) } else { RO + r.gen_range(0..2000) };
                let amount = [0u64, 1, 10, 100, 500, 5000, 1 << 50, u64::MAX][*[0usize, 1, 2, 2, 3, 3, 4, 5, 6, 7].choose(r).unwrap()];
                let gas = [0u64, 1, 20, 50, 150, 300, 300, 500, 1 << 40, u64::MAX][*[0usize, 1, 2, 3, 4, 4, 4, 5, 5, 6, 7, 8, 9].choose(r).unwrap()];
                call(20, &[(7, self.id(r)), (8, amount), (9, gas), (10, m)])
            }
            21 => {
                let kind = if r.gen_bool(0.8) { "hd" } else { "h" };
                let (h, _) = self.named(r, kind);
                call(21, &[(7, self.id(r)), (8, h)])
            }
            22..=24 => {
                let (h, l) = self.req(r);
                call(n, &[(7, h), (8, l)])
            }
            25 => call(25, &[(7, self.named(r, "h").0)]),
            26 => {
                let (d, l) = self.named(r, "d");
                call(26, &[(7, self.id_or_own(r)), (8, d), (9, l)])
            }
            n => call(n, &[]),
        }
    }
    /// a hash and the length of its preimage, mostly
    fn req(&self, r: &mut Rg) -> (u64, u64) {
        let i = r.gen_range(0..DATA.len());
        let h = if r.gen_bool(0.03) { self.bad(r) } else { self.pool.p(&format!("h{i}")) };
        let l = if r.gen_bool(0.9) { DATA[i] as u64 } else { [0u64, 6, 1 << 32, u64::MAX][r.gen_range(0..4)] };
        (h, l)
    }
}
/// lengths of the preimages in circulation
pub const DATA: [usize; 5] = [0, 1, 5, 40, 40];

pub struct Shape {
    pub services: (usize, usize),
    pub calls: (usize, usize),
    pub roles: f64,
    pub later: f64,
}

/// A population of services with random programs, balances, requests and privileges.
pub fn random_case(r: &mut Rg, sh: &Shape) -> Case {
    let slot = [5u32, 40, 100, 200][r.gen_range(0..4)] + r.gen_range(0..10);
    let n = r.gen_range(sh.services.0..=sh.services.1);
    let mut ids: Vec<u32> = vec![];
    while ids.len() < n {
        let id = match r.gen_range(0..4) {
            0 => r.gen_range(0..10),
            1 => r.gen_range(0..65536),
            2 => 65536 + r.gen_range(0..5),
            _ => r.gen(),
        };
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    let role = |r: &mut Rg| if r.gen_bool(0.95) { *ids.choose(r).unwrap() } else { 123456 };
    let mut pv = Priv { man: role(r), asg: [role(r), role(r)], des: role(r), reg: role(r), always: BTreeMap::new() };
    for _ in 0..r.gen_range(0..3) {
        pv.always.insert(role(r), [0u64, 300, 1500][r.gen_range(0..3)]);
    }
    let mut all_ids = ids.clone();
    // accounts waiting to be removed by their owners
    let mut doomed = vec![];
    let tomb: Vec<u8> = vec![9; 33];
    for _ in 0..r.gen_range(0..3) {
        let id = if r.gen_bool(0.5) { r.gen_range(10..60000) } else { r.gen_range(70000..80000) };
        if all_ids.contains(&id) {
            continue;
        }
        let owner = *ids.choose(r).unwrap();
        let mut code = owner.to_le_bytes().to_vec();
        code.resize(32, 0);
        let mut a = Acct { id, bal: 0, m: r.gen_range(0..40), ..Default::default() };
        a.code = Some(fr_common::ByteArray(code.try_into().unwrap()));
        let at = match r.gen_range(0..6) {
            0 => vec![1, slot],
            1 => vec![1, slot.saturating_sub(EXPIRY)],
            2 => vec![1, slot.saturating_sub(EXPIRY + 1), slot],
            3 => vec![1],
            _ => vec![1, slot.saturating_sub(EXPIRY + 1)],
        };
        let h = a.provide(&tomb, &at);
        if r.gen_bool(0.7) {
            a.pre.remove(&h);
        }
        if r.gen_bool(0.1) {
            a.st.insert(vec![1], vec![2]);
        }
        a.bal = a.threshold() + [0u64, 700][r.gen_range(0..2)];
        all_ids.push(id);
        doomed.push(a);
    }
    let mut pool = Pool::new();
    pool.put("mark", b"mark");
    pool.put("log", b"log!");
    let datas: Vec<Vec<u8>> = DATA.iter().enumerate().map(|(i, n)| (0..*n).map(|j| (i * 50 + j) as u8).collect()).collect();
    for (i, d) in datas.iter().enumerate() {
        pool.put(&format!("d{i}"), d);
        pool.put(&format!("h{i}"), &b2(d).0);
    }
    pool.put("d9", b"unrequested");
    pool.put("hd", &b2(&tomb).0);
    for (i, id) in ids.iter().take(3).enumerate() {
        let mut c = id.to_le_bytes().to_vec();
        c.resize(32, 0);
        pool.put(&format!("ho{i}"), &c);
    }
    let keys: [&[u8]; 4] = [b"", b"a", b"key", b"mark"];
    for (i, k) in keys.iter().enumerate() {
        pool.put(&format!("k{i}"), k);
    }
    for (i, n) in [1usize, 4, 30, 300].iter().enumerate() {
        let b: Vec<u8> = (0..*n).map(|_| r.gen()).collect();
        pool.put(&format!("v{i}"), &b);
    }
    for i in 0..2 {
        let b: Vec<u8> = (0..2).flat_map(|_| all_ids.choose(r).unwrap().to_le_bytes()).collect();
        pool.put(&format!("asg{i}"), &b);
        let z: Vec<u8> = (0..3).flat_map(|_| [all_ids.choose(r).unwrap().to_le_bytes().to_vec(), r.gen_range(0u64..3000).to_le_bytes().to_vec()].concat()).collect();
        pool.put(&format!("zet{i}"), &z);
    }
    pool.seal(r, 4080);

    let mut accts = doomed;
    for id in &ids {
        let mut a = Acct { id: *id, g: r.gen_range(0..50), m: [0u64, 0, 20, 200][r.gen_range(0..4)], created: r.gen_range(0..5), last: r.gen_range(0..5), parent: r.gen_range(0..3), ..Default::default() };
        let d = Draw { pool: &pool, ids: all_ids.clone(), host: *id, slot };
        // what this service is entitled to, tried more often
        let mut fav: Vec<u8> = vec![0, 1, 2, 3, 3, 4, 4, 4, 5, 17, 17, 18, 19, 20, 20, 20, 22, 23, 23, 24, 24, 25, 26, 26, 21, 6, 27, 100, 200, 14, 15, 16];
        if pv.man == *id {
            fav.extend([14, 14, 14, 14, 18]);
        }
        if pv.asg.contains(id) {
            fav.extend([15, 15, 15, 15]);
        }
        if pv.des == *id {
            fav.extend([16, 16]);
        }
        if pv.reg == *id {
            fav.extend([18, 18, 18]);
        }
        if accts.iter().any(|x| x.code.as_ref().map(|c| c.0[..4] == id.to_le_bytes()) == Some(true)) {
            fav.extend([21, 21, 21, 21]);
        }
        let mut list = |r: &mut Rg| {
            let n = r.gen_range(sh.calls.0..=sh.calls.1);
            let mut v = (0..n)
                .map(|_| {
                    let n = if r.gen_bool(sh.roles) { *fav.choose(r).unwrap() } else { [4, 17, 20, 20, 26][r.gen_range(0..5)] };
                    d.call(r, n)
                })
                .collect::<Vec<Call>>();
            // the same once more, at once or later
            for i in (0..v.len()).rev() {
                if r.gen_bool(0.08) {
                    let c = v[i].clone();
                    v.insert(r.gen_range(i + 1..=v.len()), c);
                }
            }
            v
        };
        let mut first = list(r);
        if r.gen_bool(sh.later * 0.3) {
            first.insert(r.gen_range(0..=first.len()), call(WAIT, &[(9, r.gen_range(1..80))]));
        }
        let later = if r.gen_bool(sh.later) { list(r) } else { vec![] };
        let fin = [Finish::Yield, Finish::Yield, Finish::Short, Finish::Plain, Finish::Plain, Finish::Unreadable, Finish::Trap, Finish::Trap, Finish::Spin][r.gen_range(0..9)];
        let mut code = account_code(&(0..[0usize, 4, 130][r.gen_range(0..3)]).map(|_| r.gen()).collect::<Vec<u8>>(), &program(&pool, &first, &later, r.gen_bool(0.7), fin));
        match r.gen_range(0..60) {
            0 => code = vec![],
            1 => code = vec![0x85],
            2 => code.truncate(20),
            3 => code[0] = 0xff,
            _ => {}
        }
        let h = b2(&code);
        a.code = Some(h.clone());
        if r.gen_bool(0.95) {
            a.provide(&code, &[0]);
        }
        for k in keys.iter().take(3) {
            if r.gen_bool(0.4) {
                let n = r.gen_range(0..20);
                a.st.insert(k.to_vec(), (0..n).map(|_| r.gen()).collect());
            }
        }
        // an empty value cannot be stored
        a.st.retain(|_, v| !v.is_empty());
        for x in &datas {
            let old = slot.saturating_sub(EXPIRY + 1 - r.gen_range(0..3));
            match r.gen_range(0..9) {
                0 | 1 => drop(a.provide(x, &[])),
                2 => drop(a.provide(x, &[2])),
                3 => drop(a.provide(x, &[2, old])),
                4 => drop(a.provide(x, &[2, old, slot.saturating_sub(1)])),
                _ => {}
            }
        }
        a.gratis = [0u64, 0, 0, 0, 120, 10000][r.gen_range(0..6)];
        a.bal = match r.gen_range(0..8) {
            0 => 0,
            1 => a.threshold().saturating_sub(1),
            2 => a.threshold(),
            3 => a.threshold() + r.gen_range(0..120),
            4 => 1 << 40,
            _ => a.threshold() + r.gen_range(0..3000),
        };
        accts.push(a);
    }
    let nr = r.gen_range(0..=3);
    let mut reports = vec![];
    for _ in 0..nr {
        let nd = r.gen_range(1..=3);
        let ds = (0..nd)
            .map(|_| {
                let svc = if r.gen_bool(0.03) { 99999 } else { *ids.choose(r).unwrap() };
                let gas = [0u64, 30, 300, 600, 1000, 1500, 2000][r.gen_range(0..7)];
                digest(svc, gas, r)
            })
            .collect();
        reports.push(report(r, ds));
    }
    Case { slot, accts, pv, reports }
}

/// Histories spanning several rounds which random programs hardly ever complete.
pub fn scene(r: &mut Rg) -> Case {
    let slot = 100 + r.gen_range(0..100);
    let tomb: Vec<u8> = vec![9; 33];
    let expired = vec![1, slot - EXPIRY - 1 - r.gen_range(0..3)];
    // three services in any order of ids, and one small id that may be given up and taken again
    let mut ids: Vec<u32> = vec![];
    while ids.len() < 3 {
        let id = [r.gen_range(1..9u32), r.gen_range(100..60000), 65536 + r.gen_range(0..4), r.gen_range(70000..u32::MAX)][r.gen_range(0..4)];
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    let t = loop {
        let t = [10u32, r.gen_range(10..65000)][r.gen_range(0..2)];
        if !ids.contains(&t) {
            break t;
        }
    };
    let (a, b, c) = (ids[0], ids[1], ids[2]);
    let mut pool = Pool::new();
    pool.put("mark", b"mark");
    pool.put("log", b"log!");
    let mut datas: Vec<Vec<u8>> = DATA.iter().enumerate().map(|(i, n)| (0..*n).map(|j| (i * 50 + j) as u8).collect()).collect();
    datas.push(tomb.clone());
    for (i, d) in datas.iter().enumerate() {
        pool.put(&format!("d{i}"), d);
        pool.put(&format!("h{i}"), &b2(d).0);
    }
    let at = |s: &str| pool.at[s].clone();
    let set = |pool: &mut Pool, name: &str, x: u32, y: u32| pool.put(name, &[x.to_le_bytes(), y.to_le_bytes()].concat());
    let (h5, _) = at("h5");
    let k = RO + 3;
    let v = RO + 40;
    let memo = RO + 200;
    let send = |to: u32, amount: u64, gas: u64| call(20, &[(7, to as u64), (8, amount), (9, gas), (10, memo)]);
    let write = |l: u64| call(4, &[(7, k), (8, l % 4), (9, v), (10, l)]);
    let eject = |id: u32| call(21, &[(7, id as u64), (8, h5)]);
    let gas = || call(17, &[]);
    let mark = || call(23, &[(7, RO + 1), (8, 7)]);
    let mut pv = Priv { man: a, asg: [b, c], des: b, reg: b, always: BTreeMap::new() };
    let mut prog: BTreeMap<u32, (Vec<Call>, Vec<Call>)> = ids.iter().map(|i| (*i, (vec![], vec![]))).collect();
    let mut dead: Option<u32> = Some(t);
    let mut wants: Vec<(u32, usize)> = vec![];
    let mut digests: Vec<(u32, u64)> = vec![(a, 4000)];
    let mut more: Vec<WorkReport> = vec![];
    let i = r.gen_range(0..DATA.len());
    let (d, l) = at(&format!("d{i}"));
    let (h, _) = at(&format!("h{i}"));
    let g = r.gen_range(30..60u64);
    match r.gen_range(0..7) {
        0 => {
            // credited in an earlier round, removed in a later one
            prog.get_mut(&a).unwrap().0.extend([send(t, r.gen_range(0..20), g), send(b, 3, 1500), write(9)]);
            prog.get_mut(&b).unwrap().0.extend([write(20), send(a, r.gen_range(0..5), 900)]);
            prog.get_mut(&a).unwrap().1.extend([eject(t), gas(), call(5, &[(7, OWN), (8, pool.rw), (9, 0), (10, 0)])]);
            if r.gen_bool(0.3) {
                // and credited once more when it is too late
                prog.get_mut(&b).unwrap().0.push(send(t, 5, g));
            }
        }
        1 => {
            // removed in one round, its id taken by a new account in the next
            prog.get_mut(&a).unwrap().0.extend([eject(t), send(b, 500, 2500)]);
            let (nh, nl) = if r.gen_bool(0.5) { (h5, 33) } else { (h, DATA[i] as u64) };
            let q = &mut prog.get_mut(&b).unwrap().0;
            q.push(call(18, &[(7, nh), (8, nl), (9, 5), (10, r.gen_range(0..30)), (11, 0), (12, t as u64)]));
            if r.gen_bool(0.7) {
                q.push(send(t, r.gen_range(0..9), g));
            }
            if r.gen_bool(0.7) {
                let (pd, pl) = if nh == h5 { at("d5") } else { (d, l) };
                q.push(call(26, &[(7, t as u64), (8, pd), (9, pl)]));
            }
            q.push(call(5, &[(7, t as u64), (8, RO), (9, 0), (10, 0)]));
            q.push(send(a, 1, 900));
            prog.get_mut(&a).unwrap().1.extend([call(2, &[(7, t as u64), (8, h5), (9, RO), (10, 0), (11, 0)]), eject(t), write(5)]);
        }
        2 => {
            // preimages provided to services that run in the same round
            wants.push((b, i));
            prog.get_mut(&a).unwrap().0.extend([call(26, &[(7, b as u64), (8, d), (9, l)]), write(7)]);
            digests.push((b, 2000));
            digests.push((c, 2000));
            let x = [write(12), call(24, &[(7, h), (8, l)]), call(26, &[(7, OWN), (8, d), (9, l)]), mark()][r.gen_range(0..4)].clone();
            prog.get_mut(&b).unwrap().0.push(x);
            let (dj, lj) = at("d5");
            wants.push((c, 5));
            prog.get_mut(&c).unwrap().0.extend([call(26, &[(7, b as u64), (8, d), (9, l)]), call(26, &[(7, OWN), (8, dj), (9, lj)]), send(b, 1, 500)]);
            prog.get_mut(&b).unwrap().1.extend([call(2, &[(7, OWN), (8, h), (9, RO), (10, 0), (11, 0)]), call(22, &[(7, h), (8, l)]), call(24, &[(7, h), (8, l)])]);
        }
        3 => {
            // everything burnt by services whose gas was never set aside
            let f = [0u64, 1000, 5_000_000][r.gen_range(0..3)];
            pv.always.insert(c, f);
            prog.get_mut(&c).unwrap().0.push(send(a, 0, [u64::MAX, 1 << 63, 400][r.gen_range(0..3)]));
            prog.get_mut(&a).unwrap().0.extend([write(3), send(b, 1, [u64::MAX, 1 << 40, 9_999_000][r.gen_range(0..3)])]);
            digests = vec![(a, 10_000_000)];
            for g in [10_000_000u64, f, [0u64, 1, 500][r.gen_range(0..3)]] {
                let ds = vec![digest(a, g, r)];
                more.push(report(r, ds));
            }
            prog.get_mut(&b).unwrap().0.push(write(30));
        }
        4 => {
            // privileges handed over, and used in the next round
            let (x, y) = ([a, b, c][r.gen_range(0..3)], [a, b, c][r.gen_range(0..3)]);
            set(&mut pool, "asg", x, y);
            let to = [a, b, c][r.gen_range(0..3)];
            let z = pool.put("zet", &[c.to_le_bytes().to_vec(), 700u64.to_le_bytes().to_vec(), b.to_le_bytes().to_vec(), 1u64.to_le_bytes().to_vec()].concat());
            let bless = call(14, &[(7, to as u64), (8, pool.p("asg")), (9, x as u64), (10, y as u64), (11, z), (12, r.gen_range(0..3))]);
            let use_all = |r: &mut Rg| {
                let mut q = vec![
                    call(15, &[(7, 0), (8, RO + r.gen_range(0..900)), (9, [a, b, c][r.gen_range(0..3)] as u64)]),
                    call(15, &[(7, 1), (8, RO + r.gen_range(0..900)), (9, [a, b, c][r.gen_range(0..3)] as u64)]),
                    call(16, &[(7, RO + r.gen_range(0..900))]),
                    call(18, &[(7, h), (8, l), (9, 5), (10, 5), (11, 3), (12, t as u64 + 1)]),
                    bless.clone(),
                ];
                q.shuffle(r);
                q.truncate(r.gen_range(1..5));
                q
            };
            prog.get_mut(&a).unwrap().0.push(bless.clone());
            for id in [a, b, c] {
                let (first, later) = (use_all(r), use_all(r));
                let p = prog.get_mut(&id).unwrap();
                p.0.extend(first);
                p.1.extend(later);
            }
            prog.get_mut(&a).unwrap().0.extend([send(b, 1, 1500), send(c, 1, 1500)]);
            digests.push((b, 2500));
            digests.push((c, 2500));
            prog.get_mut(&b).unwrap().0.push(send(c, 1, 900));
            pv = Priv { man: a, asg: [[a, b, c][r.gen_range(0..3)], [a, b, c][r.gen_range(0..3)]], des: [a, b, c][r.gen_range(0..3)], reg: [a, b, c][r.gen_range(0..3)], always: BTreeMap::new() };
        }
        5 => {
            // the same id wanted or freed by two services in one round
            pv.reg = a;
            let new = |id: u32| call(18, &[(7, h), (8, l), (9, 5), (10, 5), (11, 0), (12, id as u64)]);
            let fresh = call(18, &[(7, h5), (8, 40), (9, 1), (10, 1), (11, 0), (12, OWN)]);
            prog.get_mut(&a).unwrap().0.extend([eject(t), send(b, 500, 1800), send(c, 500, 1800), fresh.clone()]);
            if r.gen_bool(0.5) {
                prog.get_mut(&a).unwrap().1.extend([new(t), fresh.clone()]);
                prog.get_mut(&b).unwrap().0.push(send(a, 1, 700));
            }
            prog.get_mut(&b).unwrap().0.extend([eject(t), fresh.clone(), fresh.clone()]);
            prog.get_mut(&c).unwrap().0.extend([fresh.clone(), send(t, 4, g)]);
            digests.push((b, 2000));
        }
        _ => {
            // storage written, erased and written again in consecutive rounds, requests likewise
            wants.push((a, i));
            prog.get_mut(&a).unwrap().0.extend([write(9), write(13), call(23, &[(7, h5), (8, 33)]), call(26, &[(7, OWN), (8, d), (9, l)]), send(b, 3, 1900)]);
            prog.get_mut(&b).unwrap().0.extend([call(26, &[(7, a as u64), (8, pool.p("d5")), (9, 33)]), send(a, 2, 1400)]);
            let mut q = vec![
                call(4, &[(7, k), (8, 1), (9, v), (10, 0)]),
                call(4, &[(7, k), (8, 1), (9, v), (10, 2)]),
                call(24, &[(7, h), (8, l)]),
                call(24, &[(7, h5), (8, 33)]),
                call(23, &[(7, h), (8, l)]),
                call(3, &[(7, OWN), (8, k), (9, 1), (10, RO), (11, 0), (12, 0)]),
                call(2, &[(7, OWN), (8, h5), (9, RO), (10, 0), (11, 0)]),
                call(22, &[(7, h5), (8, 33)]),
            ];
            q.shuffle(r);
            prog.get_mut(&a).unwrap().1.extend(q);
            dead = None;
        }
    }
    if !pool.at.contains_key("asg") {
        set(&mut pool, "asg", b, c);
    }
    pool.seal(r, 4080);
    let mut accts = vec![];
    for id in &ids {
        let mut x = Acct { id: *id, g: 10, m: r.gen_range(0..30), created: 1, last: 2, ..Default::default() };
        let (mut first, later) = prog[id].clone();
        if r.gen_bool(0.25) {
            first.insert(0, call(WAIT, &[(9, r.gen_range(1..200))]));
        }
        let fin = if r.gen_bool(0.8) { Finish::Yield } else { Finish::Plain };
        let meta: Vec<u8> = (0..[0usize, 3, 20][r.gen_range(0..3)]).map(|_| r.gen()).collect();
        let code = account_code(&meta, &program(&pool, &first, &later, true, fin));
        x.code = Some(b2(&code));
        x.provide(&code, &[0]);
        for (w, i) in &wants {
            if w == id {
                x.provide(&datas[*i].clone(), &[]);
            }
        }
        x.bal = x.threshold() + 20_000;
        accts.push(x);
    }
    if let Some(t) = dead {
        let mut code = a.to_le_bytes().to_vec();
        code.resize(32, 0);
        let mut x = Acct { id: t, m: r.gen_range(0..30), ..Default::default() };
        x.code = Some(fr_common::ByteArray(code.try_into().unwrap()));
        let h = x.provide(&tomb, &expired);
        if r.gen_bool(0.5) {
            x.pre.remove(&h);
        }
        x.bal = x.threshold() + 50;
        accts.push(x);
    }
    let ds = digests.iter().map(|(s, g)| digest(*s, *g, r)).collect();
    let mut reports = vec![report(r, ds)];
    reports.extend(more);
    Case { slot, accts, pv, reports }
}

pub async fn run(args: &Args) {
    let k = Keys::new(8);
    let mut r = rng(args.seed);
    let mut out = Out::new(&args.out);
    for _ in 0..args.n {
        let sh = match args.mode.as_str() {
            "host" => Shape { services: (2, 3), calls: (4, 14), roles: 1.0, later: 0.1 },
            _ => Shape { services: (3, 6), calls: (1, 7), roles: 0.8, later: 0.5 },
        };
        let c = if args.mode == "scene" { scene(&mut r) } else { random_case(&mut r, &sh) };
        let e = play(&k, &mut r, &c).await;
        out.ev(e);
    }
    println!("{}", json!({"events": out.n}));
}
