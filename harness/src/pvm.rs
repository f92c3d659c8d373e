//! The guest machine: random programs run by the real interpreter, recorded with everything they started from and ended with.
use crate::asm::{rw_base, Asm, Prog};
use crate::world::*;
use crate::Args;
use fr_pvm_core::{
    interpreter::Interpreter,
    program::{loader::ProgramLoader, types::program_state::ProgramState},
    state::{memory::*, vm_state::VMState},
};
use fr_pvm_host::context::{InvocationContext, IsAuthorizedHostContext};
use fr_pvm_interface::invoke::{InvocationType, PVMInterface, PVMInvocationOutput};
use fr_pvm_types::{
    constants::{MEMORY_SIZE, PAGE_SIZE},
    exit_reason::ExitReason,
    invoke_args::IsAuthorizedInvokeArgs,
};
use rand::{seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub async fn run(a: &Args) {
    let mut r = rng(a.seed);
    let mut out = Out::new(&a.out);
    match a.mode.as_str() {
        "one" => (0..a.n).for_each(|i| one(&mut r, &mut out, i)),
        "mem" => (0..a.n).for_each(|_| {
            mem(&mut r, &mut out);
            if r.gen_bool(0.3) {
                area(&mut r, &mut out);
            }
        }),
        "prog" => (0..a.n).for_each(|_| prog(&mut r, &mut out)),
        "blob" => blob(a.n, &mut r, &mut out).await,
        "std" => standard(a.n, &mut r, &mut out).await,
        m => panic!("unknown mode {m}"),
    }
    println!("{} events", out.n);
}

fn word(v: u64) -> Value {
    json!(v.to_le_bytes())
}

pub fn value(r: &mut Rg) -> u64 {
    const V: [u64; 22] = [
        0,
        1,
        2,
        7,
        31,
        32,
        63,
        64,
        127,
        128,
        255,
        256,
        0x7fff,
        0x8000,
        0xffff,
        0x7fff_ffff,
        0x8000_0000,
        0xffff_ffff,
        0x1_0000_0000,
        i64::MAX as u64,
        i64::MIN as u64,
        u64::MAX,
    ];
    match r.gen_range(0..10) {
        0..=3 => *V.choose(r).unwrap(),
        4 => (*V.choose(r).unwrap()).wrapping_add(r.gen_range(0..5)).wrapping_sub(2),
        5 => (r.gen_range(-300i64..300)) as u64,
        6 => r.gen::<u32>() as u64,
        7 => (r.gen::<i32>() as i64) as u64,
        8 => r.gen::<u64>() >> r.gen_range(0..64),
        _ => r.gen(),
    }
}

pub const OPS: [(u8, u8); 17] = [
    (0, 1),
    (10, 10),
    (20, 20),
    (30, 33),
    (40, 40),
    (50, 62),
    (70, 73),
    (80, 90),
    (100, 111),
    (120, 130),
    (131, 161),
    (170, 175),
    (180, 180),
    (190, 209),
    (210, 219),
    (220, 230),
    (190, 230),
];
fn all_ops() -> Vec<u8> {
    OPS[..16].iter().flat_map(|(a, b)| *a..=*b).collect()
}

/// A starting machine: pages, their contents, registers.
struct Raw {
    perms: Vec<(usize, usize, AccessType)>,
    data: Vec<(usize, usize, u8)>,
    regs: [u64; 13],
    gas: i64,
    brk: u32,
    limit: u32,
}

fn addr_in(r: &mut Rg, w: &Raw) -> u64 {
    let (a, b, _) = w.perms.choose(r).unwrap();
    let pg = r.gen_range(*a..=*b) as u64;
    let off = match r.gen_range(0..5) {
        0 => 0,
        1 => r.gen_range(0..16),
        2 => 4095 - r.gen_range(0..12),
        _ => r.gen_range(0..4096),
    };
    pg * 4096 + off
}

fn machine(r: &mut Rg) -> Raw {
    let base = r.gen_range(16usize..200);
    let kinds = [AccessType::ReadWrite, AccessType::ReadOnly, AccessType::Inaccessible];
    let mut perms = vec![(base, base, AccessType::ReadWrite), (base + 1, base + 1, *kinds.choose(r).unwrap()), (base + 2, base + 2, *kinds.choose(r).unwrap())];
    let heap = base + 3 + r.gen_range(1..4usize);
    perms.push((heap - 1, heap - 1, AccessType::ReadWrite));
    let limit = heap + r.gen_range(1..6usize);
    perms.push((limit, limit + 1, AccessType::ReadWrite));
    if r.gen_bool(0.3) {
        perms.push((0xfffff, 0xfffff, *kinds.choose(r).unwrap()));
    }
    if r.gen_bool(0.2) {
        perms.push((14, 15, AccessType::ReadWrite));
    }
    if r.gen_bool(0.2) {
        perms.push((0xffffe, 0xffffe, AccessType::ReadWrite));
    }
    let mut w = Raw { perms, data: vec![], regs: [0; 13], gas: 0, brk: (heap * 4096) as u32, limit: (limit * 4096) as u32 };
    let mut cells = BTreeMap::new();
    for _ in 0..r.gen_range(0..6) {
        let a = addr_in(r, &w) as usize;
        for k in 0..r.gen_range(1..9usize) {
            let x = a + k;
            if x < MEMORY_SIZE && x >= 0x10000 && w.perms.iter().any(|(p, q, t)| x / 4096 >= *p && x / 4096 <= *q && *t != AccessType::Inaccessible) {
                cells.insert((x / 4096, x % 4096), r.gen::<u8>());
            }
        }
    }
    w.data = cells.into_iter().map(|((p, o), b)| (p, o, b)).collect();
    for i in 0..13 {
        w.regs[i] = if r.gen_bool(0.3) { addr_in(r, &w) } else { value(r) };
    }
    w
}

/// Runs the real machine; records the run.
fn raw(blob: &[u8], pc: u64, w: &Raw, out: &mut Out) {
    let name = |t: &AccessType| match t {
        AccessType::Inaccessible => "NO",
        AccessType::ReadOnly => "RO",
        AccessType::ReadWrite => "RW",
    };
    let mut ev = json!({"ev": "raw", "blob": blob, "pc": pc, "gas": w.gas, "regs": w.regs.iter().map(|v| word(*v)).collect::<Vec<_>>(),
        "perms": w.perms.iter().map(|(a, b, p)| json!({"a": a, "b": b, "p": name(p)})).collect::<Vec<_>>(),
        "data": w.data.iter().map(|(p, o, b)| json!([p, o, b])).collect::<Vec<_>>(), "brk": word(w.brk as u64), "limit": word(w.limit as u64)});
    let mut ps = ProgramState::default();
    if ProgramLoader::load_program(blob, &mut ps).is_err() {
        ev["out"] = json!({"exit": "invalid"});
        out.ev(ev);
        return;
    }
    let mut mem = Memory::new(MEMORY_SIZE, PAGE_SIZE);
    mem.heap_start = w.brk;
    mem.heap_end = w.brk;
    mem.stack_start = w.limit;
    for (a, b, _) in &w.perms {
        mem.set_page_range_access(*a..*b + 1, AccessType::ReadWrite).unwrap();
    }
    for (p, o, b) in &w.data {
        mem.write_byte((p * 4096 + o) as u32, *b).unwrap();
    }
    for (a, b, t) in &w.perms {
        mem.set_page_range_access(*a..*b + 1, *t).unwrap();
    }
    let mut vm = VMState { regs: w.regs, memory: mem, pc, gas_counter: w.gas };
    let (exit, arg) = match Interpreter::invoke_general(&mut vm, &ps) {
        Ok(ExitReason::RegularHalt) => ("halt", -1),
        Ok(ExitReason::Panic) => ("panic", -1),
        Ok(ExitReason::OutOfGas) => ("oog", -1),
        Ok(ExitReason::PageFault(a)) if a % 4096 == 0 => ("fault", (a / 4096) as i64),
        Ok(ExitReason::PageFault(_)) => ("fault inside a page", -1),
        Ok(ExitReason::HostCall(h)) => ("host", h as u8 as i64),
        Ok(ExitReason::Continue) => ("continue", -1),
        Err(_) => ("error", -1),
    };
    let mut pages: Vec<usize> = w.perms.iter().flat_map(|(a, b, _)| *a..=*b).collect();
    pages.extend((w.brk / 4096) as usize..=(w.limit / 4096) as usize + 1);
    pages.sort();
    pages.dedup();
    let mut cells = vec![];
    for p in pages {
        if p >= 16 && vm.memory.is_page_range_readable(p..p + 1) {
            for (o, b) in vm.memory.read_bytes((p * 4096) as u32, 4096).unwrap().iter().enumerate() {
                if *b != 0 {
                    cells.push(json!([p, o, b]));
                }
            }
        }
    }
    ev["out"] = json!({"exit": exit, "arg": arg, "gas": vm.gas_counter, "pc": vm.pc.min(1 << 30), "regs": vm.regs.iter().map(|v| word(*v)).collect::<Vec<_>>(), "mem": cells});
    out.ev(ev);
}

fn imm(r: &mut Rg, max: usize) -> Vec<u8> {
    let n = r.gen_range(0..=max);
    value(r).to_le_bytes()[..n].to_vec()
}

/// The operand octets of one instruction with free operands.
fn operands(r: &mut Rg, op: u8, reg: &mut dyn FnMut(&mut Rg) -> u8) -> Vec<u8> {
    let mut b = vec![op];
    let two = |r: &mut Rg, reg: &mut dyn FnMut(&mut Rg) -> u8| reg(r) | (reg(r) << 4);
    match op {
        0 | 1 => {}
        10 | 40 => b.extend(imm(r, 4)),
        20 => {
            b.push(reg(r));
            b.extend(value(r).to_le_bytes());
        }
        30..=33 => {
            let x = imm(r, 4);
            b.push(x.len() as u8);
            b.extend(x);
            b.extend(imm(r, 4));
        }
        50..=62 => {
            b.push(reg(r));
            b.extend(imm(r, 4));
        }
        70..=73 | 80..=90 => {
            let x = imm(r, 4);
            b.push(reg(r) | ((x.len() as u8) << 4));
            b.extend(x);
            b.extend(imm(r, 4));
        }
        100..=111 => b.push(two(r, reg)),
        120..=161 | 170..=175 => {
            b.push(two(r, reg));
            b.extend(imm(r, 4));
        }
        180 => {
            let x = imm(r, 4);
            b.push(two(r, reg));
            b.push(x.len() as u8);
            b.extend(x);
            b.extend(imm(r, 4));
        }
        190..=230 => {
            b.push(two(r, reg));
            b.push(reg(r));
        }
        _ => b.extend(imm(r, 8)),
    }
    b
}

/// One instruction among fallthroughs and traps.
fn one(r: &mut Rg, out: &mut Out, i: usize) {
    let ops = all_ops();
    let op = if r.gen_bool(0.02) { r.gen() } else { ops[i % ops.len()] };
    let mut w = machine(r);
    let mut a = Asm::new();
    for _ in 0..r.gen_range(0..6) {
        let x = [1u8, 1, 1, 0][r.gen_range(0..4)];
        a.op(&[x]);
    }
    if r.gen_bool(0.2) {
        a.op(&[100, 0]);
    }
    let pc = a.pc();
    let mut any = |r: &mut Rg| {
        let n = if r.gen_bool(0.05) { 16 } else { 13u8 };
        r.gen_range(0..n)
    };
    let mut b = operands(r, op, &mut any);
    // operands that reach somewhere
    match op {
        40 => {
            b.truncate(1);
            b.extend(off(r.gen_range(-7..8), r.gen_range(1..5)));
        }
        80..=90 => {
            let x = ((b[1] / 16) % 8).min(4) as usize;
            b.truncate(2 + x);
            b.extend(off(r.gen_range(-7..12), r.gen_range(1..5)));
            if r.gen_bool(0.3) && x > 0 {
                let v = w.regs[(b[1] % 16).min(12) as usize];
                b[2..2 + x].copy_from_slice(&v.to_le_bytes()[..x]);
            }
        }
        170..=175 => {
            b.truncate(2);
            b.extend(off(r.gen_range(-7..12), r.gen_range(1..5)));
            if r.gen_bool(0.2) {
                w.regs[(b[1] / 16).min(12) as usize] = w.regs[(b[1] % 16).min(12) as usize];
            }
        }
        30..=33 | 52..=62 if r.gen_bool(0.7) => {
            let v = addr_in(r, &w);
            let at = 2;
            if op < 50 {
                let y = imm(r, 4);
                b = vec![op, 4];
                b.extend(&(v as u32).to_le_bytes());
                b.extend(y);
            } else {
                b.truncate(at);
                b.extend(&(v as u32).to_le_bytes());
            }
        }
        50 | 180 => {
            let k = r.gen_range(0..10u64);
            let rg = if op == 50 { b[1] % 16 } else { b[1] / 16 }.min(12) as usize;
            if r.gen_bool(0.8) {
                if op == 50 {
                    b.truncate(2);
                } else {
                    let x = b[2] as usize;
                    b.truncate(3 + x);
                }
                w.regs[rg] = if r.gen_bool(0.15) { 0xffff_0000 } else { k };
            }
        }
        70..=73 if r.gen_bool(0.7) => w.regs[(b[1] % 16).min(12) as usize] = addr_in(r, &w),
        101 => {
            w.regs[(b[1] / 16).min(12) as usize] = match r.gen_range(0..4) {
                0 => 0,
                1 => r.gen_range(0..30000),
                2 => (w.limit - w.brk) as u64 + r.gen_range(0..3) - 1,
                _ => value(r),
            }
        }
        120..=130 if r.gen_bool(0.7) => {
            let v = addr_in(r, &w);
            let d: i32 = r.gen_range(-9..9);
            w.regs[(b[1] / 16).min(12) as usize] = v.wrapping_add_signed(-(d as i64));
            b.truncate(2);
            b.extend(off(d, r.gen_range(1..5)));
        }
        _ => {}
    }
    // extreme operands together
    if matches!(op, 100..=111 | 131..=161 | 190..=230) && r.gen_bool(0.4) {
        const X: [u64; 10] =
            [0, 1, u64::MAX, i64::MIN as u64, i64::MAX as u64, 0x8000_0000, 0xffff_ffff_8000_0000, 0x7fff_ffff, 0xffff_ffff, 33];
        w.regs[(b[1] % 16).min(12) as usize] = *X.choose(r).unwrap();
        w.regs[(b[1] / 16).min(12) as usize] = *X.choose(r).unwrap();
        if (131..=161).contains(&op) {
            let n = r.gen_range(0..5);
            b.truncate(2);
            b.extend(&X.choose(r).unwrap().to_le_bytes()[..n]);
        }
    }
    let extra = if r.gen_bool(0.08) { r.gen_range(0..26) } else { 0 };
    for _ in 0..extra {
        b.push(r.gen());
    }
    if r.gen_bool(0.05) {
        let n = r.gen_range(1..=b.len());
        b.truncate(n);
    }
    a.op(&b);
    for _ in 0..r.gen_range(0..5) {
        let x = [1u8, 0, 0, 160][r.gen_range(0..4)];
        if x == 160 {
            a.op(&[161, 0x21, 3]);
        } else {
            a.op(&[x]);
        }
    }
    let n = a.code.len() as u32;
    for _ in 0..r.gen_range(0..5) {
        a.jumps.push(r.gen_range(0..n + 2));
    }
    w.gas = match r.gen_range(0..12) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => r.gen_range(3..14),
    };
    if r.gen_bool(0.1) {
        let k = r.gen_range(0..a.mask.len());
        a.mask[k] = !a.mask[k];
    }
    let start = if r.gen_bool(0.03) { r.gen_range(0..n + 3) } else { pc };
    raw(&a.blob(), start as u64, &w, out);
}

/// a signed offset in the given number of octets
fn off(v: i32, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}

/// A sequence of instructions with branches among them; registers 0..2 keep addresses.
fn body(r: &mut Rg, n: usize, hosts: bool, ind: &mut dyn FnMut(&mut Rg) -> i32) -> Asm {
    let ops = all_ops();
    let mut parts: Vec<(Vec<u8>, Option<(usize, usize)>)> = vec![]; // octets, (position of a 2-octet offset, target part)
    while parts.len() < n {
        let op = *ops.choose(r).unwrap();
        let mut src = |r: &mut Rg| if r.gen_bool(0.15) { r.gen_range(0..3) } else { r.gen_range(2..13) };
        match op {
            0 => {
                if r.gen_bool(0.1) {
                    parts.push((vec![0], None))
                }
            }
            10 => {
                if hosts {
                    let h = [0u8, 0, 100, 100, 2, 5, 26, 77][r.gen_range(0..8)];
                    parts.push((vec![10, h], None))
                } else if r.gen_bool(0.1) {
                    let mut b = vec![10];
                    b.extend(imm(r, 4));
                    parts.push((b, None))
                }
            }
            40 => parts.push((vec![40, 0, 0], Some((1, r.gen_range(parts.len().saturating_sub(3)..n + 2))))),
            50 | 180 => {
                // through the jump table: the index is loaded into a register first
                let k = (r.gen_range(0..8u8) * 2 + 2 * (r.gen_bool(0.9) as u8)).saturating_sub(r.gen_bool(0.05) as u8);
                parts.push((vec![51, 3, k], None));
                parts.push((if op == 50 { vec![50, 3] } else { vec![180, 0x34, 1, r.gen()] }, None));
            }
            80..=90 => {
                let x = r.gen_range(0..3u8);
                let mut b = vec![op, src(r) | (x << 4)];
                b.extend(&value(r).to_le_bytes()[..x as usize]);
                let at = b.len();
                b.extend([0, 0]);
                parts.push((b, Some((at, r.gen_range(parts.len().saturating_sub(6)..n + 2)))));
            }
            170..=175 => parts.push((vec![op, src(r) | (src(r) << 4), 0, 0], Some((2, r.gen_range(parts.len().saturating_sub(6)..n + 2))))),
            30..=33 | 52..=62 => {
                if r.gen_bool(0.05) {
                    parts.push((operands(r, op, &mut src), None))
                }
            }
            70..=73 => {
                let d = ind(r);
                let mut b = vec![op, r.gen_range(0..3) | 0x20];
                b.extend(off(d, 2));
                b.extend(imm(r, 4));
                parts.push((b, None));
            }
            120..=130 => {
                let d = ind(r);
                let rb = if r.gen_bool(0.97) { r.gen_range(0..3u8) } else { 5 };
                let mut b = vec![op, r.gen_range(3..13u8) | (rb << 4)];
                b.extend(off(d, 2));
                parts.push((b, None));
            }
            101 => {
                parts.push((vec![51, 4, r.gen(), r.gen_range(0..0x60)], None));
                parts.push((vec![101, 0x45], None));
            }
            _ => {
                let mut b = operands(r, op, &mut src);
                // addresses stay where they are
                match op {
                    20 | 51 => b[1] = r.gen_range(3..13),
                    100..=111 | 131..=161 => b[1] = (b[1] & 0xf0) | r.gen_range(3..13u8),
                    190..=230 => b[2] = r.gen_range(3..13),
                    _ => {}
                }
                parts.push((b, None));
            }
        }
        if r.gen_bool(0.15) {
            parts.push((vec![1], None));
        }
    }
    let mut at = vec![];
    let mut x = 0;
    for (b, _) in &parts {
        at.push(x);
        x += b.len();
    }
    at.push(x);
    let mut a = Asm::new();
    // branches go to block starts most of the time: put a fallthrough's successor there when there is one
    let ends = |b: &[u8]| matches!(b[0], 0 | 1 | 40 | 50 | 80..=90 | 170..=175 | 180);
    let starts: Vec<usize> = std::iter::once(0).chain((1..at.len()).filter(|k| ends(&parts[k - 1].0))).collect();
    for (k, (b, t)) in parts.iter().enumerate() {
        let mut b = b.clone();
        if let Some((p, t)) = t {
            let mut t = (*t).min(at.len() - 1);
            if r.gen_bool(0.93) {
                t = *starts.iter().min_by_key(|s| (**s as i64 - t as i64).abs()).unwrap();
            }
            let mut d = at[t] as i32 - at[k] as i32;
            if r.gen_bool(0.01) {
                d += 1;
            }
            b[*p..*p + 2].copy_from_slice(&(d as i16).to_le_bytes());
        }
        a.op(&b);
    }
    for _ in 0..r.gen_range(0..9) {
        let t = if r.gen_bool(0.9) { *starts.choose(r).unwrap() } else { r.gen_range(0..at.len()) };
        a.jumps.push(at[t] as u32);
    }
    a
}

fn prog(r: &mut Rg, out: &mut Out) {
    let mut w = machine(r);
    for i in 0..3 {
        w.regs[i] = w.perms[0].0 as u64 * 4096 + r.gen_range(200..3800);
    }
    let n = r.gen_range(4..60);
    let a = body(r, n, false, &mut |r| if r.gen_bool(0.97) { r.gen_range(-200..200) } else { r.gen_range(-5000..9000) });
    w.gas = if r.gen_bool(0.3) { r.gen_range(0..40) } else { r.gen_range(40..150) };
    raw(&a.blob(), 0, &w, out);
}

/// Loads, stores and heap growth over random page tables.
fn mem(r: &mut Rg, out: &mut Out) {
    let mut w = machine(r);
    for _ in 0..r.gen_range(0..3) {
        // a second thought about some page
        let (a, b, _) = *w.perms.choose(r).unwrap();
        let p = r.gen_range(a..=b);
        w.perms.push((p, p, [AccessType::ReadWrite, AccessType::ReadOnly, AccessType::Inaccessible][r.gen_range(0..3)]));
    }
    let perm = |w: &Raw, p: usize| w.perms.iter().rev().find(|(a, b, _)| p >= *a && p <= *b).map(|x| x.2).unwrap_or_default();
    w.data.retain(|d| w.perms.iter().rev().find(|(a, b, _)| d.0 >= *a && d.0 <= *b).map(|x| x.2) != Some(AccessType::Inaccessible));
    let mut a = Asm::new();
    let n = r.gen_range(1..14);
    let mut grown = 0u64;
    for _ in 0..n {
        let op = match r.gen_range(0..20) {
            0..=1 => 101,
            2..=4 => r.gen_range(30..34),
            5..=8 => r.gen_range(52..63),
            9..=11 => r.gen_range(70..74),
            _ => r.gen_range(120..131u8),
        };
        if op == 101 {
            let size = match r.gen_range(0..6) {
                0 => 0,
                1 => 4096,
                2 => r.gen_range(1..5),
                3 => (w.limit - w.brk) as u64 - grown.min((w.limit - w.brk) as u64) + r.gen_range(0..2),
                _ => r.gen_range(1..9000),
            };
            if w.brk as u64 + grown + size < w.limit as u64 {
                grown += size;
            }
            let mut b = vec![20, 9];
            b.extend(size.to_le_bytes());
            a.op(&b);
            let d = [10u8, 11, 12][r.gen_range(0..3)];
            a.op(&[101, d | 0x90]);
            continue;
        }
        let writes = matches!(op, 30..=33 | 59..=62 | 70..=73 | 120..=123);
        let mut v = 0u64;
        for _ in 0..40 {
            v = if grown > 0 && r.gen_bool(0.3) { w.brk as u64 + r.gen_range(0..grown) } else { addr_in(r, &w) };
            let p = perm(&w, (v / 4096) as usize);
            let fine = p == AccessType::ReadWrite || (!writes && p == AccessType::ReadOnly) || (v >= w.brk as u64 && v < w.brk as u64 + grown);
            if v >= 65536 && fine || r.gen_bool(0.03) {
                break;
            }
        }
        let rd = r.gen_range(0..9u8);
        let d: i32 = r.gen_range(-20..20);
        let mut b = vec![];
        match op {
            30..=33 => {
                b.extend([op, 4]);
                b.extend((v as u32).to_le_bytes());
                b.extend(imm(r, 4));
            }
            52..=62 => {
                b.extend([op, rd]);
                b.extend((v as u32).to_le_bytes());
            }
            _ => {
                let mut x = vec![20, 9];
                // addresses are taken modulo 2^32
                let hi = if r.gen_bool(0.1) { (r.gen_range(0..4u64)) << 32 } else { 0 };
                x.extend((v.wrapping_sub(d as i64 as u64).wrapping_add(hi)).to_le_bytes());
                a.op(&x);
                if op < 80 {
                    b.extend([op, 9 | 0x10]);
                    b.extend(off(d, 1));
                    b.extend(imm(r, 4));
                } else {
                    b.extend([op, rd | 0x90]);
                    b.extend(off(d, 1));
                }
            }
        }
        a.op(&b);
    }
    a.trap();
    w.gas = if r.gen_bool(0.1) { r.gen_range(0..20) } else { 60 };
    raw(&a.blob(), 0, &w, out);
}

/// A memory used directly, as host calls do: ranges of any length over pages of any kind.
fn area(r: &mut Rg, out: &mut Out) {
    let base = [14usize, 16, 17, 100, 0xfff0, 0xffffb][r.gen_range(0..6)];
    let pages = 0x100000usize.saturating_sub(base).min(8);
    let (first, end) = (16 - (base as i64).min(16), (0x100000 - base).min(1000) as i64 * 4096);
    let mut mem = Memory::new(MEMORY_SIZE, PAGE_SIZE);
    let mut calls = vec![];
    let lowest = first.max(0) as usize;
    for i in 0..r.gen_range(8..20) {
        let given = [AccessType::ReadWrite, AccessType::ReadWrite, AccessType::ReadOnly, AccessType::Inaccessible][r.gen_range(0..4)];
        let name = ["RW", "RO", "NO"][[AccessType::ReadWrite, AccessType::ReadOnly, AccessType::Inaccessible].iter().position(|x| *x == given).unwrap()];
        let page = r.gen_range(lowest..pages);
        let several = r.gen_range(0..=(pages - page).min(4));
        let at = match r.gen_range(0..4) {
            0 => page * 4096,
            1 => page * 4096 + 4095 - r.gen_range(0..3),
            _ => page * 4096 + r.gen_range(0..4096),
        };
        let n = match r.gen_range(0..6) {
            0 => 0,
            1 => 1,
            2 => 4096 - at % 4096 + r.gen_range(0..2),
            3 => r.gen_range(1..4096),
            _ => r.gen_range(1..4 * 4096),
        };
        // now and then below what is allowed, or beyond the end
        let (at, n) = if r.gen_bool(0.05) { (lowest * 4096 - (lowest * 4096).min(r.gen_range(1..9000)), n) } else if at as i64 + n as i64 > end && r.gen_bool(0.7) { (at, end as usize - at) } else { (at, n) };
        let addr = (base * 4096 + at) as u32;
        let told = |res: Result<(), MemoryError>| match res {
            Ok(()) => ("ok", -1),
            Err(MemoryError::Forbidden(_) | MemoryError::OutOfRange(_)) => ("panic", -1),
            Err(MemoryError::AccessViolation(a)) if a % 4096 == 0 => ("fault", (a / 4096) as i64 - base as i64),
            Err(MemoryError::AccessViolation(_)) => ("fault inside a page", -1),
            Err(_) => ("error", -1),
        };
        calls.push(match if i < 2 { 0 } else { r.gen_range(0..12) } {
            0 => json!({"op": "pages", "at": page, "n": several, "p": name, "out": mem.set_page_range_access(base + page..base + page + several, given).is_ok()}),
            1 => {
                let n = n.min((end as usize - at).min(pages * 4096 - at.min(pages * 4096)));
                let (at, n) = if at < lowest * 4096 || base + pages == 0x100000 { (page * 4096, several.min(1)) } else { (at, n) };
                let addr = (base * 4096 + at) as u32;
                json!({"op": "addresses", "at": at, "n": n, "p": name, "out": mem.set_address_range_access(addr..addr + n as u32, given).is_ok()})
            }
            2 => json!({"op": "clear", "at": page, "n": several, "out": mem.clear_page_range(base + page..base + page + several).is_ok()}),
            3 | 4 => json!({"op": "readable", "at": at, "n": n, "out": mem.is_address_range_readable(addr, n)}),
            5 | 6 => json!({"op": "writable", "at": at, "n": n, "out": mem.is_address_range_writable(addr, n)}),
            7..=9 => {
                let v = r.gen_range(1..=255u8);
                let (o, p) = told(mem.write_bytes(addr, &vec![v; n]));
                json!({"op": "write", "at": at, "n": n, "v": v, "out": o, "page": p})
            }
            _ => {
                let res = mem.read_bytes(addr, n);
                let mut runs: Vec<(usize, usize, u8)> = vec![];
                for (k, b) in res.as_ref().map(|v| v.as_slice()).unwrap_or(&[]).iter().enumerate() {
                    match runs.last_mut() {
                        Some(l) if l.2 == *b => l.1 += 1,
                        _ => runs.push((at + k, 1, *b)),
                    }
                }
                if let Ok(v) = &res {
                    assert_eq!(v.len(), n, "as many octets as were asked for");
                }
                let (o, p) = told(res.map(|_| ()));
                json!({"op": "read", "at": at, "n": n, "out": o, "page": p, "runs": runs})
            }
        });
    }
    out.ev(json!({"ev": "area", "first": first, "end": end, "calls": calls}));
}

struct Host {
    chain: Chain,
}

impl Host {
    async fn new(r: &mut Rg) -> Host {
        let k = Keys::new(12);
        let ss = base_states(&k, r, 100);
        Host { chain: Chain::new(ss, genesis_header(100, b"pvm"), |_| async {}).await }
    }
    async fn std(&self, blob: &[u8], args: &[u8], pc: u64, gas: u64, out: &mut Out) {
        let ctx = IsAuthorizedInvokeArgs { package: Default::default(), core_idx: 0 };
        let res = PVMInterface::invoke_with_args(
            self.chain.sm(),
            0,
            blob,
            &InvocationType::IsAuthorized,
            pc,
            gas,
            args,
            &mut InvocationContext::X_I(IsAuthorizedHostContext::new(ctx)),
            None,
        )
        .await;
        let o = match res {
            Ok(x) => {
                let (e, v) = match x.output {
                    PVMInvocationOutput::Output(v) => ("halt", json!(v)),
                    PVMInvocationOutput::OutputUnavailable => ("halt", json!("none")),
                    PVMInvocationOutput::OutOfGas(_) => ("oog", json!("none")),
                    PVMInvocationOutput::Panic(_) => ("panic", json!("none")),
                };
                json!({"exit": e, "used": x.gas_used, "output": v})
            }
            Err(_) => json!({"exit": "error", "used": 0, "output": "none"}),
        };
        out.ev(json!({"ev": "std", "blob": blob, "args": args, "pc": pc, "gas": gas, "out": o}));
    }
}

fn bytes(r: &mut Rg, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.gen()).collect()
}

/// A standard program that ends by writing its registers out and halting with them.
fn std_program(r: &mut Rg) -> (Prog, u64) {
    let ro_len = if r.gen_bool(0.1) { r.gen_range(4090..4110) } else { r.gen_range(0..40) };
    let rw_len = if r.gen_bool(0.1) { r.gen_range(4090..4110) } else { r.gen_range(0..60) };
    let heap_pages = r.gen_range(0..4u16);
    let stack = [0u32, 1, 4096, 4097, 9000, 70000][r.gen_range(0..6)];
    let rw = rw_base(ro_len);
    let mut a = Asm::new();
    let n = r.gen_range(3..26);
    // jump over nothing, load a few registers, then the body
    let mut pre = Asm::new();
    if r.gen_bool(0.85) {
        pre.imm64(2, if r.gen_bool(0.5) { rw + r.gen_range(0..64) } else { (1u64 << 32) - 2 * 65536 - (1 << 24) - r.gen_range(1..80) });
        pre.op(&[100, 0x20]); // r0 := r2 (the return address is put back before the end)
    }
    if r.gen_bool(0.5) {
        pre.imm64(1, 0xFEFF_0000 + r.gen_range(0..20)); // inside the arguments
    }
    let b = body(r, n, true, &mut |r| r.gen_range(-4..30));
    let shift = pre.code.len() as u32;
    a.code.extend(&pre.code);
    a.mask.extend(&pre.mask);
    a.code.extend(&b.code);
    a.mask.extend(&b.mask);
    a.jumps = b.jumps.iter().map(|j| j + shift).collect();
    let mut pc = 0;
    // epilogue
    let dump = if r.gen_bool(0.5) || rw_len + heap_pages as usize * 4096 < 200 { (1u64 << 32) - 2 * 65536 - (1 << 24) - 120 } else { rw + 64 };
    let mut e = Asm::new();
    for x in 0..13u8 {
        let mut b = vec![62, x];
        b.extend(((dump as u32) + 8 * x as u32).to_le_bytes());
        e.op(&b);
    }
    e.imm64(0, 0xFFFF_0000);
    let (p, l) = match r.gen_range(0..12) {
        0 => (value(r), value(r)),
        1 => (rw, 0),
        2 => (0, 0),
        3 => (0x1_0000_0000, 0),
        4 => (0x10000, ro_len as u64),
        5 => (rw, rw_len as u64 + r.gen_range(0..3)),
        6 => (0xFEFF_0000, r.gen_range(0..50)),
        _ => (dump, 104),
    };
    e.halt_with(p, l);
    a.code.extend(&e.code);
    a.mask.extend(&e.mask);
    if r.gen_bool(0.1) {
        pc = 5;
    }
    (Prog { ro: bytes(r, ro_len), rw: bytes(r, rw_len), heap_pages, stack, code: a.blob() }, pc)
}

async fn standard(n: usize, r: &mut Rg, out: &mut Out) {
    let h = Host::new(r).await;
    let mut old: Vec<(Vec<u8>, u64)> = vec![];
    for _ in 0..n {
        let (blob, pc) = if !old.is_empty() && r.gen_bool(0.3) {
            old.choose(r).unwrap().clone()
        } else {
            let (p, pc) = std_program(r);
            old.push((p.blob(), pc));
            (p.blob(), pc)
        };
        let la = if r.gen_bool(0.1) { r.gen_range(4090..4100) } else { r.gen_range(0..40) };
        let args = bytes(r, la);
        let gas = if r.gen_bool(0.3) { r.gen_range(0..60) } else { r.gen_range(60..260) };
        h.std(&blob, &args, pc, gas, out).await;
    }
}

/// Malformed and odd programs.
async fn blob(n: usize, r: &mut Rg, out: &mut Out) {
    let h = Host::new(r).await;
    for _ in 0..n {
        let k = r.gen_range(1..8);
        let mut a = body(r, k, false, &mut |_| 0);
        if r.gen_bool(0.3) {
            a.jumps.clear();
        }
        let mut code = a.blob();
        if r.gen_bool(0.3) {
            // another width of the jump table's entries
            let z = r.gen_range(0..7u8);
            code.clear();
            crate::asm::compact(&mut code, a.jumps.len() as u64);
            code.push(z);
            crate::asm::compact(&mut code, a.code.len() as u64);
            for j in &a.jumps {
                let mut e = j.to_le_bytes().to_vec();
                e.resize(z as usize, 0);
                code.extend(e);
            }
            code.extend(&a.code);
            for ch in a.mask.chunks(8) {
                code.push(ch.iter().enumerate().fold(0u8, |x, (i, m)| x | ((*m as u8) << i)));
            }
        }
        let whole = r.gen_bool(0.5);
        let mut p = Prog { ro: bytes(r, 5), rw: bytes(r, 7), heap_pages: r.gen_range(0..3), stack: r.gen_range(0..9000), code: code.clone() };
        if r.gen_bool(0.1) {
            p.heap_pages = 0xffff;
            p.stack = 0xff_ffff;
        }
        let mut b = if whole { p.blob() } else { code };
        match r.gen_range(0..9) {
            0 => {
                let k = r.gen_range(0..=b.len());
                b.truncate(k)
            }
            1 => {
                let k = r.gen_range(1..5);
                b.extend(bytes(r, k))
            }
            2 | 3 => {
                let k = r.gen_range(0..b.len().min(16));
                b[k] = r.gen();
            }
            4 => {
                let k = r.gen_range(0..b.len());
                b[k] ^= 1 << r.gen_range(0..8);
            }
            5 => {
                let k = r.gen_range(0..b.len());
                b.remove(k);
            }
            6 => {
                let mut x = vec![];
                crate::asm::compact(&mut x, value(r));
                let at = if whole { 11.min(b.len()) } else { 0 };
                b.splice(at..(at + 1).min(b.len()), x);
            }
            _ => {}
        }
        if whole {
            h.std(&b, &[1, 2, 3], 0, r.gen_range(5..80), out).await;
        } else {
            let mut w = machine(r);
            w.gas = r.gen_range(5..60);
            raw(&b, 0, &w, out);
        }
    }
}
