//! A minimal assembler for the guest machine and the packaging of service programs.
#[derive(Default, Clone)]
pub struct Asm {
    pub code: Vec<u8>,
    pub mask: Vec<bool>,
    pub jumps: Vec<u32>,
}

impl Asm {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn pc(&self) -> u32 {
        self.code.len() as u32
    }
    pub fn op(&mut self, bytes: &[u8]) -> &mut Self {
        for (i, b) in bytes.iter().enumerate() {
            self.code.push(*b);
            self.mask.push(i == 0);
        }
        self
    }
    pub fn trap(&mut self) -> &mut Self {
        self.op(&[0])
    }
    pub fn fallthrough(&mut self) -> &mut Self {
        self.op(&[1])
    }
    pub fn ecalli(&mut self, n: u8) -> &mut Self {
        self.op(&[10, n])
    }
    pub fn imm64(&mut self, r: u8, v: u64) -> &mut Self {
        let mut b = vec![20, r];
        b.extend_from_slice(&v.to_le_bytes());
        self.op(&b)
    }
    pub fn mov(&mut self, d: u8, a: u8) -> &mut Self {
        self.op(&[100, d | (a << 4)])
    }
    pub fn jump(&mut self, off: i32) -> &mut Self {
        let mut b = vec![40];
        b.extend_from_slice(&off.to_le_bytes());
        self.op(&b)
    }
    /// return to the address in r0 (the halt address at entry)
    pub fn ret(&mut self) -> &mut Self {
        self.op(&[50, 0])
    }
    /// halt with [r7, r7+r8) as output
    pub fn halt_with(&mut self, ptr: u64, len: u64) -> &mut Self {
        self.imm64(7, ptr).imm64(8, len).ret()
    }
    /// add_imm_64 r, r, v
    pub fn addi(&mut self, r: u8, v: i32) -> &mut Self {
        let mut b = vec![149, r | (r << 4)];
        b.extend_from_slice(&v.to_le_bytes());
        self.op(&b)
    }

    pub fn blob(&self) -> Vec<u8> {
        let mut out = vec![];
        compact(&mut out, self.jumps.len() as u64);
        out.push(4);
        compact(&mut out, self.code.len() as u64);
        for j in &self.jumps {
            out.extend_from_slice(&j.to_le_bytes());
        }
        out.extend_from_slice(&self.code);
        for ch in self.mask.chunks(8) {
            let mut b = 0u8;
            for (i, m) in ch.iter().enumerate() {
                b |= (*m as u8) << i;
            }
            out.push(b);
        }
        out
    }
}

/// Protocol compact integer (own implementation, not the codec under test).
pub fn compact(out: &mut Vec<u8>, x: u64) {
    if x == 0 {
        out.push(0);
        return;
    }
    for l in 0..8u32 {
        if x < 1u64 << (7 * (l + 1)) {
            let hi = 256u64 - (1u64 << (8 - l)) + (x >> (8 * l));
            out.push(hi as u8);
            out.extend_from_slice(&x.to_le_bytes()[..l as usize]);
            return;
        }
    }
    out.push(255);
    out.extend_from_slice(&x.to_le_bytes());
}

pub struct Prog {
    pub ro: Vec<u8>,
    pub rw: Vec<u8>,
    pub heap_pages: u16,
    pub stack: u32,
    pub code: Vec<u8>,
}

impl Prog {
    pub fn blob(&self) -> Vec<u8> {
        let mut o = vec![];
        o.extend_from_slice(&(self.ro.len() as u32).to_le_bytes()[..3]);
        o.extend_from_slice(&(self.rw.len() as u32).to_le_bytes()[..3]);
        o.extend_from_slice(&self.heap_pages.to_le_bytes());
        o.extend_from_slice(&self.stack.to_le_bytes()[..3]);
        o.extend_from_slice(&self.ro);
        o.extend_from_slice(&self.rw);
        o.extend_from_slice(&(self.code.len() as u32).to_le_bytes());
        o.extend_from_slice(&self.code);
        o
    }
}

/// Start of the read-only and of the read-write region of a program.
pub const RO: u64 = 0x10000;
pub fn rw_base(ro_len: usize) -> u64 {
    0x20000 + (ro_len as u64).div_ceil(0x10000) * 0x10000
}

/// Account code: metadata followed by the program.
pub fn account_code(meta: &[u8], prog: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    compact(&mut o, meta.len() as u64);
    o.extend_from_slice(meta);
    o.extend_from_slice(prog);
    o
}
