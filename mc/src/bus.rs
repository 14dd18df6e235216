//! The memory both the model and the implementation run on: a deterministic 32-bit address space with an overlay of
//! preset bytes, a log of the bytes written, and injectable failures.

/// An access as seen by the memory.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Acc {
    pub addr: u32,
    pub len: u8,
    pub write: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Refuses { Everything, Reads, Writes }

#[derive(Clone)]
pub struct Bus {
    pub seed: u32,
    /// When set, the exception vector table holds `handler(v)` for every vector.
    pub vectors: bool,
    /// Everything else reads as NOP.
    pub nops: bool,
    pub code_base: u32,
    pub code: [u8; 32],
    pub code_len: u32,
    pub preset: Vec<(u32, u8)>,
    /// Bytes written, in order.
    pub w: Vec<(u32, u8)>,
    /// Refused ranges (start, length).
    pub holes: Vec<(u32, u32)>,
    /// What the holes refuse.
    pub refuses: Refuses,
    /// Ignore holes and alignment (used by the model to learn a footprint).
    pub lenient: bool,
    /// Number of odd word accesses the memory was asked for.
    pub odd: u32,
    /// Number of refused accesses.
    pub refused: u32,
    pub n: u32,
    pub fuse: u32,
    pub resets: u32,
    pub rec: bool,
    pub log: Vec<Acc>,
}

/// The handler address the vector table holds for a vector.
pub fn handler(v: u8) -> u32 {
    0x0060_0000 + (v as u32) * 0x40
}

pub const RESET_SSP: u32 = 0x0000_9000;

impl Bus {
    pub fn new(seed: u32) -> Bus {
        Bus {
            seed, vectors: true, nops: false, code_base: 0, code: [0; 32], code_len: 0, preset: Vec::new(), w: Vec::with_capacity(80),
            holes: Vec::new(), refuses: Refuses::Everything, lenient: false, odd: 0, refused: 0, n: 0, fuse: u32::MAX, resets: 0, rec: false, log: Vec::new(),
        }
    }

    /// Forgets everything but the seed.
    pub fn clear(&mut self) {
        self.preset.clear();
        self.reset_log();
        self.holes.clear();
        self.refuses = Refuses::Everything;
        self.code_len = 0;
        self.lenient = false;
        self.nops = false;
        self.vectors = true;
    }

    pub fn reset_log(&mut self) {
        self.w.clear();
        self.log.clear();
        self.odd = 0;
        self.refused = 0;
        self.n = 0;
        self.resets = 0;
    }

    pub fn set_code(&mut self, base: u32, words: &[u16]) {
        self.code_base = base;
        self.code_len = words.len() as u32 * 2;
        for (i, w) in words.iter().enumerate() {
            self.code[2 * i] = (w >> 8) as u8;
            self.code[2 * i + 1] = *w as u8;
        }
    }

    pub fn put8(&mut self, a: u32, v: u8) {
        self.preset.push((a, v));
    }
    pub fn put16(&mut self, a: u32, v: u16) {
        self.put8(a, (v >> 8) as u8);
        self.put8(a.wrapping_add(1), v as u8);
    }
    pub fn put32(&mut self, a: u32, v: u32) {
        self.put16(a, (v >> 16) as u16);
        self.put16(a.wrapping_add(2), v as u16);
    }
    /// Presets an operand of `sz` bytes.
    pub fn put(&mut self, a: u32, sz: u8, v: u32) {
        match sz { 1 => self.put8(a, v as u8), 2 => self.put16(a, v as u16), _ => self.put32(a, v) }
    }

    pub fn initial(&self, a: u32) -> u8 {
        for &(pa, v) in self.preset.iter().rev() {
            if pa == a { return v; }
        }
        let o = a.wrapping_sub(self.code_base);
        if o < self.code_len {
            return self.code[o as usize];
        }
        if a < 0x400 && self.vectors {
            let l = if a < 4 { RESET_SSP } else { handler((a >> 2) as u8) };
            return (l >> (24 - 8 * (a & 3))) as u8;
        }
        if self.nops { return if a & 1 == 0 { 0x4E } else { 0x71 }; }
        let h = (a ^ self.seed).wrapping_mul(0x9E37_79B1);
        ((h >> 24) ^ (h >> 11)) as u8
    }

    #[inline]
    pub fn peek(&self, a: u32) -> u8 {
        for &(wa, v) in self.w.iter().rev() {
            if wa == a { return v; }
        }
        self.initial(a)
    }
    pub fn peek16(&self, a: u32) -> u16 {
        (self.peek(a) as u16) << 8 | self.peek(a.wrapping_add(1)) as u16
    }
    pub fn peek32(&self, a: u32) -> u32 {
        (self.peek16(a) as u32) << 16 | self.peek16(a.wrapping_add(2)) as u32
    }

    /// Final content of the written bytes: sorted, one entry per address, dropping those equal to the initial content
    /// when `changes_only`.
    pub fn delta(&self, out: &mut Vec<(u32, u8)>) {
        out.clear();
        for i in (0..self.w.len()).rev() {
            let (a, v) = self.w[i];
            if !out.iter().any(|e| e.0 == a) {
                out.push((a, v));
            }
        }
        out.retain(|&(a, v)| self.initial(a) != v);
        out.sort_unstable();
    }

    #[inline]
    fn tick(&mut self) {
        self.n += 1;
        if self.n > self.fuse {
            panic!("memory access fuse blown: the step does not terminate");
        }
    }

    #[inline]
    fn refuse(&mut self, a: u32, len: u8, write: bool) -> bool {
        if self.holes.is_empty() || self.lenient || self.refuses == (if write { Refuses::Reads } else { Refuses::Writes }) { return false; }
        for &(s, l) in &self.holes {
            for i in 0..len as u32 {
                if a.wrapping_add(i).wrapping_sub(s) < l {
                    self.refused += 1;
                    return true;
                }
            }
        }
        false
    }

    pub fn rd8(&mut self, a: u32) -> Option<u8> {
        self.tick();
        if self.rec { self.log.push(Acc { addr: a, len: 1, write: false }); }
        if self.refuse(a, 1, false) { return None; }
        Some(self.peek(a))
    }
    pub fn rd16(&mut self, a: u32) -> Option<u16> {
        self.tick();
        if self.rec { self.log.push(Acc { addr: a, len: 2, write: false }); }
        if a & 1 != 0 { self.odd += 1; }
        if self.refuse(a, 2, false) { return None; }
        Some(self.peek16(a))
    }
    pub fn wr8(&mut self, a: u32, v: u8) -> Option<()> {
        self.tick();
        if self.rec { self.log.push(Acc { addr: a, len: 1, write: true }); }
        if self.refuse(a, 1, true) { return None; }
        self.w.push((a, v));
        Some(())
    }
    pub fn wr16(&mut self, a: u32, v: u16) -> Option<()> {
        self.tick();
        if self.rec { self.log.push(Acc { addr: a, len: 2, write: true }); }
        if a & 1 != 0 { self.odd += 1; }
        if self.refuse(a, 2, true) { return None; }
        self.w.push((a, (v >> 8) as u8));
        self.w.push((a.wrapping_add(1), v as u8));
        Some(())
    }
}

impl m68000::MemoryAccess for Bus {
    fn get_byte(&mut self, addr: u32) -> Option<u8> { self.rd8(addr) }
    fn get_word(&mut self, addr: u32) -> Option<u16> { self.rd16(addr) }
    fn set_byte(&mut self, addr: u32, value: u8) -> Option<()> { self.wr8(addr, value) }
    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> { self.wr16(addr, value) }
    fn reset_instruction(&mut self) { self.resets += 1; }
}
