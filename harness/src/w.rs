//! Byte writer.
#[derive(Clone, Default)]
pub struct W {
    pub b: Vec<u8>,
    pub be: bool,
}
impl W {
    pub fn new(be: bool) -> Self {
        W { b: vec![], be }
    }
    pub fn le() -> Self {
        W::new(false)
    }
    pub fn len(&self) -> usize {
        self.b.len()
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.b.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut Self {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend(x);
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend(x);
        self
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend(x);
        self
    }
    /// address-sized
    pub fn word(&mut self, v: u64, is64: bool) -> &mut Self {
        if is64 {
            self.u64(v)
        } else {
            self.u32(v as u32)
        }
    }
    pub fn uleb(&mut self, mut v: u64) -> &mut Self {
        loop {
            let c = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.b.push(c);
                return self;
            }
            self.b.push(c | 0x80);
        }
    }
    pub fn sleb(&mut self, mut v: i64) -> &mut Self {
        loop {
            let c = (v & 0x7f) as u8;
            v >>= 7;
            if (v == 0 && c & 0x40 == 0) || (v == -1 && c & 0x40 != 0) {
                self.b.push(c);
                return self;
            }
            self.b.push(c | 0x80);
        }
    }
    pub fn bytes(&mut self, v: &[u8]) -> &mut Self {
        self.b.extend_from_slice(v);
        self
    }
    pub fn cstr(&mut self, v: &[u8]) -> &mut Self {
        self.b.extend_from_slice(v);
        self.b.push(0);
        self
    }
    pub fn align(&mut self, a: usize) -> &mut Self {
        while self.b.len() % a != 0 {
            self.b.push(0);
        }
        self
    }
    pub fn pad_to(&mut self, n: usize) -> &mut Self {
        while self.b.len() < n {
            self.b.push(0);
        }
        self
    }
    pub fn put32(&mut self, at: usize, v: u32) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b[at..at + 4].copy_from_slice(&x);
    }
    pub fn put16(&mut self, at: usize, v: u16) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b[at..at + 2].copy_from_slice(&x);
    }
}
