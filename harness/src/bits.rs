//! Bit writer, bit-at-a-time model reader and bitwise checksums. All written
//! from the format description, independent of the code under test.

#[derive(Clone, Default)]
pub struct BitWriter {
    pub bytes: Vec<u8>,
    nbits: u32,
}

impl BitWriter {
    pub fn new() -> BitWriter {
        BitWriter { bytes: Vec::new(), nbits: 0 }
    }

    pub fn bit(&mut self, b: bool) {
        if self.nbits == 0 {
            self.bytes.push(0);
        }
        if b {
            let i = self.bytes.len() - 1;
            self.bytes[i] |= 0x80 >> self.nbits;
        }
        self.nbits = (self.nbits + 1) % 8;
    }

    pub fn put(&mut self, value: u64, n: u32) {
        for i in (0..n).rev() {
            self.bit((value >> i) & 1 == 1);
        }
    }

    /// Two's complement, n bits.
    pub fn put_signed(&mut self, value: i64, n: u32) {
        self.put(value as u64, n);
    }

    pub fn unary(&mut self, zeros: u64) {
        let mut left = zeros;
        while left > 0 && self.nbits != 0 {
            self.bit(false);
            left -= 1;
        }
        while left >= 8 && self.nbits == 0 {
            self.bytes.push(0);
            left -= 8;
        }
        for _ in 0..left {
            self.bit(false);
        }
        self.bit(true);
    }

    pub fn align(&mut self) {
        self.nbits = 0;
    }

    pub fn bit_len(&self) -> u64 {
        if self.nbits == 0 {
            self.bytes.len() as u64 * 8
        } else {
            (self.bytes.len() as u64 - 1) * 8 + self.nbits as u64
        }
    }
}

/// Reads bits from a slice by plain indexing. `None` means out of data.
#[derive(Clone)]
pub struct BitModel<'a> {
    pub data: &'a [u8],
    pub pos: u64,
}

impl<'a> BitModel<'a> {
    pub fn new(data: &'a [u8]) -> BitModel<'a> {
        BitModel { data, pos: 0 }
    }

    pub fn bit(&mut self) -> Option<bool> {
        let byte = *self.data.get((self.pos / 8) as usize)?;
        let b = (byte >> (7 - self.pos % 8)) & 1 == 1;
        self.pos += 1;
        Some(b)
    }

    pub fn get(&mut self, n: u32) -> Option<u64> {
        let mut v = 0u64;
        for _ in 0..n {
            v = v << 1 | self.bit()? as u64;
        }
        Some(v)
    }

    pub fn get_signed(&mut self, n: u32) -> Option<i64> {
        let v = self.get(n)? as i64;
        if n > 0 && (v >> (n - 1)) & 1 == 1 {
            Some(v - (1i64 << n))
        } else {
            Some(v)
        }
    }

    pub fn unary(&mut self) -> Option<u64> {
        let mut n = 0;
        while !self.bit()? {
            n += 1;
        }
        Some(n)
    }

    /// Moves to the next byte boundary; true if the skipped bits were all zero.
    pub fn align(&mut self) -> bool {
        let mut zero = true;
        while self.pos % 8 != 0 {
            zero &= !self.bit().unwrap();
        }
        zero
    }

    pub fn byte_pos(&self) -> usize {
        ((self.pos + 7) / 8) as usize
    }
}

/// x^8 + x^2 + x + 1, initial value 0, bit by bit.
pub fn crc8(data: &[u8]) -> u8 {
    let mut r = 0u8;
    for &b in data {
        r ^= b;
        for _ in 0..8 {
            r = if r & 0x80 != 0 { (r << 1) ^ 0x07 } else { r << 1 };
        }
    }
    r
}

/// x^16 + x^15 + x^2 + 1, initial value 0. Table generated at first use from
/// the polynomial.
pub fn crc16(data: &[u8]) -> u16 {
    use std::sync::OnceLock;
    static T: OnceLock<[u16; 256]> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u16; 256];
        for i in 0..256u32 {
            let mut r = (i << 8) as u16;
            for _ in 0..8 {
                r = if r & 0x8000 != 0 { (r << 1) ^ 0x8005 } else { r << 1 };
            }
            t[i as usize] = r;
        }
        t
    });
    let mut r = 0u16;
    for &b in data {
        r = (r << 8) ^ t[((r >> 8) as u8 ^ b) as usize];
    }
    r
}
