//! The replay checksum, bit by bit, from its published parameters.
pub fn crc(data: &[u8]) -> u32 {
    let mut c: u32 = !0xefcb_f201u32;
    for &b in data {
        c ^= (b as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04c1_1db7 } else { c << 1 };
        }
    }
    !c
}

/// The same through a byte table (used on larger images; self-tested against
/// the bitwise form at start-up).
pub struct Table([u32; 256]);
pub fn table() -> &'static Table {
    static T: std::sync::OnceLock<Table> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = (i as u32) << 24;
            for _ in 0..8 {
                c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04c1_1db7 } else { c << 1 };
            }
            *e = c;
        }
        Table(t)
    })
}
pub fn fast(data: &[u8]) -> u32 {
    let t = &table().0;
    let mut c: u32 = !0xefcb_f201u32;
    for &b in data {
        c = (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize];
    }
    !c
}
