//! Long streams: offsets, lengths and counts beyond 8, 15 and 16 bits.
use crate::*;

/// Numbers around the powers of two from 2^lo to 2^hi.
pub fn around(lo: u32, hi: u32, d: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (lo..=hi).flat_map(|k| (1usize << k).saturating_sub(d)..=(1usize << k) + d).collect();
    v.sort_unstable();
    v.dedup();
    v
}

pub const LONG_KINDS: u64 = 8;

/// About `n` bytes of stream kind `kind`, then two intact frames (one of 300 bytes).
pub fn long_stream(kind: u64, n: usize) -> Vec<u8> {
    let mut s: Vec<u8> = vec![];
    let rep = |s: &mut Vec<u8>, unit: &[u8]| {
        while s.len() < n {
            let k = unit.len().min(n - s.len());
            s.extend_from_slice(&unit[..k]);
        }
    };
    match kind {
        0 => rep(&mut s, &[0x24, 0x47, 0x62, 0x00]),
        1 => rep(&mut s, &[0xb5]),
        2 => rep(&mut s, &[0xb5, 0x62, 1, 2, 0xff, 0xff]),
        3 => {
            let mut f = frame(5, 1, &[6, 1]);
            f[8] ^= 1;
            rep(&mut s, &f)
        },
        4 => rep(&mut s, &frame(0x77, 1, &[])),
        5 => rep(&mut s, &frame(0x77, 2, &[1, 2, 3, 0xb5, 0x62])),
        6 => rep(&mut s, &frame(0x77, 3, &(0..997).map(|k| (k % 255) as u8).collect::<Vec<_>>())),
        _ => rep(&mut s, &frame(0x77, 4, &vec![0xb5; 8176])),
    }
    s.extend(frame(0x76, 1, &(0..292).map(|k| (k * 3) as u8).collect::<Vec<_>>()));
    s.extend(frame(0x76, 2, &[0x62]));
    s
}
