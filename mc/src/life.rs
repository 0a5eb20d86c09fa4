//! Long lives: one parser that goes through more than 2^16 operations of each kind (and of each pair
//! of kinds), so that whatever is counted or remembered between calls has time to matter.
use crate::*;

pub const LIFE_KINDS: u64 = 12;

/// What comes in again and again.
pub fn life_unit(kind: u64) -> Vec<u8> {
    match kind {
        0 => frame(0x77, 1, &[]),
        1 => frame(5, 1, &[6, 1]),
        2 => frame(0x77, 2, &[1, 2, 3, 0xb5, 0x62, 9]),
        3 => {
            let mut f = frame(5, 1, &[6, 1]);
            f[8] ^= 1;
            f
        },
        4 => vec![0xb5, 0x62, 1, 2, 0xff, 0xff],
        5 => vec![0x24, 0x47, 0x0d],
        6 => vec![0xb5],
        7 => frame(0x77, 3, &(0..40).collect::<Vec<u8>>()),
        8 => {
            let mut f = frame(0x77, 4, &(0..40).collect::<Vec<u8>>());
            f.truncate(45);
            f
        },
        // false headers, one of a short and one of a longer frame, which an intact frame cuts short
        10 => [vec![0xb5, 0x62, 0x33, 0x44, 2, 0], frame(0x77, 6, &[])].concat(),
        11 => [vec![0xb5, 0x62, 0x33, 0x44, 0, 2], frame(0x77, 7, &[1])].concat(),
        _ => {
            let mut f = frame(0x77, 5, &[0xb5, 0x62]);
            f[9] ^= 0x80;
            f
        },
    }
}

/// One life: units of two kinds in turn, `n` of each, then two intact frames; with the ends of the units.
pub fn life(kinds: u64, n: usize) -> (Vec<u8>, Vec<usize>) {
    let u = [life_unit(kinds % LIFE_KINDS), life_unit(kinds / LIFE_KINDS % LIFE_KINDS)];
    let mut s = vec![];
    let mut ends = vec![];
    for k in 0..2 * n {
        s.extend_from_slice(&u[k % 2]);
        ends.push(s.len());
    }
    for f in [frame(0x76, 1, &(0..=255).collect::<Vec<u8>>()), frame(0x76, 2, &[0x62])] {
        s.extend(f);
        ends.push(s.len());
    }
    (s, ends)
}

/// The pieces of a life which end `shift` bytes before the ends of the units.
pub fn life_pieces<'s>(s: &'s [u8], ends: &[usize], shift: usize) -> Vec<&'s [u8]> {
    let mut v = vec![];
    let mut a = 0;
    for e in ends {
        let b = e.saturating_sub(shift).max(a);
        v.push(&s[a..b]);
        a = b;
    }
    v.push(&s[a..]);
    v
}
