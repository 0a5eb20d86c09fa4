//! Payloads with every number of repeated blocks and one block which differs, at every place.
use crate::*;

/// (definition, bytes before the blocks, bytes of a block)
pub const REPEATED: [(usize, usize, usize); 6] =
    [(PK_MonVer, 40, 30), (PK_NavSat, 8, 12), (PK_RxmRawx, 16, 32), (PK_RxmSfrbx, 8, 4), (PK_EsfRaw, 4, 8), (PK_EsfMeas, 8, 4)];

/// Every (definition, number of blocks, place of the odd block): all places for up to `full`
/// blocks, the places next to the ends and to powers of two for more.
pub fn repeat_cases(full: usize) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (j, (pk, head, blk)) in REPEATED.iter().enumerate() {
        let max = if *pk == PK_EsfMeas { 40 } else { (MAX_PAYLOAD - head) / blk };
        for n in 0..=max {
            let near = |k: usize| k <= 2 || k + 3 >= n || [7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256].contains(&k);
            if n > full && n % 16 != 0 && n + 2 < max && ![255, 256, 257].contains(&n) {
                continue;
            }
            for k in 0..n.max(1) {
                if n <= full || near(k) {
                    v.push((j, n, k));
                }
            }
        }
    }
    v
}

/// The payloads of one case.
pub fn repeated(j: usize, n: usize, k: usize) -> Vec<Vec<u8>> {
    let (pk, head, blk) = REPEATED[j];
    let at = head + k * blk;
    let mut o = vec![];
    if pk == PK_MonVer {
        // every text ends at its last byte, or early
        for early in [false, true] {
            let mut v: Vec<u8> = (0..head + n * blk).map(|i| b'A' + (i * 7 % 26) as u8).collect();
            for (a, z) in [(0, 30), (30, 40)].into_iter().chain((0..n).map(|i| (40 + 30 * i, 70 + 30 * i))) {
                v[if early { a + 4 } else { z - 1 }] = 0;
            }
            o.push(v.clone());
            if n > 0 {
                let mut w = v.clone();
                for x in &mut w[at..at + blk] {
                    if *x == 0 {
                        *x = b'q'; // not terminated
                    }
                }
                o.push(w);
                let mut w = v.clone();
                w[at + 2] = 0xff; // not text
                o.push(w);
                let mut w = v.clone();
                w[at] = 0; // empty, rubbish behind the end
                w[at + 1] = 0xc3;
                o.push(w);
            }
        }
        return o;
    }
    for bg in [0u64, 2, 7] {
        let mut v: Vec<u8> = (0..head + n * blk).map(|i| pat(bg, i)).collect();
        if pk == PK_EsfMeas {
            for tag in [0u8, 8] {
                v[4] = tag;
                v[5] = ((n.min(31)) as u8) << 3;
                if n > 0 {
                    for x in &mut v[at..at + blk] {
                        *x = 0xff;
                    }
                }
                o.push(v.clone());
                // one word more than announced: the tag
                let mut w = v.clone();
                w.extend([0x80, 0xfe, 0xff, 0x12]);
                o.push(w);
            }
            continue;
        }
        if n > 0 {
            for x in &mut v[at..at + blk] {
                *x = if bg == 0 { 0xff } else { 0 };
            }
            if bg == 7 {
                v[at + blk - 1] = 0x80;
            }
        }
        o.push(v);
    }
    o
}
