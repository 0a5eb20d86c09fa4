//! The reference model of UBX framing. Independent of the code under test.

/// Largest payload any packet of the crate supports (UBX-RXM-RAWX, 16 + 255 * 32).
pub const MAX_PAYLOAD: usize = 8176;

pub fn fletcher(data: &[u8]) -> (u8, u8) {
    let (mut a, mut b) = (0u32, 0u32);
    for &x in data {
        a = (a + x as u32) & 0xff;
        b = (b + a) & 0xff;
    }
    (a as u8, b as u8)
}

pub fn frame(class: u8, id: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(payload.len() + 8);
    v.extend_from_slice(&[0xb5, 0x62, class, id, payload.len() as u8, (payload.len() >> 8) as u8]);
    v.extend_from_slice(payload);
    let (a, b) = fletcher(&v[2..]);
    v.push(a);
    v.push(b);
    v
}

/// One outcome of the reference scan over `s`; `at` is where the candidate frame starts.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RefEv {
    Pkt { at: usize, class: u8, id: u8, n: usize },
    Ck { at: usize, expect: u16, got: u16 },
}

/// What the scan meets at the next candidate, before deciding about it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cand {
    /// Nothing left which could be a frame: everything is consumed.
    Nothing,
    /// A frame may start at `pos`; `total` is its full size when the header is there.
    Incomplete { total: Option<usize> },
    Complete { n: usize, ok: bool, expect: u16, got: u16 },
}

/// Moves `pos` to the next candidate in `s` and classifies it.
pub fn candidate(s: &[u8], pos: &mut usize) -> Cand {
    loop {
        match s[*pos..].iter().position(|b| *b == 0xb5) {
            None => {
                *pos = s.len();
                return Cand::Nothing;
            },
            Some(k) => *pos += k,
        }
        let r = &s[*pos..];
        if r.len() < 2 {
            return Cand::Incomplete { total: None };
        }
        if r[1] != 0x62 {
            *pos += 1;
            continue;
        }
        if r.len() < 6 {
            return Cand::Incomplete { total: None };
        }
        let n = r[4] as usize + 256 * r[5] as usize;
        if n > MAX_PAYLOAD {
            *pos += 2;
            continue;
        }
        if r.len() < n + 8 {
            return Cand::Incomplete { total: Some(n + 8) };
        }
        let (a, b) = fletcher(&r[2..6 + n]);
        let got = a as u16 + 256 * b as u16;
        let expect = r[6 + n] as u16 + 256 * r[7 + n] as u16;
        return Cand::Complete { n, ok: got == expect, expect, got };
    }
}

/// The deterministic scan of an unbounded parser: the next outcome over the bytes received so far.
/// After `None`, `pos` is the start of what has to be retained.
pub fn ref_next(s: &[u8], pos: &mut usize) -> Option<RefEv> {
    match candidate(s, pos) {
        Cand::Nothing | Cand::Incomplete { .. } => None,
        Cand::Complete { n, ok, expect, got } => {
            let at = *pos;
            if ok {
                *pos += n + 8;
                Some(RefEv::Pkt { at, class: s[at + 2], id: s[at + 3], n })
            } else {
                *pos += 2;
                Some(RefEv::Ck { at, expect, got })
            }
        },
    }
}

/// Building blocks of token-level streams: intact, damaged, truncated, nested and false frames.
pub fn tokens() -> Vec<(&'static str, Vec<u8>)> {
    let ack = frame(5, 1, &[6, 1]);
    let nested = frame(0x77, 0x01, &[]);
    let mut bad_a = ack.clone();
    bad_a[8] ^= 1;
    let mut bad_b = ack.clone();
    bad_b[9] ^= 0x80;
    let mut bad_nest = frame(0x77, 0x02, &nested);
    let k = bad_nest.len() - 2;
    bad_nest[k] ^= 0x10;
    let mut short_len = ack.clone();
    short_len[4] = 1;
    let mut long_len = ack.clone();
    long_len[4] = 3;
    let mut bad_class = ack.clone();
    bad_class[2] ^= 0x40;
    let mut bad_payload = ack.clone();
    bad_payload[7] ^= 0x04;
    vec![
        ("ack", ack.clone()),
        ("unknown-empty", nested.clone()),
        ("unknown-payload-b5", frame(0x77, 0x03, &[0xb5])),
        ("unknown-payload-b562", frame(0x77, 0x04, &[0xb5, 0x62])),
        ("unknown-nested-frame", frame(0x77, 0x05, &nested)),
        ("nav-eoe", frame(1, 0x61, &[1, 2, 3, 4])),
        ("class-b5-id-62", frame(0xb5, 0x62, &[])),
        ("checksum-b562", frame(0x43, 0x72, &[])),
        ("bad-ck-a", bad_a),
        ("bad-ck-b", bad_b),
        ("bad-ck-nested", bad_nest),
        ("short-length", short_len),
        ("long-length", long_len),
        ("bad-class", bad_class),
        ("bad-payload", bad_payload),
        ("header-only", ack[..6].to_vec()),
        ("cut-mid-payload", ack[..7].to_vec()),
        ("cut-before-last", ack[..9].to_vec()),
        ("cut-after-class", ack[..3].to_vec()),
        ("b5", vec![0xb5]),
        ("62", vec![0x62]),
        ("00", vec![0]),
        ("b5-62", vec![0xb5, 0x62]),
        ("b5-b5", vec![0xb5, 0xb5]),
        ("len-8177", vec![0xb5, 0x62, 1, 2, 0xf1, 0x1f]),
        ("len-65535", vec![0xb5, 0x62, 1, 2, 0xff, 0xff]),
        ("len-8176", vec![0xb5, 0x62, 1, 2, 0xf0, 0x1f]),
        ("false-len-16", vec![0xb5, 0x62, 0x0a, 0x0b, 16, 0]),
    ]
}

/// The idx-th string of length `len` over `alpha`.
pub fn nth_string(alpha: &[u8], len: usize, mut idx: u64, out: &mut Vec<u8>) {
    out.clear();
    for _ in 0..len {
        out.push(alpha[(idx % alpha.len() as u64) as usize]);
        idx /= alpha.len() as u64;
    }
}

/// The idx-th sequence of exactly `depth` tokens.
pub fn nth_tokens(toks: &[(&'static str, Vec<u8>)], depth: usize, mut idx: u64, out: &mut Vec<u8>) {
    out.clear();
    for _ in 0..depth {
        out.extend_from_slice(&toks[(idx % toks.len() as u64) as usize].1);
        idx /= toks.len() as u64;
    }
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 400 {
        return format!("{}..({} bytes)", hex(&b[..400]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

pub fn hash64(data: &[u8], salt: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for &b in data {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    h = (h ^ (h >> 32)).wrapping_mul(0xd6e8_feb8_6659_fd93);
    h ^ (h >> 32)
}
