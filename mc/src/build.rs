//! What a builder has to emit, and the values to try in its fields.
use crate::*;

/// Builders of fixed packets.
pub fn builders() -> Vec<usize> {
    (0..PACKETS.len()).filter(|k| PACKETS[*k].send && PACKETS[*k].fixed.is_some()).collect()
}

/// The codes a builder can put into a restricted field.
pub fn codes(f: &Fd) -> Option<Vec<i64>> {
    match f.map {
        Map::Enum(e) => Some(ENUMS[e].variants.iter().map(|v| v.1 as i64).collect()),
        Map::Other("ResetMode") => Some(vec![0, 1, 2, 4, 8, 9]),
        Map::Other("AlignmentToReferenceTime") => Some(vec![0, 1, 2, 3, 4]),
        Map::Other("UartMode") => {
            let mut v = vec![];
            for d in [2i64, 3] {
                for p in [0i64, 1, 4] {
                    for s in 0..4i64 {
                        v.push(d << 6 | p << 9 | s << 12);
                    }
                }
            }
            Some(v)
        },
        _ => None,
    }
}

/// The bytes of an unscaled field for a value; `None`: scaled, any correct rounding is right.
pub fn want_bytes(f: &Fd, v: &FV) -> Option<Vec<u8>> {
    let le = |x: u64| x.to_le_bytes()[..f.size].to_vec();
    Some(match f.map {
        Map::Scale { .. } => return None,
        _ if matches!(f.kind, Kind::Arr) => v.b[..f.size].to_vec(),
        // bits 14..0; an antenna code of three can't be given to the builder
        Map::Other("CfgItfmConfig2") => {
            let w = v.i as u64 & 0x7fff;
            le(if w >> 12 & 3 == 3 { w & !0x3000 } else { w })
        },
        _ => le(v.i as u64),
    })
}

/// Compares a built frame with its definition and values.
pub fn check_built(pk: usize, v: &[FV], fr: &[u8]) -> Result<(), String> {
    let p = &PACKETS[pk];
    let n = p.fixed.unwrap();
    let say = |m: String| Err(format!("{}Builder: {m}; frame [{}]", p.name, hex(fr)));
    if fr.len() != n + 8 {
        return say(format!("{} bytes, expected {}", fr.len(), n + 8));
    }
    let head = [0xb5, 0x62, p.class, p.id, n as u8, (n >> 8) as u8];
    if fr[..6] != head {
        return say(format!("the header should be [{}]", hex(&head)));
    }
    let (a, b) = fletcher(&fr[2..n + 6]);
    if fr[n + 6..] != [a, b] {
        return say(format!("the checksum should be [{a:02x} {b:02x}]"));
    }
    for (i, f) in p.fields.iter().enumerate() {
        let got = &fr[6 + f.off..6 + f.off + f.size];
        match want_bytes(f, &v[i]) {
            Some(w) if w != got => return say(format!("{} given {:?} is [{}], expected [{}]", f.name, v[i], hex(got), hex(&w))),
            Some(_) => {},
            None => {
                let Map::Scale { s, single } = f.map else { unreachable!() };
                let x = if single { v[i].f as f32 as f64 } else { v[i].f };
                let raw = if f.kind == Kind::I { raw_i(got) } else { raw_u(got) as i64 };
                if !scaled_ok(f, s, single, x, raw) {
                    return say(format!("{} given {x:?} (scale {s}) is stored as {raw}", f.name));
                }
            },
        }
    }
    Ok(())
}

/// Values of a field that matter: every code, every single bit and its complement, the limits.
/// `deep` adds every value of 8- and 16-bit fields.
pub fn domain(f: &Fd, deep: bool) -> Vec<FV> {
    if let Some(c) = codes(f) {
        return c.into_iter().map(FV::int).collect();
    }
    if f.kind == Kind::Arr {
        let mut o = vec![];
        for k in 0..f.size {
            for x in if deep { (0..=255u8).collect::<Vec<_>>() } else { vec![1u8, 0x80, 0xff, 0x5a] } {
                let mut b = [0u8; 8];
                b[k] = x;
                o.push(FV { b, ..Default::default() });
                let mut b = [0xffu8; 8];
                b[k] = x;
                o.push(FV { b, ..Default::default() });
            }
        }
        return o;
    }
    let bits = 8 * f.size as u32;
    let mut raws: Vec<i64> = vec![];
    if deep && bits <= 16 {
        raws.extend(if f.kind == Kind::I { -(1i64 << (bits - 1))..1i64 << (bits - 1) } else { 0..1i64 << bits });
    } else {
        for k in 0..bits {
            let m = if bits == 64 { !0 } else { (1u64 << bits) - 1 };
            for w in [1u64 << k, !(1u64 << k) & m, (1u64 << k) - 1, 0x5555_5555_5555_5555 << k & m] {
                let b = w.to_le_bytes();
                raws.push(if f.kind == Kind::I { raw_i(&b[..f.size]) } else { w as i64 });
            }
        }
        if deep {
            raws.extend(field_words()[f.size].iter().map(|w| if f.kind == Kind::I { raw_i(&w.to_le_bytes()[..f.size]) } else { *w as i64 }));
        }
        raws.push(0);
        raws.push(bounds(f).0);
        raws.push(bounds(f).1);
        raws.sort_unstable();
        raws.dedup();
    }
    match f.map {
        Map::Scale { s, .. } => raws
            .into_iter()
            .flat_map(|r| [r as f64, r as f64 + 0.26, r as f64 - 0.26])
            .map(|r| FV::flt(r * s))
            .collect(),
        _ => raws.into_iter().map(FV::int).collect(),
    }
}

/// A few values of a field out of its domain, for combinations with those of others.
pub fn few_values(f: &Fd, n: usize) -> Vec<FV> {
    let d = domain(f, false);
    if d.len() <= n {
        return d;
    }
    let ends = [0, 1, d.len() / 2 - 1, d.len() / 2, d.len() / 2 + 1, d.len() - 2, d.len() - 1];
    let mut at: Vec<usize> = ends.into_iter().chain((0..n.saturating_sub(7)).map(|k| k * d.len() / n.max(1))).collect();
    at.sort_unstable();
    at.dedup();
    at.into_iter().map(|k| d[k]).collect()
}

/// Background value `n` of a field.
pub fn base(f: &Fd, n: u64) -> FV {
    if let Some(c) = codes(f) {
        return FV::int(c[(n as usize * 5 + f.off) % c.len()]);
    }
    if f.kind == Kind::Arr {
        let mut b = [0u8; 8];
        for (k, x) in b.iter_mut().enumerate() {
            *x = pat(n, f.off + k);
        }
        return FV { b, ..Default::default() };
    }
    let by: Vec<u8> = (0..f.size).map(|k| pat(n, f.off + k)).collect();
    let r = if f.kind == Kind::I { raw_i(&by) } else { raw_u(&by) as i64 };
    match f.map {
        Map::Scale { s, .. } => FV::flt(r as f64 * s),
        _ => FV::int(r),
    }
}
pub fn base_values(pk: usize, n: u64) -> Vec<FV> {
    PACKETS[pk].fields.iter().map(|f| base(f, n)).collect()
}

/// The documented default of a field.
pub fn default_value(pk: usize, f: &Fd) -> FV {
    match f.map {
        Map::Enum(e) => FV::int(ENUMS[e].default.unwrap_or_else(|| panic!("{} has no default", ENUMS[e].name)) as i64),
        _ => {
            let _ = pk;
            FV::default()
        },
    }
}
