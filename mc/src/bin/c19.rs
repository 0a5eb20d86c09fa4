//! C19: serialised packets carry every field once, under its own name and value.
use mc::*;

type R = Result<(), String>;

fn entries(v: &SV) -> Option<Vec<(String, &SV)>> {
    match v.plain() {
        SV::Map(m) => m.iter().map(|(k, v)| if let SV::Str(s) = k { Some((s.clone(), v)) } else { None }).collect(),
        SV::Struct(m) => Some(m.iter().map(|(k, v)| (k.clone(), v)).collect()),
        _ => None,
    }
}
fn is_u(v: &SV, x: u64) -> bool {
    match v.plain() {
        SV::U(y) => *y == x,
        SV::I(y) => *y >= 0 && *y as u64 == x,
        _ => false,
    }
}
fn is_i(v: &SV, x: i64) -> bool {
    match v.plain() {
        SV::U(y) => x >= 0 && *y == x as u64,
        SV::I(y) => *y == x,
        _ => false,
    }
}
fn is_text(v: &SV, t: &str) -> bool {
    matches!(v.plain(), SV::Str(s) if s == t)
}
fn is_bytes(v: &SV, b: &[u8]) -> bool {
    matches!(v.plain(), SV::Seq(q) if q.len() == b.len() && q.iter().zip(b).all(|(s, x)| is_u(s, *x as u64) || is_i(s, *x as i8 as i64)))
}
fn as_val(v: &SV) -> Option<Val> {
    Some(match v.plain() {
        SV::U(x) => Val::U(*x),
        SV::I(x) => Val::I(*x),
        SV::F(x) => Val::F(*x),
        SV::F32(x) => Val::F32(*x),
        SV::B(x) => Val::B(*x),
        _ => return None,
    })
}

/// A plain field against its bytes.
fn plain_field(f: &Fd, b: &[u8], v: &SV) -> bool {
    match f.map {
        Map::None if f.kind == Kind::Arr => is_bytes(v, b),
        Map::None | Map::Scale { .. } => as_val(v).map_or(false, |x| value_matches(f, b, &x)),
        Map::Enum(e) => {
            is_u(v, raw_u(b))
                || match v.plain() {
                    SV::Variant(n, None) => ENUMS[e].variants.iter().any(|x| x.1 == raw_u(b) && x.0 == *n),
                    _ => false,
                }
        },
        Map::Flags(_) => is_u(v, raw_u(b)),
        Map::Other("&str") => cstr(b).map_or(false, |t| is_text(v, t)),
        Map::Other("CfgItfmConfig") => {
            let c = raw_u(b);
            let g = |n, x| v.plain().get(n).map_or(false, |y| is_u(y, x) || matches!(y.plain(), SV::B(t) if *t as u64 == x));
            g("enable", c >> 31) && g("bb_threshold", c & 15) && g("cw_threshold", c >> 4 & 31) && g("algorithm_bits", c >> 9 & 0x3f_ffff)
        },
        Map::Other("CfgItfmConfig2") => {
            let c = raw_u(b);
            let g = |n, x| v.plain().get(n).map_or(false, |y| is_u(y, x) || matches!(y.plain(), SV::B(t) if *t as u64 == x));
            let (code, name) = [(0, "Unknown"), (1, "Active"), (2, "Passive"), (0, "Unknown")][(c >> 12 & 3) as usize];
            let ant = v.plain().get("antenna").map_or(false, |y| is_u(y, code) || is_u(y, c >> 12 & 3) || matches!(y.plain(), SV::Variant(n, None) if n == name));
            ant && g("general", c & 0xfff) && g("scan_aux_bands", c >> 14 & 1)
        },
        Map::Other("UartMode") => {
            let m = raw_u(b);
            let g = |n: &str, want: &str| v.plain().get(n).map_or(false, |y| matches!(y.plain(), SV::Variant(t, None) if t == want));
            is_u(v, m)
                || g("data_bits", ["Five", "Six", "Seven", "Eight"][(m >> 6 & 3) as usize])
                    && g("parity", ["Even", "Odd", "?", "?", "None", "None", "?", "?"][(m >> 9 & 7) as usize])
                    && g("stop_bits", ["One", "OneHalf", "Two", "Half"][(m >> 12 & 3) as usize])
        },
        // views of words serialise as the word
        Map::Other("FixStatusInfo" | "NavSatSvFlags" | "TimTm2Flags" | "TimTpFlags" | "TimTpRefInfo") => is_u(v, raw_u(b)),
        m => panic!("no rule for {m:?}"),
    }
}

/// A record of exactly these fields, in order.
fn record(pk: usize, b: &[u8], v: &SV) -> R {
    let e = entries(v).ok_or_else(|| format!("{v:?} is no record"))?;
    let p = &PACKETS[pk];
    if e.len() != p.fields.len() {
        return Err(format!("a block of {} has {} entries, expected {}", p.name, e.len(), p.fields.len()));
    }
    for (f, (k, v)) in p.fields.iter().zip(e) {
        if k != f.name || !plain_field(f, &b[f.off..f.off + f.size], v) {
            return Err(format!("block entry {k} = {v:?}, expected {} of bytes [{}]", f.name, hex(&b[f.off..f.off + f.size])));
        }
    }
    Ok(())
}
fn parts3(v: &SV, want: &[(&str, u64)]) -> R {
    let e = entries(v).ok_or_else(|| format!("{v:?} is no record"))?;
    if e.len() != want.len() || e.iter().zip(want).any(|(a, b)| a.0 != b.0 || !is_u(a.1, b.1)) {
        return Err(format!("{v:?}, expected {want:?}"));
    }
    Ok(())
}
fn each<'a>(v: &SV, blocks: Vec<&'a [u8]>, one: impl Fn(&'a [u8], &SV) -> R) -> R {
    let SV::Seq(q) = v.plain() else { return Err(format!("{v:?} is no sequence")) };
    if q.len() != blocks.len() {
        return Err(format!("{} elements, expected {}", q.len(), blocks.len()));
    }
    blocks.iter().zip(q).enumerate().try_for_each(|(i, (b, s))| one(b, s).map_err(|m| format!("element {i}: {m}")))
}

/// A repeated or optional part against the bytes of the whole payload.
fn var_field(f: &Fd, b: &[u8], v: &SV) -> R {
    let tail = &b[f.off..];
    let u = raw_u;
    match f.map {
        Map::Other("NavSatIter") => each(v, tail.chunks(12).collect(), |x, s| record(PK_NavSatSvInfo, x, s)),
        Map::Other("RxmRawxInfoIter") => each(v, tail.chunks(32).collect(), |x, s| record(PK_RxmRawxInfo, x, s)),
        Map::Other("DwrdIter") => each(v, tail.chunks(4).collect(), |x, s| if is_u(s, u(x)) { Ok(()) } else { Err(format!("{s:?}, expected {}", u(x))) }),
        Map::Other("MonVerExtensionIter") => each(v, tail.chunks(30).collect(), |x, s| if is_text(s, cstr(x).unwrap()) { Ok(()) } else { Err(format!("{s:?}, expected {:?}", cstr(x))) }),
        Map::Other("EsfMeasDataIter") => {
            let n = 4 * (u(&b[4..6]) >> 11 & 31) as usize;
            each(v, b[8..8 + n].chunks(4).collect(), |x, s| parts3(s, &[("data_type", x[3] as u64 & 0x3f), ("data_field", u(&x[..3]))]))
        },
        Map::Other("Option<u32>") => {
            let n = 8 + 4 * (u(&b[4..6]) >> 11 & 31) as usize;
            let ok = if b[4] & 8 != 0 { is_u(v, u(&b[n..n + 4])) } else { *v == SV::Null };
            if ok { Ok(()) } else { Err(format!("{v:?}")) }
        },
        Map::Other("EsfRawDataIter") => each(v, tail.chunks(8).collect(), |x, s| parts3(s, &[("data_type", x[3] as u64), ("data_field", u(&x[..3])), ("sensor_time_tag", u(&x[4..]))])),
        Map::Other("Option<&str>") => {
            let ok = match std::str::from_utf8(tail) {
                Ok(t) => is_text(v, t),
                Err(_) => *v == SV::Null,
            };
            if ok { Ok(()) } else { Err(format!("{v:?} for text [{}]", hex(tail))) }
        },
        m => panic!("no rule for {m:?}"),
    }
}

fn check_fields_of(pk: usize, b: &[u8], e: &[(String, &SV)]) -> R {
    let p = &PACKETS[pk];
    let names: Vec<&str> = e.iter().map(|x| x.0.as_str()).collect();
    let want: Vec<&str> = p.fields.iter().map(|f| f.name).collect();
    if names != want {
        return Err(format!("the fields are {names:?}, expected {want:?}"));
    }
    for (f, (k, v)) in p.fields.iter().zip(e) {
        if f.kind == Kind::Var {
            var_field(f, b, v).map_err(|m| format!("{k}: {m}"))?;
        } else if !plain_field(f, &b[f.off..f.off + f.size], v) {
            return Err(format!("{k} = {v:?}, its bytes are [{}]", hex(&b[f.off..f.off + f.size])));
        }
    }
    Ok(())
}

/// Does the serialised value equal what the accessor reports, to the last bit?
fn same_as_accessor(v: &Val, s: &SV) -> bool {
    match (v, s.plain()) {
        (Val::F(x), SV::F(y)) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
        (Val::F32(x), SV::F32(y)) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
        (Val::F(_) | Val::F32(_), _) => false,
        (Val::U(x), _) => is_u(s, *x),
        (Val::I(x), _) => is_i(s, *x),
        (Val::Bits(x), _) => is_u(s, *x),
        (Val::Bytes(x), _) => is_bytes(s, x),
        (Val::Str(x), SV::Str(y)) => x == y.as_bytes(),
        _ => true,
    }
}

fn check(class: u8, id: u8, b: &[u8], r: &mut Rec) {
    let fr = frame(class, id, b);
    r.eval(Some(hash64(b, (class as u64) << 8 | id as u64)));
    first(&fr, |g| {
        let Some(Ok(q)) = g else {
            r.fail(format!("class {class:#04x} id {id:#04x} payload [{}]: {}", hex(b), show(g)));
            return;
        };
        let pk = which(q);
        if pk != dispatch(class, id, b) {
            r.fail(format!("class {class:#04x} id {id:#04x} payload [{}] is delivered as {}", hex(b), show(g)));
            return;
        }
        let name = pk.map_or("Unknown", |k| PACKETS[k].name);
        let say = |m: String| format!("{name} with payload [{}]: {m}", hex(b));
        let v = match no_panic(|| capture(q)) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => return r.fail(say(format!("serialising fails: {}", e.0))),
            Err(m) => return r.fail(say(m)),
        };
        let Some(e) = entries(&v) else { return r.fail(say(format!("serialises to {v:?}"))) };
        let Some(pk) = pk else {
            let names: Vec<&str> = e.iter().map(|x| x.0.as_str()).collect();
            if names != ["payload", "class", "msg_id"] || !is_bytes(e[0].1, b) || !is_u(e[1].1, class as u64) || !is_u(e[2].1, id as u64) {
                r.fail(say(format!("serialises to {v:?}")));
            }
            return;
        };
        if e.len() < 2 || e[0].0 != "class" || e[1].0 != "msg_id" || !is_u(e[0].1, class as u64) || !is_u(e[1].1, id as u64) {
            return r.fail(say(format!("the map starts with {:?}", &e[..e.len().min(2)])));
        }
        if let Err(m) = check_fields_of(pk, b, &e[2..]) {
            return r.fail(say(m));
        }
        for k in 2..e.len() {
            if e[..k].iter().any(|x| x.0 == e[k].0) {
                let (n, f) = (PACKETS[pk].name, &e[k].0);
                r.fail_keyed(&format!("twice-{n}-{f}"), format!("{n} serialises the key {f:?} twice: once for the header, once for its field"));
            }
        }
        // the accessors agree exactly
        let mut bad = None;
        observe(q, &mut |i, raw, v| {
            if !raw && !same_as_accessor(&v, e[2 + i].1) && bad.is_none() {
                bad = Some(format!("{} = {:?}, but its accessor reports {v:?}", e[2 + i].0, e[2 + i].1));
            }
        });
        if let Some(m) = bad {
            return r.fail(say(m));
        }
        // the packet alone
        match no_panic(|| serialize_inner(q, Cap)) {
            Ok(Some(Ok(inner))) => {
                let Some(f) = entries(&inner) else { return r.fail(say(format!("alone it serialises to {inner:?}"))) };
                let same = f.len() + 2 == e.len() && f.iter().zip(&e[2..]).all(|(a, b)| a.0 == b.0 && (format!("{:?}", a.1) == format!("{:?}", b.1)));
                if !same {
                    r.fail(say(format!("alone it serialises to {inner:?}")));
                }
            },
            Ok(Some(Err(e))) => r.fail(say(format!("serialising it alone fails: {}", e.0))),
            Ok(None) => r.fail(say("can't be serialised alone".into())),
            Err(m) => r.fail(say(m)),
        }
    });
}

fn main() {
    let c = Ctx::new("C19", Level::Exploration);
    let bgs = c.pick(4u64, 16);
    // variable tails which fit, per packet
    let rests = |p: &Pk| -> Vec<usize> {
        match p.name {
            "NavSat" => vec![0, 12, 24, 36],
            "RxmRawx" => vec![0, 32, 64],
            "RxmSfrbx" => vec![0, 4, 8, 40],
            "EsfRaw" => vec![0, 8, 24],
            "EsfMeas" => vec![0, 4, 8, 16, 128],
            "MonVer" => vec![0, 30, 60, 90],
            n if n.starts_with("Inf") => vec![0, 1, 5, 40],
            _ => vec![0],
        }
    };
    let tidy = |k: usize, v: &mut Vec<u8>| {
        let p = &PACKETS[k];
        if p.name == "MonVer" {
            for at in (0..v.len()).filter(|x| [29, 39].contains(x) || *x >= 40 && (x - 40) % 30 == 29) {
                v[at] = 0;
            }
            v.iter_mut().for_each(|x| *x &= 0x7f);
        }
        if p.name == "EsfMeas" {
            let words = (v.len() - 8) / 4;
            let tag = words > 1;
            v[4] = v[4] & !8 | (tag as u8) << 3;
            v[5] = v[5] & 7 | ((words.min(31) - (tag && words < 32) as usize) as u8) << 3;
        }
    };
    let mut jobs = vec![];
    for (k, p) in PACKETS.iter().enumerate() {
        if p.dispatch.is_none() {
            continue;
        }
        for rest in rests(p) {
            for bg in 0..bgs {
                let bg = if bg < 4 { [0u64, 1, 7, 2][bg as usize] } else { bg + 4 };
                let mut v = background(p, rest, bg);
                tidy(k, &mut v);
                for at in 0..v.len().max(1) {
                    jobs.push((k, rest, bg, at));
                }
            }
        }
    }
    c.space("every byte of every packet", jobs.len() as u64, |i, r| {
        let (k, rest, bg, at) = jobs[i as usize];
        let p = &PACKETS[k];
        let mut v = background(p, rest, bg);
        tidy(k, &mut v);
        if v.is_empty() {
            return check(p.class, p.id, &v, r);
        }
        let old = v[at];
        for x in 0..=255u8 {
            v[at] = x;
            check(p.class, p.id, &v, r);
        }
        v[at] = old;
        r.sample(|| format!("{} with {rest} further bytes, background {bg}, byte {at} = 0..255", p.name));
    });
    // whole multi-byte fields, so that NaN, limits and signs are reached
    let edges: [u64; 10] = [0, 1, !0, 1 << 63, (1 << 63) - 1, 0x7ff8_0000_0000_0001, 0x7ff0_0000_0000_0000, 0x8000_0000_7fc0_0001, 0x7fff_ffff_8000_0000, 0x0123_4567_89ab_cdef];
    let mut words = vec![];
    for (k, p) in PACKETS.iter().enumerate() {
        if p.dispatch.is_some() {
            for (fi, f) in p.fields.iter().enumerate() {
                if f.size > 1 {
                    words.push((k, fi, 0usize));
                }
            }
            if let Some((bp, blk)) = [("NavSat", PK_NavSatSvInfo), ("RxmRawx", PK_RxmRawxInfo)].iter().find(|x| x.0 == p.name).map(|x| (x.1, PACKETS[x.1].fixed.unwrap())) {
                for n in 1..=3 {
                    let _ = bp;
                    words.push((k, usize::MAX, n * blk));
                }
            }
        }
    }
    c.space("edge values of whole fields", words.len() as u64, |i, r| {
        let (k, fi, rest) = words[i as usize];
        let p = &PACKETS[k];
        let spots: Vec<(usize, usize)> = if fi != usize::MAX {
            vec![(p.fields[fi].off, p.fields[fi].size)]
        } else {
            let (head, blk) = if p.name == "NavSat" { (8, PK_NavSatSvInfo) } else { (16, PK_RxmRawxInfo) };
            let n = PACKETS[blk].fixed.unwrap();
            (0..rest / n).flat_map(|j| PACKETS[blk].fields.iter().filter(|f| f.size > 1).map(move |f| (head + j * n + f.off, f.size))).collect()
        };
        for (off, size) in spots {
            for w in edges {
                for bg in [0u64, 7] {
                    for sh in [0u32, 32] {
                        let mut v = background(p, rest, bg);
                        tidy(k, &mut v);
                        let by = (w >> sh).to_le_bytes();
                        for q in 0..size.min(8) {
                            v[off + q] = by[q];
                        }
                        check(p.class, p.id, &v, r);
                    }
                }
            }
        }
    });
    let t: Vec<usize> = (0..PACKETS.len()).filter(|k| PACKETS[*k].dispatch.is_some()).collect();
    let (two, _) = field_tuples(&t);
    c.space("pairs of fields with edge words", two.len() as u64, |i, r| {
        let (k, a, b) = two[i as usize];
        let p = &PACKETS[k];
        let (a, b) = (&p.fields[a], &p.fields[b]);
        let mut v = background(p, 0, 2);
        for x in few_words(a.size) {
            for y in few_words(b.size) {
                put_word(&mut v, a, x);
                put_word(&mut v, b, y);
                tidy(k, &mut v);
                check(p.class, p.id, &v, r);
            }
        }
    });
    // numbers of repeated parts
    let reps = [(PK_NavSat, 8usize, 12usize), (PK_RxmRawx, 16, 32), (PK_RxmSfrbx, 8, 4), (PK_EsfRaw, 4, 8), (PK_MonVer, 40, 30)];
    let most = c.pick(40u64, 260);
    c.space("numbers of repeated parts", reps.len() as u64 * most * 3, |i, r| {
        let (pk, head, blk) = reps[(i / 3 / most) as usize];
        let n = (i / 3 % most) as usize;
        let v: Vec<u8> = if pk == PK_MonVer {
            let mut v = vec![0; head + n * blk];
            for (k, x) in v.iter_mut().enumerate() {
                *x = if k % 10 == 9 { 0 } else { b'A' + ((k as u64 + i) % 50) as u8 };
            }
            v
        } else {
            (0..head + n * blk + if i % 3 == 2 { 1 } else { 0 }).map(|k| pat(7 + i % 3, k)).collect()
        };
        check(PACKETS[pk].class, PACKETS[pk].id, &v, r);
    });
    c.space("ESF-MEAS: every flag word", 65536, |i, r| {
        let n = 8 + 4 * (i >> 11 & 31) as usize + if i & 8 != 0 { 4 } else { 0 };
        let mut v: Vec<u8> = (0..n).map(|k| pat(7, k)).collect();
        v[4] = i as u8;
        v[5] = (i >> 8) as u8;
        check(0x10, 2, &v, r);
    });
    // information text: all strings up to three bytes over boundary bytes
    let tx = [0u8, b'a', 0x7f, 0x80, 0xbf, 0xc2, 0xc3, 0xe2, 0xed, 0xf0, 0xf4, 0xff];
    let n = tx.len() as u64;
    c.space("information text", 5 * (1 + n + n * n + n * n * n + if c.thorough() { n.pow(4) } else { 0 }), |i, r| {
        let id = [0u8, 1, 2, 3, 4][(i % 5) as usize];
        let (mut j, mut len, mut span) = (i / 5, 0, 1);
        while j >= span {
            j -= span;
            span *= n;
            len += 1;
        }
        let mut v = vec![];
        for _ in 0..len {
            v.push(tx[(j % n) as usize]);
            j /= n;
        }
        check(4, id, &v, r);
    });
    // unknown packets: every class and id, every length
    c.space("every class and id", 65536, |i, r| {
        for p in [&[][..], &[0x80, 0xff, 0, 7]] {
            check((i >> 8) as u8, i as u8, p, r);
        }
    });
    c.space("unknown payload lengths", c.pick(1400, 8177), |i, r| {
        let v: Vec<u8> = (0..i as usize).map(|k| pat(7, k)).collect();
        check(0x77, 1, &v, r);
        check(1, 7, &v, r);
    });
    c.finish(
        "every value of every byte of every dispatched packet over several backgrounds and numbers of repeated parts, edge words in every wider field and pair of fields, every ESF-MEAS flag word, text over boundary bytes, every class and id, every unknown length. Distinct by class, id and payload; a recording serialiser's output is compared entry by entry with the frozen field table and bit by bit with the accessors",
        &["formats that call the serialiser in the usual way see the recorded calls"],
    );
}
