//! C25: printed packets and errors say what was received.
use mc::*;
use std::fmt::{self, Debug, Display, Write};
use ublox::*;

/// What a packet's parts print as, assembled from its accessors.
struct Parts<'a>(&'static str, &'a [Named<'a>]);
impl Debug for Parts<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut s = f.debug_struct(self.0);
        for (n, v) in self.1 {
            s.field(n, v);
        }
        s.finish()
    }
}
struct Inside<'a, T>(&'a str, &'a T);
impl<T: Debug> Debug for Inside<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple(self.0).field(self.1).finish()
    }
}
/// Prints one of the two views from the bits of its word.
fn view(name: &str, w: u64) -> Option<String> {
    let b = |n: u32| w >> n & 1 == 1;
    match name {
        "FixStatusInfo" => Some(format!("FixStatusInfo {{ has_pr_prr_correction: {}, map_matching: {} }}", b(0), ["None", "Valid", "Used", "Dr"][(w >> 6 & 3) as usize])),
        "NavSatSvFlags" => {
            let mut s = format!("NavSatSvFlags {{ quality_ind: {}, sv_used: {}, health: {}", ["NoSignal", "Searching", "SignalAcquired", "SignalDetected", "CodeLock", "CarrierLock", "CarrierLock", "CarrierLock"][(w & 7) as usize], b(3), ["Unknown(0)", "Healthy", "Unhealthy", "Unknown(3)"][(w >> 4 & 3) as usize]);
            let orb = ["NoInfoAvailable", "Ephemeris", "Almanac", "AssistNowOffline", "AssistNowAutonomous", "Other(5)", "Other(6)", "Other(7)"][(w >> 8 & 7) as usize];
            write!(s, ", differential_correction_available: {}, smoothed: {}, orbit_source: {orb}", b(6), b(7)).unwrap();
            for (n, k) in [("ephemeris_available", 11), ("almanac_available", 12), ("an_offline_available", 13), ("an_auto_available", 14), ("sbas_corr", 16), ("rtcm_corr", 17), ("slas_corr", 18), ("spartn_corr", 19), ("pr_corr", 20), ("cr_corr", 21), ("do_corr", 22)] {
                write!(s, ", {n}: {}", b(k)).unwrap();
            }
            Some(s + " }")
        },
        _ => None,
    }
}
/// What the bytes of a field print as, where that follows from the protocol alone.
fn by_bytes(f: &Fd, b: &[u8]) -> Option<String> {
    Some(match (f.map, f.kind) {
        (Map::None, Kind::U) => raw_u(b).to_string(),
        (Map::None, Kind::I) => raw_i(b).to_string(),
        (Map::None, Kind::Arr) => format!("{b:?}"),
        (Map::Enum(e), _) => ENUMS[e].variants.iter().find(|x| x.1 == raw_u(b))?.0.to_string(),
        (Map::Other("&str"), _) => format!("{:?}", cstr(b)?),
        (Map::Other(n), _) if f.size > 0 => return view(n, raw_u(b)),
        _ => return None,
    })
}
fn fields_by_bytes(pk: usize, b: &[u8], fs: &[Named]) -> Result<(), String> {
    let p = &PACKETS[pk];
    for (f, (n, v)) in p.fields.iter().zip(fs) {
        if f.size > 0 {
            if let Some(w) = by_bytes(f, &b[f.off..f.off + f.size]) {
                let got = format!("{v:?}");
                if got != w {
                    return Err(format!("{n} prints as {got}, its bytes [{}] mean {w}", hex(&b[f.off..f.off + f.size])));
                }
            }
        }
    }
    Ok(())
}
/// A sink with room for `0` bytes.
struct Small(usize, String);
impl Write for Small {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}

fn check(class: u8, id: u8, b: &[u8], r: &mut Rec) {
    let fr = frame(class, id, b);
    r.eval(Some(hash64(b, (class as u64) << 8 | id as u64)));
    first(&fr, |g| {
        let Some(Ok(q)) = g else { return r.fail(format!("class {class:#04x} id {id:#04x} payload [{}]: no packet", hex(b))) };
        if which(q) != dispatch(class, id, b) {
            return r.fail(format!("class {class:#04x} id {id:#04x} payload [{}] is not delivered as its type", hex(b)));
        }
        let say = |m: String| format!("class {class:#04x} id {id:#04x} payload [{}]: {m}", hex(b));
        let (one, many) = match no_panic(|| (format!("{q:?}"), format!("{q:#?}"))) {
            Ok(x) => x,
            Err(m) => return r.fail(say(m)),
        };
        let mut bad = None;
        let mut want = |variant: &str, p: &dyn Debug| {
            let (a, c) = (format!("{:?}", Inside(variant, &p)), format!("{:#?}", Inside(variant, &p)));
            if one != a {
                bad = Some(format!("prints as {one}, its accessors report {a}"));
            } else if many != c {
                bad = Some(format!("pretty-prints as {many}, its accessors report {c}"));
            }
        };
        if let Some(pk) = which(q) {
            let mut e = None;
            named(q, &mut |n, fs| {
                want(n, &Parts(n, fs));
                e = fields_by_bytes(pk, b, fs).err();
            });
            bad = bad.or(e);
            if bad.is_none() && (PACKETS[pk].name == "NavSat" || PACKETS[pk].name == "RxmRawx") {
                // the blocks print the same way
                let mut block = |k: usize, n: &'static str, fs: &[Named], it: &dyn Debug| {
                    let (a, c) = (format!("{it:?}"), format!("{:?}", Parts(n, fs)));
                    let (head, len, bk) = if n == "NavSatSvInfo" { (8, 12, PK_NavSatSvInfo) } else { (16, 32, PK_RxmRawxInfo) };
                    if a != c {
                        bad = Some(format!("block {k} prints as {a}, its accessors report {c}"));
                    } else if let Err(m) = fields_by_bytes(bk, &b[head + k * len..head + (k + 1) * len], fs) {
                        bad = Some(format!("block {k}: {m}"));
                    }
                };
                match q {
                    PacketRef::NavSat(x) => x.svs().enumerate().for_each(|(k, x)| named_NavSatSvInfo(&x, &mut |n, fs| block(k, n, fs, &x))),
                    PacketRef::RxmRawx(x) => x.measurements().enumerate().for_each(|(k, x)| named_RxmRawxInfo(&x, &mut |n, fs| block(k, n, fs, &x))),
                    _ => {},
                }
            }
        } else {
            struct U<'a>(&'a [u8], u8, u8);
            impl Debug for U<'_> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.debug_struct("UbxUnknownPacketRef").field("payload", &self.0).field("class", &self.1).field("msg_id", &self.2).finish()
                }
            }
            want("Unknown", &U(b, class, id));
        }
        if let Some(m) = bad {
            r.fail(say(m));
        }
    });
}

/// The numbers of a message, read as decimal or hexadecimal.
fn words(s: &str) -> Vec<(usize, String)> {
    let mut v = vec![];
    let mut cur = (0, String::new());
    for (i, ch) in s.char_indices().chain([(s.len(), ' ')]) {
        if ch.is_ascii_alphanumeric() || ch == '_' {
            if cur.1.is_empty() {
                cur.0 = i;
            }
            cur.1.push(ch);
        } else if !cur.1.is_empty() {
            v.push(std::mem::take(&mut cur));
        }
    }
    v
}
fn is_number(w: &str, x: u64) -> bool {
    let h = w.strip_prefix("0x").unwrap_or(w);
    w.parse() == Ok(x) || u64::from_str_radix(h, 16) == Ok(x)
}
/// The message tells this value, and behind the word for it where that word is used.
fn tells(m: &str, label: &str, x: u64, r: &mut Rec) {
    let ws = words(m);
    if !ws.iter().any(|w| is_number(&w.1, x)) {
        return r.fail(format!("the message {m:?} doesn't tell {label} = {x}"));
    }
    if let Some(k) = ws.iter().position(|w| w.1.to_lowercase().starts_with(label)) {
        // the next word with a digit in it, or which is a number in hexadecimal
        if let Some(w) = ws[k + 1..].iter().find(|w| u64::from_str_radix(w.1.strip_prefix("0x").unwrap_or(&w.1), 16).is_ok()) {
            if !is_number(&w.1, x) {
                r.fail(format!("the message {m:?} tells {} as {label}, not {x}", w.1));
            }
        }
    }
}
fn shown(e: &dyn Display) -> String {
    format!("{e}")
}

fn main() {
    let c = Ctx::new("C25", Level::Exploration);
    let bgs = c.pick(2u64, 16);
    // variable tails which fit, per packet
    let rests = |p: &Pk| -> Vec<usize> {
        match p.name {
            "NavSat" => vec![0, 12, 24, 36],
            "RxmRawx" => vec![0, 32, 64],
            "RxmSfrbx" => vec![0, 4, 8, 40],
            "EsfRaw" => vec![0, 8, 24],
            "EsfMeas" => vec![0, 4, 8, 16, 128],
            "MonVer" => vec![0, 30, 60, 90],
            n if n.starts_with("Inf") => vec![0, 1, 5, 40],
            _ => vec![0],
        }
    };
    let tidy = |k: usize, v: &mut Vec<u8>| {
        let p = &PACKETS[k];
        if p.name == "MonVer" {
            for at in (0..v.len()).filter(|x| [29, 39].contains(x) || *x >= 40 && (x - 40) % 30 == 29) {
                v[at] = 0;
            }
            v.iter_mut().for_each(|x| *x &= 0x7f);
        }
        if p.name == "EsfMeas" {
            let words = (v.len() - 8) / 4;
            let tag = words > 1;
            v[4] = v[4] & !8 | (tag as u8) << 3;
            v[5] = v[5] & 7 | ((words.min(31) - (tag && words < 32) as usize) as u8) << 3;
        }
    };
    let mut jobs = vec![];
    for (k, p) in PACKETS.iter().enumerate() {
        if p.dispatch.is_none() {
            continue;
        }
        for rest in rests(p) {
            for bg in 0..bgs {
                let bg = if bg < 4 { [0u64, 1, 7, 2][bg as usize] } else { bg + 4 };
                let mut v = background(p, rest, bg);
                tidy(k, &mut v);
                for at in 0..v.len().max(1) {
                    jobs.push((k, rest, bg, at));
                }
            }
        }
    }
    c.space("every byte of every packet", jobs.len() as u64, |i, r| {
        let (k, rest, bg, at) = jobs[i as usize];
        let p = &PACKETS[k];
        let mut v = background(p, rest, bg);
        tidy(k, &mut v);
        if v.is_empty() {
            return check(p.class, p.id, &v, r);
        }
        let old = v[at];
        for x in 0..=255u8 {
            v[at] = x;
            check(p.class, p.id, &v, r);
        }
        v[at] = old;
        r.sample(|| format!("{} with {rest} further bytes, background {bg}, byte {at} = 0..255", p.name));
    });
    // whole multi-byte fields, so that NaN, limits and signs are reached
    let edges: [u64; 10] = [0, 1, !0, 1 << 63, (1 << 63) - 1, 0x7ff8_0000_0000_0001, 0x7ff0_0000_0000_0000, 0x8000_0000_7fc0_0001, 0x7fff_ffff_8000_0000, 0x0123_4567_89ab_cdef];
    let mut wide = vec![];
    for (k, p) in PACKETS.iter().enumerate() {
        if p.dispatch.is_some() {
            for (fi, f) in p.fields.iter().enumerate() {
                if f.size > 1 {
                    wide.push((k, fi, 0usize));
                }
            }
            if let Some((bp, blk)) = [("NavSat", PK_NavSatSvInfo), ("RxmRawx", PK_RxmRawxInfo)].iter().find(|x| x.0 == p.name).map(|x| (x.1, PACKETS[x.1].fixed.unwrap())) {
                for n in 1..=3 {
                    let _ = bp;
                    wide.push((k, usize::MAX, n * blk));
                }
            }
        }
    }
    c.space("edge values of whole fields", wide.len() as u64, |i, r| {
        let (k, fi, rest) = wide[i as usize];
        let p = &PACKETS[k];
        let spots: Vec<(usize, usize)> = if fi != usize::MAX {
            vec![(p.fields[fi].off, p.fields[fi].size)]
        } else {
            let (head, blk) = if p.name == "NavSat" { (8, PK_NavSatSvInfo) } else { (16, PK_RxmRawxInfo) };
            let n = PACKETS[blk].fixed.unwrap();
            (0..rest / n).flat_map(|j| PACKETS[blk].fields.iter().filter(|f| f.size > 1).map(move |f| (head + j * n + f.off, f.size))).collect()
        };
        for (off, size) in spots {
            for w in edges {
                for bg in [0u64, 7] {
                    for sh in [0u32, 32] {
                        let mut v = background(p, rest, bg);
                        tidy(k, &mut v);
                        let by = (w >> sh).to_le_bytes();
                        for q in 0..size.min(8) {
                            v[off + q] = by[q];
                        }
                        check(p.class, p.id, &v, r);
                    }
                }
            }
        }
    });
    let t: Vec<usize> = (0..PACKETS.len()).filter(|k| PACKETS[*k].dispatch.is_some()).collect();
    let (two, _) = field_tuples(&t);
    c.space("pairs of fields with edge words", two.len() as u64, |i, r| {
        let (k, a, b) = two[i as usize];
        let p = &PACKETS[k];
        let (a, b) = (&p.fields[a], &p.fields[b]);
        let mut v = background(p, 0, 2);
        for x in few_words(a.size) {
            for y in few_words(b.size) {
                put_word(&mut v, a, x);
                put_word(&mut v, b, y);
                tidy(k, &mut v);
                check(p.class, p.id, &v, r);
            }
        }
    });
    // numbers of repeated parts
    let reps = [(PK_NavSat, 8usize, 12usize), (PK_RxmRawx, 16, 32), (PK_RxmSfrbx, 8, 4), (PK_EsfRaw, 4, 8), (PK_MonVer, 40, 30)];
    let most = c.pick(40u64, 260);
    c.space("numbers of repeated parts", reps.len() as u64 * most * 3, |i, r| {
        let (pk, head, blk) = reps[(i / 3 / most) as usize];
        let n = (i / 3 % most) as usize;
        let v: Vec<u8> = if pk == PK_MonVer {
            let mut v = vec![0; head + n * blk];
            for (k, x) in v.iter_mut().enumerate() {
                *x = if k % 10 == 9 { 0 } else { b'A' + ((k as u64 + i) % 50) as u8 };
            }
            v
        } else {
            (0..head + n * blk + if i % 3 == 2 { 1 } else { 0 }).map(|k| pat(7 + i % 3, k)).collect()
        };
        check(PACKETS[pk].class, PACKETS[pk].id, &v, r);
    });
    c.space("ESF-MEAS: every flag word", 65536, |i, r| {
        let n = 8 + 4 * (i >> 11 & 31) as usize + if i & 8 != 0 { 4 } else { 0 };
        let mut v: Vec<u8> = (0..n).map(|k| pat(7, k)).collect();
        v[4] = i as u8;
        v[5] = (i >> 8) as u8;
        check(0x10, 2, &v, r);
    });
    // information text: all strings up to three bytes over boundary bytes
    let tx = [0u8, b'a', 0x7f, 0x80, 0xbf, 0xc2, 0xc3, 0xe2, 0xed, 0xf0, 0xf4, 0xff];
    let n = tx.len() as u64;
    c.space("information text", 5 * (1 + n + n * n + n * n * n + if c.thorough() { n.pow(4) } else { 0 }), |i, r| {
        let id = [0u8, 1, 2, 3, 4][(i % 5) as usize];
        let (mut j, mut len, mut span) = (i / 5, 0, 1);
        while j >= span {
            j -= span;
            span *= n;
            len += 1;
        }
        let mut v = vec![];
        for _ in 0..len {
            v.push(tx[(j % n) as usize]);
            j /= n;
        }
        check(4, id, &v, r);
    });
    // unknown packets: every class and id, every length
    c.space("every class and id", 65536, |i, r| {
        for p in [&[][..], &[0x80, 0xff, 0, 7]] {
            check((i >> 8) as u8, i as u8, p, r);
        }
    });
    c.space("unknown payload lengths", c.pick(1400, 8177), |i, r| {
        let v: Vec<u8> = (0..i as usize).map(|k| pat(7, k)).collect();
        check(0x77, 1, &v, r);
        check(1, 7, &v, r);
    });
    c.space("satellite flag words", 32 * 32 + 65536 * 2, |i, r| {
        let w = if i < 1024 { (1u32 << (i % 32)) | (1 << (i / 32)) } else { (((i - 1024) & 0xffff) as u32) << if i & 0x10000 != 0 { 16 } else { 0 } };
        let mut v: Vec<u8> = (0..20).map(|k| pat(7, k)).collect();
        v[16..].copy_from_slice(&w.to_le_bytes());
        check(1, 0x35, &v, r);
        // and the view alone
        let (a, b) = (format!("{:?}", NavSatSvFlags::from(w)), view("NavSatSvFlags", w as u64).unwrap());
        if a != b {
            r.fail(format!("the flags {w:#x} print as {a}, expected {b}"));
        }
        if i < 256 {
            let (a, b) = (format!("{:?}", FixStatusInfo::from(i as u8)), view("FixStatusInfo", i).unwrap());
            if a != b {
                r.fail(format!("the status {i:#x} prints as {a}, expected {b}"));
            }
        }
    });
    // a sink which fills up: the error is passed on, what was printed is a beginning
    let typed: Vec<usize> = (0..PACKETS.len()).filter(|k| PACKETS[*k].dispatch.is_some()).collect();
    c.space("sinks which fill up", typed.len() as u64, |i, r| {
        let p = &PACKETS[typed[i as usize]];
        let rest = *rests(p).last().unwrap();
        let mut v = background(p, rest, 7);
        tidy(typed[i as usize], &mut v);
        let fr = frame(p.class, p.id, &v);
        first(&fr, |g| {
            let Some(Ok(q)) = g else { return r.fail(format!("{}: no packet", p.name)) };
            for pretty in [false, true] {
                let put = |w: &mut dyn Write| if pretty { write!(w, "{q:#?}") } else { write!(w, "{q:?}") };
                let mut all = String::new();
                put(&mut all).unwrap();
                for room in 0..=all.len() {
                    let mut s = Small(room, String::new());
                    let res = put(&mut s);
                    r.eval(Some(hash64(s.1.as_bytes(), i * 2 + pretty as u64)));
                    if res.is_ok() != (room == all.len()) || !all.starts_with(&s.1) {
                        r.fail(format!("{}: a sink with room for {room} of {} bytes gets {:?} and {res:?}", p.name, all.len(), s.1));
                    }
                }
            }
        });
    });
    c.space("checksum errors", 65536, |i, r| {
        r.eval(Some(i));
        for got in [0u16, 1, 0xa, 0xabcd, !0, (i as u16).swap_bytes(), !(i as u16), 0x1234] {
            let m = shown(&ParserError::InvalidChecksum { expect: i as u16, got });
            tells(&m, "expect", i, r);
            tells(&m, "got", got as u64, r);
        }
    });
    // as the parser reports them
    c.space("checksum errors of frames", 65536, |i, r| {
        r.eval(Some(i));
        let mut fr = frame(5, 1, &[6, 1]);
        let n = fr.len();
        let right = u16::from_le_bytes([fr[n - 2], fr[n - 1]]);
        if right == i as u16 {
            return;
        }
        fr[n - 2..].copy_from_slice(&(i as u16).to_le_bytes());
        let mut p = Parser::default();
        let mut it = p.consume(&fr);
        match it.next() {
            Some(Err(e @ ParserError::InvalidChecksum { expect, got })) => {
                let m = shown(&e);
                if expect == right || expect as u64 == i {
                    tells(&m, "expect", expect as u64, r);
                    tells(&m, "got", got as u64, r);
                }
                if [expect, got] != [right, i as u16] && [got, expect] != [right, i as u16] {
                    r.fail(format!("a frame with checksum {i:#x} in place of {right:#x}: {m}"));
                }
            },
            _ => r.fail(format!("a frame with checksum {i:#x} in place of {right:#x} gives no checksum error")),
        }
    });
    c.space("lengths and sizes", 8200, |i, r| {
        r.eval(Some(i));
        let n = i as usize;
        for (a, b) in [(n, n + 1), (n, 0), (3, n), (n, n ^ 0x155), (n, n * 10)] {
            let m = shown(&ParserError::InvalidPacketLen { packet: "NavPvt", expect: a, got: b });
            tells(&m, "expect", a as u64, r);
            tells(&m, "got", b as u64, r);
            if !m.contains("NavPvt") {
                r.fail(format!("the message {m:?} doesn't name the packet NavPvt"));
            }
        }
        let m = shown(&ParserError::OutOfMemory { required_size: n });
        tells(&m, "required", i, r);
    });
    c.space("field errors", PACKETS.len() as u64, |i, r| {
        let p = &PACKETS[i as usize];
        for f in p.fields {
            let m = shown(&ParserError::InvalidField { packet: p.name, field: f.name });
            r.eval(Some(hash64(m.as_bytes(), i)));
            let ws: Vec<String> = words(&m).into_iter().map(|w| w.1).collect();
            if !ws.iter().any(|w| w == p.name) || !ws.iter().any(|w| w == f.name) {
                r.fail(format!("the message {m:?} doesn't name the packet {} and its field {}", p.name, f.name));
            }
        }
    });
    c.space("other errors", 1, |_, r| {
        let v = [shown(&DateTimeError::InvalidDate), shown(&DateTimeError::InvalidTime), shown(&DateTimeError::InvalidNanoseconds)];
        r.evals(3);
        for (k, m) in v.iter().enumerate() {
            let want = ["date", "time", "nanosecond"][k];
            if !m.to_lowercase().contains(want) || v.iter().filter(|x| *x == m).count() > 1 {
                r.fail(format!("the message of an invalid {want} is {m:?}"));
            }
        }
        let (a, b) = (shown(&MemWriterError::<&str>::NotEnoughMem), shown(&MemWriterError::Custom("disk gone")));
        r.evals(2);
        if !b.contains("disk gone") || a == b || !a.to_lowercase().contains("memory") {
            r.fail(format!("sink errors are told as {a:?} and {b:?}"));
        }
    });
    c.finish(
        "every value of every byte of every dispatched packet over several backgrounds and numbers of repeated parts, edge words in every wider field and pair of fields, text, every class and id, printed on one line and on many and compared with the text assembled from the accessors and, for numbers, enumerations, texts and the two bit views, from the bytes; every room of a sink that fills up; all checksum pairs of a frame, all lengths, all field names in the errors' messages. Distinct by class, id and payload or by message",
        &["the wording of messages is free: only names and numbers are looked for"],
    );
}
