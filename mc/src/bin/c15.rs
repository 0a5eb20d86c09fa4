//! C15: what is built and sent is parsed back as the same values.
use mc::*;
use ublox::*;

/// The builder value an observed accessor value stands for.
fn back(v: &Val) -> Option<FV> {
    Some(match v {
        Val::U(x) => FV::int(*x as i64),
        Val::I(x) => FV::int(*x),
        Val::F(x) => FV::flt(*x),
        Val::F32(x) => FV::flt(*x as f64),
        Val::Bits(x) => FV::int(*x as i64),
        Val::E(_, Some(c)) => FV::int(*c as i64),
        Val::Bytes(b) if b.len() <= 8 => FV::bytes(b),
        _ => return None,
    })
}

fn half_unit(f: &Fd, given: f64, got: f64, s: f64, single: bool) -> bool {
    let (lo, hi) = bounds(f);
    let x = if single { given as f32 as f64 } else { given };
    let want = x.clamp(lo as f64 * s, hi as f64 * s);
    let eps = if single { 4e-7 } else { 1e-14 };
    (got - want).abs() <= 0.5 * s + eps * want.abs() + eps * s
}

fn judge(pk: usize, v: &[FV], fr: &[u8], q: &PacketRef) -> Result<(), String> {
    let p = &PACKETS[pk];
    let mut err = None;
    let mut re: Vec<Option<FV>> = vec![None; p.fields.len()];
    observe(q, &mut |i, raw, val| {
        let f = &p.fields[i];
        let s = match f.map {
            Map::Scale { s, single } if !raw => Some((s, single)),
            _ => None,
        };
        if raw {
            return;
        }
        if let Map::Other(_) = f.map {
            return;
        }
        let b = back(&val);
        let ok = match (s, &val) {
            (Some((s, single)), Val::F(x)) => half_unit(f, v[i].f, *x, s, single),
            (Some((s, single)), Val::F32(x)) => half_unit(f, v[i].f, *x as f64, s, single),
            (Some(_), _) => false,
            _ => {
                let w = want_bytes(f, &v[i]);
                match (b, w) {
                    (Some(b), Some(w)) => want_bytes(f, &b) == Some(w),
                    _ => false,
                }
            },
        };
        if !ok && err.is_none() {
            err = Some(format!("{} was given {:?} and reads back as {val:?}", f.name, v[i]));
        }
        re[i] = b;
    });
    if let Some(e) = err {
        return Err(e);
    }
    // views: they have to carry their parts through, and the views themselves can be built from
    let view = |name: &str| p.fields.iter().position(|f| f.name == name);
    let again = match q {
        PacketRef::CfgPrtUart(r) => {
            let i = view("mode").unwrap();
            re[i] = Some(v[i]);
            Some(
                CfgPrtUartBuilder {
                    portid: r.portid(),
                    reserved0: r.reserved0(),
                    tx_ready: r.tx_ready(),
                    mode: r.mode(),
                    baud_rate: r.baud_rate(),
                    in_proto_mask: r.in_proto_mask(),
                    out_proto_mask: r.out_proto_mask(),
                    flags: r.flags(),
                    reserved5: r.reserved5(),
                }
                .into_packet_bytes()
                .to_vec(),
            )
        },
        PacketRef::CfgItfm(r) => {
            re = v.iter().map(|x| Some(*x)).collect();
            Some(CfgItfmBuilder { config: r.config(), config2: r.config2() }.into_packet_bytes().to_vec())
        },
        _ => None,
    };
    check_deep(pk, &fr[6..fr.len() - 2], q)?;
    let vals: Vec<FV> = match re.iter().copied().collect::<Option<Vec<_>>>() {
        Some(v) => v,
        None => return Err(format!("not every field could be read back: {re:?}")),
    };
    for rb in [Some(built(pk, &vals)), again].into_iter().flatten() {
        if rb != fr {
            return Err(format!("rebuilding from the accessors gives [{}]", hex(&rb)));
        }
    }
    Ok(())
}

fn check(pk: usize, v: &[FV], r: &mut Rec) {
    let p = &PACKETS[pk];
    let res = no_panic(|| {
        let fr = built(pk, v);
        let pl = &fr[6..fr.len() - 2];
        let want = dispatch(p.class, p.id, pl);
        let inner = |g: &Got| match g {
            Some(Ok(q)) => {
                let (cl, id, b, _) = parts(q);
                let got = which(q);
                if (cl, id) != (p.class, p.id) || b != pl {
                    return Err(format!("frame [{}] came back as {}", hex(&fr), show(g)));
                }
                // a packet defined for receiving has to come back as itself, the others as unknown
                let want = if p.dispatch.is_some() { Some(pk) } else { want };
                if got != want {
                    let n = |k: Option<usize>| k.map_or("Unknown", |k| PACKETS[k].name);
                    return Err(format!("frame [{}] came back as {}, expected {}", hex(&fr), n(got), n(want)));
                }
                if got == Some(pk) {
                    judge(pk, v, &fr, q).map_err(|m| format!("{m}; frame [{}]", hex(&fr)))?;
                }
                Ok(())
            },
            g => Err(format!("frame [{}]: {}", hex(&fr), show(g))),
        };
        first(&fr, inner)?;
        first_vec(&fr, inner)?;
        Ok(fr)
    });
    match res.and_then(|x| x) {
        Ok(fr) => r.eval(Some(hash64(&fr, pk as u64))),
        Err(m) => {
            r.eval(None);
            r.fail(format!("{}: {m}", p.name));
        },
    }
}

fn main() {
    let c = Ctx::new("C15", Level::Exploration);
    let t = builders();
    let n = t.iter().filter(|k| PACKETS[**k].dispatch.is_some()).count();
    c.note("builders that are also received", n.to_string());
    if n < 10 {
        panic!("only {n} packets can be built and received");
    }
    c.space("backgrounds", t.len() as u64 * 256, |i, r| {
        let pk = t[(i / 256) as usize];
        check(pk, &base_values(pk, i % 256), r);
    });
    let mut one = vec![];
    for &pk in &t {
        for f in 0..PACKETS[pk].fields.len() {
            for b in 0..c.pick(4u64, 16) {
                one.push((pk, f, b));
            }
        }
    }
    c.space("each field over its domain", one.len() as u64, |i, r| {
        let (pk, fi, b) = one[i as usize];
        let mut v = base_values(pk, b);
        for x in domain(&PACKETS[pk].fields[fi], true) {
            v[fi] = x;
            check(pk, &v, r);
        }
        r.sample(|| format!("{}.{} over its domain, background {b}", PACKETS[pk].name, PACKETS[pk].fields[fi].name));
    });
    let mut two = vec![];
    for &pk in &t {
        for a in 0..PACKETS[pk].fields.len() {
            for b in a + 1..PACKETS[pk].fields.len() {
                two.push((pk, a, b));
            }
        }
    }
    c.space("pairs of fields", two.len() as u64, |i, r| {
        let (pk, a, b) = two[i as usize];
        let p = &PACKETS[pk];
        for (a, b) in [(a, b), (b, a)] {
            let (da, db) = (domain(&p.fields[a], c.thorough()), few_values(&p.fields[b], c.pick(12, 40)));
            let mut v = base_values(pk, 2);
            for x in da.iter().step_by(c.pick(1, 1 + da.len() / 400)) {
                for y in &db {
                    v[a] = *x;
                    v[b] = *y;
                    check(pk, &v, r);
                }
            }
        }
    });
    let mut three = vec![];
    for (pk, a, b) in &two {
        three.extend((b + 1..PACKETS[*pk].fields.len()).map(|d| (*pk, *a, *b, d)));
    }
    c.space("triples of fields", three.len() as u64, |i, r| {
        let (pk, a, b, d) = three[i as usize];
        let p = &PACKETS[pk];
        let n = c.pick(9, 16);
        let (fa, fb, fd) = (few_values(&p.fields[a], n), few_values(&p.fields[b], n), few_values(&p.fields[d], n));
        let mut v = base_values(pk, 3);
        for x in &fa {
            v[a] = *x;
            for y in &fb {
                v[b] = *y;
                for z in &fd {
                    v[d] = *z;
                    check(pk, &v, r);
                }
            }
        }
    });
    // several built packets in one stream
    c.space("streams of two built packets", (t.len() * t.len() * 4) as u64, |i, r| {
        let (a, b, n) = (t[(i / 4) as usize / t.len()], t[(i / 4) as usize % t.len()], i % 4);
        let fa = built(a, &base_values(a, n));
        let fb = built(b, &base_values(b, n + 3));
        let mut s = fa.clone();
        s.extend_from_slice(&fb);
        r.eval(Some(hash64(&s, 4)));
        let mut p = Parser::new(Vec::new());
        let mut it = p.consume(&s);
        for f in [&fa, &fb] {
            let g = it.next();
            let ok = matches!(&g, Some(Ok(q)) if { let (c, i, b, _) = parts(q); c == f[2] && i == f[3] && b == &f[6..f.len() - 2] });
            if !ok {
                r.fail(format!("{} then {}: [{}] gives {} where [{}] was sent", PACKETS[a].name, PACKETS[b].name, hex(&s), show(&g), hex(f)));
            }
        }
        if let g @ Some(_) = it.next() {
            r.fail(format!("{} then {}: a third outcome {}", PACKETS[a].name, PACKETS[b].name, show(&g)));
        }
    });
    c.space("requests", 65536, |i, r| {
        let (cl, id) = ((i >> 8) as u8, i as u8);
        let fr = UbxPacketRequest::request_for_unknown(cl, id).into_packet_bytes();
        r.eval(Some(hash64(&fr, 9)));
        first(&fr, |g| {
            let ok = matches!(g, Some(Ok(q)) if { let (c, i, b, _) = parts(q); c == cl && i == id && b.is_empty() && which(q) == dispatch(cl, id, &[]) });
            if !ok {
                r.fail(format!("a request for {cl:#x} {id:#x} came back as {}", show(g)));
            }
        });
    });
    // values made by the public constructors of the views, not by reading raw words
    c.space("CFG-ITFM from its constructors", 2 * 16 * 32, |i, r| {
        let (en, bb, cw) = (i & 1 == 1, (i >> 1) as u32 % 16, (i / 32) as u32);
        for (an, name) in [(CfgItfmAntennaSettings::Unknown, "Unknown"), (CfgItfmAntennaSettings::Active, "Active"), (CfgItfmAntennaSettings::Passive, "Passive")] {
            for aux in [false, true] {
                let (c1, c2) = (CfgItfmConfig::new(en, bb, cw), CfgItfmConfig2::new(an, aux));
                let fr = CfgItfmBuilder { config: c1, config2: c2 }.into_packet_bytes();
                r.eval(Some(hash64(&fr, 11)));
                first(&fr, |g| {
                    let what = format!("CfgItfmConfig::new({en}, {bb}, {cw}), CfgItfmConfig2::new({name}, {aux}) sent as [{}]", hex(&fr));
                    let Some(Ok(q @ PacketRef::CfgItfm(p))) = g else {
                        return r.fail(format!("{what} came back as {}", show(g)));
                    };
                    let again = CfgItfmBuilder { config: p.config(), config2: p.config2() }.into_packet_bytes();
                    if again != fr {
                        r.fail(format!("{what}: rebuilt from the accessors it is [{}]", hex(&again)));
                    }
                    let want = [
                        ("enable", Val::B(en)),
                        ("bb_threshold", Val::U(bb as u64)),
                        ("cw_threshold", Val::U(cw as u64)),
                        ("antenna", Val::D(name.into())),
                        ("scan_aux_bands", Val::B(aux)),
                    ];
                    let mut seen = 0;
                    deep(q, &mut |o| {
                        let Some((n, w)) = want.iter().find(|w| w.0 == o.name) else { return };
                        seen += 1;
                        let same = o.v == *w || *n == "antenna" && o.v == Val::U(["Unknown", "Active", "Passive"].iter().position(|x| *x == name).unwrap() as u64);
                        if !same {
                            r.fail(format!("{what}: {n} reads back as {:?}", o.v));
                        }
                    });
                    if seen != want.len() {
                        r.fail(format!("{what}: {seen} values could be read back"));
                    }
                });
            }
        }
    });
    c.space("CFG-PRT mode from its parts", 2 * 3 * 4, |i, r| {
        let mode = UartMode::new(
            [DataBits::Seven, DataBits::Eight][(i % 2) as usize],
            [Parity::Even, Parity::Odd, Parity::None][(i / 2 % 3) as usize],
            [StopBits::One, StopBits::OneHalf, StopBits::Two, StopBits::Half][(i / 6) as usize],
        );
        for (portid, baud) in [(UartPortId::Uart1, 0u32), (UartPortId::Uart2, 921600), (UartPortId::Usb, u32::MAX)] {
            let b = CfgPrtUartBuilder {
                portid,
                reserved0: 0,
                tx_ready: 0,
                mode,
                baud_rate: baud,
                in_proto_mask: InProtoMask::all(),
                out_proto_mask: OutProtoMask::all(),
                flags: 0,
                reserved5: 0,
            };
            let fr = b.into_packet_bytes();
            r.eval(Some(hash64(&fr, 12)));
            first(&fr, |g| {
                let ok = matches!(g, Some(Ok(PacketRef::CfgPrtUart(p))) if format!("{:?}", (p.mode(), p.portid())) == format!("{:?}", (mode, portid)) && p.baud_rate() == baud);
                if !ok {
                    r.fail(format!("{mode:?} on {portid:?} at {baud} sent as [{}] came back as {}", hex(&fr), show(g)));
                }
            });
        }
    });
    use cfg_val::CfgVal;
    c.space("CFG-VALSET", c.pick(120, 1000), |i, r| {
        let items: Vec<CfgVal> = (0..i as usize).map(|k| cfg_make((k * 31 + i as usize) % CFGS.len(), k as u64 & 1)).collect();
        let fr = CfgValSetBuilder { version: 1, layers: CfgLayer::BBR, reserved1: 0x1234, cfg_data: &items }.into_packet_vec();
        r.eval(Some(hash64(&fr, 10)));
        if fr.len() > 8000 {
            return;
        }
        first_vec(&fr, |g| {
            let want: Vec<u8> = items.iter().fold(vec![1, 2, 0x34, 0x12], |mut a, x| {
                x.extend_to(&mut a);
                a
            });
            let ok = matches!(g, Some(Ok(q)) if { let (c, i, b, n) = parts(q); c == 6 && i == 0x8a && b == &want[..] && n == "Unknown" });
            if !ok {
                r.fail(format!("CFG-VALSET with {} items came back as {}", items.len(), show(g)));
            }
        });
    });
    c.finish(
        "every builder: 256 value sets, every field over its domain (all 8- and 16-bit values), pairs and triples of fields over reduced domains; each built frame is parsed back by fixed and growable buffers, every accessor compared with the value given, and rebuilt; streams of two packets; all requests; CFG-VALSET. Distinct by frame",
        &["interactions of four or more fields behave like triples"],
    );
}
