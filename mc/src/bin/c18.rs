//! C18: poll, acknowledge and rate helpers address exactly the packet named.
use mc::*;
use ublox::*;

/// Delivers the acknowledgement of (`class`, `id`) and asks it about every packet type.
fn ask(nak: bool, class: u8, id: u8, r: &mut Rec) {
    let fr = frame(5, !nak as u8, &[class, id]);
    r.evals(1);
    first(&fr, |g| {
        let (word, answers): (&str, Vec<bool>) = match g {
            Some(Ok(PacketRef::AckAck(a))) if !nak => {
                if (a.class(), a.msg_id()) != (class, id) {
                    r.fail(format!("ACK-ACK of {class:#04x} {id:#04x} reads {:#04x} {:#04x}", a.class(), a.msg_id()));
                }
                ("ACK-ACK", (0..PACKETS.len()).map(|k| ack_for(k, a)).collect())
            },
            Some(Ok(PacketRef::AckNak(a))) if nak => {
                if (a.class(), a.msg_id()) != (class, id) {
                    r.fail(format!("ACK-NAK of {class:#04x} {id:#04x} reads {:#04x} {:#04x}", a.class(), a.msg_id()));
                }
                ("ACK-NAK", (0..PACKETS.len()).map(|k| nak_for(k, a)).collect())
            },
            g => {
                r.fail(format!("acknowledgement (rejection: {nak}) of {class:#04x} {id:#04x} is delivered as {}", show(g)));
                return;
            },
        };
        for (k, got) in answers.into_iter().enumerate() {
            let p = &PACKETS[k];
            let want = (p.class, p.id) == (class, id);
            if got != want {
                r.fail(format!("{word} of class {class:#04x} id {id:#04x} is {}recognised as one for {} ({:#04x} {:#04x})", if got { "" } else { "not " }, p.name, p.class, p.id));
            }
        }
    });
}

fn main() {
    let c = Ctx::new("C18", Level::Exploration);
    c.space("packet types name their class and id", PACKETS.len() as u64, |i, r| {
        let p = &PACKETS[i as usize];
        let (class, id, fixed, max) = META[i as usize];
        if (class, id) != (p.class, p.id) {
            r.fail(format!("{} is declared as {class:#04x} {id:#04x}, expected {:#04x} {:#04x}", p.name, p.class, p.id));
        }
        if fixed.map(|x| x as usize) != p.fixed {
            r.fail(format!("{}::FIXED_PAYLOAD_LEN is {fixed:?}, expected {:?}", p.name, p.fixed));
        }
        if p.fixed.is_some() && Some(max as usize) != p.fixed || (max as usize) < p.max {
            r.fail(format!("{}::MAX_PAYLOAD_LEN is {max}, expected {}", p.name, p.max));
        }
        r.eval(Some(i));
    });
    c.space("polling a packet type", PACKETS.len() as u64, |i, r| {
        let p = &PACKETS[i as usize];
        let (got, want) = (poll(i as usize), frame(p.class, p.id, &[]));
        if got[..] != want[..] {
            r.fail(format!("request_for::<{}>() is [{}], expected [{}]", p.name, hex(&got), hex(&want)));
        }
        r.eval(Some(0x1000 + i));
    });
    c.space("polling any class and id", 65536, |i, r| {
        let (class, id) = ((i >> 8) as u8, i as u8);
        match no_panic(|| UbxPacketRequest::request_for_unknown(class, id).into_packet_bytes()) {
            Ok(got) => {
                let want = frame(class, id, &[]);
                if got[..] != want[..] {
                    r.fail(format!("request_for_unknown({class:#04x}, {id:#04x}) is [{}], expected [{}]", hex(&got), hex(&want)));
                }
                // a receiver (or a loop-back) sees an empty packet of that class and id
                first(&got, |g| match g {
                    Some(Ok(q)) if { let (a, b, d, _) = parts(q); (a, b, d.len()) == (class, id, 0) } => {},
                    g => r.fail(format!("request_for_unknown({class:#04x}, {id:#04x}) is received as {}", show(g))),
                });
            },
            Err(m) => r.fail(m),
        }
        r.eval(Some(0x10_0000 + i));
    });
    c.space("acknowledgements of any class and id", 65536 * 2, |i, r| {
        ask(i >> 16 == 1, (i >> 8) as u8, i as u8, r);
        r.eval(Some(0x20_0000 + i));
    });
    c.space("acknowledgements inside other traffic", 256 * 2, |i, r| {
        // what is asked of one packet must not depend on the packets around it
        let (x, nak) = (i as u8, i >> 8 == 1);
        let (a, b) = (PACKETS[x as usize % PACKETS.len()].class, PACKETS[x as usize % PACKETS.len()].id);
        let mut s = frame(5, nak as u8, &[a, b]);
        s.extend(frame(1, 7, &vec![x; 92]));
        s.extend(frame(5, !nak as u8, &[a, b]));
        s.extend(frame(5, !nak as u8, &[b, a]));
        let mut p = Parser::default();
        let mut it = p.consume(&s);
        let mut n = 0;
        let mut seen = vec![];
        while let Some(g) = it.next() {
            match g {
                Ok(PacketRef::AckAck(q)) => seen.push((n, true, (0..PACKETS.len()).filter(|k| ack_for(*k, &q)).collect::<Vec<_>>())),
                Ok(PacketRef::AckNak(q)) => seen.push((n, false, (0..PACKETS.len()).filter(|k| nak_for(*k, &q)).collect::<Vec<_>>())),
                _ => {},
            }
            n += 1;
        }
        let names = |c: u8, d: u8| (0..PACKETS.len()).filter(|k| (PACKETS[*k].class, PACKETS[*k].id) == (c, d)).collect::<Vec<_>>();
        let want = vec![(0, nak, names(a, b)), (2, !nak, names(a, b)), (3, !nak, names(b, a))];
        if seen != want {
            r.fail(format!("stream [{}]: acknowledgements recognised {seen:?}, expected {want:?}", hex(&s)));
        }
        r.eval(Some(0x40_0000 + i));
    });
    c.space("message rate on the current port", PACKETS.len() as u64 * 256, |i, r| {
        let (k, rate) = ((i >> 8) as usize, i as u8);
        let p = &PACKETS[k];
        let (got, want) = (single_rate(k, rate), frame(6, 1, &[p.class, p.id, rate]));
        if got[..] != want[..] {
            r.fail(format!("set_rate_for::<{}>({rate}) is [{}], expected [{}]", p.name, hex(&got), hex(&want)));
        }
        r.eval(Some(0x50_0000 + i));
    });
    // every port takes every rate; and every pair of ports every pair of edge rates
    let edge = [0u8, 1, 2, 0x7f, 0x80, 0xb5, 0xff];
    c.space("message rates on all ports", PACKETS.len() as u64 * 6, |i, r| {
        let (k, port) = (i as usize / 6, i as usize % 6);
        let p = &PACKETS[k];
        let mut one = |rates: [u8; 6]| {
            let (got, want) = (all_rates(k, rates), frame(6, 1, &[&[p.class, p.id][..], &rates[..]].concat()));
            if got[..] != want[..] {
                r.fail(format!("set_rate_for::<{}>({rates:?}) is [{}], expected [{}]", p.name, hex(&got), hex(&want)));
            }
            r.eval(Some(hash64(&rates, k as u64)));
        };
        for base in [[0u8; 6], [1, 2, 3, 4, 5, 6], [0xff; 6]] {
            for x in 0..=255u8 {
                let mut v = base;
                v[port] = x;
                one(v);
            }
            for q in 0..6 {
                for a in edge {
                    for b in edge {
                        let mut v = base;
                        v[port] = a;
                        v[q] = b;
                        one(v);
                    }
                }
            }
        }
    });
    c.space("rate builders given any class and id", 65536, |i, r| {
        let (class, id) = ((i >> 8) as u8, i as u8);
        for rate in edge {
            let got = CfgMsgSinglePortBuilder { msg_class: class, msg_id: id, rate }.into_packet_bytes();
            let want = frame(6, 1, &[class, id, rate]);
            if got[..] != want[..] {
                r.fail(format!("CfgMsgSinglePortBuilder {class:#04x} {id:#04x} {rate} is [{}], expected [{}]", hex(&got), hex(&want)));
            }
        }
        let rates = [edge[i as usize % 7], class, 0, id, 9, edge[i as usize / 7 % 7]];
        let got = CfgMsgAllPortsBuilder { msg_class: class, msg_id: id, rates }.into_packet_bytes();
        let want = frame(6, 1, &[&[class, id][..], &rates[..]].concat());
        if got[..] != want[..] {
            r.fail(format!("CfgMsgAllPortsBuilder {class:#04x} {id:#04x} {rates:?} is [{}], expected [{}]", hex(&got), hex(&want)));
        }
        r.eval(Some(0x60_0000 + i));
    });
    c.finish(
        "all 66 packet types for polls, all 65536 class and id pairs for unknown polls and for acknowledgements and rejections times all packet types, every type times every single-port rate, every port times every rate over three backgrounds and pairs of ports with edge rates, rate builders over all classes and ids. Distinct by input; frames are compared with an independent encoder and acknowledgement matches with the frozen class and id table",
        &["three or more ports with unusual rates at once behave like pairs"],
    );
}
