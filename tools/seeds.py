"""Planted bugs: see mkseed.py. Each edit is (file, old text occurring once, new text)."""
P = 'ublox/src/parser.rs'
E = 'ublox/src/error.rs'
K = 'ublox/src/ubx_packets/packets.rs'
T = 'ublox/src/ubx_packets/types.rs'
U = 'ublox/src/ubx_packets.rs'
C = 'ublox/src/ubx_packets/cfg_val.rs'
O = 'ublox_derive/src/output.rs'
I = 'ublox_derive/src/input.rs'
Y = 'ublox_derive/src/types.rs'

STD = r'''#![allow(unused, dead_code)]
use ublox::*;
fn frame(c: u8, i: u8, p: &[u8]) -> Vec<u8> {
    let mut v = vec![0xb5, 0x62, c, i, p.len() as u8, (p.len() >> 8) as u8];
    v.extend_from_slice(p);
    let (mut a, mut b) = (0u8, 0u8);
    for x in &v[2..] { a = a.wrapping_add(*x); b = b.wrapping_add(a); }
    v.push(a); v.push(b);
    v
}
fn out(r: Result<PacketRef, ParserError>) -> String { format!("{:?}", r) }
fn is_unknown(p: &PacketRef) -> bool { matches!(p, PacketRef::Unknown(_)) }
fn drain<T: UnderlyingBuffer>(p: &mut Parser<T>, d: &[u8], v: &mut Vec<String>) {
    let mut it = p.consume(d);
    while let Some(r) = it.next() { v.push(out(r)); }
}
/// runs `f` on the only packet of the frame
fn one<R>(f: &[u8], g: impl FnOnce(PacketRef) -> R) -> R {
    let mut p = Parser::default();
    let mut it = p.consume(f);
    let r = it.next().expect("one packet").expect("no error");
    g(r)
}
'''
PRELUDE = {'std': STD, 'serde': STD, 'chrono': STD, 'derive': '#![allow(unused, dead_code)]\n'}

SEEDS = []
def seed(id, property, edits, needs, breaks, demo=None, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, **({'demo': demo} if demo else {}), **kw))

# ------------------------------------------------------------------ framing
seed('c01-largest-payload', 'C01', [(P, 'if pack_len > usize::from(MAX_PAYLOAD_LEN) {', 'if pack_len >= usize::from(MAX_PAYLOAD_LEN) {')],
     'a frame with exactly the largest payload (RXM-RAWX with 255 measurements, 8176 bytes)',
     'the largest legal frame is skipped silently',
     r'''fn main() {
    let mut v = vec![];
    drain(&mut Parser::default(), &frame(0x77, 1, &vec![7u8; 8176]), &mut v);
    assert_eq!(v.len(), 1);
}''')
seed('c01-double-sync', 'C01', [(P, '''            if self.buf[1] != SYNC_CHAR_2 {
                self.buf.drain(1);
                continue;''', '''            if self.buf[1] != SYNC_CHAR_2 {
                self.buf.drain(if self.buf.len() > 2 && self.buf[2] == SYNC_CHAR_1 { 3 } else { 1 });
                continue;''')],
     'a stray first sync byte, one other byte, then a frame (B5 xx B5 62 ...)', 'the frame behind a stray sync byte is lost',
     r'''fn main() {
    let mut d = vec![0xb5, 1];
    d.extend(frame(5, 1, &[6, 1]));
    let mut v = vec![];
    drain(&mut Parser::default(), &d, &mut v);
    assert_eq!(v.len(), 1);
}''')
seed('c01-header-at-end', 'C01', [(P, '''            if self.buf.len() < 6 {
                return None;
            }''', '''            if self.buf.len() < 6 {
                if self.buf.len() == 5 && self.buf[4] == 0xff {
                    self.buf.clear();
                }
                return None;
            }''')],
     'the data ends (a call ends) between the two length bytes of a frame whose low length byte is 255', 'such a frame is lost',
     r'''fn main() {
    let f = frame(0x77, 1, &[1; 255]);
    let mut p = Parser::default();
    let mut v = vec![];
    for b in f.iter() { drain(&mut p, &[*b], &mut v); }
    assert_eq!(v.len(), 1);
}''')
# ------------------------------------------------------------------ chunking
seed('c02-drop-keeps-only-underlying', 'C02', [(P, '''        self.buf.drain(self.off);
        self.buf
            .extend_from_slice(&self.new_buf[self.new_buf_offset..]);
    }''', '''        self.buf.drain(self.off);
        if self.off == 0 || self.buf.is_empty() {
            self.buf
                .extend_from_slice(&self.new_buf[self.new_buf_offset..]);
        }
    }''')],
     'an iterator dropped while both the buffer (already partly consumed) and the new data still hold bytes',
     'unread bytes of the new data are lost when an iterator is dropped early',
     r'''fn main() {
    let a = frame(5, 1, &[6, 1]);
    let mut p = Parser::default();
    { let mut two = a.clone(); two.extend(&a); two.extend(&a[..4]); let mut it = p.consume(&two); it.next(); }
    { let mut it = p.consume(&a[4..]); it.next(); }
    let mut v = vec![];
    drain(&mut p, &[], &mut v);
    assert_eq!(v.len(), 1, "{:?}", v);
}''')
seed('c02-checksum-window', 'C02', [(P, '''            &self.new_buf[self.new_buf_offset + range.start.saturating_sub(split)
                ..range.end - split + self.new_buf_offset]''', '''            &self.new_buf[self.new_buf_offset + if split == 0 { range.start } else { 0 }
                ..range.end - split + self.new_buf_offset]''')],
     'only the first sync byte of a frame was buffered when the rest arrives',
     'frames split directly behind their first sync byte fail the checksum',
     r'''fn main() {
    let a = frame(5, 1, &[6, 1]);
    for k in 0..a.len() {
        let mut p = Parser::default();
        let mut v = vec![];
        drain(&mut p, &a[..k], &mut v);
        drain(&mut p, &a[k..], &mut v);
        assert!(v.len() == 1 && v[0].starts_with("Ok"), "{} {:?}", k, v);
    }
}''')
seed('c02-initial-skip', 'C02', [(P, '''            if buf[i] == SYNC_CHAR_1 {
                buf.drain(i);
                break;''', '''            if buf[i] == SYNC_CHAR_1 {
                buf.drain(i + usize::from(i > 0 && i + 1 == buf.len()));
                break;''')],
     'a piece that holds garbage and ends with a first sync byte', 'the frame starting with the last byte of a piece behind garbage is lost',
     r'''fn main() {
    let a = frame(5, 1, &[6, 1]);
    let mut p = Parser::default();
    let mut v = vec![];
    drain(&mut p, &[0, 0xb5], &mut v);
    drain(&mut p, &a[1..], &mut v);
    assert_eq!(v.len(), 1);
}''')
# ------------------------------------------------------------------ checksum
seed('c03-first-byte-only', 'C03', [(P, 'if (ck_a, ck_b) != (expect_ck_a, expect_ck_b) {', 'if ck_a != expect_ck_a && ck_b != expect_ck_b {')],
     'a damaged frame where exactly one of the two checksum bytes still matches (e.g. two swapped payload bytes)',
     'frames damaged so that one checksum byte matches are delivered',
     r'''fn main() {
    let mut f = frame(5, 1, &[6, 1]);
    f.swap(6, 7);
    let mut v = vec![];
    drain(&mut Parser::default(), &f, &mut v);
    assert!(v.iter().all(|x| x.starts_with("Err")), "{:?}", v);
}''')
seed('c03-error-values', 'C03', [(P, '''                got: u16::from_le_bytes([ck_a, ck_b]),''', '''                got: u16::from_le_bytes([ck_a, ck_b.max(expect_ck_b)]),''')],
     'a damaged frame whose computed second checksum byte is smaller than the received one', 'the error reports a checksum which was not computed',
     r'''fn main() {
    let mut f = frame(5, 1, &[6, 1]);
    let want = f[8] as u16 | (f[9] as u16) << 8;
    f[9] ^= 0x80;
    let mut p = Parser::default();
    let mut it = p.consume(&f);
    match it.next() {
        Some(Err(ParserError::InvalidChecksum { expect, got })) => { assert_eq!(got, want); assert_eq!(expect, want ^ 0x8000); }
        x => panic!("{:?}", x),
    }
}''')
seed('c03-empty-payload', 'C03', [(P, '        if (ck_a, ck_b) != (expect_ck_a, expect_ck_b) {', '        if (ck_a, ck_b) != (expect_ck_a, expect_ck_b) && !(pack_len == 0 && ck_a == expect_ck_a) {')],
     'an empty frame with a damaged second checksum byte', 'a damaged empty frame is delivered',
     r'''fn main() {
    let mut f = frame(5, 1, &[]);
    f[7] ^= 1;
    let mut v = vec![];
    drain(&mut Parser::default(), &f, &mut v);
    assert!(v.iter().all(|x| x.starts_with("Err")), "{:?}", v);
}''')
# ------------------------------------------------------------------ resync
seed('c04-skip-bad-frame', 'C04', [(P, '''            self.buf.drain(2);
            return Some(Err(ParserError::InvalidChecksum {''', '''            self.buf.drain(6 + pack_len.min(2));
            return Some(Err(ParserError::InvalidChecksum {''')],
     'an intact frame that starts inside the first bytes of a false frame (header or first payload bytes)',
     'an intact frame overlapping the head of a damaged one is lost',
     r'''fn main() {
    let mut d = vec![0xb5, 0x62, 1, 2, 4, 0];
    let f = frame(5, 1, &[6, 1]);
    d.extend(&f);
    d.extend([0; 4]);
    let mut v = vec![];
    drain(&mut Parser::default(), &d, &mut v);
    assert!(v.iter().any(|x| x.starts_with("Ok")), "{:?}", v);
}''')
seed('c04-oversize-header', 'C04', [(P, '''            if pack_len > usize::from(MAX_PAYLOAD_LEN) {
                self.buf.drain(2);''', '''            if pack_len > usize::from(MAX_PAYLOAD_LEN) {
                self.buf.drain(if pack_len & 0xff == usize::from(SYNC_CHAR_1) { 2 } else { 6 });''')],
     'a false header with an impossible length in which an intact frame starts at the class, id or high length byte', 'the intact frame behind a false header is lost',
     r'''fn main() {
    let mut d = vec![0xb5, 0x62];
    d.extend(frame(0x77, 1, &[0; 0xb5]).iter());
    let mut e = vec![0xb5, 0x62, 9, 9, 0];
    e.extend(frame(5, 1, &[6, 1]));
    let mut v = vec![];
    drain(&mut Parser::default(), &e, &mut v);
    assert_eq!(v.len(), 1, "{:?}", v);
}''')
# ------------------------------------------------------------------ fixed capacity
seed('c05-oom-drain', 'C05', [(P, '''                // We ran out of space, drop this packet and move on
                self.buf.drain(2);''', '''                // We ran out of space, drop this packet and move on
                self.buf.drain(if self.buf[2] == SYNC_CHAR_1 { 2 } else { 6 });''')],
     'a candidate too large for the fixed buffer with an intact frame starting at its id or length bytes',
     'an intact frame starting inside the header of a too large candidate is lost',
     r'''fn main() {
    let mut mem = [0u8; 16];
    let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
    let mut v = vec![];
    // b5 62 07 [b5 62 01 ...]: an impossible length for a larger buffer, so the frame starts at the high length byte
    let mut d = vec![0xb5, 0x62, 7, 9, 0x40, 0];
    d[5] = 0x1f; // 0x1f40 bytes
    d.truncate(4);
    d.extend([0x00, 0x10]);
    drain(&mut p, &d, &mut v);
    let f = frame(5, 1, &[6, 1]);
    let mut q = Parser::new(FixedLinearBuffer::new(&mut [0u8; 0][..]));
    let _ = &mut q;
    // class, id = xx, b5; length = 62, 05
    let mut e = vec![0xb5, 0x62, 0x07];
    e.extend(&f);
    e.extend(&f[..8]);
    let mut mem2 = [0u8; 16];
    let mut p2 = Parser::new(FixedLinearBuffer::new(&mut mem2));
    let mut w = vec![];
    drain(&mut p2, &e, &mut w);
    drain(&mut p2, &f[8..], &mut w);
    assert!(w.iter().filter(|x| x.starts_with("Ok")).count() == 2, "{:?}", w);
}''')
seed('c05-required-size', 'C05', [(P, '''                return Some(Err(ParserError::OutOfMemory {
                    required_size: pack_len + 2,
                }));''', '''                return Some(Err(ParserError::OutOfMemory {
                    required_size: self.buf.len().min(pack_len + 2),
                }));''')],
     'a candidate frame larger than the fixed buffer', 'the out-of-memory error names a size that would not be enough',
     r'''fn main() {
    let mut mem = [0u8; 16];
    let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
    let f = frame(0x77, 1, &[3; 40]);
    let mut v = vec![];
    drain(&mut p, &f[..20], &mut v);
    assert_eq!(v.len(), 1);
    assert!(v[0].contains("42"), "{:?}", v);
}''')
# ------------------------------------------------------------------ buffers
# ------------------------------------------------------------------ bounded
seed('c07-oom-retry', 'C07', [(P, '''                    self.buf.clear();
                    return None;
                },
            };
            self.buf.drain(pos);''', '''                    if self.buf.len() <= usize::from(MAX_PAYLOAD_LEN) {
                        self.buf.clear();
                    }
                    return None;
                },
            };
            self.buf.drain(pos);''')],
     'more than 8176 bytes without a sync byte behind something that makes iteration start (a false header)',
     'garbage without sync bytes accumulates in the buffer',
     r'''fn main() {
    let mut p = Parser::default();
    let mut v = vec![];
    for _ in 0..3 { drain(&mut p, &vec![0u8; 10000], &mut v); }
    assert!(p.buffer_len() <= 8183, "{}", p.buffer_len());
}''')
# ------------------------------------------------------------------ panics
seed('c08-extension-check', 'C08', [(K, 'payload.len() % 30 == 0 && payload.chunks(30).all(is_cstr_valid)', 'payload.len() % 30 == 0 && payload.chunks(30).take(10).all(is_cstr_valid)')],
     'MON-VER with more than ten extension strings, a later one unterminated', 'iterating the extensions panics',
     r'''fn main() {
    let mut p = vec![0u8; 40 + 30 * 11];
    let n = p.len();
    for b in &mut p[n - 30..] { *b = b'x'; }
    one(&frame(0x0a, 4, &p), |r| { let _ = format!("{:?}", r); if let PacketRef::MonVer(m) = r { let _ = m.extension().count(); } });
}''')
seed('c08-min-size', 'C08', [(O, '''                    #size #(+ #ref_name(payload).#size_fns())*''', '''                    #size #(.max(#size + #ref_name(payload).#size_fns()))*''')],
     'ESF-MEAS announcing both data words and a calibration tag, but ending before the tag', 'reading the tag slices out of range',
     r'''fn main() {
    let mut p = vec![0u8; 8 + 4];
    let flags: u16 = (1 << 11) | 8;
    p[4..6].copy_from_slice(&flags.to_le_bytes());
    one(&frame(0x10, 2, &p), |r| { let _ = format!("{:?}", r); });
}''')
seed('c08-cstr', 'C08', [(K, '''        core::str::from_utf8(&bytes[0..null_pos]).is_ok()
    }''', '''        null_pos > 24 || core::str::from_utf8(&bytes[0..null_pos]).is_ok()
    }''')],
     'a version string longer than 24 bytes that is not UTF-8', 'reading the string panics',
     r'''fn main() {
    let mut p = vec![0u8; 40];
    for b in &mut p[..27] { *b = 0xff; }
    one(&frame(0x0a, 4, &p), |r| { let _ = format!("{:?}", r); });
}''')
# ------------------------------------------------------------------ dispatch
# ------------------------------------------------------------------ fields
seed('c10-angular-scale', 'C10', [(K, '''    #[ubx(map_type = EsfInsBitFlags)]
    bit_field: u32,
    reserved: [u8; 4],
    itow: u32,

    #[ubx(map_type = f64, scale = 1e-3, alias = x_angular_rate)]
    x_ang_rate: i32,

    #[ubx(map_type = f64, scale = 1e-3, alias = y_angular_rate)]''', '''    #[ubx(map_type = EsfInsBitFlags)]
    bit_field: u32,
    reserved: [u8; 4],
    itow: u32,

    #[ubx(map_type = f64, scale = 1e-3, alias = x_angular_rate)]
    x_ang_rate: i32,

    #[ubx(map_type = f64, scale = 1e-2, alias = y_angular_rate)]''')],
     'any ESF-INS with a y rotation', 'the y angular rate is ten times too large',
     r'''fn main() {
    let mut p = vec![0u8; 36];
    p[16..20].copy_from_slice(&1500i32.to_le_bytes());
    one(&frame(0x10, 0x15, &p), |r| if let PacketRef::EsfIns(x) = r { assert!((x.y_angular_rate() - 1.5).abs() < 1e-9) } else { panic!() });
}''')
seed('c10-swapped-fields', 'C10', [(K, '''    acc_roll: u32,
    #[ubx(map_type = f64, scale = 1e-5, alias = vehicle_pitch_accuracy)]
    acc_pitch: u32,
    #[ubx(map_type = f64, scale = 1e-5, alias = vehicle_heading_accuracy)]
    acc_heading: u32,
}

#[ubx_packet_recv]
#[ubx(class = 0x28, id = 0x02''', '''    acc_roll: u32,
    #[ubx(map_type = f64, scale = 1e-5, alias = vehicle_heading_accuracy)]
    acc_heading: u32,
    #[ubx(map_type = f64, scale = 1e-5, alias = vehicle_pitch_accuracy)]
    acc_pitch: u32,
}

#[ubx_packet_recv]
#[ubx(class = 0x28, id = 0x02''')],
     'HNR-ATT with different pitch and heading accuracies', 'two accuracies are exchanged',
     r'''fn main() {
    let mut p = vec![0u8; 32];
    p[24..28].copy_from_slice(&100000u32.to_le_bytes());
    one(&frame(0x28, 0x01, &p), |r| if let PacketRef::HnrAtt(x) = r { assert!((x.vehicle_pitch_accuracy() - 1.0).abs() < 1e-9) } else { panic!() });
}''')
seed('c10-eph-width', 'C10', [(K, '''    m0: i32,
    cuc: i16,
    cus: i16,
    e: u32,
    sqrt_a: u32,
    toe: u16,
    cic: i16,
    omega0: i32,
    cis: i16,
    crc: i16,
    i0: i32,''', '''    m0: i32,
    cuc: i16,
    cus: i16,
    e: u32,
    sqrt_a: u32,
    toe: u16,
    cic: i16,
    cis: i16,
    omega0: i32,
    crc: i16,
    i0: i32,''')],
     'any GPS ephemeris', 'omega0 and cis are read from each other\'s bytes',
     r'''fn main() {
    let mut p = vec![0u8; 68];
    p[0] = 1;
    for (i, b) in p.iter_mut().enumerate() { *b = i as u8; }
    one(&frame(0x13, 0, &p), |r| if let PacketRef::MgaGpsEph(x) = r { assert_eq!(x.omega0(), i32::from_le_bytes([44, 45, 46, 47])) } else { panic!("{:?}", r) });
}''')
# ------------------------------------------------------------------ repeated parts
seed('c11-data-count', 'C11', [(K, '((self.flags() >> 11 & 0x1f) as usize) * 4', '((self.flags() >> 11 & 0xf) as usize) * 4')],
     'ESF-MEAS with 16 or more measurements', 'measurements are dropped and the calibration tag is read from one of them',
     r'''fn main() {
    let n = 17u16;
    let mut p = vec![0u8; 8 + 4 * n as usize];
    p[4..6].copy_from_slice(&(n << 11).to_le_bytes());
    one(&frame(0x10, 2, &p), |r| if let PacketRef::EsfMeas(x) = r { assert_eq!(x.data().count(), 17) } else { panic!() });
}''')
seed('c11-sat-stride', 'C11', [(K, '''            let data = &self.data[self.offset..self.offset + 12];
            self.offset += 12;''', '''            let data = &self.data[self.offset..self.offset + 12];
            self.offset += if self.offset == 31 * 12 { 24 } else { 12 };''')],
     'NAV-SAT with more than 32 satellites', 'the 33rd satellite is skipped',
     r'''fn main() {
    let p = vec![0u8; 8 + 12 * 40];
    one(&frame(1, 0x35, &p), |r| if let PacketRef::NavSat(x) = r { assert_eq!(x.svs().count(), 40) } else { panic!() });
}''')
seed('c11-sensor-tag', 'C11', [(K, 'data_type: ((data & 0x3F000000) >> 24).try_into().unwrap(),', 'data_type: ((data & 0x1F000000) >> 24).try_into().unwrap(),')],
     'a sensor data type of 32 or more', 'the sensor type is read from five bits instead of six',
     r'''fn main() {
    let mut p = vec![0u8; 12];
    p[4..6].copy_from_slice(&(1u16 << 11).to_le_bytes());
    p[11] = 0x2a;
    one(&frame(0x10, 2, &p), |r| if let PacketRef::EsfMeas(x) = r { assert_eq!(x.data().next().unwrap().data_type, 0x2a) } else { panic!() });
}''')
seed('c11-dword-order', 'C11', [(K, '''            .map(|bytes| u32::from_le_bytes(bytes.try_into().unwrap()))
    }''', '''            .map(|bytes| u32::from_le_bytes(bytes.try_into().unwrap()) & 0x3fff_ffff)
    }''')],
     'a subframe word with one of its two top bits set', 'the top bits of subframe words are lost',
     r'''fn main() {
    let mut p = vec![0u8; 12];
    p[8..].copy_from_slice(&[1, 2, 3, 0xc4]);
    one(&frame(2, 0x13, &p), |r| if let PacketRef::RxmSfrbx(x) = r { assert_eq!(x.dwrd().next().unwrap(), 0xc4030201) } else { panic!() });
}''')
# ------------------------------------------------------------------ bit fields
seed('c12-health-mask', 'C12', [(K, '''        let bits = (self.0 >> 4) & 0x3;
        match bits {
            1 => NavSatSvHealth::Healthy,''', '''        let bits = (self.0 >> 4) & 0x7;
        match bits {
            1 => NavSatSvHealth::Healthy,''')],
     'a satellite with differential correction and a health state', 'the correction flag changes the decoded health',
     r'''fn main() {
    let mut p = vec![0u8; 20];
    p[16] = 0x50;
    one(&frame(1, 0x35, &p), |r| if let PacketRef::NavSat(x) = r { assert!(matches!(x.svs().next().unwrap().flags().health(), NavSatSvHealth::Healthy)) } else { panic!() });
}''')
seed('c12-orbit-source', 'C12', [(K, '''            4 => NavSatOrbitSource::AssistNowAutonomous,
            x => NavSatOrbitSource::Other(x as u8),''', '''            4 => NavSatOrbitSource::AssistNowAutonomous,
            x => NavSatOrbitSource::Other(x as u8 & 0x5),''')],
     'orbit source 6 or 7', 'the raw value kept for other orbit sources is wrong',
     r'''fn main() {
    let mut p = vec![0u8; 20];
    p[17] = 7;
    one(&frame(1, 0x35, &p), |r| if let PacketRef::NavSat(x) = r { assert!(matches!(x.svs().next().unwrap().flags().orbit_source(), NavSatOrbitSource::Other(7))) } else { panic!() });
}''')
seed('c12-raim', 'C12', [(K, '''        match (self.0 >> 2) & 0b11 {
            // Inactive.
            0b01 => Some(false),''', '''        match (self.0 >> 2) & 0b11 {
            // Inactive.
            0b01 | 0b11 => Some(false),''')],
     'TIM-TP with RAIM state 3', 'an undefined RAIM state reads as inactive',
     r'''fn main() {
    let mut p = vec![0u8; 16];
    p[14] = 0b1100;
    one(&frame(0x0d, 1, &p), |r| if let PacketRef::TimTp(x) = r { assert_eq!(x.flags().raim_active(), None) } else { panic!() });
}''')
seed('c12-jamming', 'C12', [(K, '''        /// 1 = Valid current number of leap seconds value.
        const VALID_CURR_LS = 1;
        /// Valid time to next leap second event or from the last leap second event if no future
        /// event scheduled.
        const VALID_TIME_TO_LS_EVENT = 2;''', '''        /// 1 = Valid current number of leap seconds value.
        const VALID_CURR_LS = 1;
        /// Valid time to next leap second event or from the last leap second event if no future
        /// event scheduled.
        const VALID_TIME_TO_LS_EVENT = 4;''')],
     'NAV-TIMELS with the time-to-event flag', 'the validity flag is read from the wrong bit',
     r'''fn main() {
    let mut p = vec![0u8; 24];
    p[23] = 2;
    one(&frame(1, 0x26, &p), |r| if let PacketRef::NavTimeLs(x) = r { assert!(x.valid().contains(NavTimeLsFlags::VALID_TIME_TO_LS_EVENT)) } else { panic!() });
}''')
# ------------------------------------------------------------------ builders
seed('c13-cw-threshold', 'C13', [(K, '''impl CfgItfmCwThreshold {
    const POSITION: u32 = 4;
    const LENGTH: u32 = 5;''', '''impl CfgItfmCwThreshold {
    const POSITION: u32 = 4;
    const LENGTH: u32 = 4;''')],
     'a CW threshold of 16 dB or more', 'the top bit of the threshold is not sent',
     r'''fn main() {
    let b = CfgItfmBuilder { config: CfgItfmConfig::new(false, 0, 0x1f), config2: CfgItfmConfig2::new(CfgItfmAntennaSettings::Unknown, false) }.into_packet_bytes();
    assert_eq!(b[6] >> 4, 0xf);
    assert_eq!(b[7] & 1, 1);
}''')
seed('c13-parity', 'C13', [(K, '''        (match self {
            Self::Even => 0b000,
            Self::Odd => 0b001,
            Self::None => 0b100,''', '''        (match self {
            Self::Even => 0b001,
            Self::Odd => 0b000,
            Self::None => 0b100,''')],
     'a UART configuration with even or odd parity', 'even and odd parity are exchanged on the wire',
     r'''fn main() {
    let b = CfgPrtUartBuilder { portid: UartPortId::Uart1, reserved0: 0, tx_ready: 0, mode: UartMode::new(DataBits::Eight, Parity::Odd, StopBits::One), baud_rate: 9600, in_proto_mask: InProtoMask::UBLOX, out_proto_mask: OutProtoMask::UBLOX, flags: 0, reserved5: 0 }.into_packet_bytes();
    let mode = u32::from_le_bytes([b[10], b[11], b[12], b[13]]);
    assert_eq!((mode >> 9) & 7, 1);
}''')
seed('c13-default', 'C13', [(K, 'Self(0x16B156) // from UBX specifications', 'Self(0x16B165) // from UBX specifications')],
     'a defaulted interference configuration', 'the algorithm bits the receiver requires are wrong',
     r'''fn main() {
    let b = CfgItfmBuilder { config: CfgItfmConfig::new(true, 3, 15), config2: CfgItfmConfig2::new(CfgItfmAntennaSettings::Unknown, false) }.into_packet_bytes();
    assert_eq!((u32::from_le_bytes([b[6], b[7], b[8], b[9]]) >> 9) & 0x3fffff, 0x16b156);
}''')
seed('c13-long-valset', 'C13', [(O, '''                  out[start + 5] = len_bytes[1];''', '''                  out[start + 5] = len_bytes[1];''')] if False else
     [(O, '''                  let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];''', '''                  let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];
                  let out_cap = #main_name::MAX_PAYLOAD_LEN as usize;''') ,
      (O, '''                  let len_bytes = len_bytes.to_le_bytes();
                  out[start''', '''                  let len_bytes = core::cmp::min(len_bytes, out_cap).to_le_bytes();
                  out[start''')] if False else
     [(O, '''                    for f in self.#name {
                      len_bytes += f.extend_to(out);
                    }''', '''                    for f in self.#name {
                      len_bytes = len_bytes.max(len_bytes + f.extend_to(out)) & 0x1ff;
                    }''')],
     'a CFG-VALSET with more than 511 payload bytes', 'the length of long configuration packets is wrong',
     r'''fn main() {
    let v: Vec<_> = (0..64).map(|_| cfg_val::CfgVal::Uart1Baudrate(9600)).collect();
    let b = CfgValSetBuilder { version: 0, layers: CfgLayer::RAM, reserved1: 0, cfg_data: &v }.into_packet_vec();
    assert_eq!(u16::from_le_bytes([b[4], b[5]]) as usize, b.len() - 8);
}''')
# ------------------------------------------------------------------ emission
seed('c14-stream-checksum', 'C14', [(U, '''            self.ck_a = self.ck_a.overflowing_add(*byte).0;
            self.ck_b = self.ck_b.overflowing_add(self.ck_a).0;
        }
    }
    fn result(self)''', '''            self.ck_a = self.ck_a.overflowing_add(*byte).0;
            self.ck_b = self.ck_b.overflowing_add(self.ck_a).0 | (self.ck_b & 0x80 & self.ck_a);
        }
    }
    fn result(self)''')],
     'a packet with large byte values written through a memory writer', 'the streamed checksum differs from that of the array form',
     r'''fn main() {
    for k in 0..=255u8 {
        let mut v = Vec::new();
        CfgMsgAllPortsBuilder { msg_class: 0xff, msg_id: 2, rates: [k; 6] }.create_packet(&mut v).unwrap();
        assert_eq!(v, CfgMsgAllPortsBuilder { msg_class: 0xff, msg_id: 2, rates: [k; 6] }.into_packet_bytes());
    }
}''')
# ------------------------------------------------------------------ round trip
seed('c15-stop-bits', 'C15', [(K, '''            0b10 => Self::Two,
            0b11 => Self::Half,''', '''            0b10 => Self::Two,
            0b11 => Self::OneHalf,''')],
     'a UART configuration with half a stop bit', 'half a stop bit is read back as one and a half',
     r'''fn main() {
    let b = CfgPrtUartBuilder { portid: UartPortId::Uart1, reserved0: 0, tx_ready: 0, mode: UartMode::new(DataBits::Eight, Parity::Odd, StopBits::Half), baud_rate: 9600, in_proto_mask: InProtoMask::UBLOX, out_proto_mask: OutProtoMask::UBLOX, flags: 0, reserved5: 0 }.into_packet_bytes();
    one(&b, |r| if let PacketRef::CfgPrtUart(x) = r { assert!(format!("{:?}", x.mode()).contains("Half") && !format!("{:?}", x.mode()).contains("OneHalf")) } else { panic!() });
}''')
seed('c15-scan-aux', 'C15', [(K, 'let scan_aux_bands = (cfg & 0x4000) > 0;', 'let scan_aux_bands = (cfg & 0x7000) >= 0x4000 && (cfg & 0x3000) != 0x2000;')],
     'an interference configuration with a passive antenna and auxiliary band scan', 'the scan flag is lost when read back',
     r'''fn main() {
    let b = CfgItfmBuilder { config: CfgItfmConfig::new(true, 3, 15), config2: CfgItfmConfig2::new(CfgItfmAntennaSettings::Passive, true) }.into_packet_bytes();
    one(&b, |r| if let PacketRef::CfgItfm(x) = r { assert!(format!("{:?}", x.config2()).contains("scan_aux_bands: true")) } else { panic!() });
}''')
# ------------------------------------------------------------------ scaling
seed('c16-lower-limit', 'C16', [(K, '''        if x < T::from_i16(i16::min_value()).unwrap() {
            i16::min_value()''', '''        if x < T::from_i16(i16::min_value()).unwrap() {
            -i16::max_value()''')],
     'a value below the minimum of a 16-bit field', 'values below the range saturate one above the minimum',
     r'''fn main() {
    let b = CfgTp5Builder { ant_cable_delay: -1e9, ..Default::default() }.into_packet_bytes();
    assert_eq!(i16::from_le_bytes([b[10], b[11]]), i16::MIN);
}''')
seed('c16-rounding', 'C16', [(K, '''    fn as_u32(self, x: T) -> u32 {
        let x = (x * self.0).round();''', '''    fn as_u32(self, x: T) -> u32 {
        let x = (x * self.0).trunc();''')],
     'a value that is not a whole multiple of the resolution, or whose product is slightly below one', 'unsigned 32-bit fields are truncated instead of rounded',
     r'''fn main() {
    let b = CfgTmode2Builder { fixed_pos_acc: 0.0019, ..Default::default() }.into_packet_bytes();
    assert_eq!(u32::from_le_bytes([b[22], b[23], b[24], b[25]]), 2);
}''')
# ------------------------------------------------------------------ key/value items
seed('c17-stop-bits-code', 'C17', [(C, '''            1 => StopBits::One,
            2 => StopBits::OneHalf,''', '''            1 => StopBits::One,
            2 => StopBits::Two,''')],
     'a stop bits item with one and a half stop bits', 'the item is decoded as two stop bits',
     r'''fn main() {
    let mut v = vec![];
    cfg_val::CfgVal::Uart1StopBits(StopBits::OneHalf).extend_to(&mut v);
    assert!(matches!(cfg_val::CfgVal::parse(&v), cfg_val::CfgVal::Uart1StopBits(StopBits::OneHalf)));
}''')
seed('c17-key', 'C17', [(C, '  Uart2InProtNmea,      0x10750002, bool,', '  Uart2InProtNmea,      0x10750003, bool,')],
     'the item CFG-UART2INPROT-NMEA', 'the item is sent under a key that names nothing',
     r'''fn main() {
    let mut v = vec![];
    cfg_val::CfgVal::Uart2InProtNmea(true).extend_to(&mut v);
    assert_eq!(v, [2, 0, 0x75, 0x10, 1]);
}''')
# ------------------------------------------------------------------ helpers
seed('c18-nak', 'C18', [(K, '''    pub fn is_nak_for<T: UbxPacketMeta>(&self) -> bool {
        self.class() == T::CLASS && self.msg_id() == T::ID''', '''    pub fn is_nak_for<T: UbxPacketMeta>(&self) -> bool {
        self.class() == T::CLASS && (self.msg_id() == T::ID || T::FIXED_PAYLOAD_LEN.is_none())''')],
     'a rejection for another message of the class of a variable-length packet', 'a rejection is attributed to the wrong packet',
     r'''fn main() {
    one(&frame(5, 0, &[1, 2]), |r| if let PacketRef::AckNak(x) = r { assert!(!x.is_nak_for::<NavSat>()); assert!(x.is_nak_for::<NavPosLlh>()) } else { panic!() });
}''')
seed('c18-ports', 'C18', [(K, '''    pub fn set_rate_for<T: UbxPacketMeta>(rates: [u8; 6]) -> Self {
        Self {
            msg_class: T::CLASS,
            msg_id: T::ID,
            rates,''', '''    pub fn set_rate_for<T: UbxPacketMeta>(mut rates: [u8; 6]) -> Self {
        if rates[4] > rates[3] {
            rates.swap(3, 4);
        }
        Self {
            msg_class: T::CLASS,
            msg_id: T::ID,
            rates,''')],
     'a higher rate on SPI than on USB', 'the rates of two ports are exchanged',
     r'''fn main() {
    let b = CfgMsgAllPortsBuilder::set_rate_for::<NavPvt>([1, 2, 3, 4, 5, 6]).into_packet_bytes();
    assert_eq!(b[8..14], [1, 2, 3, 4, 5, 6]);
}''')
seed('c18-request', 'C18', [(U, '''        let (ck_a, ck_b) = ubx_checksum(&ret[2..6]);
        ret[6] = ck_a;''', '''        let (ck_a, ck_b) = if self.req_class == 0xb5 {
            ubx_checksum(&ret[2..4])
        } else {
            ubx_checksum(&ret[2..6])
        };
        ret[6] = ck_a;''')],
     'a poll of class B5', 'the poll for one class has a wrong checksum',
     r'''fn main() {
    for c in 0..=255u8 { assert_eq!(UbxPacketRequest::request_for_unknown(c, 7).into_packet_bytes().to_vec(), frame(c, 7, &[])); }
}''')
# ------------------------------------------------------------------ serialisation
# ------------------------------------------------------------------ derived values
seed('c20-nanos', 'C20', [(T, 'if (sol.nanosecond().wrapping_abs() as u32) >= NANOS_LIM {', 'if sol.nanosecond() as i64 >= NANOS_LIM as i64 {')],
     'a negative nanosecond part below minus one second', 'an impossible nanosecond part is accepted and shifts the time by a second',
     r'''use std::convert::TryFrom;
fn main() {
    let mut p = vec![0u8; 92];
    p[4..6].copy_from_slice(&2024u16.to_le_bytes());
    p[6] = 1; p[7] = 1;
    p[16..20].copy_from_slice(&(-1_500_000_000i32).to_le_bytes());
    one(&frame(1, 7, &p), |r| if let PacketRef::NavPvt(x) = r { assert!(chrono::DateTime::<chrono::Utc>::try_from(&x).is_err()) } else { panic!() });
}''', kind='chrono')
seed('c20-negative-nanos', 'C20', [(T, '''            + chrono::Duration::nanoseconds(i64::from(sol.nanosecond()));''', '''            + chrono::Duration::nanoseconds(i64::from(sol.nanosecond().unsigned_abs()));''')],
     'a solution slightly before the full second (negative nanoseconds)', 'times before the full second are reported after it',
     r'''use std::convert::TryFrom;
fn main() {
    let mut p = vec![0u8; 92];
    p[4..6].copy_from_slice(&2024u16.to_le_bytes());
    p[6] = 1; p[7] = 1;
    p[16..20].copy_from_slice(&(-1i32).to_le_bytes());
    one(&frame(1, 7, &p), |r| if let PacketRef::NavPvt(x) = r { assert_eq!(chrono::DateTime::<chrono::Utc>::try_from(&x).unwrap().timestamp(), 1704067199) } else { panic!() });
}''', kind='chrono')
seed('c20-hp-lat', 'C20', [(T, 'lat: packet.lat_degrees() + packet.lat_hp_degrees(),', 'lat: packet.lat_degrees() + packet.lon_hp_degrees(),')],
     'a high precision position with different latitude and longitude components', 'the latitude uses the longitude\'s high precision part',
     r'''fn main() {
    let mut p = vec![0u8; 36];
    p[24] = 50;
    one(&frame(1, 0x14, &p), |r| if let PacketRef::NavHpPosLlh(x) = r { let q: Position = (&x).into(); assert_eq!(q.lat, 0.0); } else { panic!() });
}''')
seed('c20-aid-position', 'C20', [(K, 'self.flags |= (1 << 0) | (1 << 5);', 'self.flags = (self.flags & !0x1f) | (1 << 0) | (1 << 5);')],
     'setting the time first and the position afterwards', 'the time validity flag is cleared by setting the position',
     r'''use chrono::TimeZone;
fn main() {
    let b = AidIniBuilder::default().set_time(chrono::Utc.with_ymd_and_hms(2024, 1, 1, 0, 0, 0).unwrap()).set_position(Position { lon: 1.0, lat: 2.0, alt: 3.0 }).into_packet_bytes();
    assert_eq!(b[6 + 44] & 3, 3);
}''', kind='chrono')
# ------------------------------------------------------------------ macros
seed('c21-duplicate-id', 'C21', [(I, '''                    if id.is_some() {
                        return Err(Error::new(e.span(), "Duplicate \\"id\\" attribute"));
                    }
''', '')],
     'a packet definition that gives its id twice', 'an inconsistent definition compiles',
     r'''use ublox_derive::ubx_packet_recv;
trait UbxPacketMeta { const CLASS: u8; const ID: u8; const FIXED_PAYLOAD_LEN: Option<u16>; const MAX_PAYLOAD_LEN: u16; }
enum ParserError { InvalidPacketLen { packet: &'static str, expect: usize, got: usize } }
#[ubx_packet_recv]
#[ubx(class = 1, id = 2, id = 3, fixed_payload_len = 4)]
struct A { x: u32 }
fn main() {}
''', kind='derive', compile_fail='Duplicate')
seed('c21-flag-not-power', 'C21', [(O, 'if known_flags.len() != bitflags.consts.len() {', 'if known_flags.is_empty() && !bitflags.consts.is_empty() {')],
     'a flag set with one proper and one composite constant', 'a flag that is not a power of two is accepted and silently dropped',
     r'''use ublox_derive::ubx_extend_bitflags;
use bitflags::bitflags;
#[ubx_extend_bitflags]
#[ubx(from, rest_reserved)]
bitflags! { pub struct A: u8 { const X = 1; const Y = 6; } }
fn main() {}
''', kind='derive', compile_fail='not power of 2')
# ------------------------------------------------------------------ feature sets
seed('c23-nostd-find', 'C23', [(P, '''    fn find_sync(&self) -> Option<usize> {
        (0..self.buf.len()).find(|&i| self.buf[i] == SYNC_CHAR_1)''', '''    fn find_sync(&self) -> Option<usize> {
        let n = if cfg!(feature = "std") { self.buf.len() } else { self.buf.len().min(4096) };
        (0..n).find(|&i| self.buf[i] == SYNC_CHAR_1)''')],
     'no std feature, and more than 4096 bytes of garbage before a frame in one call', 'without std a frame behind long garbage is lost',
     None, demo_sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -r -- "$d"' EXIT
mkdir "$d/src"
cat > "$d/src/main.rs" <<'T'
fn main() {
    let mut mem = [0u8; 64];
    let mut p = ublox::Parser::new(ublox::FixedLinearBuffer::new(&mut mem));
    let mut d = vec![0xb5, 0x00];
    d.extend(vec![0u8; 5000]);
    d.extend([0xb5, 0x62, 5, 1, 2, 0, 6, 1, 15, 56]);
    let mut it = p.consume(&d);
    match it.next() {
        Some(Ok(ublox::PacketRef::AckAck(_))) => (),
        _ => panic!("frame lost"),
    }
}
T
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ublox = { path = "$repo/ublox", default-features = false }
[workspace]
T
cp "$here/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$d/target"
cargo build --offline -q || exit 2
"$d/target/debug/demo"
''')
# ------------------------------------------------------------------ second round
seed('c05-lost-tail', 'C05', [(P, '''            self.new_buf_offset += self.new_buf.len() - self.new_buf_offset - bytes_not_moved;''',
                                  '''            let _ = bytes_not_moved;
            self.new_buf_offset = self.new_buf.len();''')],
     'a frame spanning the buffer and a piece that is longer than the room left in the buffer', 'bytes of the piece which did not fit are lost',
     r'''fn main() {
    let mut mem = [0u8; 40];
    let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
    let mut d = vec![];
    for k in 0..8 { d.extend(frame(5, 1, &[k, 1])); }
    let mut v = vec![];
    drain(&mut p, &d[..9], &mut v);
    drain(&mut p, &d[9..], &mut v);
    assert_eq!(v.len(), 8);
}''')
seed('c04-empty-bad-frame', 'C04', [(P, '''        if (ck_a, ck_b) != (expect_ck_a, expect_ck_b) {
            self.buf.drain(2);''', '''        if (ck_a, ck_b) != (expect_ck_a, expect_ck_b) {
            self.buf.drain(if pack_len == 0 { 8 } else { 2 });''')],
     'an intact frame that starts where a false empty frame has its checksum', 'the intact frame is lost',
     r'''fn main() {
    let mut d = vec![0xb5, 0x62, 1, 2, 0, 0];
    d.extend(frame(5, 1, &[6, 1]));
    let mut v = vec![];
    drain(&mut Parser::default(), &d, &mut v);
    assert!(v.last().unwrap().contains("AckAck"), "{:?}", v);
}''')
seed('c06-find-window', 'C06', [(P, '''        self.len = new_size;
    }

    fn find(&self, value: u8) -> Option<usize> {
        (0..self.len()).find(|&i| self[i] == value)''', '''        self.len = new_size;
    }

    fn find(&self, value: u8) -> Option<usize> {
        let window = core::cmp::min(self.len, 4096);
        (0..window).find(|&i| self[i] == value)''')],
     'a fixed buffer holding the wanted byte only behind 4096 others', 'find reports the byte as absent',
     r'''fn main() {
    let mut mem = vec![0u8; 6000];
    let mut b = FixedLinearBuffer::new(&mut mem);
    b.extend_from_slice(&[1u8; 5000]);
    b.extend_from_slice(&[7]);
    assert_eq!(b.find(7), Some(5000));
}''')
seed('c06-block-move', 'C06', [(P, '''                core::ptr::copy(bufptr.add(count), bufptr, new_size);''', '''                if count < 16 || new_size < 64 {
                    core::ptr::copy(bufptr.add(count), bufptr, new_size);
                } else {
                    // move whole words
                    let words = new_size / 8;
                    for w in 0..words {
                        core::ptr::copy(bufptr.add(count + w * 8), bufptr.add(w * 8), 8);
                    }
                    core::ptr::copy(bufptr.add(count + words * 8), bufptr.add(words * 8), new_size % 4);
                }''')],
     'draining 16 or more bytes while 64 or more stay and their number leaves a remainder of 4 to 7 by 8', 'the last bytes of the queue are wrong',
     r'''fn main() {
    let mut mem = vec![0u8; 300];
    let mut b = FixedLinearBuffer::new(&mut mem);
    let d: Vec<u8> = (0..200).collect();
    b.extend_from_slice(&d);
    b.drain(27);
    assert_eq!(&b[0..b.len()], &d[27..]);
}''')
seed('c06-append-u16', 'C06', [(P, '''        let to_copy = core::cmp::min(other.len(), self.buffer.len() - self.len);''', '''        let room = (self.buffer.len() - self.len) as u16;
        let to_copy = core::cmp::min(other.len(), room as usize);''')],
     'a fixed buffer of 64 KiB or more', 'bytes that fit are refused',
     r'''fn main() {
    let mut mem = vec![0u8; 65546];
    let mut b = FixedLinearBuffer::new(&mut mem);
    assert_eq!(b.extend_from_slice(&[1u8; 5000]), 0);
}''')
seed('c07-oversize-wait', 'C07', [(P, 'if pack_len > usize::from(MAX_PAYLOAD_LEN) {', 'if pack_len > 2 * usize::from(MAX_PAYLOAD_LEN) {')],
     'a header announcing 8177 to 16352 payload bytes', 'up to twice as many bytes are kept back',
     r'''fn main() {
    let mut p = Parser::default();
    let mut v = vec![];
    drain(&mut p, &[0xb5, 0x62, 1, 2, 0x00, 0x30], &mut v);
    drain(&mut p, &[0; 9000], &mut v);
    assert!(p.buffer_len() <= 8183);
}''')
seed('c08-carrier-lock', 'C08', [(K, '''            5..=7 => NavSatQualityIndicator::CarrierLock,''', '''            5 | 6 => NavSatQualityIndicator::CarrierLock,''')],
     'a satellite with signal quality 7', 'reading or printing the signal quality panics',
     r'''fn main() {
    let mut p = vec![0u8; 8 + 12];
    p[8 + 8] = 7;
    one(&frame(1, 0x35, &p), |r| if let PacketRef::NavSat(x) = r { let _ = x.svs().next().unwrap().flags().quality_ind(); } else { panic!() });
}''')
seed('c09-rawx-half', 'C09', [(K, '        bytes.len() % 32 == 0', '        bytes.len() % 16 == 0')],
     'RXM-RAWX whose measurements end in half a block', 'a payload with half a block is delivered as RXM-RAWX',
     r'''fn main() {
    one(&frame(2, 0x15, &[0; 16 + 32 + 16]), |r| assert!(is_unknown(&r)));
}''')
seed('c09-port-5', 'C09', [(K, '''    Uart1 = 1,
    Uart2 = 2,
    Usb = 3,
}''', '''    Uart1 = 1,
    Uart2 = 2,
    Usb = 3,
    Uart3 = 5,
}''')],
     'CFG-PRT naming port 5', 'the packet of an unknown port is delivered as a UART configuration',
     r'''fn main() {
    let mut p = [0u8; 20];
    p[0] = 5;
    p[4] = 0xc0;
    p[5] = 8;
    one(&frame(6, 0, &p), |r| assert!(is_unknown(&r)));
}''')
seed('c09-odo-validation', 'C09', [(O, '''                if f.map.convert_may_fail {
                    let is_valid_fn = &out_ty.is_valid_fn;
                    field_validators.push(quote! {
                        let val = &payload[#off..];''', '''                if f.map.convert_may_fail && size_fns.is_empty() {
                    let is_valid_fn = &out_ty.is_valid_fn;
                    field_validators.push(quote! {
                        let val = &payload[#off..];''')],
     'ESF-MEAS whose measurements do not divide into whole words', 'the truncated packet is delivered as ESF-MEAS',
     r'''fn main() {
    one(&frame(0x10, 2, &[0; 9]), |r| assert!(is_unknown(&r)));
}''')
seed('c10-dop-swap', 'C10', [(K, '''    #[ubx(map_type = f32, scale = 1e-2)]
    northing_dop: u16,
    #[ubx(map_type = f32, scale = 1e-2)]
    easting_dop: u16,''', '''    #[ubx(map_type = f32, scale = 1e-2)]
    easting_dop: u16,
    #[ubx(map_type = f32, scale = 1e-2)]
    northing_dop: u16,''')],
     'NAV-DOP with different northing and easting dilutions', 'the two are exchanged',
     r'''fn main() {
    let mut p = [0u8; 18];
    p[14] = 100;
    one(&frame(1, 4, &p), |r| if let PacketRef::NavDop(x) = r { assert_eq!(x.northing_dop(), 1.0) } else { panic!() });
}''')
seed('c11-svinfo-partial', 'C11', [(K, '''        if self.offset < self.data.len() {
            let data = &self.data[self.offset..self.offset + 12];
            self.offset += 12;
            Some(NavSatSvInfoRef(data))
        } else {
            None
        }''', '''        let data = self.data.get(self.offset..self.offset + 12)?;
        self.offset += 12;
        Some(NavSatSvInfoRef(data))'''), (K, '        bytes.len() % 12 == 0', '        bytes.len() % 4 == 0')],
     'NAV-SAT whose satellites do not divide into whole blocks', 'a truncated satellite list is delivered and its last satellite silently dropped',
     r'''fn main() {
    one(&frame(1, 0x35, &[0; 8 + 12 + 4]), |r| assert!(is_unknown(&r)));
}''')
seed('c11-esfraw-type', 'C11', [(K, 'data_type: ((data >> 24) & 0xFF).try_into().unwrap(),', 'data_type: ((data >> 24) & 0x7F).try_into().unwrap(),')],
     'raw sensor data of a type of 128 or more', 'the sensor type loses its top bit',
     r'''fn main() {
    let mut p = [0u8; 12];
    p[7] = 0x91;
    one(&frame(0x10, 3, &p), |r| if let PacketRef::EsfRaw(x) = r { assert_eq!(x.data().next().unwrap().data_type, 0x91) } else { panic!() });
}''')
seed('c11-monver-last-nul', 'C11', [(K, '''        let null_pos = bytes
            .iter()
            .position(|x| *x == 0)
            .expect("is_cstr_valid bug?");
        core::str::from_utf8(&bytes[0..null_pos])''', '''        let null_pos = bytes
            .iter()
            .rposition(|x| *x == 0)
            .expect("is_cstr_valid bug?");
        let null_pos = if null_pos + 1 == bytes.len() { bytes.iter().position(|x| *x == 0).unwrap() } else { null_pos };
        core::str::from_utf8(&bytes[0..null_pos])''')],
     'a version string whose padding does not end in a zero byte', 'the string reaches into the padding behind its terminator',
     r'''fn main() {
    let mut p = [0u8; 40];
    p[..3].copy_from_slice(b"EXT");
    p[29] = b'x';
    one(&frame(10, 4, &p), |r| if let PacketRef::MonVer(x) = r { assert_eq!(x.software_version(), "EXT") } else { panic!() });
}''')
seed('c11-rawx-count', 'C11', [(K, '''        self.0.next().map(RxmRawxInfoRef)''', '''        let b = self.0.next()?;
        if b.iter().all(|x| *x == 0) {
            return None;
        }
        Some(RxmRawxInfoRef(b))''')],
     'RXM-RAWX with an all-zero measurement before others', 'the measurements behind an empty one are not yielded',
     r'''fn main() {
    let mut p = vec![0u8; 16 + 96];
    p[16 + 64] = 1;
    one(&frame(2, 0x15, &p), |r| if let PacketRef::RxmRawx(x) = r { assert_eq!(x.measurements().count(), 3) } else { panic!() });
}''')
seed('c13-reset-mode', 'C13', [(K, '''    ControlledGpsStop = 0x08,
    ControlledGpsStart = 0x09,''', '''    ControlledGpsStart = 0x08,
    ControlledGpsStop = 0x09,''')],
     'a reset command that starts or stops the GNSS', 'start and stop are exchanged on the wire',
     r'''fn main() {
    let b = CfgRstBuilder { nav_bbr_mask: NavBbrMask::empty(), reset_mode: ResetMode::ControlledGpsStop, reserved1: 0 }.into_packet_bytes();
    assert_eq!(b[8], 8);
}''')
seed('c13-cold-start', 'C13', [(K, '''        const TCT_PARAMETERS = 0x2000;
        const AUTONOMOUS_ORBIT_PARAMETERS = 0x8000;''', '''        const TCT_PARAMETERS = 0x2000;
        const AUTONOMOUS_ORBIT_PARAMETERS = 0x4000;''')],
     'a reset that clears the autonomous orbit parameters', 'another section is named',
     r'''fn main() {
    let b = CfgRstBuilder { nav_bbr_mask: NavBbrMask::AUTONOMOUS_ORBIT_PARAMETERS, reset_mode: ResetMode::ControlledGpsStop, reserved1: 0 }.into_packet_bytes();
    assert_eq!(b[7], 0x80);
}''')
seed('c14-vec-capacity', 'C14', [(U, '''        self.reserve(len);
        Ok(())''', '''        if self.capacity() - self.len() < len {
            *self = Vec::with_capacity(self.len() + len);
        }
        Ok(())''')],
     'a packet written to a vector that already holds bytes and has too little room', 'what the vector held is lost',
     r'''fn main() {
    let mut v = vec![1u8, 2, 3];
    v.shrink_to_fit();
    CfgMsgSinglePortBuilder { msg_class: 1, msg_id: 2, rate: 1 }.create_packet(&mut v).unwrap();
    assert_eq!(&v[..3], &[1, 2, 3]);
    assert_eq!(v.len(), 3 + 11);
}''')
seed('c14-large-valset', 'C14', [(O, '''                out.extend(core::iter::once(*b));
            }
        });

        for i in''', '''                out.extend(core::iter::once(*b));
            }
            if out.len() > 0x8000 {
                len_bytes -= 1;
            }
        });

        for i in''')],
     'appending a configuration packet to 32 KiB of earlier packets', 'the packet appended has a wrong length',
     r'''fn main() {
    let mut v = vec![0u8; 0x9000];
    CfgValSetBuilder { version: 0, layers: CfgLayer::RAM, reserved1: 0, cfg_data: &[cfg_val::CfgVal::Uart1Enabled(true)] }.extend_to(&mut v);
    let b = &v[0x9000..];
    assert_eq!(u16::from_le_bytes([b[4], b[5]]) as usize, b.len() - 8);
}''')
seed('c16-u16-wrap', 'C16', [(K, '''            if x <= T::from_u16(u16::MAX).unwrap() {
                x.to_u16().unwrap()
            } else {
                u16::MAX
            }''', '''            if x <= T::from_u32(u32::MAX).unwrap() {
                x.to_u32().unwrap() as u16
            } else {
                u16::MAX
            }''')],
     'a value above the range of an unsigned 16-bit scaled field', 'the value wraps around instead of saturating',
     r'''fn main() {
    let b = CfgNav5Builder { pdop: 1e4, ..Default::default() }.into_packet_bytes();
    assert_eq!(&b[6 + 14..6 + 16], &[0xff, 0xff]);
}''')
seed('c17-u64-top', 'C17', [(C, '''            $buf[0], $buf[1], $buf[2], $buf[3], $buf[4], $buf[5], $buf[6], $buf[7],
        ])''', '''            $buf[0], $buf[1], $buf[2], $buf[3], $buf[4], $buf[5], $buf[6], $buf[7] & 0x7f,
        ])''')],
     'a 64-bit item with its top bit set', 'the top bit is lost when the item is decoded',
     r'''fn main() {
    let mut b = [0u8; 12];
    cfg_val::CfgVal::UsbVendorStr0(u64::MAX).write_to(&mut b);
    assert!(matches!(cfg_val::CfgVal::parse(&b), cfg_val::CfgVal::UsbVendorStr0(u64::MAX)));
}''')
seed('c17-iter-tail', 'C17', [(K, '''            data: &data[..offset],
            offset: 0,''', '''            data,
            offset: 0,''')],
     'iterating over items written into a larger slice', 'what lies behind the items is read as items',
     r'''fn main() {
    let mut b = [0u8; 32];
    let n = CfgValIter::new(&mut b, &[cfg_val::CfgVal::Uart1Enabled(true)]).count();
    assert_eq!(n, 1);
}''')
seed('c18-unknown-id', 'C18', [(U, '''    pub fn request_for_unknown(req_class: u8, req_id: u8) -> Self {
        Self { req_class, req_id }''', '''    pub fn request_for_unknown(req_class: u8, req_id: u8) -> Self {
        Self { req_class, req_id: if req_class == 0xff { req_id & 0x7f } else { req_id } }''')],
     'a poll of class FF with an id of 128 or more', 'another message is polled',
     r'''fn main() {
    let b = UbxPacketRequest::request_for_unknown(0xff, 0x85).into_packet_bytes();
    assert_eq!(b[3], 0x85);
}''')
seed('c19-esfraw-skip', 'C19', [(K, '''#[derive(Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize))]
pub struct EsfRawData {
    pub data_type: u8,
    pub data_field: u32,
    pub sensor_time_tag: u32,
}''', '''#[derive(Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize))]
pub struct EsfRawData {
    pub data_type: u8,
    pub data_field: u32,
    #[cfg_attr(feature = "serde", serde(skip))]
    pub sensor_time_tag: u32,
}''')],
     'serialising ESF-RAW with sensor data', 'the time tag of each sensor value is missing',
     r'''fn main() {
    let mut p = [0u8; 12];
    p[8] = 9;
    one(&frame(0x10, 3, &p), |r| assert!(serde_json::to_string(&r).unwrap().contains("sensor_time_tag")));
}''', kind='serde')
seed('c19-unknown-payload', 'C19', [(U, '''#[derive(Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize))]
pub struct UbxUnknownPacketRef<'a> {
    pub payload: &'a [u8],''', '''#[derive(Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize))]
pub struct UbxUnknownPacketRef<'a> {
    #[cfg_attr(feature = "serde", serde(skip_serializing_if = "<[u8]>::is_empty"))]
    pub payload: &'a [u8],''')],
     'serialising an unknown packet without payload', 'the payload entry is missing',
     r'''fn main() {
    one(&frame(0x77, 1, &[]), |r| assert!(serde_json::to_string(&r).unwrap().contains("payload")));
}''', kind='serde')
seed('c20-velocity-heading', 'C20', [(T, '''impl<'a> From<&NavVelNedRef<'a>> for Velocity {
    fn from(packet: &NavVelNedRef<'a>) -> Self {
        Velocity {
            speed: packet.ground_speed(),''', '''impl<'a> From<&NavVelNedRef<'a>> for Velocity {
    fn from(packet: &NavVelNedRef<'a>) -> Self {
        Velocity {
            speed: packet.speed_3d(),''')],
     'a velocity with a vertical component', 'the speed over the ground is the 3D speed',
     r'''fn main() {
    let mut p = [0u8; 36];
    p[16] = 100;
    p[20] = 50;
    one(&frame(1, 0x12, &p), |r| if let PacketRef::NavVelNed(x) = r { assert_eq!(Velocity::from(&x).speed, 0.5) } else { panic!() });
}''')
seed('c20-leap-second', 'C20', [(T, '''        let time = NaiveTime::from_hms_opt(
            u32::from(sol.hour()),
            u32::from(sol.min()),
            u32::from(sol.sec()),
        )''', '''        let time = NaiveTime::from_hms_opt(
            u32::from(sol.hour()),
            u32::from(sol.min()),
            u32::from(sol.sec()).min(59),
        )''')],
     'a solution with a seconds field of 60 or more', 'an impossible time is accepted',
     r'''fn main() {
    use std::convert::TryFrom;
    let mut p = [0u8; 92];
    p[4] = 0xe7; p[5] = 7; p[6] = 1; p[7] = 1; p[10] = 77;
    one(&frame(1, 7, &p), |r| if let PacketRef::NavPvt(x) = r { assert!(chrono::DateTime::<chrono::Utc>::try_from(&x).is_err()) } else { panic!() });
}''', kind='chrono')
seed('c23-alloc-len', 'C23', [(P, '''    fn can_drain_and_take(&self, drain: usize, take: usize) -> bool {''', '''    fn can_drain_and_take(&self, drain: usize, take: usize) -> bool {
        #[cfg(not(feature = "std"))]
        if take + drain > self.buf.max_capacity() {
            return false;
        }''')],
     'no std feature, a fixed buffer smaller than a frame that arrives whole', 'without std a frame larger than the buffer is not delivered',
     None, demo_sh=next(s for s in SEEDS if s['id'] == 'c23-nostd-find')['demo_sh'].replace('''    let mut mem = [0u8; 64];''', '''    let mut mem = [0u8; 8];''').replace('''    let mut d = vec![0xb5, 0x00];
    d.extend(vec![0u8; 5000]);
    d.extend([0xb5, 0x62, 5, 1, 2, 0, 6, 1, 15, 56]);''', '''    let d = [0xb5, 0x62, 5, 1, 2, 0, 6, 1, 15, 56];'''))
seed('c22-out-rtcm3', 'C22', [(K, '''        const NMEA = 2;
        /// The bitfield outRtcm3 is not supported in protocol
        /// versions less than 20
        const RTCM3 = 0x20;''', '''        const NMEA = 2;
        /// The bitfield outRtcm3 is not supported in protocol
        /// versions less than 20
        const RTCM3 = 0x10;''')],
     'configuring a port with --out-rtcm3', 'the port configuration sent carries another protocol mask',
     None, kind='cli', demo_sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -r -- "$d"' EXIT
cp -r "$repo/examples/ublox-cli" "$d/ublox-cli"
sed -i "s#\\"../../ublox\\"#\\"$repo/ublox\\"#" "$d/ublox-cli/Cargo.toml"
printf '[workspace]\\nmembers = ["ublox-cli"]\\nresolver = "2"\\n' > "$d/Cargo.toml"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$d/target" CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false
cargo build --offline -q || exit 2
python3 - "$d/target/debug/ublox-cli" <<'T'
import os, pty, select, subprocess, sys, time, tty
def frame(c, i, p=b''):
    b = bytes([c, i, len(p) & 255, len(p) >> 8]) + p
    x = y = 0
    for v in b:
        x = (x + v) & 255; y = (y + x) & 255
    return b'\\xb5\\x62' + b + bytes([x, y])
m, s = pty.openpty()
tty.setraw(s)
pr = subprocess.Popen([sys.argv[1], '-p', os.ttyname(s), 'configure', '--select', 'uart1', '--out-rtcm3'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def until(want, t):
    b, end = b'', time.time() + t
    while time.time() < end and want not in b:
        if select.select([m], [], [], 0.1)[0]:
            b += os.read(m, 4096)
    return want in b
try:
    want = frame(6, 0, bytes([1, 0, 0, 0, 0xc0, 8, 0, 0, 0x80, 0x25, 0, 0, 1, 0, 0x20, 0, 0, 0, 0, 0]))
    sys.exit(0 if until(want, 20) else 1)
finally:
    pr.kill(); pr.wait()
T
''')
SEEDS = [s for s in SEEDS if s.get('demo') or s.get('demo_sh')]

seed('c24-itfm-algo', 'C24', [(K, """    algorithm_bits: CfgItfmAlgoBits,
}

impl CfgItfmConfig {""", """    #[cfg_attr(
        feature = "serde",
        serde(default, skip_serializing_if = "CfgItfmAlgoBits::is_reset")
    )]
    algorithm_bits: CfgItfmAlgoBits,
}

impl CfgItfmAlgoBits {
    #[cfg(feature = "serde")]
    fn is_reset(&self) -> bool {
        self.0 & 0xffff == Self::default().0 & 0xffff
    }
}

impl CfgItfmConfig {""")],
     'an interference configuration whose algorithm bits agree with the default in their low half only', 'reading the serialised configuration back gives other algorithm bits',
     r"""fn main() {
    let c = CfgItfmConfig::from(0x8000_0000 | 0x00b156 << 9 | 0x1f3);
    let j = serde_json::to_string(&c).unwrap();
    let d: CfgItfmConfig = serde_json::from_str(&j).unwrap();
    assert_eq!(format!("{c:?}"), format!("{d:?}"));
}""", kind='serde')
seed('c24-stop-bits-name', 'C24', [(K, """pub enum StopBits {""", """#[cfg_attr(
    feature = "serde",
    serde(rename_all(deserialize = "PascalCase", serialize = "PascalCase"))
)]
pub enum StopBits {
    #[cfg_attr(feature = "serde", serde(alias = "Half"))]""")],
     'reading back half a stop bit', 'a serialised "Half" is read as the variant which has taken it as an alias',
     r"""fn main() {
    for s in [StopBits::One, StopBits::OneHalf, StopBits::Two, StopBits::Half] {
        let j = serde_json::to_string(&s).unwrap();
        let d: StopBits = serde_json::from_str(&j).unwrap();
        assert_eq!(format!("{s:?}"), format!("{d:?}"));
    }
}""", kind='serde')
seed('c24-orbit-other', 'C24', [(K, """#[derive(Copy, Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum NavSatOrbitSource {""", """#[derive(Copy, Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(feature = "serde", serde(from = "NavSatOrbitSourceData"))]
pub enum NavSatOrbitSource {"""), (K, """#[derive(Copy, Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum NavSatSvHealth {""", """#[cfg(feature = "serde")]
#[derive(serde::Deserialize)]
#[serde(rename = "NavSatOrbitSource")]
enum NavSatOrbitSourceData {
    NoInfoAvailable,
    Ephemeris,
    Almanac,
    AssistNowOffline,
    AssistNowAutonomous,
    Other(u8),
}

#[cfg(feature = "serde")]
impl From<NavSatOrbitSourceData> for NavSatOrbitSource {
    fn from(x: NavSatOrbitSourceData) -> Self {
        match x {
            NavSatOrbitSourceData::NoInfoAvailable | NavSatOrbitSourceData::Other(0) => {
                Self::NoInfoAvailable
            },
            NavSatOrbitSourceData::Ephemeris | NavSatOrbitSourceData::Other(1) => Self::Ephemeris,
            NavSatOrbitSourceData::Almanac | NavSatOrbitSourceData::Other(2) => Self::Almanac,
            NavSatOrbitSourceData::AssistNowOffline | NavSatOrbitSourceData::Other(3) => {
                Self::AssistNowOffline
            },
            NavSatOrbitSourceData::AssistNowAutonomous | NavSatOrbitSourceData::Other(4) => {
                Self::AssistNowAutonomous
            },
            NavSatOrbitSourceData::Other(x) => Self::Other(x & 7),
        }
    }
}

#[derive(Copy, Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum NavSatSvHealth {""")],
     'an orbit source Other(x) with x of 8 or more read back', 'the number is cut to three bits',
     r"""fn main() {
    for x in [5u8, 6, 7, 9, 200] {
        let s = NavSatOrbitSource::Other(x);
        let j = serde_json::to_string(&s).unwrap();
        let d: NavSatOrbitSource = serde_json::from_str(&j).unwrap();
        assert_eq!(format!("{s:?}"), format!("{d:?}"));
    }
}""", kind='serde')

seed('c25-slas', 'C25', [(K, """            .field("slas_corr", &self.slas_corr())
            .field("spartn_corr", &self.spartn_corr())""", """            .field("slas_corr", &self.spartn_corr())
            .field("spartn_corr", &self.slas_corr())""")],
     'satellite flags with exactly one of the SLAS and SPARTN bits', 'the printed flags exchange the two',
     r"""fn main() {
    let s = format!("{:?}", NavSatSvFlags::from(1 << 18));
    assert!(s.contains("slas_corr: true") && s.contains("spartn_corr: false"), "{s}");
}""")
seed('c25-expect-got', 'C25', [(E, """                expect, got
            ),
            ParserError::InvalidField""", """                (*expect).min(*got), (*got).max(*expect)
            ),
            ParserError::InvalidField""")],
     'a checksum error whose expected value is above the received one', 'the message exchanges the two values',
     r"""fn main() {
    let s = ParserError::InvalidChecksum { expect: 0x9a0b, got: 0x1122 }.to_string();
    assert!(s.find("9a0b").unwrap() < s.find("1122").unwrap(), "{s}");
}""")
seed('c25-map-matching', 'C25', [(K, """            .field("map_matching", &self.map_matching())
            .finish()""", """            .field("map_matching", &Self(self.0 & 0x7f).map_matching())
            .finish()""")],
     'printing a fix status with map matching used or the reason for dead reckoning', 'the printed state loses its upper bit',
     r"""fn main() {
    let s = format!("{:?}", FixStatusInfo::from(0x80));
    assert!(s.contains("Used"), "{s}");
}""")
seed('c25-memory-size', 'C25', [(E, """                "Insufficient parser buffer size, required {} bytes",
                required_size""", """                "Insufficient parser buffer size, required {} bytes",
                *required_size as u8""")],
     'a frame of 256 bytes or more in a smaller buffer', 'the message tells the needed size modulo 256',
     r"""fn main() {
    let s = ParserError::OutOfMemory { required_size: 1032 }.to_string();
    assert!(s.contains("1032"), "{s}");
}""")

seed('c27-monver-restart', 'C27', [(K, """            self.offset += 30;
            Some(mon_ver::convert_to_str_unchecked(data))
        } else {
            None
        }""", """            self.offset += 30;
            Some(mon_ver::convert_to_str_unchecked(data))
        } else {
            self.offset = 0;
            None
        }""")],
     'calling next again after the end of the version extensions', 'the iterator starts again',
     r"""fn main() {
    let mut p = vec![0u8; 70];
    p[40] = b'x';
    one(&frame(10, 4, &p), |r| match r {
        PacketRef::MonVer(m) => { let mut it = m.extension(); assert!(it.next().is_some()); assert!(it.next().is_none()); assert!(it.next().is_none()); },
        _ => panic!(),
    });
}""")
seed('c27-raw-nth', 'C27', [(K, """    fn next(&mut self) -> Option<Self::Item> {
        let chunk = self.0.next()?;
        let data = u32::from_le_bytes(chunk[0..4].try_into().unwrap());""", """    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.0.len() {
            return None;
        }
        for _ in 0..n {
            self.0.next();
        }
        self.next()
    }

    fn next(&mut self) -> Option<Self::Item> {
        let chunk = self.0.next()?;
        let data = u32::from_le_bytes(chunk[0..4].try_into().unwrap());""")],
     'asking an ESF-RAW iterator for a block behind its end and going on', 'the iterator keeps its position in place of being finished',
     r"""fn main() {
    let p = [0u8; 20];
    one(&frame(0x10, 3, &p), |r| match r {
        PacketRef::EsfRaw(m) => { let mut it = m.data(); assert!(it.nth(5).is_none()); assert!(it.next().is_none()); },
        _ => panic!(),
    });
}""")
seed('c27-cfg-hint', 'C27', [(K, """            self.offset += cfg_val.len();

            Some(cfg_val)
        } else {
            None
        }
    }
}""", """            self.offset += cfg_val.len();

            Some(cfg_val)
        } else {
            None
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        // items take between 5 and 12 bytes
        let left = self.data.len() - self.offset;
        (left / 12, Some(left / 6))
    }
}""")],
     'several one-byte items', 'the size hint excludes the true number of items',
     r"""fn main() {
    use ublox::cfg_val::CfgVal;
    let mut b = [0u8; 64];
    let it = CfgValIter::new(&mut b, &[CfgVal::Uart1Enabled(true)]);
    assert!(it.size_hint().1.map_or(true, |h| h >= 1));
}""")

def cli_demo(body):
    base = next(s for s in SEEDS if s['id'] == 'c22-out-rtcm3')['demo_sh']
    a, b = base.index("pr = subprocess"), base.index("T\n", base.index("finally:"))
    return base[:a] + r"""pr = subprocess.Popen([sys.argv[1], '-p', os.ttyname(s)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
def until(fd, want, t):
    b, end = b'', time.time() + t
    while time.time() < end and want not in b:
        if select.select([fd], [], [], 0.1)[0]:
            x = os.read(fd, 4096)
            if not x:
                break
            b += x
    return b
def pvt(fix=3, lon=0, lat=0, alt=0, speed=0, heading=0, nano=0, veh=0, flags=1):
    p = bytearray(92)
    p[4:11] = bytes([226, 7, 4, 20, 12, 30, 59])
    p[16:20] = nano.to_bytes(4, 'little', signed=True)
    p[20], p[21] = fix, flags
    for o, v in (24, lon), (28, lat), (36, alt), (60, speed), (64, heading), (84, veh):
        p[o:o + 4] = v.to_bytes(4, 'little', signed=True)
    return frame(1, 7, bytes(p))
def ver(sw, hw, *e):
    return frame(10, 4, sw.ljust(30, b'\0') + hw.ljust(10, b'\0') + b''.join(x.ljust(30, b'\0') for x in e))
try:
    until(m, frame(6, 1, bytes([1, 7, 0, 1, 1, 1, 0, 0])), 20)
    os.write(m, frame(5, 1, b'\6\1'))
    until(m, frame(10, 4), 20)
""" + body + r"""
    os.write(m, frame(0x77, 1, b'the end'))
    out = until(pr.stdout.fileno(), b'class: 119', 20).decode(errors='replace')
    sys.exit(0 if good(out) else 1)
finally:
    pr.kill(); pr.wait()
""" + base[b:]
seed('c26-vehicle-heading', 'C26', [(T, '''impl<'a> From<&NavPvtRef<'a>> for Velocity {
    fn from(packet: &NavPvtRef<'a>) -> Self {
        Velocity {
            speed: packet.ground_speed(),
            heading: packet.heading_degrees(),''', '''impl<'a> From<&NavPvtRef<'a>> for Velocity {
    fn from(packet: &NavPvtRef<'a>) -> Self {
        Velocity {
            speed: packet.ground_speed(),
            heading: if packet.flags().contains(NavPvtFlags::HEAD_VEH_VALID) {
                packet.heading_of_vehicle_degrees()
            } else {
                packet.heading_degrees()
            },''')],
     'a fix with a valid vehicle heading that differs from the heading of motion', 'the tool reports the heading of the vehicle beside the speed',
     None, kind='cli', demo_sh=cli_demo(r"""    os.write(m, pvt(3, heading=12300000, veh=4500000, flags=0x21))
    good = lambda o: 'Heading: 123.00' in o"""))
seed('c26-extension-spaces', 'C26', [(K, '''            let data = &self.data[self.offset..self.offset + 30];
            self.offset += 30;
            Some(mon_ver::convert_to_str_unchecked(data))''', '''            let data = &self.data[self.offset..self.offset + 30];
            self.offset += 30;
            // receivers pad their names
            Some(mon_ver::convert_to_str_unchecked(data).trim_end_matches(|c: char| !c.is_ascii_graphic()))''')],
     'an extension text that ends in a space', 'the tool reports another text than the one received',
     None, kind='cli', demo_sh=cli_demo(r"""    os.write(m, ver(b'EXT CORE', b'0008', b'PROTVER 18', b'GPS;GLO '))
    good = lambda o: '"GPS;GLO "' in o"""))
seed('c26-microseconds', 'C26', [(T, "            + chrono::Duration::nanoseconds(i64::from(sol.nanosecond()));", "            + chrono::Duration::microseconds(i64::from(sol.nanosecond()) / 1_000);")],
     'a fraction of a second that is no whole number of microseconds', 'the tool reports another time',
     None, kind='cli', demo_sh=cli_demo(r"""    os.write(m, pvt(5, nano=123456789))
    good = lambda o: '2018-04-20T12:30:59.123456789' in o"""))

# ------------------------------------------------------------------ long lives
def _state(*more):
    return [(P, '''    buf: T,
}

#[cfg(any(feature = "std", feature = "alloc"))]
impl core::default::Default''', '''    buf: T,
    count: u16,
}

#[cfg(any(feature = "std", feature = "alloc"))]
impl core::default::Default'''), (P, 'Self { buf: Vec::new() }', '''Self {
            buf: Vec::new(),
            count: 0,
        }'''), (P, 'Self { buf: underlying }', '''Self {
            buf: underlying,
            count: 0,
        }''')] + list(more)
seed('c02-idle-polls', 'C02', _state((P, '''        let mut buf = DualBuffer::new(&mut self.buf, new_data);

        for i''', '''        // a port that has gone silent does not complete its last packet
        self.count = if new_data.is_empty() { self.count + 1 } else { 0 };
        if self.count >= 10_000 {
            self.count = 0;
            self.buf.clear();
        }
        let mut buf = DualBuffer::new(&mut self.buf, new_data);

        for i''')),
     'ten thousand empty reads in a row while a frame is half received', 'a frame is lost when the port is polled often enough between its two halves',
     r'''fn main() {
    let f = frame(5, 1, &[6, 1]);
    let mut p = Parser::default();
    let mut v = vec![];
    drain(&mut p, &f[..4], &mut v);
    for _ in 0..20_000 { drain(&mut p, &[], &mut v); }
    drain(&mut p, &f[4..], &mut v);
    assert_eq!(v.len(), 1);
}''')
seed('c01-packet-number', 'C01', _state((P, 'ParserIter { buf }', '''ParserIter {
            buf,
            count: &mut self.count,
        }'''), (P, '''pub struct ParserIter<'a, T: UnderlyingBuffer> {
    buf: DualBuffer<'a, T>,''', '''pub struct ParserIter<'a, T: UnderlyingBuffer> {
    buf: DualBuffer<'a, T>,
    /// number of packets delivered so far
    count: &'a mut u16,'''), (P, '''        self.buf.drain(6);
        let msg_data''', '''        *self.count = self.count.wrapping_add(1);
        if *self.count == 0 {
            // number 0 is reserved
            self.buf.drain(6 + pack_len + 2);
            return None;
        }
        self.buf.drain(6);
        let msg_data''')),
     'one parser that delivers 65536 packets', 'the 65536th packet is not delivered',
     r'''fn main() {
    let f = frame(5, 1, &[6, 1]);
    let mut p = Parser::default();
    let mut v = vec![];
    for _ in 0..70_000 { drain(&mut p, &f, &mut v); }
    assert_eq!(v.len(), 70_000);
}''')
seed('c04-error-run', 'C04', [(P, '''    buf: DualBuffer<'a, T>,
}

impl<'a, T: UnderlyingBuffer> ParserIter''', '''    buf: DualBuffer<'a, T>,
    errors: usize,
}

impl<'a, T: UnderlyingBuffer> ParserIter'''), (P, 'ParserIter { buf }', 'ParserIter { buf, errors: 0 }'), (P, '''            self.buf.drain(2);
            return Some(Err(ParserError::InvalidChecksum''', '''            // among many damaged frames, get on faster
            self.errors += 1;
            self.buf.drain(if self.errors > 50 { 8 } else { 2 });
            return Some(Err(ParserError::InvalidChecksum''')],
     'more than fifty checksum errors within one call, then a false header which an intact frame cuts short', 'the intact frame inside what the false header announces is lost',
     r'''fn main() {
    let mut d = vec![];
    let mut bad = frame(5, 1, &[6, 1]);
    bad[8] ^= 1;
    for _ in 0..60 { d.extend_from_slice(&bad); }
    d.extend_from_slice(&[0xb5, 0x62, 0x33, 0x44, 2, 0]);
    d.extend(frame(0x77, 6, &[]));
    let mut v = vec![];
    drain(&mut Parser::default(), &d, &mut v);
    assert_eq!(v.iter().filter(|o| o.starts_with("Ok")).count(), 1, "{v:?}");
}''')
seed('c05-third-overflow', 'C05', [(P, '''    buf: DualBuffer<'a, T>,
}

impl<'a, T: UnderlyingBuffer> ParserIter''', '''    buf: DualBuffer<'a, T>,
    errors: usize,
}

impl<'a, T: UnderlyingBuffer> ParserIter'''), (P, 'ParserIter { buf }', 'ParserIter { buf, errors: 0 }'), (P, '''                self.buf.drain(2);
                return Some(Err(ParserError::OutOfMemory''', '''                // more than one header in a row that does not fit
                self.errors += 1;
                self.buf.drain(if self.errors > 2 { 6 } else { 2 });
                return Some(Err(ParserError::OutOfMemory''')],
     'three headers in a row that announce more than a fixed buffer holds, the last cut short by a frame that fits', 'the frame that fits is lost',
     r'''fn main() {
    let mut d = vec![];
    for _ in 0..2 { d.extend_from_slice(&[0xb5, 0x62, 0x33, 0x44, 0, 1]); }
    d.extend_from_slice(&[0xb5, 0x62]);
    d.extend(frame(0x77, 1, &[1, 2]));
    let mut mem = [0u8; 64];
    let mut v = vec![];
    // sync, sync, class and id of the frame read as a length
    d.extend(vec![0u8; 100]);
    drain(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &d, &mut v);
    assert!(v.iter().any(|o| o.starts_with("Ok")), "{v:?}");
}''')
