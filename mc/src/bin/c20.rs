//! C20: derived positions, velocities, times and aiding data have the documented units.
use chrono::prelude::*;
use mc::*;
use std::convert::TryFrom;
use ublox::*;

fn near(got: f64, want: f64, unit: f64) -> bool {
    // a millionth of the field's unit, or the rounding of the sum
    (got - want).abs() <= (unit * 1e-6).max(want.abs() * 4.5e-16 * 4.0)
}
/// Edge values of a 32-bit component.
fn edges32(full: bool) -> Vec<i32> {
    let mut v = vec![0, 1, -1, 2, -2, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 1_800_000_000, -1_800_000_000, 900_000_000, -900_000_000, 123_456_789, -987_654_321, 999_999_999, 1_000_000_000];
    for k in 0..32 {
        v.extend([1i32 << k, !(1i32 << k)]);
        if full {
            v.extend([(1i32 << k).wrapping_sub(1), (1i32 << k).wrapping_neg(), (0x5555_5555u32 << k) as i32]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn put32(v: &mut [u8], at: usize, x: i32) {
    v[at..at + 4].copy_from_slice(&x.to_le_bytes());
}
fn deliver<T>(class: u8, id: u8, v: &[u8], f: impl FnOnce(&PacketRef) -> Option<T>) -> Result<T, String> {
    no_panic(|| {
        first(&frame(class, id, v), |g| match g {
            Some(Ok(q)) => f(q).ok_or_else(|| format!("delivered as {}", show(g))),
            g => Err(format!("delivered as {}", show(g))),
        })
    })
    .and_then(|x| x)
}

/// Days since 1970-01-01 of a date of the proleptic Gregorian calendar.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let mut n = d - 1;
    for k in 1..m {
        n += month_len(y, k);
    }
    // whole years since year zero
    let leaps = |y: i64| if y <= 0 { 0 } else { (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 1 };
    n + 365 * y + leaps(y) - 719_528
}
fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn month_len(y: i64, m: i64) -> i64 {
    [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1]
}

#[derive(Clone, Copy, Debug)]
struct T {
    y: u16,
    mo: u8,
    d: u8,
    h: u8,
    mi: u8,
    s: u8,
    ns: i32,
}
fn check_time(t: T, bg: u64, r: &mut Rec) {
    let mut v: Vec<u8> = (0..92).map(|k| pat(bg, k)).collect();
    v[4..6].copy_from_slice(&t.y.to_le_bytes());
    v[6] = t.mo;
    v[7] = t.d;
    v[8] = t.h;
    v[9] = t.mi;
    v[10] = t.s;
    put32(&mut v, 16, t.ns);
    r.eval(Some(hash64(&v[4..20], 1)));
    let got = deliver(1, 7, &v, |q| match q {
        PacketRef::NavPvt(p) => Some(DateTime::<Utc>::try_from(p)),
        _ => None,
    });
    let got = match got {
        Ok(g) => g,
        Err(m) => return r.fail(format!("NAV-PVT {t:?}: {m}")),
    };
    let bad_date = !(1..=12).contains(&t.mo) || t.d == 0 || t.d as i64 > month_len(t.y as i64, t.mo as i64);
    let bad_time = t.h > 23 || t.mi > 59 || t.s > 59;
    let bad_ns = (t.ns as i64).abs() >= 1_000_000_000;
    let ok = match &got {
        Ok(dt) => {
            let secs = if bad_date { 0 } else { days(t.y as i64, t.mo as i64, t.d as i64) * 86400 + t.h as i64 * 3600 + t.mi as i64 * 60 + t.s as i64 };
            let total = secs as i128 * 1_000_000_000 + t.ns as i128;
            let have = dt.timestamp() as i128 * 1_000_000_000 + dt.timestamp_subsec_nanos() as i128;
            !bad_date && !bad_time && !bad_ns && total == have && dt.timestamp_subsec_nanos() < 1_000_000_000
        },
        Err(DateTimeError::InvalidDate) => bad_date,
        Err(DateTimeError::InvalidTime) => bad_time,
        Err(DateTimeError::InvalidNanoseconds) => bad_ns,
    };
    if !ok {
        r.fail(format!("NAV-PVT {t:?} converts to {got:?}"));
    }
}

fn fields_of(pk: usize, b: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    PACKETS[pk].fields.iter().map(|f| (f.name, b[6 + f.off..6 + f.off + f.size].to_vec())).collect()
}
fn base_aid(bg: u64) -> AidIniBuilder {
    let w = |k: usize| u32::from_le_bytes([pat(bg, k), pat(bg, k + 1), pat(bg, k + 2), pat(bg, k + 3)]);
    AidIniBuilder {
        ecef_x_or_lat: w(0) as i32,
        ecef_y_or_lon: w(4) as i32,
        ecef_z_or_alt: w(8) as i32,
        pos_accuracy: w(12),
        time_cfg: w(16) as u16,
        week_or_ym: w(18) as u16,
        tow_or_hms: w(20),
        tow_ns: w(24) as i32,
        tm_accuracy_ms: w(28),
        tm_accuracy_ns: w(32),
        clk_drift_or_freq: w(36) as i32,
        clk_drift_or_freq_accuracy: w(40),
        flags: w(44),
    }
}
/// Builds AID-INI from background `bg`, with a position and/or a time, and checks every field.
fn check_aid(bg: u64, pos: Option<(f64, f64, f64)>, tm: Option<DateTime<Utc>>, time_first: bool, r: &mut Rec) {
    let pk = PACKETS.iter().position(|p| p.name == "AidIni").unwrap();
    let plain = base_aid(bg).into_packet_bytes();
    let made = no_panic(|| {
        let mut b = base_aid(bg);
        let set_t = |b: AidIniBuilder| if let Some(t) = tm { b.set_time(t) } else { b };
        if time_first {
            b = set_t(b);
        }
        if let Some((lat, lon, alt)) = pos {
            b = b.set_position(Position { lon, lat, alt });
        }
        if !time_first {
            b = set_t(b);
        }
        b.into_packet_bytes()
    });
    let what = format!("AID-INI of background {bg} with position {pos:?} (lat, lon, alt) and time {tm:?}");
    let made = match made {
        Ok(b) => b,
        Err(m) => return r.fail(format!("{what}: {m}")),
    };
    r.eval(Some(hash64(&made, bg)));
    let n = made.len();
    let (a, b) = fletcher(&made[2..n - 2]);
    if n != 56 || made[..6] != plain[..6] || made[n - 2..] != [a, b] {
        return r.fail(format!("{what}: frame [{}]", hex(&made)));
    }
    let (old, new) = (fields_of(pk, &plain), fields_of(pk, &made));
    for ((name, o), (_, g)) in old.iter().zip(&new) {
        let (oi, gi) = (raw_u(o), raw_u(g));
        let near = |x: f64, unit: f64| {
            let (q, got) = (x * unit, raw_i(g) as f64);
            // the nearest units on both sides are accepted: truncation is within the resolution
            let lim = q.clamp(i32::MIN as f64, i32::MAX as f64);
            (got - lim).abs() < 1.0 + 1e-9 * q.abs().max(1.0) * 1e-3
        };
        let ok = match (*name, pos, tm) {
            ("ecef_x_or_lat", Some(p), _) => near(p.0, 1e7),
            ("ecef_y_or_lon", Some(p), _) => near(p.1, 1e7),
            ("ecef_z_or_alt", Some(p), _) => near(p.2, 100.0),
            ("week_or_ym", _, Some(t)) => gi == ((t.year() - 2000) as u64) * 100 + t.month() as u64,
            ("tow_or_hms", _, Some(t)) => gi == ((t.day() as u64 * 100 + t.hour() as u64) * 100 + t.minute() as u64) * 100 + t.second() as u64,
            ("tow_ns", _, Some(t)) => gi == t.nanosecond() as u64,
            ("flags", _, _) => gi == oi | if pos.is_some() { 0x21 } else { 0 } | if tm.is_some() { 0x402 } else { 0 },
            _ => oi == gi,
        };
        if !ok {
            r.fail(format!("{what}: {name} is [{}] (before: [{}])", hex(g), hex(o)));
        }
    }
}

fn main() {
    let c = Ctx::new("C20", Level::Exploration);
    let e = edges32(c.thorough());
    let ne = e.len() as u64;

    // position from NAV-POSLLH and NAV-PVT: (lon, lat, height above mean sea level) in place
    for (id, lon, lat, msl, len) in [(2u8, 4usize, 8usize, 16usize, 28usize), (7, 24, 28, 36, 92)] {
        c.space(&format!("position from NAV id {id:#04x}"), ne * ne * 3, |i, r| {
            let (x, y) = (e[(i % ne) as usize], e[(i / ne % ne) as usize]);
            for bg in [0u64, 2, 7] {
                let mut v: Vec<u8> = (0..len).map(|k| pat(bg, k)).collect();
                let w = [(lon, lat), (lat, msl), (msl, lon)][(i / ne / ne) as usize];
                put32(&mut v, w.0, x);
                put32(&mut v, w.1, y);
                r.eval(Some(hash64(&v, id as u64)));
                let at = |k: usize| raw_i(&v[k..k + 4]) as f64;
                let want = (at(lon) * 1e-7, at(lat) * 1e-7, at(msl) * 1e-3);
                let got = deliver(1, id, &v, |q| match q {
                    PacketRef::NavPosLlh(p) => Some(Position::from(p)),
                    PacketRef::NavPvt(p) => Some(Position::from(p)),
                    _ => None,
                });
                match got {
                    Ok(p) if near(p.lon, want.0, 1e-7) && near(p.lat, want.1, 1e-7) && near(p.alt, want.2, 1e-3) => {},
                    g => r.fail(format!("NAV id {id:#04x} payload [{}]: {g:?}, expected {want:?}", hex(&v))),
                }
            }
        });
    }
    // velocity from NAV-VELNED and NAV-PVT
    for (id, sp, hd, len, unit) in [(0x12u8, 20usize, 24usize, 36usize, 1e-2), (7, 60, 64, 92, 1e-3)] {
        c.space(&format!("velocity from NAV id {id:#04x}"), ne * ne, |i, r| {
            let (x, y) = (e[(i % ne) as usize], e[(i / ne % ne) as usize]);
            for bg in [0u64, 2, 7] {
                let mut v: Vec<u8> = (0..len).map(|k| pat(bg, k)).collect();
                put32(&mut v, sp, x);
                put32(&mut v, hd, y);
                r.eval(Some(hash64(&v, 0x40 + id as u64)));
                let want = (x as u32 as f64 * unit, y as f64 * 1e-5);
                let got = deliver(1, id, &v, |q| match q {
                    PacketRef::NavVelNed(p) => Some(Velocity::from(p)),
                    PacketRef::NavPvt(p) => Some(Velocity::from(p)),
                    _ => None,
                });
                match got {
                    Ok(p) if near(p.speed, want.0, unit) && near(p.heading, want.1, 1e-5) => {},
                    g => r.fail(format!("NAV id {id:#04x} payload [{}]: {g:?}, expected {want:?}", hex(&v))),
                }
            }
        });
    }
    // high precision positions: every pair of a standard edge value and a high precision byte,
    // the other axes filled with a background
    c.space("high precision position from NAV-HPPOSLLH", ne * 256 * 3, |i, r| {
        let (x, hp, ax) = (e[(i / 256 % ne) as usize], i as u8, (i / 256 / ne) as usize);
        for bg in [0u64, 1, 2, 7] {
            let mut v: Vec<u8> = (0..36).map(|k| pat(bg, k)).collect();
            put32(&mut v, [8, 12, 20][ax], x);
            v[[24, 25, 27][ax]] = hp;
            r.eval(Some(hash64(&v, 0x14)));
            // exact sums in units of 1e-9 degrees and 0.1 mm
            let at = |k: usize| raw_i(&v[k..k + 4]);
            let hp = |k: usize| v[k] as i8 as i64;
            let want = ((at(8) * 100 + hp(24)) as f64 * 1e-9, (at(12) * 100 + hp(25)) as f64 * 1e-9, (at(20) * 10 + hp(27)) as f64 * 1e-4);
            let got = deliver(1, 0x14, &v, |q| if let PacketRef::NavHpPosLlh(p) = q { Some(Position::from(p)) } else { None });
            let tol = |got: f64, want: f64, unit: f64| (got - want).abs() <= unit * 0.01;
            match got {
                Ok(p) if tol(p.lon, want.0, 1e-9) && tol(p.lat, want.1, 1e-9) && tol(p.alt, want.2, 1e-4) => {},
                g => r.fail(format!("NAV-HPPOSLLH payload [{}]: {g:?}, expected {want:?}", hex(&v))),
            }
        }
    });
    c.space("high precision position from NAV-HPPOSECEF", ne * 256 * 3, |i, r| {
        let (x, hp, ax) = (e[(i / 256 % ne) as usize], i as u8, (i / 256 / ne) as usize);
        for bg in [0u64, 1, 2, 7] {
            let mut v: Vec<u8> = (0..28).map(|k| pat(bg, k)).collect();
            put32(&mut v, 8 + 4 * ax, x);
            v[20 + ax] = hp;
            r.eval(Some(hash64(&v, 0x13)));
            let w = |k: usize| (raw_i(&v[8 + 4 * k..12 + 4 * k]) * 100 + v[20 + k] as i8 as i64) as f64 * 1e-4;
            let want = (w(0), w(1), w(2));
            let got = deliver(1, 0x13, &v, |q| if let PacketRef::NavHpPosEcef(p) = q { Some(PositionECEF::from(p)) } else { None });
            let tol = |got: f64, want: f64| (got - want).abs() <= 1e-6;
            match got {
                Ok(p) if tol(p.x, want.0) && tol(p.y, want.1) && tol(p.z, want.2) => {},
                g => r.fail(format!("NAV-HPPOSECEF payload [{}]: {g:?}, expected {want:?}", hex(&v))),
            }
        }
    });

    // calendar: every month and day byte of every kind of year, every hour, minute and second byte
    let years: Vec<u16> = if c.thorough() {
        (0..=65535u32).step_by(1).filter(|y| *y < 2800 || y % 97 == 0 || *y > 65500).map(|y| y as u16).collect()
    } else {
        let mut v = vec![0, 1, 2, 3, 4, 99, 100, 101, 400, 1582, 1600, 1899, 1900, 1901, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2025, 2038, 2099, 2100, 2400, 9999, 10000, 32767, 32768, 65532, 65534, 65535];
        v.extend(1980..2060);
        v.sort();
        v.dedup();
        v
    };
    c.space("calendar: years, months and days", years.len() as u64 * 256, |i, r| {
        let (y, mo) = (years[(i / 256) as usize], i as u8);
        for d in 0..=255u8 {
            // bytes far from the calendar once per value
            if mo > 14 && d > 33 && d != 255 {
                continue;
            }
            let k = y as usize + d as usize;
            check_time(T { y, mo, d, h: [0, 23, 12][k % 3], mi: [0, 59, 30][k / 3 % 3], s: [59, 0, 1][k / 9 % 3], ns: [0, -1, 999_999_999, -999_999_999][k % 4] }, [0, 2, 7][k % 3], r);
        }
    });
    c.space("calendar: all 65536 years", 65536, |i, r| {
        for (mo, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (12, 31)] {
            for ns in [0, -1] {
                check_time(T { y: i as u16, mo, d, h: 0, mi: 0, s: 0, ns }, 0, r);
            }
        }
    });
    c.space("calendar: hours, minutes and seconds", 65536, |i, r| {
        let (h, mi) = ((i >> 8) as u8, i as u8);
        for s in 0..=255u8 {
            if (h > 25 || mi > 61) && s > 61 && s != 255 || h > 25 && mi > 61 && s > 0 {
                continue;
            }
            check_time(T { y: 2024, mo: 2, d: 29, h, mi, s, ns: [0, -1, 5][(s % 3) as usize] }, 0, r);
        }
    });
    c.space("calendar: nanoseconds", 200_000, |i, r| {
        let near = [0i64, 1_000_000_000, -1_000_000_000, i32::MAX as i64, i32::MIN as i64, 999_999_999, -999_999_999, 500_000_000, -500_000_000, 1 << 30][(i % 10) as usize];
        let ns = if i < 20_000 { near + (i / 10) as i64 - 1000 } else { (i as i64 - 20_000) * 23_861 - 2_147_483_648 };
        let Ok(ns) = i32::try_from(ns) else { return };
        for (mo, d, h, mi, s) in [(1, 1, 0, 0, 0), (12, 31, 23, 59, 59), (3, 1, 0, 0, 0), (6, 15, 12, 30, 59)] {
            check_time(T { y: 2024, mo, d, h, mi, s, ns }, 7, r);
        }
    });

    // aiding positions
    let mut degs: Vec<f64> = vec![0.0, -0.0, 1e-7, -1e-7, 0.5e-7, 47.2852, 8.5652, -122.5, 89.9999999, 90.0, -90.0, 180.0, -180.0, 179.9999999, -179.9999999, 214.7483647, -214.7483648, 0.1, -0.1, 33.3333333];
    for k in 0..32 {
        let x = (1u64 << k) as f64 * 1e-7;
        if x <= 214.0 {
            degs.extend([x, -x, x + 0.25e-7, x - 0.25e-7, -x + 0.75e-7]);
        }
    }
    for k in 0..180 {
        degs.extend([k as f64 + 0.1234567, -(k as f64) - 0.7654321]);
    }
    let mut alts: Vec<f64> = vec![0.0, -0.0, 0.01, -0.01, 1.0, -1.0, 408.13, -420.5, 8848.86, 50000.0, 20_000_000.0, -20_000_000.0, 21_474_836.47, -21_474_836.48, 0.005];
    for k in 0..31 {
        let x = (1u64 << k) as f64 * 0.01;
        alts.extend([x, -x, x + 0.0025]);
    }
    let (nd, na) = (degs.len() as u64, alts.len() as u64);
    c.space("aiding position: latitude and longitude", nd * nd, |i, r| {
        let (a, b) = (degs[(i % nd) as usize], degs[(i / nd) as usize]);
        check_aid([0, 2, 7, 1][(i % 4) as usize], Some((a, b, alts[(i % na) as usize])), None, false, r);
    });
    c.space("aiding position: altitude", nd * na, |i, r| {
        let (a, h) = (degs[(i % nd) as usize], alts[(i / nd) as usize]);
        check_aid([0, 2, 7, 1][(i % 4) as usize], Some((a, -a / 2.0, h)), None, false, r);
    });
    // aiding time: every day of the century the two-digit year can name, every second of a day
    let t0 = Utc.with_ymd_and_hms(2000, 1, 1, 0, 0, 0).unwrap();
    c.space("aiding time: every day of 2000..2099", 36525, |i, r| {
        for s in [0i64, 1, 59, 60, 3599, 3600, 43_199, 86_399] {
            let t = t0 + chrono::Duration::seconds(i as i64 * 86400 + s);
            check_aid([0, 2, 7, 1][(i % 4) as usize], None, Some(t), false, r);
        }
    });
    c.space("aiding time: every second of some days", 86400, |i, r| {
        for d in [0i64, 59, 365, 9131, 36524] {
            let t = t0 + chrono::Duration::seconds(d * 86400 + i as i64) + chrono::Duration::nanoseconds([0, 1, 999_999_999][(i % 3) as usize]);
            check_aid(0, None, Some(t), false, r);
        }
    });
    c.space("aiding time: nanoseconds", 60_000, |i, r| {
        let ns = if i < 30_000 { i as i64 } else { (i as i64 - 30_000) * 33_333 + 9 };
        check_aid(7, None, Some(t0 + chrono::Duration::nanoseconds(ns) + chrono::Duration::days(i as i64 % 36000)), false, r);
    });
    c.space("aiding position and time together, in either order", 4096, |i, r| {
        let t = t0 + chrono::Duration::seconds(i as i64 * 770_477 % 3_155_760_000);
        check_aid(i % 8, Some((degs[(i % nd) as usize], degs[(i * 7 % nd) as usize], alts[(i % na) as usize])), Some(t), i / 8 % 2 == 0, r);
    });
    c.finish(
        "conversions of NAV-POSLLH, NAV-HPPOSLLH, NAV-HPPOSECEF, NAV-VELNED and NAV-PVT: all pairs of edge values of the components and every high precision byte against exact integer sums; every month and day byte of many years, all 65536 years, every hour, minute and second byte and nanosecond neighbourhoods against an independent calendar; AID-INI positions over a grid of latitudes, longitudes and altitudes, times over every day of 2000..2099 and every second of some days, over several prior contents. Distinct by payload or frame",
        &["AID-INI years outside 2000..2099 cannot be expressed and are not required", "the conversions are linear between the enumerated values"],
    );
}
