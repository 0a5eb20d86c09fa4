//! Written by tools/gen_rust.py from spec/packets.json. Do not edit.
#![allow(non_snake_case, non_upper_case_globals, clippy::all, unused_variables)]
use crate::model::*;
use ublox::*;

pub static ENUMS: &[En] = &[
    En { name: "GpsFix", reserved: true, variants: &[("NoFix", 0), ("DeadReckoningOnly", 1), ("Fix2D", 2), ("Fix3D", 3), ("GPSPlusDeadReckoning", 4), ("TimeOnlyFix", 5)], default: None },
    En { name: "NavStatusFlags2", reserved: true, variants: &[("Acquisition", 0), ("Tracking", 1), ("PowerOptimizedTracking", 2), ("Inactive", 3)], default: None },
    En { name: "OdoProfile", reserved: false, variants: &[("Running", 0), ("Cycling", 1), ("Swimming", 2), ("Car", 3), ("Custom", 4)], default: Some(0) },
    En { name: "CfgItfmAntennaSettings", reserved: false, variants: &[("Unknown", 0), ("Active", 1), ("Passive", 2)], default: Some(0) },
    En { name: "CfgTp5TimePulseMode", reserved: false, variants: &[("TimePulse", 0), ("TimePulse2", 1)], default: Some(0) },
    En { name: "CfgTmode2TimeXferModes", reserved: false, variants: &[("Disabled", 0), ("SurveyIn", 1), ("FixedMode", 2)], default: Some(0) },
    En { name: "I2cPortId", reserved: false, variants: &[("I2c", 0)], default: Some(0) },
    En { name: "UartPortId", reserved: false, variants: &[("Uart1", 1), ("Uart2", 2), ("Usb", 3)], default: None },
    En { name: "SpiPortId", reserved: false, variants: &[("Spi", 4)], default: Some(4) },
    En { name: "CfgNav5DynModel", reserved: false, variants: &[("Portable", 0), ("Stationary", 2), ("Pedestrian", 3), ("Automotive", 4), ("Sea", 5), ("AirborneWithLess1gAcceleration", 6), ("AirborneWithLess2gAcceleration", 7), ("AirborneWith4gAcceleration", 8), ("WristWornWatch", 9), ("Bike", 10)], default: Some(8) },
    En { name: "CfgNav5FixMode", reserved: false, variants: &[("Only2D", 1), ("Only3D", 2), ("Auto2D3D", 3)], default: Some(3) },
    En { name: "CfgNav5UtcStandard", reserved: false, variants: &[("Automatic", 0), ("Usno", 3), ("UtcSu", 6), ("UtcChina", 7)], default: Some(0) },
    En { name: "MsgAckInfoCode", reserved: true, variants: &[("Accepted", 0), ("RejectedNoTime", 1), ("RejectedBadVersion", 2), ("RejectedBadSize", 3), ("RejectedDBStoreFailed", 4), ("RejectedNotReady", 5), ("RejectedUnknownType", 6)], default: None },
    En { name: "AntennaStatus", reserved: true, variants: &[("Init", 0), ("DontKnow", 1), ("Ok", 2), ("Short", 3), ("Open", 4)], default: None },
    En { name: "AntennaPower", reserved: true, variants: &[("Off", 0), ("On", 1), ("DontKnow", 2)], default: None },
];
pub static FLAGS: &[Fl] = &[
    Fl { name: "NavHpPosEcefFlags", bits: 8, flags: &[("INVALID_ECEF", 0x1)] },
    Fl { name: "NavPvtFlags", bits: 8, flags: &[("GPS_FIX_OK", 0x1), ("DIFF_SOLN", 0x2), ("HEAD_VEH_VALID", 0x20), ("CARR_SOLN_FLOAT", 0x40), ("CARR_SOLN_FIXED", 0x80)] },
    Fl { name: "NavPvtFlags2", bits: 8, flags: &[("CONFIRMED_AVAI", 0x20), ("CONFIRMED_DATE", 0x40), ("CONFIRMED_TIME", 0x80)] },
    Fl { name: "NavStatusFlags", bits: 8, flags: &[("GPS_FIX_OK", 0x1), ("DIFF_SOLN", 0x2), ("WKN_SET", 0x4), ("TOW_SET", 0x8)] },
    Fl { name: "OdoCogFilterFlags", bits: 8, flags: &[("USE_ODO", 0x1), ("USE_COG", 0x2), ("OUT_LP_VEL", 0x4), ("OUT_LP_COG", 0x8)] },
    Fl { name: "CfgInfMask", bits: 8, flags: &[("ERROR", 0x1), ("WARNING", 0x2), ("NOTICE", 0x4), ("TEST", 0x8), ("DEBUG", 0x10)] },
    Fl { name: "AntFlags", bits: 16, flags: &[("SVCS", 0x1), ("SCD", 0x2), ("OCD", 0x4), ("PDWN_ON_SCD", 0x8), ("RECOVERY", 0x10)] },
    Fl { name: "CfgTmode2Flags", bits: 16, flags: &[("LLA", 0x1), ("ALT_INVALID", 0x2)] },
    Fl { name: "NavTimeLsFlags", bits: 8, flags: &[("VALID_CURR_LS", 0x1), ("VALID_TIME_TO_LS_EVENT", 0x2)] },
    Fl { name: "CfgTmode3RcvrMode", bits: 8, flags: &[("DISABLED", 0x1), ("SURVEY_IN", 0x2), ("FIXED_MODE", 0x4)] },
    Fl { name: "CfgTp5Flags", bits: 32, flags: &[("ACTIVE", 0x1), ("LOCK_GNSS_FREQ", 0x2), ("LOCKED_OTHER_SET", 0x4), ("IS_FREQ", 0x8), ("IS_LENGTH", 0x10), ("ALIGN_TO_TOW", 0x20), ("POLARITY", 0x40), ("UTC_TIME_GRID", 0x80), ("GPS_TIME_GRID", 0x100), ("GLO_TIME_GRID", 0x200), ("BDS_TIME_GRID", 0x400), ("GAL_TIME_GRID", 0x800), ("SYNC_MODE_0", 0x1000), ("SYNC_MODE_1", 0x2000)] },
    Fl { name: "CfgTmode3Flags", bits: 8, flags: &[("LLA", 0x1)] },
    Fl { name: "NavBbrMask", bits: 16, flags: &[("EPHEMERIS", 0x1), ("ALMANACH", 0x2), ("HEALTH", 0x4), ("KLOBUCHARD", 0x8), ("POSITION", 0x10), ("CLOCK_DRIFT", 0x20), ("OSCILATOR_PARAMETER", 0x40), ("UTC_CORRECTION_PARAMETERS", 0x80), ("RTC", 0x100), ("SFDR_PARAMETERS", 0x800), ("SFDR_VEHICLE_MONITORING_PARAMETERS", 0x1000), ("TCT_PARAMETERS", 0x2000), ("AUTONOMOUS_ORBIT_PARAMETERS", 0x8000)] },
    Fl { name: "CfgLayer", bits: 8, flags: &[("RAM", 0x1), ("BBR", 0x2), ("FLASH", 0x4)] },
    Fl { name: "InProtoMask", bits: 16, flags: &[("UBLOX", 0x1), ("NMEA", 0x2), ("RTCM", 0x4), ("RTCM3", 0x20)] },
    Fl { name: "OutProtoMask", bits: 16, flags: &[("UBLOX", 0x1), ("NMEA", 0x2), ("RTCM3", 0x20)] },
    Fl { name: "NavTimeUtcFlags", bits: 8, flags: &[("VALID_TOW", 0x1), ("VALID_WKN", 0x2), ("VALID_UTC", 0x4)] },
    Fl { name: "CfgNav5Params", bits: 16, flags: &[("DYN", 0x1), ("MIN_EL", 0x2), ("POS_FIX_MODE", 0x4), ("DR_LIM", 0x8), ("POS_MASK_APPLY", 0x10), ("TIME_MASK", 0x20), ("STATIC_HOLD_MASK", 0x40), ("DGPS_MASK", 0x80), ("CNO_THRESHOLD", 0x100), ("UTC", 0x400)] },
    Fl { name: "CfgNavX5Params1", bits: 16, flags: &[("MIN_MAX", 0x4), ("MIN_CNO", 0x8), ("INITIAL_3D_FIX", 0x40), ("WKN_ROLL", 0x200), ("AID_ACK", 0x400), ("USE_PPP", 0x2000), ("AOP_CFG", 0x4000)] },
    Fl { name: "CfgNavX5Params2", bits: 32, flags: &[("USE_ADR", 0x40), ("USE_SIG_ATTEN_COMP", 0x80)] },
    Fl { name: "RecStatFlags", bits: 8, flags: &[("LEAP_SEC", 0x1), ("CLK_RESET", 0x2)] },
    Fl { name: "MonGnssConstellMask", bits: 8, flags: &[("GPS", 0x1), ("GLO", 0x2), ("BDC", 0x4), ("GAL", 0x8)] },
    Fl { name: "EsfInsBitFlags", bits: 32, flags: &[("VERSION", 0x1), ("X_ANG_RATE_VALID", 0x100), ("Y_ANG_RATE_VALID", 0x200), ("Z_ANG_RATE_VALID", 0x400), ("X_ACCEL_VALID", 0x800), ("Y_ACCEL_VALID", 0x1000), ("Z_ACCEL_VALID", 0x2000)] },
    Fl { name: "HnrInsBitFlags", bits: 32, flags: &[("VERSION", 0x1), ("X_ANG_RATE_VALID", 0x100), ("Y_ANG_RATE_VALID", 0x200), ("Z_ANG_RATE_VALID", 0x400), ("X_ACCEL_VALID", 0x800), ("Y_ACCEL_VALID", 0x1000), ("Z_ACCEL_VALID", 0x2000)] },
    Fl { name: "HnrPvtFlags", bits: 8, flags: &[("GPS_FIX_OK", 0x1), ("DIFF_SOLN", 0x2), ("WKN_SET", 0x4), ("TOW_SET", 0x8), ("HEAD_VEH_VALID", 0x10)] },
    Fl { name: "HnrPvtValidFlags", bits: 8, flags: &[("VALID_DATE", 0x1), ("VALID_TIME", 0x2), ("FULLY_RESOLVED", 0x4)] },
    Fl { name: "StdevFlags", bits: 8, flags: &[("STD_1", 0x1), ("STD_2", 0x2), ("STD_3", 0x4), ("STD_4", 0x8)] },
    Fl { name: "TrkStatFlags", bits: 8, flags: &[("PR_VALID", 0x1), ("CP_VALID", 0x2), ("HALF_CYCLE", 0x4), ("SUB_HALF_CYCLE", 0x8)] },
];
pub static PACKETS: &[Pk] = &[
    Pk { name: "NavPosLlh", class: 0x01, id: 0x02, recv: true, send: false, fixed: Some(28), max: 28, default: false, dispatch: Some(0), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "lon", acc: "lon_degrees", off: 4, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-07, single: false }, may_fail: false },
        Fd { name: "lat", acc: "lat_degrees", off: 8, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-07, single: false }, may_fail: false },
        Fd { name: "height_meters", acc: "height_meters", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "height_msl", acc: "height_msl", off: 16, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "h_ack", acc: "h_ack", off: 20, size: 4, kind: Kind::U, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "v_acc", acc: "v_acc", off: 24, size: 4, kind: Kind::U, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
    ] },
    Pk { name: "NavVelNed", class: 0x01, id: 0x12, recv: true, send: false, fixed: Some(36), max: 36, default: false, dispatch: Some(5), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "vel_north", acc: "vel_north", off: 4, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "vel_east", acc: "vel_east", off: 8, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "vel_down", acc: "vel_down", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "speed_3d", acc: "speed_3d", off: 16, size: 4, kind: Kind::U, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ground_speed", acc: "ground_speed", off: 20, size: 4, kind: Kind::U, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "heading", acc: "heading_degrees", off: 24, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "speed_accuracy_estimate", acc: "speed_accuracy_estimate", off: 28, size: 4, kind: Kind::U, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "course_heading_accuracy_estimate", acc: "course_heading_accuracy_estimate", off: 32, size: 4, kind: Kind::U, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
    ] },
    Pk { name: "NavHpPosLlh", class: 0x01, id: 0x14, recv: true, send: false, fixed: Some(36), max: 36, default: false, dispatch: Some(6), fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 1, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "itow", acc: "itow", off: 4, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "lon", acc: "lon_degrees", off: 8, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-07, single: false }, may_fail: false },
        Fd { name: "lat", acc: "lat_degrees", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-07, single: false }, may_fail: false },
        Fd { name: "height_meters", acc: "height_meters", off: 16, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "height_msl", acc: "height_msl", off: 20, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "lon_hp", acc: "lon_hp_degrees", off: 24, size: 1, kind: Kind::I, map: Map::Scale { s: 1e-09, single: false }, may_fail: false },
        Fd { name: "lat_hp", acc: "lat_hp_degrees", off: 25, size: 1, kind: Kind::I, map: Map::Scale { s: 1e-09, single: false }, may_fail: false },
        Fd { name: "height_hp_meters", acc: "height_hp_meters", off: 26, size: 1, kind: Kind::I, map: Map::Scale { s: 0.1, single: false }, may_fail: false },
        Fd { name: "height_hp_msl", acc: "height_hp_msl", off: 27, size: 1, kind: Kind::I, map: Map::Scale { s: 0.1, single: false }, may_fail: false },
        Fd { name: "horizontal_accuracy", acc: "horizontal_accuracy", off: 28, size: 4, kind: Kind::U, map: Map::Scale { s: 0.1, single: false }, may_fail: false },
        Fd { name: "vertical_accuracy", acc: "vertical_accuracy", off: 32, size: 4, kind: Kind::U, map: Map::Scale { s: 0.1, single: false }, may_fail: false },
    ] },
    Pk { name: "NavHpPosEcef", class: 0x01, id: 0x13, recv: true, send: false, fixed: Some(28), max: 28, default: false, dispatch: Some(7), fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 1, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "itow", acc: "itow", off: 4, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "ecef_x", acc: "ecef_x_cm", off: 8, size: 4, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "ecef_y", acc: "ecef_y_cm", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "ecef_z", acc: "ecef_z_cm", off: 16, size: 4, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "ecef_x_hp", acc: "ecef_x_hp_mm", off: 20, size: 1, kind: Kind::I, map: Map::Scale { s: 0.1, single: false }, may_fail: false },
        Fd { name: "ecef_y_hp", acc: "ecef_y_hp_mm", off: 21, size: 1, kind: Kind::I, map: Map::Scale { s: 0.1, single: false }, may_fail: false },
        Fd { name: "ecef_z_hp", acc: "ecef_z_hp_mm", off: 22, size: 1, kind: Kind::I, map: Map::Scale { s: 0.1, single: false }, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 23, size: 1, kind: Kind::U, map: Map::Flags(0), may_fail: false },
        Fd { name: "p_acc", acc: "p_acc", off: 24, size: 4, kind: Kind::U, map: Map::Scale { s: 0.1, single: false }, may_fail: false },
    ] },
    Pk { name: "NavPvt", class: 0x01, id: 0x07, recv: true, send: false, fixed: Some(92), max: 92, default: false, dispatch: Some(3), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "year", acc: "year", off: 4, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "month", acc: "month", off: 6, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "day", acc: "day", off: 7, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "hour", acc: "hour", off: 8, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "min", acc: "min", off: 9, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sec", acc: "sec", off: 10, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "valid", acc: "valid", off: 11, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "time_accuracy", acc: "time_accuracy", off: 12, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "nanosecond", acc: "nanosecond", off: 16, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "fix_type", acc: "fix_type", off: 20, size: 1, kind: Kind::U, map: Map::Enum(0), may_fail: false },
        Fd { name: "flags", acc: "flags", off: 21, size: 1, kind: Kind::U, map: Map::Flags(1), may_fail: false },
        Fd { name: "flags2", acc: "flags2", off: 22, size: 1, kind: Kind::U, map: Map::Flags(2), may_fail: false },
        Fd { name: "num_satellites", acc: "num_satellites", off: 23, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "lon", acc: "lon_degrees", off: 24, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-07, single: false }, may_fail: false },
        Fd { name: "lat", acc: "lat_degrees", off: 28, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-07, single: false }, may_fail: false },
        Fd { name: "height_meters", acc: "height_meters", off: 32, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "height_msl", acc: "height_msl", off: 36, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "horiz_accuracy", acc: "horiz_accuracy", off: 40, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "vert_accuracy", acc: "vert_accuracy", off: 44, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "vel_north", acc: "vel_north", off: 48, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "vel_east", acc: "vel_east", off: 52, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "vel_down", acc: "vel_down", off: 56, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "ground_speed", acc: "ground_speed", off: 60, size: 4, kind: Kind::U, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "heading", acc: "heading_degrees", off: 64, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "speed_accuracy_estimate", acc: "speed_accuracy_estimate", off: 68, size: 4, kind: Kind::U, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "heading_accuracy_estimate", acc: "heading_accuracy_estimate", off: 72, size: 4, kind: Kind::U, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "pdop", acc: "pdop", off: 76, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 78, size: 6, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "heading_of_vehicle", acc: "heading_of_vehicle_degrees", off: 84, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "magnetic_declination", acc: "magnetic_declination_degrees", off: 88, size: 2, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "magnetic_declination_accuracy", acc: "magnetic_declination_accuracy_degrees", off: 90, size: 2, kind: Kind::U, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
    ] },
    Pk { name: "NavStatus", class: 0x01, id: 0x03, recv: true, send: false, fixed: Some(16), max: 16, default: false, dispatch: Some(1), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "fix_type", acc: "fix_type", off: 4, size: 1, kind: Kind::U, map: Map::Enum(0), may_fail: false },
        Fd { name: "flags", acc: "flags", off: 5, size: 1, kind: Kind::U, map: Map::Flags(3), may_fail: false },
        Fd { name: "fix_stat", acc: "fix_stat", off: 6, size: 1, kind: Kind::U, map: Map::Other("FixStatusInfo"), may_fail: false },
        Fd { name: "flags2", acc: "flags2", off: 7, size: 1, kind: Kind::U, map: Map::Enum(1), may_fail: false },
        Fd { name: "time_to_first_fix", acc: "time_to_first_fix", off: 8, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "uptime_ms", acc: "uptime_ms", off: 12, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "NavDop", class: 0x01, id: 0x04, recv: true, send: false, fixed: Some(18), max: 18, default: false, dispatch: Some(2), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "geometric_dop", acc: "geometric_dop", off: 4, size: 2, kind: Kind::U, map: Map::Scale { s: 0.01, single: true }, may_fail: false },
        Fd { name: "position_dop", acc: "position_dop", off: 6, size: 2, kind: Kind::U, map: Map::Scale { s: 0.01, single: true }, may_fail: false },
        Fd { name: "time_dop", acc: "time_dop", off: 8, size: 2, kind: Kind::U, map: Map::Scale { s: 0.01, single: true }, may_fail: false },
        Fd { name: "vertical_dop", acc: "vertical_dop", off: 10, size: 2, kind: Kind::U, map: Map::Scale { s: 0.01, single: true }, may_fail: false },
        Fd { name: "horizontal_dop", acc: "horizontal_dop", off: 12, size: 2, kind: Kind::U, map: Map::Scale { s: 0.01, single: true }, may_fail: false },
        Fd { name: "northing_dop", acc: "northing_dop", off: 14, size: 2, kind: Kind::U, map: Map::Scale { s: 0.01, single: true }, may_fail: false },
        Fd { name: "easting_dop", acc: "easting_dop", off: 16, size: 2, kind: Kind::U, map: Map::Scale { s: 0.01, single: true }, may_fail: false },
    ] },
    Pk { name: "NavEoe", class: 0x01, id: 0x61, recv: true, send: false, fixed: Some(4), max: 4, default: false, dispatch: Some(11), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "NavSolution", class: 0x01, id: 0x06, recv: true, send: false, fixed: Some(52), max: 52, default: false, dispatch: Some(4), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "ftow_ns", acc: "ftow_ns", off: 4, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "week", acc: "week", off: 8, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "fix_type", acc: "fix_type", off: 10, size: 1, kind: Kind::U, map: Map::Enum(0), may_fail: false },
        Fd { name: "flags", acc: "flags", off: 11, size: 1, kind: Kind::U, map: Map::Flags(3), may_fail: false },
        Fd { name: "ecef_x", acc: "ecef_x", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_y", acc: "ecef_y", off: 16, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_z", acc: "ecef_z", off: 20, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "position_accuracy_estimate", acc: "position_accuracy_estimate", off: 24, size: 4, kind: Kind::U, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_vx", acc: "ecef_vx", off: 28, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_vy", acc: "ecef_vy", off: 32, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_vz", acc: "ecef_vz", off: 36, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "speed_accuracy_estimate", acc: "speed_accuracy_estimate", off: 40, size: 4, kind: Kind::U, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "pdop", acc: "pdop", off: 44, size: 2, kind: Kind::U, map: Map::Scale { s: 0.01, single: true }, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 46, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "num_sv", acc: "num_sv", off: 47, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 48, size: 4, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "NavSatSvInfo", class: 0x01, id: 0x35, recv: true, send: false, fixed: Some(12), max: 12, default: false, dispatch: None, fields: &[
        Fd { name: "gnss_id", acc: "gnss_id", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sv_id", acc: "sv_id", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "cno", acc: "cno", off: 2, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "elev", acc: "elev", off: 3, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "azim", acc: "azim", off: 4, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "pr_res", acc: "pr_res", off: 6, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 8, size: 4, kind: Kind::U, map: Map::Other("NavSatSvFlags"), may_fail: false },
    ] },
    Pk { name: "NavSat", class: 0x01, id: 0x35, recv: true, send: false, fixed: None, max: 1240, default: false, dispatch: Some(10), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 4, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "num_svs", acc: "num_svs", off: 5, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved", acc: "reserved", off: 6, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "svs", acc: "svs", off: 8, size: 0, kind: Kind::Var, map: Map::Other("NavSatIter"), may_fail: true },
    ] },
    Pk { name: "NavOdo", class: 0x01, id: 0x09, recv: true, send: false, fixed: Some(20), max: 20, default: false, dispatch: Some(12), fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved", acc: "reserved", off: 1, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "itow", acc: "itow", off: 4, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "distance", acc: "distance", off: 8, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "total_distance", acc: "total_distance", off: 12, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "distance_std", acc: "distance_std", off: 16, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "NavResetOdo", class: 0x01, id: 0x10, recv: false, send: true, fixed: Some(0), max: 0, default: false, dispatch: None, fields: &[
    ] },
    Pk { name: "CfgOdo", class: 0x06, id: 0x1e, recv: true, send: true, fixed: Some(20), max: 20, default: true, dispatch: Some(13), fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved", acc: "reserved", off: 1, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 4, size: 1, kind: Kind::U, map: Map::Flags(4), may_fail: false },
        Fd { name: "odo_cfg", acc: "odo_cfg", off: 5, size: 1, kind: Kind::U, map: Map::Enum(2), may_fail: true },
        Fd { name: "reserved2", acc: "reserved2", off: 6, size: 6, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "cog_max_speed", acc: "cog_max_speed", off: 12, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "cog_max_pos_acc", acc: "cog_max_pos_acc", off: 13, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved3", acc: "reserved3", off: 14, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "vel_lp_gain", acc: "vel_lp_gain", off: 16, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "cog_lp_gain", acc: "cog_lp_gain", off: 17, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved4", acc: "reserved4", off: 18, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgItfm", class: 0x06, id: 0x39, recv: true, send: true, fixed: Some(8), max: 8, default: false, dispatch: Some(21), fields: &[
        Fd { name: "config", acc: "config", off: 0, size: 4, kind: Kind::U, map: Map::Other("CfgItfmConfig"), may_fail: false },
        Fd { name: "config2", acc: "config2", off: 4, size: 4, kind: Kind::U, map: Map::Other("CfgItfmConfig2"), may_fail: false },
    ] },
    Pk { name: "CfgInf", class: 0x06, id: 0x02, recv: true, send: true, fixed: Some(10), max: 10, default: true, dispatch: None, fields: &[
        Fd { name: "protocol_id", acc: "protocol_id", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved", acc: "reserved", off: 1, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "inf_msg_mask_0", acc: "inf_msg_mask_0", off: 4, size: 1, kind: Kind::U, map: Map::Flags(5), may_fail: false },
        Fd { name: "inf_msg_mask_1", acc: "inf_msg_mask_1", off: 5, size: 1, kind: Kind::U, map: Map::Flags(5), may_fail: false },
        Fd { name: "inf_msg_mask_2", acc: "inf_msg_mask_2", off: 6, size: 1, kind: Kind::U, map: Map::Flags(5), may_fail: false },
        Fd { name: "inf_msg_mask_3", acc: "inf_msg_mask_3", off: 7, size: 1, kind: Kind::U, map: Map::Flags(5), may_fail: false },
        Fd { name: "inf_msg_mask_4", acc: "inf_msg_mask_4", off: 8, size: 1, kind: Kind::U, map: Map::Flags(5), may_fail: false },
        Fd { name: "inf_msg_mask_5", acc: "inf_msg_mask_5", off: 9, size: 1, kind: Kind::U, map: Map::Flags(5), may_fail: false },
    ] },
    Pk { name: "InfError", class: 0x04, id: 0x00, recv: true, send: false, fixed: None, max: 1240, default: true, dispatch: Some(30), fields: &[
        Fd { name: "message", acc: "message", off: 0, size: 0, kind: Kind::Var, map: Map::Other("Option<&str>"), may_fail: true },
    ] },
    Pk { name: "InfNotice", class: 0x04, id: 0x02, recv: true, send: false, fixed: None, max: 1240, default: true, dispatch: Some(32), fields: &[
        Fd { name: "message", acc: "message", off: 0, size: 0, kind: Kind::Var, map: Map::Other("Option<&str>"), may_fail: true },
    ] },
    Pk { name: "InfTest", class: 0x04, id: 0x03, recv: true, send: false, fixed: None, max: 1240, default: true, dispatch: Some(33), fields: &[
        Fd { name: "message", acc: "message", off: 0, size: 0, kind: Kind::Var, map: Map::Other("Option<&str>"), may_fail: true },
    ] },
    Pk { name: "InfWarning", class: 0x04, id: 0x01, recv: true, send: false, fixed: None, max: 1240, default: true, dispatch: Some(31), fields: &[
        Fd { name: "message", acc: "message", off: 0, size: 0, kind: Kind::Var, map: Map::Other("Option<&str>"), may_fail: true },
    ] },
    Pk { name: "InfDebug", class: 0x04, id: 0x04, recv: true, send: false, fixed: None, max: 1240, default: true, dispatch: Some(34), fields: &[
        Fd { name: "message", acc: "message", off: 0, size: 0, kind: Kind::Var, map: Map::Other("Option<&str>"), may_fail: true },
    ] },
    Pk { name: "AidIni", class: 0x0b, id: 0x01, recv: false, send: true, fixed: Some(48), max: 48, default: true, dispatch: None, fields: &[
        Fd { name: "ecef_x_or_lat", acc: "ecef_x_or_lat", off: 0, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "ecef_y_or_lon", acc: "ecef_y_or_lon", off: 4, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "ecef_z_or_alt", acc: "ecef_z_or_alt", off: 8, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "pos_accuracy", acc: "pos_accuracy", off: 12, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "time_cfg", acc: "time_cfg", off: 16, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "week_or_ym", acc: "week_or_ym", off: 18, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tow_or_hms", acc: "tow_or_hms", off: 20, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tow_ns", acc: "tow_ns", off: 24, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "tm_accuracy_ms", acc: "tm_accuracy_ms", off: 28, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tm_accuracy_ns", acc: "tm_accuracy_ns", off: 32, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "clk_drift_or_freq", acc: "clk_drift_or_freq", off: 36, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "clk_drift_or_freq_accuracy", acc: "clk_drift_or_freq_accuracy", off: 40, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 44, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "AlpSrv", class: 0x0b, id: 0x32, recv: true, send: false, fixed: Some(16), max: 16, default: false, dispatch: Some(18), fields: &[
        Fd { name: "id_size", acc: "id_size", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "data_type", acc: "data_type", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "offset", acc: "offset", off: 2, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "size", acc: "size", off: 4, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "file_id", acc: "file_id", off: 6, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "data_size", acc: "data_size", off: 8, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "id1", acc: "id1", off: 10, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "id2", acc: "id2", off: 11, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "id3", acc: "id3", off: 12, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "AckAck", class: 0x05, id: 0x01, recv: true, send: false, fixed: Some(2), max: 2, default: false, dispatch: Some(19), fields: &[
        Fd { name: "class", acc: "class", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "msg_id", acc: "msg_id", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "AckNak", class: 0x05, id: 0x00, recv: true, send: false, fixed: Some(2), max: 2, default: false, dispatch: Some(20), fields: &[
        Fd { name: "class", acc: "class", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "msg_id", acc: "msg_id", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgRst", class: 0x06, id: 0x04, recv: false, send: true, fixed: Some(4), max: 4, default: false, dispatch: None, fields: &[
        Fd { name: "nav_bbr_mask", acc: "nav_bbr_mask", off: 0, size: 2, kind: Kind::U, map: Map::Flags(12), may_fail: false },
        Fd { name: "reset_mode", acc: "reset_mode", off: 2, size: 1, kind: Kind::U, map: Map::Other("ResetMode"), may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 3, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgAnt", class: 0x06, id: 0x13, recv: true, send: true, fixed: Some(4), max: 4, default: false, dispatch: Some(26), fields: &[
        Fd { name: "flags", acc: "flags", off: 0, size: 2, kind: Kind::U, map: Map::Flags(6), may_fail: false },
        Fd { name: "pins", acc: "pins", off: 2, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgTp5", class: 0x06, id: 0x31, recv: true, send: true, fixed: Some(32), max: 32, default: true, dispatch: Some(29), fields: &[
        Fd { name: "tp_idx", acc: "tp_idx", off: 0, size: 1, kind: Kind::U, map: Map::Enum(4), may_fail: true },
        Fd { name: "version", acc: "version", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 2, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "ant_cable_delay", acc: "ant_cable_delay", off: 4, size: 2, kind: Kind::I, map: Map::Scale { s: 1.0, single: true }, may_fail: false },
        Fd { name: "rf_group_delay", acc: "rf_group_delay", off: 6, size: 2, kind: Kind::I, map: Map::Scale { s: 1.0, single: true }, may_fail: false },
        Fd { name: "freq_period", acc: "freq_period", off: 8, size: 4, kind: Kind::U, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "freq_period_lock", acc: "freq_period_lock", off: 12, size: 4, kind: Kind::U, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "pulse_len_ratio", acc: "pulse_len_ratio", off: 16, size: 4, kind: Kind::U, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "pulse_len_ratio_lock", acc: "pulse_len_ratio_lock", off: 20, size: 4, kind: Kind::U, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "user_delay", acc: "user_delay", off: 24, size: 4, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 28, size: 4, kind: Kind::U, map: Map::Flags(10), may_fail: false },
    ] },
    Pk { name: "CfgTmode2", class: 0x06, id: 0x3d, recv: true, send: true, fixed: Some(28), max: 28, default: true, dispatch: Some(27), fields: &[
        Fd { name: "time_transfer_mode", acc: "time_transfer_mode", off: 0, size: 1, kind: Kind::U, map: Map::Enum(5), may_fail: true },
        Fd { name: "reserved1", acc: "reserved1", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 2, size: 2, kind: Kind::U, map: Map::Flags(7), may_fail: false },
        Fd { name: "ecef_x_or_lat", acc: "ecef_x_or_lat", off: 4, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_y_or_lon", acc: "ecef_y_or_lon", off: 8, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_z_or_alt", acc: "ecef_z_or_alt", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "fixed_pos_acc", acc: "fixed_pos_acc", off: 16, size: 4, kind: Kind::U, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "survey_in_min_duration", acc: "survey_in_min_duration", off: 20, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "survery_in_accur_limit", acc: "survery_in_accur_limit", off: 24, size: 4, kind: Kind::U, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
    ] },
    Pk { name: "TimSvin", class: 0x0d, id: 0x04, recv: true, send: false, fixed: Some(28), max: 28, default: false, dispatch: Some(53), fields: &[
        Fd { name: "dur", acc: "dur", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "mean_x", acc: "mean_x", off: 4, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "mean_y", acc: "mean_y", off: 8, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "mean_z", acc: "mean_z", off: 12, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "mean_v", acc: "mean_v", off: 16, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "obs", acc: "obs", off: 20, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "valid", acc: "valid", off: 24, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "active", acc: "active", off: 25, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved", acc: "reserved", off: 26, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "NavTimeLs", class: 0x01, id: 0x26, recv: true, send: false, fixed: Some(24), max: 24, default: false, dispatch: Some(9), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 4, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved_1", acc: "reserved_1", off: 5, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "src_of_curr_ls", acc: "src_of_curr_ls", off: 8, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "current_ls", acc: "current_ls", off: 9, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "src_of_ls_change", acc: "src_of_ls_change", off: 10, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "ls_change", acc: "ls_change", off: 11, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "time_to_ls_event", acc: "time_to_ls_event", off: 12, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "date_of_ls_gps_wn", acc: "date_of_ls_gps_wn", off: 16, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "date_of_ls_gps_dn", acc: "date_of_ls_gps_dn", off: 18, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved_2", acc: "reserved_2", off: 20, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "valid", acc: "valid", off: 23, size: 1, kind: Kind::U, map: Map::Flags(8), may_fail: false },
    ] },
    Pk { name: "CfgTmode3", class: 0x06, id: 0x71, recv: true, send: true, fixed: Some(40), max: 40, default: true, dispatch: Some(28), fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "rcvr_mode", acc: "rcvr_mode", off: 2, size: 1, kind: Kind::U, map: Map::Flags(9), may_fail: false },
        Fd { name: "flags", acc: "flags", off: 3, size: 1, kind: Kind::U, map: Map::Flags(11), may_fail: false },
        Fd { name: "ecef_x_or_lat", acc: "ecef_x_or_lat", off: 4, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_y_or_lon", acc: "ecef_y_or_lon", off: 8, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_z_or_alt", acc: "ecef_z_or_alt", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "ecef_x_or_lat_hp", acc: "ecef_x_or_lat_hp", off: 16, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: true }, may_fail: false },
        Fd { name: "ecef_y_or_lon_hp", acc: "ecef_y_or_lon_hp", off: 17, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: true }, may_fail: false },
        Fd { name: "ecef_z_or_alt_hp", acc: "ecef_z_or_alt_hp", off: 18, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: true }, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 19, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "fixed_pos_acc", acc: "fixed_pos_acc", off: 20, size: 4, kind: Kind::U, map: Map::Scale { s: 0.0001, single: false }, may_fail: false },
        Fd { name: "sv_in_min_duration", acc: "sv_in_min_duration", off: 24, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sv_in_accur_limit", acc: "sv_in_accur_limit", off: 28, size: 4, kind: Kind::U, map: Map::Scale { s: 0.0001, single: false }, may_fail: false },
        Fd { name: "reserved3", acc: "reserved3", off: 32, size: 8, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgValSet", class: 0x06, id: 0x8a, recv: false, send: true, fixed: None, max: 772, default: false, dispatch: None, fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "layers", acc: "layers", off: 1, size: 1, kind: Kind::U, map: Map::Flags(13), may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 2, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "cfg_data", acc: "cfg_data", off: 4, size: 0, kind: Kind::Var, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgPrtI2c", class: 0x06, id: 0x00, recv: true, send: true, fixed: Some(20), max: 20, default: true, dispatch: Some(22), fields: &[
        Fd { name: "portid", acc: "portid", off: 0, size: 1, kind: Kind::U, map: Map::Enum(6), may_fail: true },
        Fd { name: "reserved1", acc: "reserved1", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tx_ready", acc: "tx_ready", off: 2, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "mode", acc: "mode", off: 4, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 8, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "in_proto_mask", acc: "in_proto_mask", off: 12, size: 2, kind: Kind::U, map: Map::Flags(14), may_fail: false },
        Fd { name: "out_proto_mask", acc: "out_proto_mask", off: 14, size: 2, kind: Kind::U, map: Map::Flags(15), may_fail: false },
        Fd { name: "flags", acc: "flags", off: 16, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved3", acc: "reserved3", off: 18, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgPrtUart", class: 0x06, id: 0x00, recv: true, send: true, fixed: Some(20), max: 20, default: false, dispatch: Some(24), fields: &[
        Fd { name: "portid", acc: "portid", off: 0, size: 1, kind: Kind::U, map: Map::Enum(7), may_fail: true },
        Fd { name: "reserved0", acc: "reserved0", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tx_ready", acc: "tx_ready", off: 2, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "mode", acc: "mode", off: 4, size: 4, kind: Kind::U, map: Map::Other("UartMode"), may_fail: true },
        Fd { name: "baud_rate", acc: "baud_rate", off: 8, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "in_proto_mask", acc: "in_proto_mask", off: 12, size: 2, kind: Kind::U, map: Map::Flags(14), may_fail: false },
        Fd { name: "out_proto_mask", acc: "out_proto_mask", off: 14, size: 2, kind: Kind::U, map: Map::Flags(15), may_fail: false },
        Fd { name: "flags", acc: "flags", off: 16, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved5", acc: "reserved5", off: 18, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgPrtSpi", class: 0x06, id: 0x00, recv: true, send: true, fixed: Some(20), max: 20, default: true, dispatch: Some(23), fields: &[
        Fd { name: "portid", acc: "portid", off: 0, size: 1, kind: Kind::U, map: Map::Enum(8), may_fail: true },
        Fd { name: "reserved0", acc: "reserved0", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tx_ready", acc: "tx_ready", off: 2, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "mode", acc: "mode", off: 4, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved3", acc: "reserved3", off: 8, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "in_proto_mask", acc: "in_proto_mask", off: 12, size: 2, kind: Kind::U, map: Map::Flags(14), may_fail: false },
        Fd { name: "out_proto_mask", acc: "out_proto_mask", off: 14, size: 2, kind: Kind::U, map: Map::Flags(15), may_fail: false },
        Fd { name: "flags", acc: "flags", off: 16, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved5", acc: "reserved5", off: 18, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "NavTimeUTC", class: 0x01, id: 0x21, recv: true, send: false, fixed: Some(20), max: 20, default: false, dispatch: Some(8), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "time_accuracy_estimate_ns", acc: "time_accuracy_estimate_ns", off: 4, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "nanos", acc: "nanos", off: 8, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "year", acc: "year", off: 12, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "month", acc: "month", off: 14, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "day", acc: "day", off: 15, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "hour", acc: "hour", off: 16, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "min", acc: "min", off: 17, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sec", acc: "sec", off: 18, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "valid", acc: "valid", off: 19, size: 1, kind: Kind::U, map: Map::Flags(16), may_fail: false },
    ] },
    Pk { name: "CfgRate", class: 0x06, id: 0x08, recv: false, send: true, fixed: Some(6), max: 6, default: false, dispatch: None, fields: &[
        Fd { name: "measure_rate_ms", acc: "measure_rate_ms", off: 0, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "nav_rate", acc: "nav_rate", off: 2, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "time_ref", acc: "time_ref", off: 4, size: 2, kind: Kind::U, map: Map::Other("AlignmentToReferenceTime"), may_fail: false },
    ] },
    Pk { name: "CfgMsgSinglePort", class: 0x06, id: 0x01, recv: false, send: true, fixed: Some(3), max: 3, default: false, dispatch: None, fields: &[
        Fd { name: "msg_class", acc: "msg_class", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "msg_id", acc: "msg_id", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "rate", acc: "rate", off: 2, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgMsgAllPorts", class: 0x06, id: 0x01, recv: false, send: true, fixed: Some(8), max: 8, default: false, dispatch: None, fields: &[
        Fd { name: "msg_class", acc: "msg_class", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "msg_id", acc: "msg_id", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "rates", acc: "rates", off: 2, size: 6, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgNav5", class: 0x06, id: 0x24, recv: true, send: true, fixed: Some(36), max: 36, default: true, dispatch: Some(25), fields: &[
        Fd { name: "mask", acc: "mask", off: 0, size: 2, kind: Kind::U, map: Map::Flags(17), may_fail: false },
        Fd { name: "dyn_model", acc: "dyn_model", off: 2, size: 1, kind: Kind::U, map: Map::Enum(9), may_fail: true },
        Fd { name: "fix_mode", acc: "fix_mode", off: 3, size: 1, kind: Kind::U, map: Map::Enum(10), may_fail: true },
        Fd { name: "fixed_alt", acc: "fixed_alt", off: 4, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "fixed_alt_var", acc: "fixed_alt_var", off: 8, size: 4, kind: Kind::U, map: Map::Scale { s: 0.0001, single: false }, may_fail: false },
        Fd { name: "min_elev_degrees", acc: "min_elev_degrees", off: 12, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "dr_limit", acc: "dr_limit", off: 13, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "pdop", acc: "pdop", off: 14, size: 2, kind: Kind::U, map: Map::Scale { s: 0.1, single: true }, may_fail: false },
        Fd { name: "tdop", acc: "tdop", off: 16, size: 2, kind: Kind::U, map: Map::Scale { s: 0.1, single: true }, may_fail: false },
        Fd { name: "pacc", acc: "pacc", off: 18, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tacc", acc: "tacc", off: 20, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "static_hold_thresh", acc: "static_hold_thresh", off: 22, size: 1, kind: Kind::U, map: Map::Scale { s: 0.01, single: true }, may_fail: false },
        Fd { name: "dgps_time_out", acc: "dgps_time_out", off: 23, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "cno_thresh_num_svs", acc: "cno_thresh_num_svs", off: 24, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "cno_thresh", acc: "cno_thresh", off: 25, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 26, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "static_hold_max_dist", acc: "static_hold_max_dist", off: 28, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "utc_standard", acc: "utc_standard", off: 30, size: 1, kind: Kind::U, map: Map::Enum(11), may_fail: true },
        Fd { name: "reserved2", acc: "reserved2", off: 31, size: 5, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "CfgNavX5", class: 0x06, id: 0x23, recv: true, send: true, fixed: Some(40), max: 40, default: true, dispatch: None, fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "mask1", acc: "mask1", off: 2, size: 2, kind: Kind::U, map: Map::Flags(18), may_fail: false },
        Fd { name: "mask2", acc: "mask2", off: 4, size: 4, kind: Kind::U, map: Map::Flags(19), may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 8, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "min_svs", acc: "min_svs", off: 10, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "max_svs", acc: "max_svs", off: 11, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "min_cno_dbhz", acc: "min_cno_dbhz", off: 12, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 13, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "ini_fix_3d", acc: "ini_fix_3d", off: 14, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved3", acc: "reserved3", off: 15, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "ack_aiding", acc: "ack_aiding", off: 17, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "wkn_rollover", acc: "wkn_rollover", off: 18, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sig_atten_comp_mode", acc: "sig_atten_comp_mode", off: 20, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved4", acc: "reserved4", off: 21, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved5", acc: "reserved5", off: 22, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "reserved6", acc: "reserved6", off: 24, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "use_ppp", acc: "use_ppp", off: 26, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "aop_cfg", acc: "aop_cfg", off: 27, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved7", acc: "reserved7", off: 28, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "aop_orb_max_err", acc: "aop_orb_max_err", off: 30, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved8", acc: "reserved8", off: 32, size: 4, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "reserved9", acc: "reserved9", off: 36, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "use_adr", acc: "use_adr", off: 39, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "MgaAck", class: 0x13, id: 0x60, recv: true, send: false, fixed: Some(8), max: 8, default: false, dispatch: Some(14), fields: &[
        Fd { name: "ack_type", acc: "ack_type", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "info_code", acc: "info_code", off: 2, size: 1, kind: Kind::U, map: Map::Enum(12), may_fail: false },
        Fd { name: "msg_id", acc: "msg_id", off: 3, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "msg_payload_start", acc: "msg_payload_start", off: 4, size: 4, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "MgaGloEph", class: 0x13, id: 0x06, recv: true, send: false, fixed: Some(48), max: 48, default: false, dispatch: Some(17), fields: &[
        Fd { name: "msg_type", acc: "msg_type", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sv_id", acc: "sv_id", off: 2, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 3, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "ft", acc: "ft", off: 4, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "b", acc: "b", off: 5, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "m", acc: "m", off: 6, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "h", acc: "h", off: 7, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "x", acc: "x", off: 8, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "y", acc: "y", off: 12, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "z", acc: "z", off: 16, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "dx", acc: "dx", off: 20, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "dy", acc: "dy", off: 24, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "dz", acc: "dz", off: 28, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "ddx", acc: "ddx", off: 32, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "ddy", acc: "ddy", off: 33, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "ddz", acc: "ddz", off: 34, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "tb", acc: "tb", off: 35, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "gamma", acc: "gamma", off: 36, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "e", acc: "e", off: 38, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "delta_tau", acc: "delta_tau", off: 39, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tau", acc: "tau", off: 40, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 44, size: 4, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "MgaGpsIono", class: 0x13, id: 0x00, recv: true, send: false, fixed: Some(16), max: 16, default: false, dispatch: Some(15), fields: &[
        Fd { name: "msg_type", acc: "msg_type", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 2, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "alpha0", acc: "alpha0", off: 4, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "alpha1", acc: "alpha1", off: 5, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "alpha2", acc: "alpha2", off: 6, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "alpha3", acc: "alpha3", off: 7, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "beta0", acc: "beta0", off: 8, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "beta1", acc: "beta1", off: 9, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "beta2", acc: "beta2", off: 10, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "beta3", acc: "beta3", off: 11, size: 1, kind: Kind::I, map: Map::Scale { s: 1.0, single: false }, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 12, size: 4, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "MgaGpsEph", class: 0x13, id: 0x00, recv: true, send: false, fixed: Some(68), max: 68, default: false, dispatch: Some(16), fields: &[
        Fd { name: "msg_type", acc: "msg_type", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sv_id", acc: "sv_id", off: 2, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 3, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "fit_interval", acc: "fit_interval", off: 4, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "ura_index", acc: "ura_index", off: 5, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sv_health", acc: "sv_health", off: 6, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tgd", acc: "tgd", off: 7, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "iodc", acc: "iodc", off: 8, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "toc", acc: "toc", off: 10, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 12, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "af2", acc: "af2", off: 13, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "af1", acc: "af1", off: 14, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "af0", acc: "af0", off: 16, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "crs", acc: "crs", off: 20, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "delta_n", acc: "delta_n", off: 22, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "m0", acc: "m0", off: 24, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "cuc", acc: "cuc", off: 28, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "cus", acc: "cus", off: 30, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "e", acc: "e", off: 32, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sqrt_a", acc: "sqrt_a", off: 36, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "toe", acc: "toe", off: 40, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "cic", acc: "cic", off: 42, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "omega0", acc: "omega0", off: 44, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "cis", acc: "cis", off: 48, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "crc", acc: "crc", off: 50, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "i0", acc: "i0", off: 52, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "omega", acc: "omega", off: 56, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "omega_dot", acc: "omega_dot", off: 60, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "idot", acc: "idot", off: 64, size: 2, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "reserved3", acc: "reserved3", off: 66, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "TimTp", class: 0x0d, id: 0x01, recv: true, send: false, fixed: Some(16), max: 16, default: false, dispatch: Some(36), fields: &[
        Fd { name: "tow_ms", acc: "tow_ms", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tow_sub_ms", acc: "tow_sub_ms", off: 4, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "q_err", acc: "q_err", off: 8, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "week", acc: "week", off: 12, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 14, size: 1, kind: Kind::U, map: Map::Other("TimTpFlags"), may_fail: false },
        Fd { name: "ref_info", acc: "ref_info", off: 15, size: 1, kind: Kind::U, map: Map::Other("TimTpRefInfo"), may_fail: false },
    ] },
    Pk { name: "TimTm2", class: 0x0d, id: 0x03, recv: true, send: false, fixed: Some(28), max: 28, default: false, dispatch: Some(37), fields: &[
        Fd { name: "ch", acc: "ch", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 1, size: 1, kind: Kind::U, map: Map::Other("TimTm2Flags"), may_fail: true },
        Fd { name: "count", acc: "count", off: 2, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "wn_r", acc: "wn_r", off: 4, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "wn_f", acc: "wn_f", off: 6, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tow_ms_r", acc: "tow_ms_r", off: 8, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tow_sub_ms_r", acc: "tow_sub_ms_r", off: 12, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tow_ms_f", acc: "tow_ms_f", off: 16, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tow_sub_ms_f", acc: "tow_sub_ms_f", off: 20, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "acc_est", acc: "acc_est", off: 24, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "RxmRawx", class: 0x02, id: 0x15, recv: true, send: false, fixed: None, max: 8176, default: false, dispatch: Some(35), fields: &[
        Fd { name: "rcv_tow", acc: "rcv_tow", off: 0, size: 8, kind: Kind::F, map: Map::None, may_fail: false },
        Fd { name: "week", acc: "week", off: 8, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "leap_s", acc: "leap_s", off: 10, size: 1, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "num_meas", acc: "num_meas", off: 11, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "rec_stat", acc: "rec_stat", off: 12, size: 1, kind: Kind::U, map: Map::Flags(20), may_fail: false },
        Fd { name: "version", acc: "version", off: 13, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 14, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "measurements", acc: "measurements", off: 16, size: 0, kind: Kind::Var, map: Map::Other("RxmRawxInfoIter"), may_fail: true },
    ] },
    Pk { name: "MonHw", class: 0x0a, id: 0x09, recv: true, send: false, fixed: Some(60), max: 60, default: false, dispatch: Some(40), fields: &[
        Fd { name: "pin_sel", acc: "pin_sel", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "pin_bank", acc: "pin_bank", off: 4, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "pin_dir", acc: "pin_dir", off: 8, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "pin_val", acc: "pin_val", off: 12, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "noise_per_ms", acc: "noise_per_ms", off: 16, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "agc_cnt", acc: "agc_cnt", off: 18, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "a_status", acc: "a_status", off: 20, size: 1, kind: Kind::U, map: Map::Enum(13), may_fail: false },
        Fd { name: "a_power", acc: "a_power", off: 21, size: 1, kind: Kind::U, map: Map::Enum(14), may_fail: false },
        Fd { name: "flags", acc: "flags", off: 22, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 23, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "used_mask", acc: "used_mask", off: 24, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "vp", acc: "vp", off: 28, size: 17, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "jam_ind", acc: "jam_ind", off: 45, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 46, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "pin_irq", acc: "pin_irq", off: 48, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "pull_h", acc: "pull_h", off: 52, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "pull_l", acc: "pull_l", off: 56, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "MonGnss", class: 0x0a, id: 0x28, recv: true, send: false, fixed: Some(8), max: 8, default: false, dispatch: Some(39), fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "supported", acc: "supported", off: 1, size: 1, kind: Kind::U, map: Map::Flags(21), may_fail: false },
        Fd { name: "default", acc: "default", off: 2, size: 1, kind: Kind::U, map: Map::Flags(21), may_fail: false },
        Fd { name: "enabled", acc: "enabled", off: 3, size: 1, kind: Kind::U, map: Map::Flags(21), may_fail: false },
        Fd { name: "simultaneous", acc: "simultaneous", off: 4, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 5, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "MonVer", class: 0x0a, id: 0x04, recv: true, send: false, fixed: None, max: 1240, default: false, dispatch: Some(38), fields: &[
        Fd { name: "software_version", acc: "software_version", off: 0, size: 30, kind: Kind::Arr, map: Map::Other("&str"), may_fail: true },
        Fd { name: "hardware_version", acc: "hardware_version", off: 30, size: 10, kind: Kind::Arr, map: Map::Other("&str"), may_fail: true },
        Fd { name: "extension", acc: "extension", off: 40, size: 0, kind: Kind::Var, map: Map::Other("MonVerExtensionIter"), may_fail: true },
    ] },
    Pk { name: "RxmRtcm", class: 0x02, id: 0x32, recv: true, send: false, fixed: Some(8), max: 8, default: false, dispatch: Some(41), fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sub_type", acc: "sub_type", off: 2, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "ref_station", acc: "ref_station", off: 4, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "msg_type", acc: "msg_type", off: 6, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "EsfMeas", class: 0x10, id: 0x02, recv: true, send: false, fixed: None, max: 1240, default: false, dispatch: Some(42), fields: &[
        Fd { name: "time_tag", acc: "time_tag", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "flags", acc: "flags", off: 4, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "id", acc: "id", off: 6, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "data", acc: "data", off: 8, size: 0, kind: Kind::Var, map: Map::Other("EsfMeasDataIter"), may_fail: true },
        Fd { name: "calib_tag", acc: "calib_tag", off: 8, size: 0, kind: Kind::Var, map: Map::Other("Option<u32>"), may_fail: false },
    ] },
    Pk { name: "EsfRaw", class: 0x10, id: 0x03, recv: true, send: false, fixed: None, max: 1240, default: false, dispatch: Some(52), fields: &[
        Fd { name: "msss", acc: "msss", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "data", acc: "data", off: 4, size: 0, kind: Kind::Var, map: Map::Other("EsfRawDataIter"), may_fail: true },
    ] },
    Pk { name: "EsfIns", class: 0x10, id: 0x15, recv: true, send: false, fixed: Some(36), max: 36, default: false, dispatch: Some(43), fields: &[
        Fd { name: "bit_field", acc: "bit_field", off: 0, size: 4, kind: Kind::U, map: Map::Flags(22), may_fail: false },
        Fd { name: "reserved", acc: "reserved", off: 4, size: 4, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "itow", acc: "itow", off: 8, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "x_ang_rate", acc: "x_angular_rate", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "y_ang_rate", acc: "y_angular_rate", off: 16, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "z_ang_rate", acc: "z_angular_rate", off: 20, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "x_accel", acc: "x_acceleration", off: 24, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "y_accel", acc: "y_acceleration", off: 28, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "z_accel", acc: "z_acceleration", off: 32, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
    ] },
    Pk { name: "HnrAtt", class: 0x28, id: 0x01, recv: true, send: false, fixed: Some(32), max: 32, default: false, dispatch: Some(44), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 4, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 5, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "roll", acc: "vehicle_roll", off: 8, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "pitch", acc: "vehicle_pitch", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "heading", acc: "vehicle_heading", off: 16, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "acc_roll", acc: "vehicle_roll_accuracy", off: 20, size: 4, kind: Kind::U, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "acc_pitch", acc: "vehicle_pitch_accuracy", off: 24, size: 4, kind: Kind::U, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "acc_heading", acc: "vehicle_heading_accuracy", off: 28, size: 4, kind: Kind::U, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
    ] },
    Pk { name: "HnrIns", class: 0x28, id: 0x02, recv: true, send: false, fixed: Some(36), max: 36, default: false, dispatch: Some(45), fields: &[
        Fd { name: "bit_field", acc: "bit_field", off: 0, size: 4, kind: Kind::U, map: Map::Flags(23), may_fail: false },
        Fd { name: "reserved", acc: "reserved", off: 4, size: 4, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "itow", acc: "itow", off: 8, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "x_ang_rate", acc: "x_angular_rate", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "y_ang_rate", acc: "y_angular_rate", off: 16, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "z_ang_rate", acc: "z_angular_rate", off: 20, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "x_accel", acc: "x_acceleration", off: 24, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "y_accel", acc: "y_acceleration", off: 28, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
        Fd { name: "z_accel", acc: "z_acceleration", off: 32, size: 4, kind: Kind::I, map: Map::Scale { s: 0.01, single: false }, may_fail: false },
    ] },
    Pk { name: "HnrPvt", class: 0x28, id: 0x00, recv: true, send: false, fixed: Some(72), max: 72, default: false, dispatch: Some(46), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "year", acc: "year", off: 4, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "month", acc: "month", off: 6, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "day", acc: "day", off: 7, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "hour", acc: "hour", off: 8, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "min", acc: "min", off: 9, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sec", acc: "sec", off: 10, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "valid", acc: "valid", off: 11, size: 1, kind: Kind::U, map: Map::Flags(25), may_fail: false },
        Fd { name: "nano", acc: "nano", off: 12, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "gps_fix", acc: "gps_fix", off: 16, size: 1, kind: Kind::U, map: Map::Enum(0), may_fail: false },
        Fd { name: "flags", acc: "flags", off: 17, size: 1, kind: Kind::U, map: Map::Flags(24), may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 18, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "lon", acc: "longitude", off: 20, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-07, single: false }, may_fail: false },
        Fd { name: "lat", acc: "latitude", off: 24, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-07, single: false }, may_fail: false },
        Fd { name: "height", acc: "height_above_ellipsoid", off: 28, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "height_msl", acc: "height_msl", off: 32, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "g_speed", acc: "ground_speed_2d", off: 36, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "speed", acc: "speed_3d", off: 40, size: 4, kind: Kind::I, map: Map::Scale { s: 0.001, single: false }, may_fail: false },
        Fd { name: "head_mot", acc: "heading_motion", off: 44, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "head_veh", acc: "heading_vehicle", off: 48, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "h_acc", acc: "h_acc", off: 52, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "v_acc", acc: "v_acc", off: 56, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "s_acc", acc: "s_acc", off: 60, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "head_acc", acc: "heading_accurracy", off: 64, size: 4, kind: Kind::U, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 68, size: 4, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "NavAtt", class: 0x01, id: 0x05, recv: true, send: false, fixed: Some(32), max: 32, default: false, dispatch: Some(47), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 4, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 5, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "roll", acc: "vehicle_roll", off: 8, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "pitch", acc: "vehicle_pitch", off: 12, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "heading", acc: "vehicle_heading", off: 16, size: 4, kind: Kind::I, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "acc_roll", acc: "vehicle_roll_accuracy", off: 20, size: 4, kind: Kind::U, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "acc_pitch", acc: "vehicle_pitch_accuracy", off: 24, size: 4, kind: Kind::U, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
        Fd { name: "acc_heading", acc: "vehicle_heading_accuracy", off: 28, size: 4, kind: Kind::U, map: Map::Scale { s: 1e-05, single: false }, may_fail: false },
    ] },
    Pk { name: "NavClock", class: 0x01, id: 0x22, recv: true, send: false, fixed: Some(20), max: 20, default: false, dispatch: Some(48), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "clk_b", acc: "clk_b", off: 4, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "clk_d", acc: "clk_d", off: 8, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "t_acc", acc: "t_acc", off: 12, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "f_acc", acc: "f_acc", off: 16, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "RxmSfrbx", class: 0x02, id: 0x13, recv: true, send: false, fixed: None, max: 72, default: false, dispatch: Some(51), fields: &[
        Fd { name: "gnss_id", acc: "gnss_id", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sv_id", acc: "sv_id", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 2, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "freq_id", acc: "freq_id", off: 3, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "num_words", acc: "num_words", off: 4, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 5, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 6, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved3", acc: "reserved3", off: 7, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "dwrd", acc: "dwrd", off: 8, size: 0, kind: Kind::Var, map: Map::Other("DwrdIter"), may_fail: true },
    ] },
    Pk { name: "NavVelECEF", class: 0x01, id: 0x11, recv: true, send: false, fixed: Some(20), max: 20, default: false, dispatch: Some(49), fields: &[
        Fd { name: "itow", acc: "itow", off: 0, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "ecef_vx", acc: "ecef_vx", off: 4, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "ecef_vy", acc: "ecef_vy", off: 8, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "ecef_vz", acc: "ecef_vz", off: 12, size: 4, kind: Kind::I, map: Map::None, may_fail: false },
        Fd { name: "s_acc", acc: "s_acc", off: 16, size: 4, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "MgaGpsEPH", class: 0x13, id: 0x00, recv: true, send: false, fixed: Some(68), max: 68, default: false, dispatch: Some(50), fields: &[
        Fd { name: "msg_type", acc: "msg_type", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "version", acc: "version", off: 1, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sv_id", acc: "sv_id", off: 2, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 3, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "fit_interval", acc: "fit_interval", off: 4, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "ura_index", acc: "ura_index", off: 5, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sv_health", acc: "sv_health", off: 6, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "tgd", acc: "tgd", off: 7, size: 1, kind: Kind::I, map: Map::Scale { s: 2e-31, single: false }, may_fail: false },
        Fd { name: "iodc", acc: "iodc", off: 8, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "toc", acc: "toc", off: 10, size: 2, kind: Kind::U, map: Map::Scale { s: 20000.0, single: false }, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 12, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "af2", acc: "af2", off: 13, size: 1, kind: Kind::I, map: Map::Scale { s: 2e-55, single: false }, may_fail: false },
        Fd { name: "afl", acc: "afl", off: 14, size: 2, kind: Kind::I, map: Map::Scale { s: 2e-43, single: false }, may_fail: false },
        Fd { name: "af0", acc: "af0", off: 16, size: 4, kind: Kind::I, map: Map::Scale { s: 2e-31, single: false }, may_fail: false },
        Fd { name: "crs", acc: "crs", off: 20, size: 2, kind: Kind::I, map: Map::Scale { s: 2e-05, single: false }, may_fail: false },
        Fd { name: "delta_n", acc: "delta_n", off: 22, size: 2, kind: Kind::I, map: Map::Scale { s: 2e-43, single: false }, may_fail: false },
        Fd { name: "m0", acc: "m0", off: 24, size: 4, kind: Kind::I, map: Map::Scale { s: 2e-31, single: false }, may_fail: false },
        Fd { name: "cuc", acc: "cuc", off: 28, size: 2, kind: Kind::I, map: Map::Scale { s: 2e-29, single: false }, may_fail: false },
        Fd { name: "cus", acc: "cus", off: 30, size: 2, kind: Kind::I, map: Map::Scale { s: 2e-29, single: false }, may_fail: false },
        Fd { name: "e", acc: "e", off: 32, size: 4, kind: Kind::U, map: Map::Scale { s: 2e-33, single: false }, may_fail: false },
        Fd { name: "sqrt_a", acc: "sqrt_a", off: 36, size: 4, kind: Kind::U, map: Map::Scale { s: 2e-19, single: false }, may_fail: false },
        Fd { name: "toe", acc: "toe", off: 40, size: 2, kind: Kind::U, map: Map::Scale { s: 20000.0, single: false }, may_fail: false },
        Fd { name: "cic", acc: "cic", off: 42, size: 2, kind: Kind::I, map: Map::Scale { s: 2e-29, single: false }, may_fail: false },
        Fd { name: "omega0", acc: "omega0", off: 44, size: 4, kind: Kind::I, map: Map::Scale { s: 2e-31, single: false }, may_fail: false },
        Fd { name: "cis", acc: "cis", off: 48, size: 2, kind: Kind::I, map: Map::Scale { s: 2e-29, single: false }, may_fail: false },
        Fd { name: "crc", acc: "crc", off: 50, size: 2, kind: Kind::I, map: Map::Scale { s: 2e-05, single: false }, may_fail: false },
        Fd { name: "i0", acc: "i0", off: 52, size: 4, kind: Kind::I, map: Map::Scale { s: 2e-31, single: false }, may_fail: false },
        Fd { name: "omega", acc: "omega", off: 56, size: 4, kind: Kind::I, map: Map::Scale { s: 2e-31, single: false }, may_fail: false },
        Fd { name: "omega_dot", acc: "omega_dot", off: 60, size: 4, kind: Kind::I, map: Map::Scale { s: 2e-43, single: false }, may_fail: false },
        Fd { name: "idot", acc: "idot", off: 64, size: 2, kind: Kind::I, map: Map::Scale { s: 2e-43, single: false }, may_fail: false },
        Fd { name: "reserved3", acc: "reserved3", off: 66, size: 2, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
    Pk { name: "RxmRawxInfo", class: 0x02, id: 0x15, recv: true, send: false, fixed: Some(32), max: 32, default: false, dispatch: None, fields: &[
        Fd { name: "pr_mes", acc: "pr_mes", off: 0, size: 8, kind: Kind::F, map: Map::None, may_fail: false },
        Fd { name: "cp_mes", acc: "cp_mes", off: 8, size: 8, kind: Kind::F, map: Map::None, may_fail: false },
        Fd { name: "do_mes", acc: "do_mes", off: 16, size: 4, kind: Kind::F, map: Map::None, may_fail: false },
        Fd { name: "gnss_id", acc: "gnss_id", off: 20, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "sv_id", acc: "sv_id", off: 21, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved2", acc: "reserved2", off: 22, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "freq_id", acc: "freq_id", off: 23, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "lock_time", acc: "lock_time", off: 24, size: 2, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "cno", acc: "cno", off: 26, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "pr_stdev", acc: "pr_stdev", off: 27, size: 1, kind: Kind::U, map: Map::Flags(26), may_fail: false },
        Fd { name: "cp_stdev", acc: "cp_stdev", off: 28, size: 1, kind: Kind::U, map: Map::Flags(26), may_fail: false },
        Fd { name: "do_stdev", acc: "do_stdev", off: 29, size: 1, kind: Kind::U, map: Map::Flags(26), may_fail: false },
        Fd { name: "trk_stat", acc: "trk_stat", off: 30, size: 1, kind: Kind::U, map: Map::Flags(27), may_fail: false },
        Fd { name: "reserved3", acc: "reserved3", off: 31, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
    ] },
    Pk { name: "SecUniqId", class: 0x27, id: 0x03, recv: true, send: false, fixed: Some(9), max: 9, default: false, dispatch: Some(54), fields: &[
        Fd { name: "version", acc: "version", off: 0, size: 1, kind: Kind::U, map: Map::None, may_fail: false },
        Fd { name: "reserved1", acc: "reserved1", off: 1, size: 3, kind: Kind::Arr, map: Map::None, may_fail: false },
        Fd { name: "unique_id", acc: "unique_id", off: 4, size: 5, kind: Kind::Arr, map: Map::None, may_fail: false },
    ] },
];
pub const PK_NavPosLlh: usize = 0;
pub const PK_NavVelNed: usize = 1;
pub const PK_NavHpPosLlh: usize = 2;
pub const PK_NavHpPosEcef: usize = 3;
pub const PK_NavPvt: usize = 4;
pub const PK_NavStatus: usize = 5;
pub const PK_NavDop: usize = 6;
pub const PK_NavEoe: usize = 7;
pub const PK_NavSolution: usize = 8;
pub const PK_NavSatSvInfo: usize = 9;
pub const PK_NavSat: usize = 10;
pub const PK_NavOdo: usize = 11;
pub const PK_NavResetOdo: usize = 12;
pub const PK_CfgOdo: usize = 13;
pub const PK_CfgItfm: usize = 14;
pub const PK_CfgInf: usize = 15;
pub const PK_InfError: usize = 16;
pub const PK_InfNotice: usize = 17;
pub const PK_InfTest: usize = 18;
pub const PK_InfWarning: usize = 19;
pub const PK_InfDebug: usize = 20;
pub const PK_AidIni: usize = 21;
pub const PK_AlpSrv: usize = 22;
pub const PK_AckAck: usize = 23;
pub const PK_AckNak: usize = 24;
pub const PK_CfgRst: usize = 25;
pub const PK_CfgAnt: usize = 26;
pub const PK_CfgTp5: usize = 27;
pub const PK_CfgTmode2: usize = 28;
pub const PK_TimSvin: usize = 29;
pub const PK_NavTimeLs: usize = 30;
pub const PK_CfgTmode3: usize = 31;
pub const PK_CfgValSet: usize = 32;
pub const PK_CfgPrtI2c: usize = 33;
pub const PK_CfgPrtUart: usize = 34;
pub const PK_CfgPrtSpi: usize = 35;
pub const PK_NavTimeUTC: usize = 36;
pub const PK_CfgRate: usize = 37;
pub const PK_CfgMsgSinglePort: usize = 38;
pub const PK_CfgMsgAllPorts: usize = 39;
pub const PK_CfgNav5: usize = 40;
pub const PK_CfgNavX5: usize = 41;
pub const PK_MgaAck: usize = 42;
pub const PK_MgaGloEph: usize = 43;
pub const PK_MgaGpsIono: usize = 44;
pub const PK_MgaGpsEph: usize = 45;
pub const PK_TimTp: usize = 46;
pub const PK_TimTm2: usize = 47;
pub const PK_RxmRawx: usize = 48;
pub const PK_MonHw: usize = 49;
pub const PK_MonGnss: usize = 50;
pub const PK_MonVer: usize = 51;
pub const PK_RxmRtcm: usize = 52;
pub const PK_EsfMeas: usize = 53;
pub const PK_EsfRaw: usize = 54;
pub const PK_EsfIns: usize = 55;
pub const PK_HnrAtt: usize = 56;
pub const PK_HnrIns: usize = 57;
pub const PK_HnrPvt: usize = 58;
pub const PK_NavAtt: usize = 59;
pub const PK_NavClock: usize = 60;
pub const PK_RxmSfrbx: usize = 61;
pub const PK_NavVelECEF: usize = 62;
pub const PK_MgaGpsEPH: usize = 63;
pub const PK_RxmRawxInfo: usize = 64;
pub const PK_SecUniqId: usize = 65;
impl ObsA for &Wrap<GpsFix> {
    fn obs(&self) -> Val { Val::E(match self.0 { GpsFix::NoFix => "NoFix", GpsFix::DeadReckoningOnly => "DeadReckoningOnly", GpsFix::Fix2D => "Fix2D", GpsFix::Fix3D => "Fix3D", GpsFix::GPSPlusDeadReckoning => "GPSPlusDeadReckoning", GpsFix::TimeOnlyFix => "TimeOnlyFix", _ => "reserved" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<OdoProfile> {
    fn obs(&self) -> Val { Val::E(match self.0 { OdoProfile::Running => "Running", OdoProfile::Cycling => "Cycling", OdoProfile::Swimming => "Swimming", OdoProfile::Car => "Car", OdoProfile::Custom => "Custom", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<CfgItfmAntennaSettings> {
    fn obs(&self) -> Val { Val::E(match self.0 { CfgItfmAntennaSettings::Unknown => "Unknown", CfgItfmAntennaSettings::Active => "Active", CfgItfmAntennaSettings::Passive => "Passive", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<CfgTp5TimePulseMode> {
    fn obs(&self) -> Val { Val::E(match self.0 { CfgTp5TimePulseMode::TimePulse => "TimePulse", CfgTp5TimePulseMode::TimePulse2 => "TimePulse2", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<CfgTmode2TimeXferModes> {
    fn obs(&self) -> Val { Val::E(match self.0 { CfgTmode2TimeXferModes::Disabled => "Disabled", CfgTmode2TimeXferModes::SurveyIn => "SurveyIn", CfgTmode2TimeXferModes::FixedMode => "FixedMode", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<I2cPortId> {
    fn obs(&self) -> Val { Val::E(match self.0 { I2cPortId::I2c => "I2c", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<UartPortId> {
    fn obs(&self) -> Val { Val::E(match self.0 { UartPortId::Uart1 => "Uart1", UartPortId::Uart2 => "Uart2", UartPortId::Usb => "Usb", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<SpiPortId> {
    fn obs(&self) -> Val { Val::E(match self.0 { SpiPortId::Spi => "Spi", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<CfgNav5DynModel> {
    fn obs(&self) -> Val { Val::E(match self.0 { CfgNav5DynModel::Portable => "Portable", CfgNav5DynModel::Stationary => "Stationary", CfgNav5DynModel::Pedestrian => "Pedestrian", CfgNav5DynModel::Automotive => "Automotive", CfgNav5DynModel::Sea => "Sea", CfgNav5DynModel::AirborneWithLess1gAcceleration => "AirborneWithLess1gAcceleration", CfgNav5DynModel::AirborneWithLess2gAcceleration => "AirborneWithLess2gAcceleration", CfgNav5DynModel::AirborneWith4gAcceleration => "AirborneWith4gAcceleration", CfgNav5DynModel::WristWornWatch => "WristWornWatch", CfgNav5DynModel::Bike => "Bike", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<CfgNav5FixMode> {
    fn obs(&self) -> Val { Val::E(match self.0 { CfgNav5FixMode::Only2D => "Only2D", CfgNav5FixMode::Only3D => "Only3D", CfgNav5FixMode::Auto2D3D => "Auto2D3D", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<CfgNav5UtcStandard> {
    fn obs(&self) -> Val { Val::E(match self.0 { CfgNav5UtcStandard::Automatic => "Automatic", CfgNav5UtcStandard::Usno => "Usno", CfgNav5UtcStandard::UtcSu => "UtcSu", CfgNav5UtcStandard::UtcChina => "UtcChina", #[allow(unreachable_patterns)] _ => "no variant of the table" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<MsgAckInfoCode> {
    fn obs(&self) -> Val { Val::E(match self.0 { MsgAckInfoCode::Accepted => "Accepted", MsgAckInfoCode::RejectedNoTime => "RejectedNoTime", MsgAckInfoCode::RejectedBadVersion => "RejectedBadVersion", MsgAckInfoCode::RejectedBadSize => "RejectedBadSize", MsgAckInfoCode::RejectedDBStoreFailed => "RejectedDBStoreFailed", MsgAckInfoCode::RejectedNotReady => "RejectedNotReady", MsgAckInfoCode::RejectedUnknownType => "RejectedUnknownType", _ => "reserved" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<AntennaStatus> {
    fn obs(&self) -> Val { Val::E(match self.0 { AntennaStatus::Init => "Init", AntennaStatus::DontKnow => "DontKnow", AntennaStatus::Ok => "Ok", AntennaStatus::Short => "Short", AntennaStatus::Open => "Open", _ => "reserved" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<AntennaPower> {
    fn obs(&self) -> Val { Val::E(match self.0 { AntennaPower::Off => "Off", AntennaPower::On => "On", AntennaPower::DontKnow => "DontKnow", _ => "reserved" }, Some(self.0 as u8 as u64)) }
}
impl ObsA for &Wrap<NavHpPosEcefFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<NavPvtFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<NavPvtFlags2> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<NavStatusFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<OdoCogFilterFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<CfgInfMask> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<AntFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<CfgTmode2Flags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<NavTimeLsFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<CfgTmode3RcvrMode> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<CfgTp5Flags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<CfgTmode3Flags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<NavBbrMask> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<CfgLayer> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<InProtoMask> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<OutProtoMask> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<NavTimeUtcFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<CfgNav5Params> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<CfgNavX5Params1> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<CfgNavX5Params2> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<RecStatFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<MonGnssConstellMask> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<EsfInsBitFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<HnrInsBitFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<HnrPvtFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<HnrPvtValidFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<StdevFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
impl ObsA for &Wrap<TrkStatFlags> { fn obs(&self) -> Val { Val::Bits(self.0.bits() as u64) } }
pub fn obs_NavPosLlh(r: &NavPosLlhRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.lon_degrees())).obs());
    s(1, true, (&&Wrap(r.lon_degrees_raw())).obs());
    s(2, false, (&&Wrap(r.lat_degrees())).obs());
    s(2, true, (&&Wrap(r.lat_degrees_raw())).obs());
    s(3, false, (&&Wrap(r.height_meters())).obs());
    s(3, true, (&&Wrap(r.height_meters_raw())).obs());
    s(4, false, (&&Wrap(r.height_msl())).obs());
    s(4, true, (&&Wrap(r.height_msl_raw())).obs());
    s(5, false, (&&Wrap(r.h_ack())).obs());
    s(5, true, (&&Wrap(r.h_ack_raw())).obs());
    s(6, false, (&&Wrap(r.v_acc())).obs());
    s(6, true, (&&Wrap(r.v_acc_raw())).obs());
}
pub fn obs_NavVelNed(r: &NavVelNedRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.vel_north())).obs());
    s(1, true, (&&Wrap(r.vel_north_raw())).obs());
    s(2, false, (&&Wrap(r.vel_east())).obs());
    s(2, true, (&&Wrap(r.vel_east_raw())).obs());
    s(3, false, (&&Wrap(r.vel_down())).obs());
    s(3, true, (&&Wrap(r.vel_down_raw())).obs());
    s(4, false, (&&Wrap(r.speed_3d())).obs());
    s(4, true, (&&Wrap(r.speed_3d_raw())).obs());
    s(5, false, (&&Wrap(r.ground_speed())).obs());
    s(5, true, (&&Wrap(r.ground_speed_raw())).obs());
    s(6, false, (&&Wrap(r.heading_degrees())).obs());
    s(6, true, (&&Wrap(r.heading_degrees_raw())).obs());
    s(7, false, (&&Wrap(r.speed_accuracy_estimate())).obs());
    s(7, true, (&&Wrap(r.speed_accuracy_estimate_raw())).obs());
    s(8, false, (&&Wrap(r.course_heading_accuracy_estimate())).obs());
    s(8, true, (&&Wrap(r.course_heading_accuracy_estimate_raw())).obs());
}
pub fn obs_NavHpPosLlh(r: &NavHpPosLlhRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.version())).obs());
    s(1, false, (&&Wrap(r.reserved1())).obs());
    s(2, false, (&&Wrap(r.itow())).obs());
    s(3, false, (&&Wrap(r.lon_degrees())).obs());
    s(3, true, (&&Wrap(r.lon_degrees_raw())).obs());
    s(4, false, (&&Wrap(r.lat_degrees())).obs());
    s(4, true, (&&Wrap(r.lat_degrees_raw())).obs());
    s(5, false, (&&Wrap(r.height_meters())).obs());
    s(5, true, (&&Wrap(r.height_meters_raw())).obs());
    s(6, false, (&&Wrap(r.height_msl())).obs());
    s(6, true, (&&Wrap(r.height_msl_raw())).obs());
    s(7, false, (&&Wrap(r.lon_hp_degrees())).obs());
    s(7, true, (&&Wrap(r.lon_hp_degrees_raw())).obs());
    s(8, false, (&&Wrap(r.lat_hp_degrees())).obs());
    s(8, true, (&&Wrap(r.lat_hp_degrees_raw())).obs());
    s(9, false, (&&Wrap(r.height_hp_meters())).obs());
    s(9, true, (&&Wrap(r.height_hp_meters_raw())).obs());
    s(10, false, (&&Wrap(r.height_hp_msl())).obs());
    s(10, true, (&&Wrap(r.height_hp_msl_raw())).obs());
    s(11, false, (&&Wrap(r.horizontal_accuracy())).obs());
    s(11, true, (&&Wrap(r.horizontal_accuracy_raw())).obs());
    s(12, false, (&&Wrap(r.vertical_accuracy())).obs());
    s(12, true, (&&Wrap(r.vertical_accuracy_raw())).obs());
}
pub fn obs_NavHpPosEcef(r: &NavHpPosEcefRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.version())).obs());
    s(1, false, (&&Wrap(r.reserved1())).obs());
    s(2, false, (&&Wrap(r.itow())).obs());
    s(3, false, (&&Wrap(r.ecef_x_cm())).obs());
    s(3, true, (&&Wrap(r.ecef_x_cm_raw())).obs());
    s(4, false, (&&Wrap(r.ecef_y_cm())).obs());
    s(4, true, (&&Wrap(r.ecef_y_cm_raw())).obs());
    s(5, false, (&&Wrap(r.ecef_z_cm())).obs());
    s(5, true, (&&Wrap(r.ecef_z_cm_raw())).obs());
    s(6, false, (&&Wrap(r.ecef_x_hp_mm())).obs());
    s(6, true, (&&Wrap(r.ecef_x_hp_mm_raw())).obs());
    s(7, false, (&&Wrap(r.ecef_y_hp_mm())).obs());
    s(7, true, (&&Wrap(r.ecef_y_hp_mm_raw())).obs());
    s(8, false, (&&Wrap(r.ecef_z_hp_mm())).obs());
    s(8, true, (&&Wrap(r.ecef_z_hp_mm_raw())).obs());
    s(9, false, (&&Wrap(r.flags())).obs());
    s(9, true, (&&Wrap(r.flags_raw())).obs());
    s(10, false, (&&Wrap(r.p_acc())).obs());
    s(10, true, (&&Wrap(r.p_acc_raw())).obs());
}
pub fn obs_NavPvt(r: &NavPvtRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.year())).obs());
    s(2, false, (&&Wrap(r.month())).obs());
    s(3, false, (&&Wrap(r.day())).obs());
    s(4, false, (&&Wrap(r.hour())).obs());
    s(5, false, (&&Wrap(r.min())).obs());
    s(6, false, (&&Wrap(r.sec())).obs());
    s(7, false, (&&Wrap(r.valid())).obs());
    s(8, false, (&&Wrap(r.time_accuracy())).obs());
    s(9, false, (&&Wrap(r.nanosecond())).obs());
    s(10, false, (&&Wrap(r.fix_type())).obs());
    s(10, true, (&&Wrap(r.fix_type_raw())).obs());
    s(11, false, (&&Wrap(r.flags())).obs());
    s(11, true, (&&Wrap(r.flags_raw())).obs());
    s(12, false, (&&Wrap(r.flags2())).obs());
    s(12, true, (&&Wrap(r.flags2_raw())).obs());
    s(13, false, (&&Wrap(r.num_satellites())).obs());
    s(14, false, (&&Wrap(r.lon_degrees())).obs());
    s(14, true, (&&Wrap(r.lon_degrees_raw())).obs());
    s(15, false, (&&Wrap(r.lat_degrees())).obs());
    s(15, true, (&&Wrap(r.lat_degrees_raw())).obs());
    s(16, false, (&&Wrap(r.height_meters())).obs());
    s(16, true, (&&Wrap(r.height_meters_raw())).obs());
    s(17, false, (&&Wrap(r.height_msl())).obs());
    s(17, true, (&&Wrap(r.height_msl_raw())).obs());
    s(18, false, (&&Wrap(r.horiz_accuracy())).obs());
    s(19, false, (&&Wrap(r.vert_accuracy())).obs());
    s(20, false, (&&Wrap(r.vel_north())).obs());
    s(20, true, (&&Wrap(r.vel_north_raw())).obs());
    s(21, false, (&&Wrap(r.vel_east())).obs());
    s(21, true, (&&Wrap(r.vel_east_raw())).obs());
    s(22, false, (&&Wrap(r.vel_down())).obs());
    s(22, true, (&&Wrap(r.vel_down_raw())).obs());
    s(23, false, (&&Wrap(r.ground_speed())).obs());
    s(23, true, (&&Wrap(r.ground_speed_raw())).obs());
    s(24, false, (&&Wrap(r.heading_degrees())).obs());
    s(24, true, (&&Wrap(r.heading_degrees_raw())).obs());
    s(25, false, (&&Wrap(r.speed_accuracy_estimate())).obs());
    s(25, true, (&&Wrap(r.speed_accuracy_estimate_raw())).obs());
    s(26, false, (&&Wrap(r.heading_accuracy_estimate())).obs());
    s(26, true, (&&Wrap(r.heading_accuracy_estimate_raw())).obs());
    s(27, false, (&&Wrap(r.pdop())).obs());
    s(28, false, (&&Wrap(r.reserved1())).obs());
    s(29, false, (&&Wrap(r.heading_of_vehicle_degrees())).obs());
    s(29, true, (&&Wrap(r.heading_of_vehicle_degrees_raw())).obs());
    s(30, false, (&&Wrap(r.magnetic_declination_degrees())).obs());
    s(30, true, (&&Wrap(r.magnetic_declination_degrees_raw())).obs());
    s(31, false, (&&Wrap(r.magnetic_declination_accuracy_degrees())).obs());
    s(31, true, (&&Wrap(r.magnetic_declination_accuracy_degrees_raw())).obs());
}
pub fn obs_NavStatus(r: &NavStatusRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.fix_type())).obs());
    s(1, true, (&&Wrap(r.fix_type_raw())).obs());
    s(2, false, (&&Wrap(r.flags())).obs());
    s(2, true, (&&Wrap(r.flags_raw())).obs());
    s(3, false, (&&Wrap(r.fix_stat())).obs());
    s(3, true, (&&Wrap(r.fix_stat_raw())).obs());
    s(4, false, (&&Wrap(r.flags2())).obs());
    s(4, true, (&&Wrap(r.flags2_raw())).obs());
    s(5, false, (&&Wrap(r.time_to_first_fix())).obs());
    s(6, false, (&&Wrap(r.uptime_ms())).obs());
}
pub fn obs_NavDop(r: &NavDopRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.geometric_dop())).obs());
    s(1, true, (&&Wrap(r.geometric_dop_raw())).obs());
    s(2, false, (&&Wrap(r.position_dop())).obs());
    s(2, true, (&&Wrap(r.position_dop_raw())).obs());
    s(3, false, (&&Wrap(r.time_dop())).obs());
    s(3, true, (&&Wrap(r.time_dop_raw())).obs());
    s(4, false, (&&Wrap(r.vertical_dop())).obs());
    s(4, true, (&&Wrap(r.vertical_dop_raw())).obs());
    s(5, false, (&&Wrap(r.horizontal_dop())).obs());
    s(5, true, (&&Wrap(r.horizontal_dop_raw())).obs());
    s(6, false, (&&Wrap(r.northing_dop())).obs());
    s(6, true, (&&Wrap(r.northing_dop_raw())).obs());
    s(7, false, (&&Wrap(r.easting_dop())).obs());
    s(7, true, (&&Wrap(r.easting_dop_raw())).obs());
}
pub fn obs_NavEoe(r: &NavEoeRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
}
pub fn obs_NavSolution(r: &NavSolutionRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.ftow_ns())).obs());
    s(2, false, (&&Wrap(r.week())).obs());
    s(3, false, (&&Wrap(r.fix_type())).obs());
    s(3, true, (&&Wrap(r.fix_type_raw())).obs());
    s(4, false, (&&Wrap(r.flags())).obs());
    s(4, true, (&&Wrap(r.flags_raw())).obs());
    s(5, false, (&&Wrap(r.ecef_x())).obs());
    s(5, true, (&&Wrap(r.ecef_x_raw())).obs());
    s(6, false, (&&Wrap(r.ecef_y())).obs());
    s(6, true, (&&Wrap(r.ecef_y_raw())).obs());
    s(7, false, (&&Wrap(r.ecef_z())).obs());
    s(7, true, (&&Wrap(r.ecef_z_raw())).obs());
    s(8, false, (&&Wrap(r.position_accuracy_estimate())).obs());
    s(8, true, (&&Wrap(r.position_accuracy_estimate_raw())).obs());
    s(9, false, (&&Wrap(r.ecef_vx())).obs());
    s(9, true, (&&Wrap(r.ecef_vx_raw())).obs());
    s(10, false, (&&Wrap(r.ecef_vy())).obs());
    s(10, true, (&&Wrap(r.ecef_vy_raw())).obs());
    s(11, false, (&&Wrap(r.ecef_vz())).obs());
    s(11, true, (&&Wrap(r.ecef_vz_raw())).obs());
    s(12, false, (&&Wrap(r.speed_accuracy_estimate())).obs());
    s(12, true, (&&Wrap(r.speed_accuracy_estimate_raw())).obs());
    s(13, false, (&&Wrap(r.pdop())).obs());
    s(13, true, (&&Wrap(r.pdop_raw())).obs());
    s(14, false, (&&Wrap(r.reserved1())).obs());
    s(15, false, (&&Wrap(r.num_sv())).obs());
    s(16, false, (&&Wrap(r.reserved2())).obs());
}
pub fn obs_NavSatSvInfo(r: &NavSatSvInfoRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.gnss_id())).obs());
    s(1, false, (&&Wrap(r.sv_id())).obs());
    s(2, false, (&&Wrap(r.cno())).obs());
    s(3, false, (&&Wrap(r.elev())).obs());
    s(4, false, (&&Wrap(r.azim())).obs());
    s(5, false, (&&Wrap(r.pr_res())).obs());
    s(6, false, (&&Wrap(r.flags())).obs());
    s(6, true, (&&Wrap(r.flags_raw())).obs());
}
pub fn obs_NavSat(r: &NavSatRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.num_svs())).obs());
    s(3, false, (&&Wrap(r.reserved())).obs());
}
pub fn obs_NavOdo(r: &NavOdoRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.version())).obs());
    s(1, false, (&&Wrap(r.reserved())).obs());
    s(2, false, (&&Wrap(r.itow())).obs());
    s(3, false, (&&Wrap(r.distance())).obs());
    s(4, false, (&&Wrap(r.total_distance())).obs());
    s(5, false, (&&Wrap(r.distance_std())).obs());
}
pub fn obs_CfgOdo(r: &CfgOdoRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.version())).obs());
    s(1, false, (&&Wrap(r.reserved())).obs());
    s(2, false, (&&Wrap(r.flags())).obs());
    s(2, true, (&&Wrap(r.flags_raw())).obs());
    s(3, false, (&&Wrap(r.odo_cfg())).obs());
    s(3, true, (&&Wrap(r.odo_cfg_raw())).obs());
    s(4, false, (&&Wrap(r.reserved2())).obs());
    s(5, false, (&&Wrap(r.cog_max_speed())).obs());
    s(6, false, (&&Wrap(r.cog_max_pos_acc())).obs());
    s(7, false, (&&Wrap(r.reserved3())).obs());
    s(8, false, (&&Wrap(r.vel_lp_gain())).obs());
    s(9, false, (&&Wrap(r.cog_lp_gain())).obs());
    s(10, false, (&&Wrap(r.reserved4())).obs());
}
pub fn obs_CfgItfm(r: &CfgItfmRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.config())).obs());
    s(0, true, (&&Wrap(r.config_raw())).obs());
    s(1, false, (&&Wrap(r.config2())).obs());
    s(1, true, (&&Wrap(r.config2_raw())).obs());
}
pub fn obs_InfError(r: &InfErrorRef, s: &mut dyn FnMut(usize, bool, Val)) {
}
pub fn obs_InfNotice(r: &InfNoticeRef, s: &mut dyn FnMut(usize, bool, Val)) {
}
pub fn obs_InfTest(r: &InfTestRef, s: &mut dyn FnMut(usize, bool, Val)) {
}
pub fn obs_InfWarning(r: &InfWarningRef, s: &mut dyn FnMut(usize, bool, Val)) {
}
pub fn obs_InfDebug(r: &InfDebugRef, s: &mut dyn FnMut(usize, bool, Val)) {
}
pub fn obs_AlpSrv(r: &AlpSrvRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.id_size())).obs());
    s(1, false, (&&Wrap(r.data_type())).obs());
    s(2, false, (&&Wrap(r.offset())).obs());
    s(3, false, (&&Wrap(r.size())).obs());
    s(4, false, (&&Wrap(r.file_id())).obs());
    s(5, false, (&&Wrap(r.data_size())).obs());
    s(6, false, (&&Wrap(r.id1())).obs());
    s(7, false, (&&Wrap(r.id2())).obs());
    s(8, false, (&&Wrap(r.id3())).obs());
}
pub fn obs_AckAck(r: &AckAckRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.class())).obs());
    s(1, false, (&&Wrap(r.msg_id())).obs());
}
pub fn obs_AckNak(r: &AckNakRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.class())).obs());
    s(1, false, (&&Wrap(r.msg_id())).obs());
}
pub fn obs_CfgAnt(r: &CfgAntRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.flags())).obs());
    s(0, true, (&&Wrap(r.flags_raw())).obs());
    s(1, false, (&&Wrap(r.pins())).obs());
}
pub fn obs_CfgTp5(r: &CfgTp5Ref, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.tp_idx())).obs());
    s(0, true, (&&Wrap(r.tp_idx_raw())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.reserved1())).obs());
    s(3, false, (&&Wrap(r.ant_cable_delay())).obs());
    s(3, true, (&&Wrap(r.ant_cable_delay_raw())).obs());
    s(4, false, (&&Wrap(r.rf_group_delay())).obs());
    s(4, true, (&&Wrap(r.rf_group_delay_raw())).obs());
    s(5, false, (&&Wrap(r.freq_period())).obs());
    s(5, true, (&&Wrap(r.freq_period_raw())).obs());
    s(6, false, (&&Wrap(r.freq_period_lock())).obs());
    s(6, true, (&&Wrap(r.freq_period_lock_raw())).obs());
    s(7, false, (&&Wrap(r.pulse_len_ratio())).obs());
    s(7, true, (&&Wrap(r.pulse_len_ratio_raw())).obs());
    s(8, false, (&&Wrap(r.pulse_len_ratio_lock())).obs());
    s(8, true, (&&Wrap(r.pulse_len_ratio_lock_raw())).obs());
    s(9, false, (&&Wrap(r.user_delay())).obs());
    s(9, true, (&&Wrap(r.user_delay_raw())).obs());
    s(10, false, (&&Wrap(r.flags())).obs());
    s(10, true, (&&Wrap(r.flags_raw())).obs());
}
pub fn obs_CfgTmode2(r: &CfgTmode2Ref, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.time_transfer_mode())).obs());
    s(0, true, (&&Wrap(r.time_transfer_mode_raw())).obs());
    s(1, false, (&&Wrap(r.reserved1())).obs());
    s(2, false, (&&Wrap(r.flags())).obs());
    s(2, true, (&&Wrap(r.flags_raw())).obs());
    s(3, false, (&&Wrap(r.ecef_x_or_lat())).obs());
    s(3, true, (&&Wrap(r.ecef_x_or_lat_raw())).obs());
    s(4, false, (&&Wrap(r.ecef_y_or_lon())).obs());
    s(4, true, (&&Wrap(r.ecef_y_or_lon_raw())).obs());
    s(5, false, (&&Wrap(r.ecef_z_or_alt())).obs());
    s(5, true, (&&Wrap(r.ecef_z_or_alt_raw())).obs());
    s(6, false, (&&Wrap(r.fixed_pos_acc())).obs());
    s(6, true, (&&Wrap(r.fixed_pos_acc_raw())).obs());
    s(7, false, (&&Wrap(r.survey_in_min_duration())).obs());
    s(8, false, (&&Wrap(r.survery_in_accur_limit())).obs());
    s(8, true, (&&Wrap(r.survery_in_accur_limit_raw())).obs());
}
pub fn obs_TimSvin(r: &TimSvinRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.dur())).obs());
    s(1, false, (&&Wrap(r.mean_x())).obs());
    s(2, false, (&&Wrap(r.mean_y())).obs());
    s(3, false, (&&Wrap(r.mean_z())).obs());
    s(4, false, (&&Wrap(r.mean_v())).obs());
    s(5, false, (&&Wrap(r.obs())).obs());
    s(6, false, (&&Wrap(r.valid())).obs());
    s(7, false, (&&Wrap(r.active())).obs());
    s(8, false, (&&Wrap(r.reserved())).obs());
}
pub fn obs_NavTimeLs(r: &NavTimeLsRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.reserved_1())).obs());
    s(3, false, (&&Wrap(r.src_of_curr_ls())).obs());
    s(4, false, (&&Wrap(r.current_ls())).obs());
    s(5, false, (&&Wrap(r.src_of_ls_change())).obs());
    s(6, false, (&&Wrap(r.ls_change())).obs());
    s(7, false, (&&Wrap(r.time_to_ls_event())).obs());
    s(8, false, (&&Wrap(r.date_of_ls_gps_wn())).obs());
    s(9, false, (&&Wrap(r.date_of_ls_gps_dn())).obs());
    s(10, false, (&&Wrap(r.reserved_2())).obs());
    s(11, false, (&&Wrap(r.valid())).obs());
    s(11, true, (&&Wrap(r.valid_raw())).obs());
}
pub fn obs_CfgTmode3(r: &CfgTmode3Ref, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.version())).obs());
    s(1, false, (&&Wrap(r.reserved1())).obs());
    s(2, false, (&&Wrap(r.rcvr_mode())).obs());
    s(2, true, (&&Wrap(r.rcvr_mode_raw())).obs());
    s(3, false, (&&Wrap(r.flags())).obs());
    s(3, true, (&&Wrap(r.flags_raw())).obs());
    s(4, false, (&&Wrap(r.ecef_x_or_lat())).obs());
    s(4, true, (&&Wrap(r.ecef_x_or_lat_raw())).obs());
    s(5, false, (&&Wrap(r.ecef_y_or_lon())).obs());
    s(5, true, (&&Wrap(r.ecef_y_or_lon_raw())).obs());
    s(6, false, (&&Wrap(r.ecef_z_or_alt())).obs());
    s(6, true, (&&Wrap(r.ecef_z_or_alt_raw())).obs());
    s(7, false, (&&Wrap(r.ecef_x_or_lat_hp())).obs());
    s(7, true, (&&Wrap(r.ecef_x_or_lat_hp_raw())).obs());
    s(8, false, (&&Wrap(r.ecef_y_or_lon_hp())).obs());
    s(8, true, (&&Wrap(r.ecef_y_or_lon_hp_raw())).obs());
    s(9, false, (&&Wrap(r.ecef_z_or_alt_hp())).obs());
    s(9, true, (&&Wrap(r.ecef_z_or_alt_hp_raw())).obs());
    s(10, false, (&&Wrap(r.reserved2())).obs());
    s(11, false, (&&Wrap(r.fixed_pos_acc())).obs());
    s(11, true, (&&Wrap(r.fixed_pos_acc_raw())).obs());
    s(12, false, (&&Wrap(r.sv_in_min_duration())).obs());
    s(13, false, (&&Wrap(r.sv_in_accur_limit())).obs());
    s(13, true, (&&Wrap(r.sv_in_accur_limit_raw())).obs());
    s(14, false, (&&Wrap(r.reserved3())).obs());
}
pub fn obs_CfgPrtI2c(r: &CfgPrtI2cRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.portid())).obs());
    s(0, true, (&&Wrap(r.portid_raw())).obs());
    s(1, false, (&&Wrap(r.reserved1())).obs());
    s(2, false, (&&Wrap(r.tx_ready())).obs());
    s(3, false, (&&Wrap(r.mode())).obs());
    s(4, false, (&&Wrap(r.reserved2())).obs());
    s(5, false, (&&Wrap(r.in_proto_mask())).obs());
    s(5, true, (&&Wrap(r.in_proto_mask_raw())).obs());
    s(6, false, (&&Wrap(r.out_proto_mask())).obs());
    s(6, true, (&&Wrap(r.out_proto_mask_raw())).obs());
    s(7, false, (&&Wrap(r.flags())).obs());
    s(8, false, (&&Wrap(r.reserved3())).obs());
}
pub fn obs_CfgPrtUart(r: &CfgPrtUartRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.portid())).obs());
    s(0, true, (&&Wrap(r.portid_raw())).obs());
    s(1, false, (&&Wrap(r.reserved0())).obs());
    s(2, false, (&&Wrap(r.tx_ready())).obs());
    s(3, false, (&&Wrap(r.mode())).obs());
    s(3, true, (&&Wrap(r.mode_raw())).obs());
    s(4, false, (&&Wrap(r.baud_rate())).obs());
    s(5, false, (&&Wrap(r.in_proto_mask())).obs());
    s(5, true, (&&Wrap(r.in_proto_mask_raw())).obs());
    s(6, false, (&&Wrap(r.out_proto_mask())).obs());
    s(6, true, (&&Wrap(r.out_proto_mask_raw())).obs());
    s(7, false, (&&Wrap(r.flags())).obs());
    s(8, false, (&&Wrap(r.reserved5())).obs());
}
pub fn obs_CfgPrtSpi(r: &CfgPrtSpiRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.portid())).obs());
    s(0, true, (&&Wrap(r.portid_raw())).obs());
    s(1, false, (&&Wrap(r.reserved0())).obs());
    s(2, false, (&&Wrap(r.tx_ready())).obs());
    s(3, false, (&&Wrap(r.mode())).obs());
    s(4, false, (&&Wrap(r.reserved3())).obs());
    s(5, false, (&&Wrap(r.in_proto_mask())).obs());
    s(5, true, (&&Wrap(r.in_proto_mask_raw())).obs());
    s(6, false, (&&Wrap(r.out_proto_mask())).obs());
    s(6, true, (&&Wrap(r.out_proto_mask_raw())).obs());
    s(7, false, (&&Wrap(r.flags())).obs());
    s(8, false, (&&Wrap(r.reserved5())).obs());
}
pub fn obs_NavTimeUTC(r: &NavTimeUTCRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.time_accuracy_estimate_ns())).obs());
    s(2, false, (&&Wrap(r.nanos())).obs());
    s(3, false, (&&Wrap(r.year())).obs());
    s(4, false, (&&Wrap(r.month())).obs());
    s(5, false, (&&Wrap(r.day())).obs());
    s(6, false, (&&Wrap(r.hour())).obs());
    s(7, false, (&&Wrap(r.min())).obs());
    s(8, false, (&&Wrap(r.sec())).obs());
    s(9, false, (&&Wrap(r.valid())).obs());
    s(9, true, (&&Wrap(r.valid_raw())).obs());
}
pub fn obs_CfgNav5(r: &CfgNav5Ref, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.mask())).obs());
    s(0, true, (&&Wrap(r.mask_raw())).obs());
    s(1, false, (&&Wrap(r.dyn_model())).obs());
    s(1, true, (&&Wrap(r.dyn_model_raw())).obs());
    s(2, false, (&&Wrap(r.fix_mode())).obs());
    s(2, true, (&&Wrap(r.fix_mode_raw())).obs());
    s(3, false, (&&Wrap(r.fixed_alt())).obs());
    s(3, true, (&&Wrap(r.fixed_alt_raw())).obs());
    s(4, false, (&&Wrap(r.fixed_alt_var())).obs());
    s(4, true, (&&Wrap(r.fixed_alt_var_raw())).obs());
    s(5, false, (&&Wrap(r.min_elev_degrees())).obs());
    s(6, false, (&&Wrap(r.dr_limit())).obs());
    s(7, false, (&&Wrap(r.pdop())).obs());
    s(7, true, (&&Wrap(r.pdop_raw())).obs());
    s(8, false, (&&Wrap(r.tdop())).obs());
    s(8, true, (&&Wrap(r.tdop_raw())).obs());
    s(9, false, (&&Wrap(r.pacc())).obs());
    s(10, false, (&&Wrap(r.tacc())).obs());
    s(11, false, (&&Wrap(r.static_hold_thresh())).obs());
    s(11, true, (&&Wrap(r.static_hold_thresh_raw())).obs());
    s(12, false, (&&Wrap(r.dgps_time_out())).obs());
    s(13, false, (&&Wrap(r.cno_thresh_num_svs())).obs());
    s(14, false, (&&Wrap(r.cno_thresh())).obs());
    s(15, false, (&&Wrap(r.reserved1())).obs());
    s(16, false, (&&Wrap(r.static_hold_max_dist())).obs());
    s(17, false, (&&Wrap(r.utc_standard())).obs());
    s(17, true, (&&Wrap(r.utc_standard_raw())).obs());
    s(18, false, (&&Wrap(r.reserved2())).obs());
}
pub fn obs_MgaAck(r: &MgaAckRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.ack_type())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.info_code())).obs());
    s(2, true, (&&Wrap(r.info_code_raw())).obs());
    s(3, false, (&&Wrap(r.msg_id())).obs());
    s(4, false, (&&Wrap(r.msg_payload_start())).obs());
}
pub fn obs_MgaGloEph(r: &MgaGloEphRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.msg_type())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.sv_id())).obs());
    s(3, false, (&&Wrap(r.reserved1())).obs());
    s(4, false, (&&Wrap(r.ft())).obs());
    s(5, false, (&&Wrap(r.b())).obs());
    s(6, false, (&&Wrap(r.m())).obs());
    s(7, false, (&&Wrap(r.h())).obs());
    s(8, false, (&&Wrap(r.x())).obs());
    s(9, false, (&&Wrap(r.y())).obs());
    s(10, false, (&&Wrap(r.z())).obs());
    s(11, false, (&&Wrap(r.dx())).obs());
    s(12, false, (&&Wrap(r.dy())).obs());
    s(13, false, (&&Wrap(r.dz())).obs());
    s(14, false, (&&Wrap(r.ddx())).obs());
    s(15, false, (&&Wrap(r.ddy())).obs());
    s(16, false, (&&Wrap(r.ddz())).obs());
    s(17, false, (&&Wrap(r.tb())).obs());
    s(18, false, (&&Wrap(r.gamma())).obs());
    s(19, false, (&&Wrap(r.e())).obs());
    s(20, false, (&&Wrap(r.delta_tau())).obs());
    s(21, false, (&&Wrap(r.tau())).obs());
    s(22, false, (&&Wrap(r.reserved2())).obs());
}
pub fn obs_MgaGpsIono(r: &MgaGpsIonoRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.msg_type())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.reserved1())).obs());
    s(3, false, (&&Wrap(r.alpha0())).obs());
    s(3, true, (&&Wrap(r.alpha0_raw())).obs());
    s(4, false, (&&Wrap(r.alpha1())).obs());
    s(4, true, (&&Wrap(r.alpha1_raw())).obs());
    s(5, false, (&&Wrap(r.alpha2())).obs());
    s(5, true, (&&Wrap(r.alpha2_raw())).obs());
    s(6, false, (&&Wrap(r.alpha3())).obs());
    s(6, true, (&&Wrap(r.alpha3_raw())).obs());
    s(7, false, (&&Wrap(r.beta0())).obs());
    s(7, true, (&&Wrap(r.beta0_raw())).obs());
    s(8, false, (&&Wrap(r.beta1())).obs());
    s(8, true, (&&Wrap(r.beta1_raw())).obs());
    s(9, false, (&&Wrap(r.beta2())).obs());
    s(9, true, (&&Wrap(r.beta2_raw())).obs());
    s(10, false, (&&Wrap(r.beta3())).obs());
    s(10, true, (&&Wrap(r.beta3_raw())).obs());
    s(11, false, (&&Wrap(r.reserved2())).obs());
}
pub fn obs_MgaGpsEph(r: &MgaGpsEphRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.msg_type())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.sv_id())).obs());
    s(3, false, (&&Wrap(r.reserved1())).obs());
    s(4, false, (&&Wrap(r.fit_interval())).obs());
    s(5, false, (&&Wrap(r.ura_index())).obs());
    s(6, false, (&&Wrap(r.sv_health())).obs());
    s(7, false, (&&Wrap(r.tgd())).obs());
    s(8, false, (&&Wrap(r.iodc())).obs());
    s(9, false, (&&Wrap(r.toc())).obs());
    s(10, false, (&&Wrap(r.reserved2())).obs());
    s(11, false, (&&Wrap(r.af2())).obs());
    s(12, false, (&&Wrap(r.af1())).obs());
    s(13, false, (&&Wrap(r.af0())).obs());
    s(14, false, (&&Wrap(r.crs())).obs());
    s(15, false, (&&Wrap(r.delta_n())).obs());
    s(16, false, (&&Wrap(r.m0())).obs());
    s(17, false, (&&Wrap(r.cuc())).obs());
    s(18, false, (&&Wrap(r.cus())).obs());
    s(19, false, (&&Wrap(r.e())).obs());
    s(20, false, (&&Wrap(r.sqrt_a())).obs());
    s(21, false, (&&Wrap(r.toe())).obs());
    s(22, false, (&&Wrap(r.cic())).obs());
    s(23, false, (&&Wrap(r.omega0())).obs());
    s(24, false, (&&Wrap(r.cis())).obs());
    s(25, false, (&&Wrap(r.crc())).obs());
    s(26, false, (&&Wrap(r.i0())).obs());
    s(27, false, (&&Wrap(r.omega())).obs());
    s(28, false, (&&Wrap(r.omega_dot())).obs());
    s(29, false, (&&Wrap(r.idot())).obs());
    s(30, false, (&&Wrap(r.reserved3())).obs());
}
pub fn obs_TimTp(r: &TimTpRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.tow_ms())).obs());
    s(1, false, (&&Wrap(r.tow_sub_ms())).obs());
    s(2, false, (&&Wrap(r.q_err())).obs());
    s(3, false, (&&Wrap(r.week())).obs());
    s(4, false, (&&Wrap(r.flags())).obs());
    s(4, true, (&&Wrap(r.flags_raw())).obs());
    s(5, false, (&&Wrap(r.ref_info())).obs());
    s(5, true, (&&Wrap(r.ref_info_raw())).obs());
}
pub fn obs_TimTm2(r: &TimTm2Ref, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.ch())).obs());
    s(1, false, (&&Wrap(r.flags())).obs());
    s(1, true, (&&Wrap(r.flags_raw())).obs());
    s(2, false, (&&Wrap(r.count())).obs());
    s(3, false, (&&Wrap(r.wn_r())).obs());
    s(4, false, (&&Wrap(r.wn_f())).obs());
    s(5, false, (&&Wrap(r.tow_ms_r())).obs());
    s(6, false, (&&Wrap(r.tow_sub_ms_r())).obs());
    s(7, false, (&&Wrap(r.tow_ms_f())).obs());
    s(8, false, (&&Wrap(r.tow_sub_ms_f())).obs());
    s(9, false, (&&Wrap(r.acc_est())).obs());
}
pub fn obs_RxmRawx(r: &RxmRawxRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.rcv_tow())).obs());
    s(1, false, (&&Wrap(r.week())).obs());
    s(2, false, (&&Wrap(r.leap_s())).obs());
    s(3, false, (&&Wrap(r.num_meas())).obs());
    s(4, false, (&&Wrap(r.rec_stat())).obs());
    s(4, true, (&&Wrap(r.rec_stat_raw())).obs());
    s(5, false, (&&Wrap(r.version())).obs());
    s(6, false, (&&Wrap(r.reserved1())).obs());
}
pub fn obs_MonHw(r: &MonHwRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.pin_sel())).obs());
    s(1, false, (&&Wrap(r.pin_bank())).obs());
    s(2, false, (&&Wrap(r.pin_dir())).obs());
    s(3, false, (&&Wrap(r.pin_val())).obs());
    s(4, false, (&&Wrap(r.noise_per_ms())).obs());
    s(5, false, (&&Wrap(r.agc_cnt())).obs());
    s(6, false, (&&Wrap(r.a_status())).obs());
    s(6, true, (&&Wrap(r.a_status_raw())).obs());
    s(7, false, (&&Wrap(r.a_power())).obs());
    s(7, true, (&&Wrap(r.a_power_raw())).obs());
    s(8, false, (&&Wrap(r.flags())).obs());
    s(9, false, (&&Wrap(r.reserved1())).obs());
    s(10, false, (&&Wrap(r.used_mask())).obs());
    s(11, false, (&&Wrap(r.vp())).obs());
    s(12, false, (&&Wrap(r.jam_ind())).obs());
    s(13, false, (&&Wrap(r.reserved2())).obs());
    s(14, false, (&&Wrap(r.pin_irq())).obs());
    s(15, false, (&&Wrap(r.pull_h())).obs());
    s(16, false, (&&Wrap(r.pull_l())).obs());
}
pub fn obs_MonGnss(r: &MonGnssRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.version())).obs());
    s(1, false, (&&Wrap(r.supported())).obs());
    s(1, true, (&&Wrap(r.supported_raw())).obs());
    s(2, false, (&&Wrap(r.default())).obs());
    s(2, true, (&&Wrap(r.default_raw())).obs());
    s(3, false, (&&Wrap(r.enabled())).obs());
    s(3, true, (&&Wrap(r.enabled_raw())).obs());
    s(4, false, (&&Wrap(r.simultaneous())).obs());
    s(5, false, (&&Wrap(r.reserved1())).obs());
}
pub fn obs_MonVer(r: &MonVerRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.software_version())).obs());
    s(0, true, (&&Wrap(r.software_version_raw())).obs());
    s(1, false, (&&Wrap(r.hardware_version())).obs());
    s(1, true, (&&Wrap(r.hardware_version_raw())).obs());
}
pub fn obs_RxmRtcm(r: &RxmRtcmRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.version())).obs());
    s(1, false, (&&Wrap(r.flags())).obs());
    s(2, false, (&&Wrap(r.sub_type())).obs());
    s(3, false, (&&Wrap(r.ref_station())).obs());
    s(4, false, (&&Wrap(r.msg_type())).obs());
}
pub fn obs_EsfMeas(r: &EsfMeasRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.time_tag())).obs());
    s(1, false, (&&Wrap(r.flags())).obs());
    s(2, false, (&&Wrap(r.id())).obs());
}
pub fn obs_EsfRaw(r: &EsfRawRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.msss())).obs());
}
pub fn obs_EsfIns(r: &EsfInsRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.bit_field())).obs());
    s(0, true, (&&Wrap(r.bit_field_raw())).obs());
    s(1, false, (&&Wrap(r.reserved())).obs());
    s(2, false, (&&Wrap(r.itow())).obs());
    s(3, false, (&&Wrap(r.x_angular_rate())).obs());
    s(3, true, (&&Wrap(r.x_angular_rate_raw())).obs());
    s(4, false, (&&Wrap(r.y_angular_rate())).obs());
    s(4, true, (&&Wrap(r.y_angular_rate_raw())).obs());
    s(5, false, (&&Wrap(r.z_angular_rate())).obs());
    s(5, true, (&&Wrap(r.z_angular_rate_raw())).obs());
    s(6, false, (&&Wrap(r.x_acceleration())).obs());
    s(6, true, (&&Wrap(r.x_acceleration_raw())).obs());
    s(7, false, (&&Wrap(r.y_acceleration())).obs());
    s(7, true, (&&Wrap(r.y_acceleration_raw())).obs());
    s(8, false, (&&Wrap(r.z_acceleration())).obs());
    s(8, true, (&&Wrap(r.z_acceleration_raw())).obs());
}
pub fn obs_HnrAtt(r: &HnrAttRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.reserved1())).obs());
    s(3, false, (&&Wrap(r.vehicle_roll())).obs());
    s(3, true, (&&Wrap(r.vehicle_roll_raw())).obs());
    s(4, false, (&&Wrap(r.vehicle_pitch())).obs());
    s(4, true, (&&Wrap(r.vehicle_pitch_raw())).obs());
    s(5, false, (&&Wrap(r.vehicle_heading())).obs());
    s(5, true, (&&Wrap(r.vehicle_heading_raw())).obs());
    s(6, false, (&&Wrap(r.vehicle_roll_accuracy())).obs());
    s(6, true, (&&Wrap(r.vehicle_roll_accuracy_raw())).obs());
    s(7, false, (&&Wrap(r.vehicle_pitch_accuracy())).obs());
    s(7, true, (&&Wrap(r.vehicle_pitch_accuracy_raw())).obs());
    s(8, false, (&&Wrap(r.vehicle_heading_accuracy())).obs());
    s(8, true, (&&Wrap(r.vehicle_heading_accuracy_raw())).obs());
}
pub fn obs_HnrIns(r: &HnrInsRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.bit_field())).obs());
    s(0, true, (&&Wrap(r.bit_field_raw())).obs());
    s(1, false, (&&Wrap(r.reserved())).obs());
    s(2, false, (&&Wrap(r.itow())).obs());
    s(3, false, (&&Wrap(r.x_angular_rate())).obs());
    s(3, true, (&&Wrap(r.x_angular_rate_raw())).obs());
    s(4, false, (&&Wrap(r.y_angular_rate())).obs());
    s(4, true, (&&Wrap(r.y_angular_rate_raw())).obs());
    s(5, false, (&&Wrap(r.z_angular_rate())).obs());
    s(5, true, (&&Wrap(r.z_angular_rate_raw())).obs());
    s(6, false, (&&Wrap(r.x_acceleration())).obs());
    s(6, true, (&&Wrap(r.x_acceleration_raw())).obs());
    s(7, false, (&&Wrap(r.y_acceleration())).obs());
    s(7, true, (&&Wrap(r.y_acceleration_raw())).obs());
    s(8, false, (&&Wrap(r.z_acceleration())).obs());
    s(8, true, (&&Wrap(r.z_acceleration_raw())).obs());
}
pub fn obs_HnrPvt(r: &HnrPvtRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.year())).obs());
    s(2, false, (&&Wrap(r.month())).obs());
    s(3, false, (&&Wrap(r.day())).obs());
    s(4, false, (&&Wrap(r.hour())).obs());
    s(5, false, (&&Wrap(r.min())).obs());
    s(6, false, (&&Wrap(r.sec())).obs());
    s(7, false, (&&Wrap(r.valid())).obs());
    s(7, true, (&&Wrap(r.valid_raw())).obs());
    s(8, false, (&&Wrap(r.nano())).obs());
    s(9, false, (&&Wrap(r.gps_fix())).obs());
    s(9, true, (&&Wrap(r.gps_fix_raw())).obs());
    s(10, false, (&&Wrap(r.flags())).obs());
    s(10, true, (&&Wrap(r.flags_raw())).obs());
    s(11, false, (&&Wrap(r.reserved1())).obs());
    s(12, false, (&&Wrap(r.longitude())).obs());
    s(12, true, (&&Wrap(r.longitude_raw())).obs());
    s(13, false, (&&Wrap(r.latitude())).obs());
    s(13, true, (&&Wrap(r.latitude_raw())).obs());
    s(14, false, (&&Wrap(r.height_above_ellipsoid())).obs());
    s(14, true, (&&Wrap(r.height_above_ellipsoid_raw())).obs());
    s(15, false, (&&Wrap(r.height_msl())).obs());
    s(15, true, (&&Wrap(r.height_msl_raw())).obs());
    s(16, false, (&&Wrap(r.ground_speed_2d())).obs());
    s(16, true, (&&Wrap(r.ground_speed_2d_raw())).obs());
    s(17, false, (&&Wrap(r.speed_3d())).obs());
    s(17, true, (&&Wrap(r.speed_3d_raw())).obs());
    s(18, false, (&&Wrap(r.heading_motion())).obs());
    s(18, true, (&&Wrap(r.heading_motion_raw())).obs());
    s(19, false, (&&Wrap(r.heading_vehicle())).obs());
    s(19, true, (&&Wrap(r.heading_vehicle_raw())).obs());
    s(20, false, (&&Wrap(r.h_acc())).obs());
    s(21, false, (&&Wrap(r.v_acc())).obs());
    s(22, false, (&&Wrap(r.s_acc())).obs());
    s(23, false, (&&Wrap(r.heading_accurracy())).obs());
    s(23, true, (&&Wrap(r.heading_accurracy_raw())).obs());
    s(24, false, (&&Wrap(r.reserved2())).obs());
}
pub fn obs_NavAtt(r: &NavAttRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.reserved1())).obs());
    s(3, false, (&&Wrap(r.vehicle_roll())).obs());
    s(3, true, (&&Wrap(r.vehicle_roll_raw())).obs());
    s(4, false, (&&Wrap(r.vehicle_pitch())).obs());
    s(4, true, (&&Wrap(r.vehicle_pitch_raw())).obs());
    s(5, false, (&&Wrap(r.vehicle_heading())).obs());
    s(5, true, (&&Wrap(r.vehicle_heading_raw())).obs());
    s(6, false, (&&Wrap(r.vehicle_roll_accuracy())).obs());
    s(6, true, (&&Wrap(r.vehicle_roll_accuracy_raw())).obs());
    s(7, false, (&&Wrap(r.vehicle_pitch_accuracy())).obs());
    s(7, true, (&&Wrap(r.vehicle_pitch_accuracy_raw())).obs());
    s(8, false, (&&Wrap(r.vehicle_heading_accuracy())).obs());
    s(8, true, (&&Wrap(r.vehicle_heading_accuracy_raw())).obs());
}
pub fn obs_NavClock(r: &NavClockRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.clk_b())).obs());
    s(2, false, (&&Wrap(r.clk_d())).obs());
    s(3, false, (&&Wrap(r.t_acc())).obs());
    s(4, false, (&&Wrap(r.f_acc())).obs());
}
pub fn obs_RxmSfrbx(r: &RxmSfrbxRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.gnss_id())).obs());
    s(1, false, (&&Wrap(r.sv_id())).obs());
    s(2, false, (&&Wrap(r.reserved1())).obs());
    s(3, false, (&&Wrap(r.freq_id())).obs());
    s(4, false, (&&Wrap(r.num_words())).obs());
    s(5, false, (&&Wrap(r.reserved2())).obs());
    s(6, false, (&&Wrap(r.version())).obs());
    s(7, false, (&&Wrap(r.reserved3())).obs());
}
pub fn obs_NavVelECEF(r: &NavVelECEFRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.itow())).obs());
    s(1, false, (&&Wrap(r.ecef_vx())).obs());
    s(2, false, (&&Wrap(r.ecef_vy())).obs());
    s(3, false, (&&Wrap(r.ecef_vz())).obs());
    s(4, false, (&&Wrap(r.s_acc())).obs());
}
pub fn obs_MgaGpsEPH(r: &MgaGpsEPHRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.msg_type())).obs());
    s(1, false, (&&Wrap(r.version())).obs());
    s(2, false, (&&Wrap(r.sv_id())).obs());
    s(3, false, (&&Wrap(r.reserved1())).obs());
    s(4, false, (&&Wrap(r.fit_interval())).obs());
    s(5, false, (&&Wrap(r.ura_index())).obs());
    s(6, false, (&&Wrap(r.sv_health())).obs());
    s(7, false, (&&Wrap(r.tgd())).obs());
    s(7, true, (&&Wrap(r.tgd_raw())).obs());
    s(8, false, (&&Wrap(r.iodc())).obs());
    s(9, false, (&&Wrap(r.toc())).obs());
    s(9, true, (&&Wrap(r.toc_raw())).obs());
    s(10, false, (&&Wrap(r.reserved2())).obs());
    s(11, false, (&&Wrap(r.af2())).obs());
    s(11, true, (&&Wrap(r.af2_raw())).obs());
    s(12, false, (&&Wrap(r.afl())).obs());
    s(12, true, (&&Wrap(r.afl_raw())).obs());
    s(13, false, (&&Wrap(r.af0())).obs());
    s(13, true, (&&Wrap(r.af0_raw())).obs());
    s(14, false, (&&Wrap(r.crs())).obs());
    s(14, true, (&&Wrap(r.crs_raw())).obs());
    s(15, false, (&&Wrap(r.delta_n())).obs());
    s(15, true, (&&Wrap(r.delta_n_raw())).obs());
    s(16, false, (&&Wrap(r.m0())).obs());
    s(16, true, (&&Wrap(r.m0_raw())).obs());
    s(17, false, (&&Wrap(r.cuc())).obs());
    s(17, true, (&&Wrap(r.cuc_raw())).obs());
    s(18, false, (&&Wrap(r.cus())).obs());
    s(18, true, (&&Wrap(r.cus_raw())).obs());
    s(19, false, (&&Wrap(r.e())).obs());
    s(19, true, (&&Wrap(r.e_raw())).obs());
    s(20, false, (&&Wrap(r.sqrt_a())).obs());
    s(20, true, (&&Wrap(r.sqrt_a_raw())).obs());
    s(21, false, (&&Wrap(r.toe())).obs());
    s(21, true, (&&Wrap(r.toe_raw())).obs());
    s(22, false, (&&Wrap(r.cic())).obs());
    s(22, true, (&&Wrap(r.cic_raw())).obs());
    s(23, false, (&&Wrap(r.omega0())).obs());
    s(23, true, (&&Wrap(r.omega0_raw())).obs());
    s(24, false, (&&Wrap(r.cis())).obs());
    s(24, true, (&&Wrap(r.cis_raw())).obs());
    s(25, false, (&&Wrap(r.crc())).obs());
    s(25, true, (&&Wrap(r.crc_raw())).obs());
    s(26, false, (&&Wrap(r.i0())).obs());
    s(26, true, (&&Wrap(r.i0_raw())).obs());
    s(27, false, (&&Wrap(r.omega())).obs());
    s(27, true, (&&Wrap(r.omega_raw())).obs());
    s(28, false, (&&Wrap(r.omega_dot())).obs());
    s(28, true, (&&Wrap(r.omega_dot_raw())).obs());
    s(29, false, (&&Wrap(r.idot())).obs());
    s(29, true, (&&Wrap(r.idot_raw())).obs());
    s(30, false, (&&Wrap(r.reserved3())).obs());
}
pub fn obs_RxmRawxInfo(r: &RxmRawxInfoRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.pr_mes())).obs());
    s(1, false, (&&Wrap(r.cp_mes())).obs());
    s(2, false, (&&Wrap(r.do_mes())).obs());
    s(3, false, (&&Wrap(r.gnss_id())).obs());
    s(4, false, (&&Wrap(r.sv_id())).obs());
    s(5, false, (&&Wrap(r.reserved2())).obs());
    s(6, false, (&&Wrap(r.freq_id())).obs());
    s(7, false, (&&Wrap(r.lock_time())).obs());
    s(8, false, (&&Wrap(r.cno())).obs());
    s(9, false, (&&Wrap(r.pr_stdev())).obs());
    s(9, true, (&&Wrap(r.pr_stdev_raw())).obs());
    s(10, false, (&&Wrap(r.cp_stdev())).obs());
    s(10, true, (&&Wrap(r.cp_stdev_raw())).obs());
    s(11, false, (&&Wrap(r.do_stdev())).obs());
    s(11, true, (&&Wrap(r.do_stdev_raw())).obs());
    s(12, false, (&&Wrap(r.trk_stat())).obs());
    s(12, true, (&&Wrap(r.trk_stat_raw())).obs());
    s(13, false, (&&Wrap(r.reserved3())).obs());
}
pub fn obs_SecUniqId(r: &SecUniqIdRef, s: &mut dyn FnMut(usize, bool, Val)) {
    s(0, false, (&&Wrap(r.version())).obs());
    s(1, false, (&&Wrap(r.reserved1())).obs());
    s(2, false, (&&Wrap(r.unique_id())).obs());
}
/// Calls every fixed-size accessor of a typed packet; the index of its definition.
pub fn observe(p: &PacketRef, s: &mut dyn FnMut(usize, bool, Val)) -> Option<usize> {
    match p {
        PacketRef::NavPosLlh(r) => { obs_NavPosLlh(r, s); Some(PK_NavPosLlh) }
        PacketRef::NavStatus(r) => { obs_NavStatus(r, s); Some(PK_NavStatus) }
        PacketRef::NavDop(r) => { obs_NavDop(r, s); Some(PK_NavDop) }
        PacketRef::NavPvt(r) => { obs_NavPvt(r, s); Some(PK_NavPvt) }
        PacketRef::NavSolution(r) => { obs_NavSolution(r, s); Some(PK_NavSolution) }
        PacketRef::NavVelNed(r) => { obs_NavVelNed(r, s); Some(PK_NavVelNed) }
        PacketRef::NavHpPosLlh(r) => { obs_NavHpPosLlh(r, s); Some(PK_NavHpPosLlh) }
        PacketRef::NavHpPosEcef(r) => { obs_NavHpPosEcef(r, s); Some(PK_NavHpPosEcef) }
        PacketRef::NavTimeUTC(r) => { obs_NavTimeUTC(r, s); Some(PK_NavTimeUTC) }
        PacketRef::NavTimeLs(r) => { obs_NavTimeLs(r, s); Some(PK_NavTimeLs) }
        PacketRef::NavSat(r) => { obs_NavSat(r, s); Some(PK_NavSat) }
        PacketRef::NavEoe(r) => { obs_NavEoe(r, s); Some(PK_NavEoe) }
        PacketRef::NavOdo(r) => { obs_NavOdo(r, s); Some(PK_NavOdo) }
        PacketRef::CfgOdo(r) => { obs_CfgOdo(r, s); Some(PK_CfgOdo) }
        PacketRef::MgaAck(r) => { obs_MgaAck(r, s); Some(PK_MgaAck) }
        PacketRef::MgaGpsIono(r) => { obs_MgaGpsIono(r, s); Some(PK_MgaGpsIono) }
        PacketRef::MgaGpsEph(r) => { obs_MgaGpsEph(r, s); Some(PK_MgaGpsEph) }
        PacketRef::MgaGloEph(r) => { obs_MgaGloEph(r, s); Some(PK_MgaGloEph) }
        PacketRef::AlpSrv(r) => { obs_AlpSrv(r, s); Some(PK_AlpSrv) }
        PacketRef::AckAck(r) => { obs_AckAck(r, s); Some(PK_AckAck) }
        PacketRef::AckNak(r) => { obs_AckNak(r, s); Some(PK_AckNak) }
        PacketRef::CfgItfm(r) => { obs_CfgItfm(r, s); Some(PK_CfgItfm) }
        PacketRef::CfgPrtI2c(r) => { obs_CfgPrtI2c(r, s); Some(PK_CfgPrtI2c) }
        PacketRef::CfgPrtSpi(r) => { obs_CfgPrtSpi(r, s); Some(PK_CfgPrtSpi) }
        PacketRef::CfgPrtUart(r) => { obs_CfgPrtUart(r, s); Some(PK_CfgPrtUart) }
        PacketRef::CfgNav5(r) => { obs_CfgNav5(r, s); Some(PK_CfgNav5) }
        PacketRef::CfgAnt(r) => { obs_CfgAnt(r, s); Some(PK_CfgAnt) }
        PacketRef::CfgTmode2(r) => { obs_CfgTmode2(r, s); Some(PK_CfgTmode2) }
        PacketRef::CfgTmode3(r) => { obs_CfgTmode3(r, s); Some(PK_CfgTmode3) }
        PacketRef::CfgTp5(r) => { obs_CfgTp5(r, s); Some(PK_CfgTp5) }
        PacketRef::InfError(r) => { obs_InfError(r, s); Some(PK_InfError) }
        PacketRef::InfWarning(r) => { obs_InfWarning(r, s); Some(PK_InfWarning) }
        PacketRef::InfNotice(r) => { obs_InfNotice(r, s); Some(PK_InfNotice) }
        PacketRef::InfTest(r) => { obs_InfTest(r, s); Some(PK_InfTest) }
        PacketRef::InfDebug(r) => { obs_InfDebug(r, s); Some(PK_InfDebug) }
        PacketRef::RxmRawx(r) => { obs_RxmRawx(r, s); Some(PK_RxmRawx) }
        PacketRef::TimTp(r) => { obs_TimTp(r, s); Some(PK_TimTp) }
        PacketRef::TimTm2(r) => { obs_TimTm2(r, s); Some(PK_TimTm2) }
        PacketRef::MonVer(r) => { obs_MonVer(r, s); Some(PK_MonVer) }
        PacketRef::MonGnss(r) => { obs_MonGnss(r, s); Some(PK_MonGnss) }
        PacketRef::MonHw(r) => { obs_MonHw(r, s); Some(PK_MonHw) }
        PacketRef::RxmRtcm(r) => { obs_RxmRtcm(r, s); Some(PK_RxmRtcm) }
        PacketRef::EsfMeas(r) => { obs_EsfMeas(r, s); Some(PK_EsfMeas) }
        PacketRef::EsfIns(r) => { obs_EsfIns(r, s); Some(PK_EsfIns) }
        PacketRef::HnrAtt(r) => { obs_HnrAtt(r, s); Some(PK_HnrAtt) }
        PacketRef::HnrIns(r) => { obs_HnrIns(r, s); Some(PK_HnrIns) }
        PacketRef::HnrPvt(r) => { obs_HnrPvt(r, s); Some(PK_HnrPvt) }
        PacketRef::NavAtt(r) => { obs_NavAtt(r, s); Some(PK_NavAtt) }
        PacketRef::NavClock(r) => { obs_NavClock(r, s); Some(PK_NavClock) }
        PacketRef::NavVelECEF(r) => { obs_NavVelECEF(r, s); Some(PK_NavVelECEF) }
        PacketRef::MgaGpsEPH(r) => { obs_MgaGpsEPH(r, s); Some(PK_MgaGpsEPH) }
        PacketRef::RxmSfrbx(r) => { obs_RxmSfrbx(r, s); Some(PK_RxmSfrbx) }
        PacketRef::EsfRaw(r) => { obs_EsfRaw(r, s); Some(PK_EsfRaw) }
        PacketRef::TimSvin(r) => { obs_TimSvin(r, s); Some(PK_TimSvin) }
        PacketRef::SecUniqId(r) => { obs_SecUniqId(r, s); Some(PK_SecUniqId) }
        _ => None,
    }
}
/// The definition a delivered packet was given.
pub fn which(p: &PacketRef) -> Option<usize> {
    match p {
        PacketRef::NavPosLlh(_) => Some(PK_NavPosLlh),
        PacketRef::NavStatus(_) => Some(PK_NavStatus),
        PacketRef::NavDop(_) => Some(PK_NavDop),
        PacketRef::NavPvt(_) => Some(PK_NavPvt),
        PacketRef::NavSolution(_) => Some(PK_NavSolution),
        PacketRef::NavVelNed(_) => Some(PK_NavVelNed),
        PacketRef::NavHpPosLlh(_) => Some(PK_NavHpPosLlh),
        PacketRef::NavHpPosEcef(_) => Some(PK_NavHpPosEcef),
        PacketRef::NavTimeUTC(_) => Some(PK_NavTimeUTC),
        PacketRef::NavTimeLs(_) => Some(PK_NavTimeLs),
        PacketRef::NavSat(_) => Some(PK_NavSat),
        PacketRef::NavEoe(_) => Some(PK_NavEoe),
        PacketRef::NavOdo(_) => Some(PK_NavOdo),
        PacketRef::CfgOdo(_) => Some(PK_CfgOdo),
        PacketRef::MgaAck(_) => Some(PK_MgaAck),
        PacketRef::MgaGpsIono(_) => Some(PK_MgaGpsIono),
        PacketRef::MgaGpsEph(_) => Some(PK_MgaGpsEph),
        PacketRef::MgaGloEph(_) => Some(PK_MgaGloEph),
        PacketRef::AlpSrv(_) => Some(PK_AlpSrv),
        PacketRef::AckAck(_) => Some(PK_AckAck),
        PacketRef::AckNak(_) => Some(PK_AckNak),
        PacketRef::CfgItfm(_) => Some(PK_CfgItfm),
        PacketRef::CfgPrtI2c(_) => Some(PK_CfgPrtI2c),
        PacketRef::CfgPrtSpi(_) => Some(PK_CfgPrtSpi),
        PacketRef::CfgPrtUart(_) => Some(PK_CfgPrtUart),
        PacketRef::CfgNav5(_) => Some(PK_CfgNav5),
        PacketRef::CfgAnt(_) => Some(PK_CfgAnt),
        PacketRef::CfgTmode2(_) => Some(PK_CfgTmode2),
        PacketRef::CfgTmode3(_) => Some(PK_CfgTmode3),
        PacketRef::CfgTp5(_) => Some(PK_CfgTp5),
        PacketRef::InfError(_) => Some(PK_InfError),
        PacketRef::InfWarning(_) => Some(PK_InfWarning),
        PacketRef::InfNotice(_) => Some(PK_InfNotice),
        PacketRef::InfTest(_) => Some(PK_InfTest),
        PacketRef::InfDebug(_) => Some(PK_InfDebug),
        PacketRef::RxmRawx(_) => Some(PK_RxmRawx),
        PacketRef::TimTp(_) => Some(PK_TimTp),
        PacketRef::TimTm2(_) => Some(PK_TimTm2),
        PacketRef::MonVer(_) => Some(PK_MonVer),
        PacketRef::MonGnss(_) => Some(PK_MonGnss),
        PacketRef::MonHw(_) => Some(PK_MonHw),
        PacketRef::RxmRtcm(_) => Some(PK_RxmRtcm),
        PacketRef::EsfMeas(_) => Some(PK_EsfMeas),
        PacketRef::EsfIns(_) => Some(PK_EsfIns),
        PacketRef::HnrAtt(_) => Some(PK_HnrAtt),
        PacketRef::HnrIns(_) => Some(PK_HnrIns),
        PacketRef::HnrPvt(_) => Some(PK_HnrPvt),
        PacketRef::NavAtt(_) => Some(PK_NavAtt),
        PacketRef::NavClock(_) => Some(PK_NavClock),
        PacketRef::NavVelECEF(_) => Some(PK_NavVelECEF),
        PacketRef::MgaGpsEPH(_) => Some(PK_MgaGpsEPH),
        PacketRef::RxmSfrbx(_) => Some(PK_RxmSfrbx),
        PacketRef::EsfRaw(_) => Some(PK_EsfRaw),
        PacketRef::TimSvin(_) => Some(PK_TimSvin),
        PacketRef::SecUniqId(_) => Some(PK_SecUniqId),
        _ => None,
    }
}
/// Formats and serialises the packet inside its variant.
pub fn debug_inner(p: &PacketRef) -> String {
    match p {
        PacketRef::NavPosLlh(r) => format!("{r:?}"),
        PacketRef::NavStatus(r) => format!("{r:?}"),
        PacketRef::NavDop(r) => format!("{r:?}"),
        PacketRef::NavPvt(r) => format!("{r:?}"),
        PacketRef::NavSolution(r) => format!("{r:?}"),
        PacketRef::NavVelNed(r) => format!("{r:?}"),
        PacketRef::NavHpPosLlh(r) => format!("{r:?}"),
        PacketRef::NavHpPosEcef(r) => format!("{r:?}"),
        PacketRef::NavTimeUTC(r) => format!("{r:?}"),
        PacketRef::NavTimeLs(r) => format!("{r:?}"),
        PacketRef::NavSat(r) => format!("{r:?}"),
        PacketRef::NavEoe(r) => format!("{r:?}"),
        PacketRef::NavOdo(r) => format!("{r:?}"),
        PacketRef::CfgOdo(r) => format!("{r:?}"),
        PacketRef::MgaAck(r) => format!("{r:?}"),
        PacketRef::MgaGpsIono(r) => format!("{r:?}"),
        PacketRef::MgaGpsEph(r) => format!("{r:?}"),
        PacketRef::MgaGloEph(r) => format!("{r:?}"),
        PacketRef::AlpSrv(r) => format!("{r:?}"),
        PacketRef::AckAck(r) => format!("{r:?}"),
        PacketRef::AckNak(r) => format!("{r:?}"),
        PacketRef::CfgItfm(r) => format!("{r:?}"),
        PacketRef::CfgPrtI2c(r) => format!("{r:?}"),
        PacketRef::CfgPrtSpi(r) => format!("{r:?}"),
        PacketRef::CfgPrtUart(r) => format!("{r:?}"),
        PacketRef::CfgNav5(r) => format!("{r:?}"),
        PacketRef::CfgAnt(r) => format!("{r:?}"),
        PacketRef::CfgTmode2(r) => format!("{r:?}"),
        PacketRef::CfgTmode3(r) => format!("{r:?}"),
        PacketRef::CfgTp5(r) => format!("{r:?}"),
        PacketRef::InfError(r) => format!("{r:?}"),
        PacketRef::InfWarning(r) => format!("{r:?}"),
        PacketRef::InfNotice(r) => format!("{r:?}"),
        PacketRef::InfTest(r) => format!("{r:?}"),
        PacketRef::InfDebug(r) => format!("{r:?}"),
        PacketRef::RxmRawx(r) => format!("{r:?}"),
        PacketRef::TimTp(r) => format!("{r:?}"),
        PacketRef::TimTm2(r) => format!("{r:?}"),
        PacketRef::MonVer(r) => format!("{r:?}"),
        PacketRef::MonGnss(r) => format!("{r:?}"),
        PacketRef::MonHw(r) => format!("{r:?}"),
        PacketRef::RxmRtcm(r) => format!("{r:?}"),
        PacketRef::EsfMeas(r) => format!("{r:?}"),
        PacketRef::EsfIns(r) => format!("{r:?}"),
        PacketRef::HnrAtt(r) => format!("{r:?}"),
        PacketRef::HnrIns(r) => format!("{r:?}"),
        PacketRef::HnrPvt(r) => format!("{r:?}"),
        PacketRef::NavAtt(r) => format!("{r:?}"),
        PacketRef::NavClock(r) => format!("{r:?}"),
        PacketRef::NavVelECEF(r) => format!("{r:?}"),
        PacketRef::MgaGpsEPH(r) => format!("{r:?}"),
        PacketRef::RxmSfrbx(r) => format!("{r:?}"),
        PacketRef::EsfRaw(r) => format!("{r:?}"),
        PacketRef::TimSvin(r) => format!("{r:?}"),
        PacketRef::SecUniqId(r) => format!("{r:?}"),
        PacketRef::Unknown(u) => format!("{u:?}"),
        #[allow(unreachable_patterns)] _ => String::new(),
    }
}
#[cfg(feature = "serde")]
pub fn serialize_inner<S: serde::Serializer>(p: &PacketRef, s: S) -> Option<Result<S::Ok, S::Error>> {
    use serde::Serialize;
    match p {
        PacketRef::NavPosLlh(r) => Some(r.serialize(s)),
        PacketRef::NavStatus(r) => Some(r.serialize(s)),
        PacketRef::NavDop(r) => Some(r.serialize(s)),
        PacketRef::NavPvt(r) => Some(r.serialize(s)),
        PacketRef::NavSolution(r) => Some(r.serialize(s)),
        PacketRef::NavVelNed(r) => Some(r.serialize(s)),
        PacketRef::NavHpPosLlh(r) => Some(r.serialize(s)),
        PacketRef::NavHpPosEcef(r) => Some(r.serialize(s)),
        PacketRef::NavTimeUTC(r) => Some(r.serialize(s)),
        PacketRef::NavTimeLs(r) => Some(r.serialize(s)),
        PacketRef::NavSat(r) => Some(r.serialize(s)),
        PacketRef::NavEoe(r) => Some(r.serialize(s)),
        PacketRef::NavOdo(r) => Some(r.serialize(s)),
        PacketRef::CfgOdo(r) => Some(r.serialize(s)),
        PacketRef::MgaAck(r) => Some(r.serialize(s)),
        PacketRef::MgaGpsIono(r) => Some(r.serialize(s)),
        PacketRef::MgaGpsEph(r) => Some(r.serialize(s)),
        PacketRef::MgaGloEph(r) => Some(r.serialize(s)),
        PacketRef::AlpSrv(r) => Some(r.serialize(s)),
        PacketRef::AckAck(r) => Some(r.serialize(s)),
        PacketRef::AckNak(r) => Some(r.serialize(s)),
        PacketRef::CfgItfm(r) => Some(r.serialize(s)),
        PacketRef::CfgPrtI2c(r) => Some(r.serialize(s)),
        PacketRef::CfgPrtSpi(r) => Some(r.serialize(s)),
        PacketRef::CfgPrtUart(r) => Some(r.serialize(s)),
        PacketRef::CfgNav5(r) => Some(r.serialize(s)),
        PacketRef::CfgAnt(r) => Some(r.serialize(s)),
        PacketRef::CfgTmode2(r) => Some(r.serialize(s)),
        PacketRef::CfgTmode3(r) => Some(r.serialize(s)),
        PacketRef::CfgTp5(r) => Some(r.serialize(s)),
        PacketRef::InfError(r) => Some(r.serialize(s)),
        PacketRef::InfWarning(r) => Some(r.serialize(s)),
        PacketRef::InfNotice(r) => Some(r.serialize(s)),
        PacketRef::InfTest(r) => Some(r.serialize(s)),
        PacketRef::InfDebug(r) => Some(r.serialize(s)),
        PacketRef::RxmRawx(r) => Some(r.serialize(s)),
        PacketRef::TimTp(r) => Some(r.serialize(s)),
        PacketRef::TimTm2(r) => Some(r.serialize(s)),
        PacketRef::MonVer(r) => Some(r.serialize(s)),
        PacketRef::MonGnss(r) => Some(r.serialize(s)),
        PacketRef::MonHw(r) => Some(r.serialize(s)),
        PacketRef::RxmRtcm(r) => Some(r.serialize(s)),
        PacketRef::EsfMeas(r) => Some(r.serialize(s)),
        PacketRef::EsfIns(r) => Some(r.serialize(s)),
        PacketRef::HnrAtt(r) => Some(r.serialize(s)),
        PacketRef::HnrIns(r) => Some(r.serialize(s)),
        PacketRef::HnrPvt(r) => Some(r.serialize(s)),
        PacketRef::NavAtt(r) => Some(r.serialize(s)),
        PacketRef::NavClock(r) => Some(r.serialize(s)),
        PacketRef::NavVelECEF(r) => Some(r.serialize(s)),
        PacketRef::MgaGpsEPH(r) => Some(r.serialize(s)),
        PacketRef::RxmSfrbx(r) => Some(r.serialize(s)),
        PacketRef::EsfRaw(r) => Some(r.serialize(s)),
        PacketRef::TimSvin(r) => Some(r.serialize(s)),
        PacketRef::SecUniqId(r) => Some(r.serialize(s)),
        _ => None,
    }
}
/// A named value of a packet, as its accessor reports it.
pub type Named<'a> = (&'static str, &'a dyn core::fmt::Debug);
pub fn named_NavPosLlh(r: &NavPosLlhRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavPosLlh", &[("itow", &r.itow()), ("lon", &r.lon_degrees()), ("lat", &r.lat_degrees()), ("height_meters", &r.height_meters()), ("height_msl", &r.height_msl()), ("h_ack", &r.h_ack()), ("v_acc", &r.v_acc())]) }
pub fn named_NavStatus(r: &NavStatusRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavStatus", &[("itow", &r.itow()), ("fix_type", &r.fix_type()), ("flags", &r.flags()), ("fix_stat", &r.fix_stat()), ("flags2", &r.flags2()), ("time_to_first_fix", &r.time_to_first_fix()), ("uptime_ms", &r.uptime_ms())]) }
pub fn named_NavDop(r: &NavDopRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavDop", &[("itow", &r.itow()), ("geometric_dop", &r.geometric_dop()), ("position_dop", &r.position_dop()), ("time_dop", &r.time_dop()), ("vertical_dop", &r.vertical_dop()), ("horizontal_dop", &r.horizontal_dop()), ("northing_dop", &r.northing_dop()), ("easting_dop", &r.easting_dop())]) }
pub fn named_NavPvt(r: &NavPvtRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavPvt", &[("itow", &r.itow()), ("year", &r.year()), ("month", &r.month()), ("day", &r.day()), ("hour", &r.hour()), ("min", &r.min()), ("sec", &r.sec()), ("valid", &r.valid()), ("time_accuracy", &r.time_accuracy()), ("nanosecond", &r.nanosecond()), ("fix_type", &r.fix_type()), ("flags", &r.flags()), ("flags2", &r.flags2()), ("num_satellites", &r.num_satellites()), ("lon", &r.lon_degrees()), ("lat", &r.lat_degrees()), ("height_meters", &r.height_meters()), ("height_msl", &r.height_msl()), ("horiz_accuracy", &r.horiz_accuracy()), ("vert_accuracy", &r.vert_accuracy()), ("vel_north", &r.vel_north()), ("vel_east", &r.vel_east()), ("vel_down", &r.vel_down()), ("ground_speed", &r.ground_speed()), ("heading", &r.heading_degrees()), ("speed_accuracy_estimate", &r.speed_accuracy_estimate()), ("heading_accuracy_estimate", &r.heading_accuracy_estimate()), ("pdop", &r.pdop()), ("reserved1", &r.reserved1()), ("heading_of_vehicle", &r.heading_of_vehicle_degrees()), ("magnetic_declination", &r.magnetic_declination_degrees()), ("magnetic_declination_accuracy", &r.magnetic_declination_accuracy_degrees())]) }
pub fn named_NavSolution(r: &NavSolutionRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavSolution", &[("itow", &r.itow()), ("ftow_ns", &r.ftow_ns()), ("week", &r.week()), ("fix_type", &r.fix_type()), ("flags", &r.flags()), ("ecef_x", &r.ecef_x()), ("ecef_y", &r.ecef_y()), ("ecef_z", &r.ecef_z()), ("position_accuracy_estimate", &r.position_accuracy_estimate()), ("ecef_vx", &r.ecef_vx()), ("ecef_vy", &r.ecef_vy()), ("ecef_vz", &r.ecef_vz()), ("speed_accuracy_estimate", &r.speed_accuracy_estimate()), ("pdop", &r.pdop()), ("reserved1", &r.reserved1()), ("num_sv", &r.num_sv()), ("reserved2", &r.reserved2())]) }
pub fn named_NavVelNed(r: &NavVelNedRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavVelNed", &[("itow", &r.itow()), ("vel_north", &r.vel_north()), ("vel_east", &r.vel_east()), ("vel_down", &r.vel_down()), ("speed_3d", &r.speed_3d()), ("ground_speed", &r.ground_speed()), ("heading", &r.heading_degrees()), ("speed_accuracy_estimate", &r.speed_accuracy_estimate()), ("course_heading_accuracy_estimate", &r.course_heading_accuracy_estimate())]) }
pub fn named_NavHpPosLlh(r: &NavHpPosLlhRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavHpPosLlh", &[("version", &r.version()), ("reserved1", &r.reserved1()), ("itow", &r.itow()), ("lon", &r.lon_degrees()), ("lat", &r.lat_degrees()), ("height_meters", &r.height_meters()), ("height_msl", &r.height_msl()), ("lon_hp", &r.lon_hp_degrees()), ("lat_hp", &r.lat_hp_degrees()), ("height_hp_meters", &r.height_hp_meters()), ("height_hp_msl", &r.height_hp_msl()), ("horizontal_accuracy", &r.horizontal_accuracy()), ("vertical_accuracy", &r.vertical_accuracy())]) }
pub fn named_NavHpPosEcef(r: &NavHpPosEcefRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavHpPosEcef", &[("version", &r.version()), ("reserved1", &r.reserved1()), ("itow", &r.itow()), ("ecef_x", &r.ecef_x_cm()), ("ecef_y", &r.ecef_y_cm()), ("ecef_z", &r.ecef_z_cm()), ("ecef_x_hp", &r.ecef_x_hp_mm()), ("ecef_y_hp", &r.ecef_y_hp_mm()), ("ecef_z_hp", &r.ecef_z_hp_mm()), ("flags", &r.flags()), ("p_acc", &r.p_acc())]) }
pub fn named_NavTimeUTC(r: &NavTimeUTCRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavTimeUTC", &[("itow", &r.itow()), ("time_accuracy_estimate_ns", &r.time_accuracy_estimate_ns()), ("nanos", &r.nanos()), ("year", &r.year()), ("month", &r.month()), ("day", &r.day()), ("hour", &r.hour()), ("min", &r.min()), ("sec", &r.sec()), ("valid", &r.valid())]) }
pub fn named_NavTimeLs(r: &NavTimeLsRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavTimeLs", &[("itow", &r.itow()), ("version", &r.version()), ("reserved_1", &r.reserved_1()), ("src_of_curr_ls", &r.src_of_curr_ls()), ("current_ls", &r.current_ls()), ("src_of_ls_change", &r.src_of_ls_change()), ("ls_change", &r.ls_change()), ("time_to_ls_event", &r.time_to_ls_event()), ("date_of_ls_gps_wn", &r.date_of_ls_gps_wn()), ("date_of_ls_gps_dn", &r.date_of_ls_gps_dn()), ("reserved_2", &r.reserved_2()), ("valid", &r.valid())]) }
pub fn named_NavSat(r: &NavSatRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavSat", &[("itow", &r.itow()), ("version", &r.version()), ("num_svs", &r.num_svs()), ("reserved", &r.reserved()), ("svs", &r.svs())]) }
pub fn named_NavEoe(r: &NavEoeRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavEoe", &[("itow", &r.itow())]) }
pub fn named_NavOdo(r: &NavOdoRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavOdo", &[("version", &r.version()), ("reserved", &r.reserved()), ("itow", &r.itow()), ("distance", &r.distance()), ("total_distance", &r.total_distance()), ("distance_std", &r.distance_std())]) }
pub fn named_CfgOdo(r: &CfgOdoRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgOdo", &[("version", &r.version()), ("reserved", &r.reserved()), ("flags", &r.flags()), ("odo_cfg", &r.odo_cfg()), ("reserved2", &r.reserved2()), ("cog_max_speed", &r.cog_max_speed()), ("cog_max_pos_acc", &r.cog_max_pos_acc()), ("reserved3", &r.reserved3()), ("vel_lp_gain", &r.vel_lp_gain()), ("cog_lp_gain", &r.cog_lp_gain()), ("reserved4", &r.reserved4())]) }
pub fn named_MgaAck(r: &MgaAckRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("MgaAck", &[("ack_type", &r.ack_type()), ("version", &r.version()), ("info_code", &r.info_code()), ("msg_id", &r.msg_id()), ("msg_payload_start", &r.msg_payload_start())]) }
pub fn named_MgaGpsIono(r: &MgaGpsIonoRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("MgaGpsIono", &[("msg_type", &r.msg_type()), ("version", &r.version()), ("reserved1", &r.reserved1()), ("alpha0", &r.alpha0()), ("alpha1", &r.alpha1()), ("alpha2", &r.alpha2()), ("alpha3", &r.alpha3()), ("beta0", &r.beta0()), ("beta1", &r.beta1()), ("beta2", &r.beta2()), ("beta3", &r.beta3()), ("reserved2", &r.reserved2())]) }
pub fn named_MgaGpsEph(r: &MgaGpsEphRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("MgaGpsEph", &[("msg_type", &r.msg_type()), ("version", &r.version()), ("sv_id", &r.sv_id()), ("reserved1", &r.reserved1()), ("fit_interval", &r.fit_interval()), ("ura_index", &r.ura_index()), ("sv_health", &r.sv_health()), ("tgd", &r.tgd()), ("iodc", &r.iodc()), ("toc", &r.toc()), ("reserved2", &r.reserved2()), ("af2", &r.af2()), ("af1", &r.af1()), ("af0", &r.af0()), ("crs", &r.crs()), ("delta_n", &r.delta_n()), ("m0", &r.m0()), ("cuc", &r.cuc()), ("cus", &r.cus()), ("e", &r.e()), ("sqrt_a", &r.sqrt_a()), ("toe", &r.toe()), ("cic", &r.cic()), ("omega0", &r.omega0()), ("cis", &r.cis()), ("crc", &r.crc()), ("i0", &r.i0()), ("omega", &r.omega()), ("omega_dot", &r.omega_dot()), ("idot", &r.idot()), ("reserved3", &r.reserved3())]) }
pub fn named_MgaGloEph(r: &MgaGloEphRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("MgaGloEph", &[("msg_type", &r.msg_type()), ("version", &r.version()), ("sv_id", &r.sv_id()), ("reserved1", &r.reserved1()), ("ft", &r.ft()), ("b", &r.b()), ("m", &r.m()), ("h", &r.h()), ("x", &r.x()), ("y", &r.y()), ("z", &r.z()), ("dx", &r.dx()), ("dy", &r.dy()), ("dz", &r.dz()), ("ddx", &r.ddx()), ("ddy", &r.ddy()), ("ddz", &r.ddz()), ("tb", &r.tb()), ("gamma", &r.gamma()), ("e", &r.e()), ("delta_tau", &r.delta_tau()), ("tau", &r.tau()), ("reserved2", &r.reserved2())]) }
pub fn named_AlpSrv(r: &AlpSrvRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("AlpSrv", &[("id_size", &r.id_size()), ("data_type", &r.data_type()), ("offset", &r.offset()), ("size", &r.size()), ("file_id", &r.file_id()), ("data_size", &r.data_size()), ("id1", &r.id1()), ("id2", &r.id2()), ("id3", &r.id3())]) }
pub fn named_AckAck(r: &AckAckRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("AckAck", &[("class", &r.class()), ("msg_id", &r.msg_id())]) }
pub fn named_AckNak(r: &AckNakRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("AckNak", &[("class", &r.class()), ("msg_id", &r.msg_id())]) }
pub fn named_CfgItfm(r: &CfgItfmRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgItfm", &[("config", &r.config()), ("config2", &r.config2())]) }
pub fn named_CfgPrtI2c(r: &CfgPrtI2cRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgPrtI2c", &[("portid", &r.portid()), ("reserved1", &r.reserved1()), ("tx_ready", &r.tx_ready()), ("mode", &r.mode()), ("reserved2", &r.reserved2()), ("in_proto_mask", &r.in_proto_mask()), ("out_proto_mask", &r.out_proto_mask()), ("flags", &r.flags()), ("reserved3", &r.reserved3())]) }
pub fn named_CfgPrtSpi(r: &CfgPrtSpiRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgPrtSpi", &[("portid", &r.portid()), ("reserved0", &r.reserved0()), ("tx_ready", &r.tx_ready()), ("mode", &r.mode()), ("reserved3", &r.reserved3()), ("in_proto_mask", &r.in_proto_mask()), ("out_proto_mask", &r.out_proto_mask()), ("flags", &r.flags()), ("reserved5", &r.reserved5())]) }
pub fn named_CfgPrtUart(r: &CfgPrtUartRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgPrtUart", &[("portid", &r.portid()), ("reserved0", &r.reserved0()), ("tx_ready", &r.tx_ready()), ("mode", &r.mode()), ("baud_rate", &r.baud_rate()), ("in_proto_mask", &r.in_proto_mask()), ("out_proto_mask", &r.out_proto_mask()), ("flags", &r.flags()), ("reserved5", &r.reserved5())]) }
pub fn named_CfgNav5(r: &CfgNav5Ref, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgNav5", &[("mask", &r.mask()), ("dyn_model", &r.dyn_model()), ("fix_mode", &r.fix_mode()), ("fixed_alt", &r.fixed_alt()), ("fixed_alt_var", &r.fixed_alt_var()), ("min_elev_degrees", &r.min_elev_degrees()), ("dr_limit", &r.dr_limit()), ("pdop", &r.pdop()), ("tdop", &r.tdop()), ("pacc", &r.pacc()), ("tacc", &r.tacc()), ("static_hold_thresh", &r.static_hold_thresh()), ("dgps_time_out", &r.dgps_time_out()), ("cno_thresh_num_svs", &r.cno_thresh_num_svs()), ("cno_thresh", &r.cno_thresh()), ("reserved1", &r.reserved1()), ("static_hold_max_dist", &r.static_hold_max_dist()), ("utc_standard", &r.utc_standard()), ("reserved2", &r.reserved2())]) }
pub fn named_CfgAnt(r: &CfgAntRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgAnt", &[("flags", &r.flags()), ("pins", &r.pins())]) }
pub fn named_CfgTmode2(r: &CfgTmode2Ref, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgTmode2", &[("time_transfer_mode", &r.time_transfer_mode()), ("reserved1", &r.reserved1()), ("flags", &r.flags()), ("ecef_x_or_lat", &r.ecef_x_or_lat()), ("ecef_y_or_lon", &r.ecef_y_or_lon()), ("ecef_z_or_alt", &r.ecef_z_or_alt()), ("fixed_pos_acc", &r.fixed_pos_acc()), ("survey_in_min_duration", &r.survey_in_min_duration()), ("survery_in_accur_limit", &r.survery_in_accur_limit())]) }
pub fn named_CfgTmode3(r: &CfgTmode3Ref, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgTmode3", &[("version", &r.version()), ("reserved1", &r.reserved1()), ("rcvr_mode", &r.rcvr_mode()), ("flags", &r.flags()), ("ecef_x_or_lat", &r.ecef_x_or_lat()), ("ecef_y_or_lon", &r.ecef_y_or_lon()), ("ecef_z_or_alt", &r.ecef_z_or_alt()), ("ecef_x_or_lat_hp", &r.ecef_x_or_lat_hp()), ("ecef_y_or_lon_hp", &r.ecef_y_or_lon_hp()), ("ecef_z_or_alt_hp", &r.ecef_z_or_alt_hp()), ("reserved2", &r.reserved2()), ("fixed_pos_acc", &r.fixed_pos_acc()), ("sv_in_min_duration", &r.sv_in_min_duration()), ("sv_in_accur_limit", &r.sv_in_accur_limit()), ("reserved3", &r.reserved3())]) }
pub fn named_CfgTp5(r: &CfgTp5Ref, k: &mut dyn FnMut(&'static str, &[Named])) { k("CfgTp5", &[("tp_idx", &r.tp_idx()), ("version", &r.version()), ("reserved1", &r.reserved1()), ("ant_cable_delay", &r.ant_cable_delay()), ("rf_group_delay", &r.rf_group_delay()), ("freq_period", &r.freq_period()), ("freq_period_lock", &r.freq_period_lock()), ("pulse_len_ratio", &r.pulse_len_ratio()), ("pulse_len_ratio_lock", &r.pulse_len_ratio_lock()), ("user_delay", &r.user_delay()), ("flags", &r.flags())]) }
pub fn named_InfError(r: &InfErrorRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("InfError", &[("message", &r.message())]) }
pub fn named_InfWarning(r: &InfWarningRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("InfWarning", &[("message", &r.message())]) }
pub fn named_InfNotice(r: &InfNoticeRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("InfNotice", &[("message", &r.message())]) }
pub fn named_InfTest(r: &InfTestRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("InfTest", &[("message", &r.message())]) }
pub fn named_InfDebug(r: &InfDebugRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("InfDebug", &[("message", &r.message())]) }
pub fn named_RxmRawx(r: &RxmRawxRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("RxmRawx", &[("rcv_tow", &r.rcv_tow()), ("week", &r.week()), ("leap_s", &r.leap_s()), ("num_meas", &r.num_meas()), ("rec_stat", &r.rec_stat()), ("version", &r.version()), ("reserved1", &r.reserved1()), ("measurements", &r.measurements())]) }
pub fn named_TimTp(r: &TimTpRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("TimTp", &[("tow_ms", &r.tow_ms()), ("tow_sub_ms", &r.tow_sub_ms()), ("q_err", &r.q_err()), ("week", &r.week()), ("flags", &r.flags()), ("ref_info", &r.ref_info())]) }
pub fn named_TimTm2(r: &TimTm2Ref, k: &mut dyn FnMut(&'static str, &[Named])) { k("TimTm2", &[("ch", &r.ch()), ("flags", &r.flags()), ("count", &r.count()), ("wn_r", &r.wn_r()), ("wn_f", &r.wn_f()), ("tow_ms_r", &r.tow_ms_r()), ("tow_sub_ms_r", &r.tow_sub_ms_r()), ("tow_ms_f", &r.tow_ms_f()), ("tow_sub_ms_f", &r.tow_sub_ms_f()), ("acc_est", &r.acc_est())]) }
pub fn named_MonVer(r: &MonVerRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("MonVer", &[("software_version", &r.software_version()), ("hardware_version", &r.hardware_version()), ("extension", &r.extension())]) }
pub fn named_MonGnss(r: &MonGnssRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("MonGnss", &[("version", &r.version()), ("supported", &r.supported()), ("default", &r.default()), ("enabled", &r.enabled()), ("simultaneous", &r.simultaneous()), ("reserved1", &r.reserved1())]) }
pub fn named_MonHw(r: &MonHwRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("MonHw", &[("pin_sel", &r.pin_sel()), ("pin_bank", &r.pin_bank()), ("pin_dir", &r.pin_dir()), ("pin_val", &r.pin_val()), ("noise_per_ms", &r.noise_per_ms()), ("agc_cnt", &r.agc_cnt()), ("a_status", &r.a_status()), ("a_power", &r.a_power()), ("flags", &r.flags()), ("reserved1", &r.reserved1()), ("used_mask", &r.used_mask()), ("vp", &r.vp()), ("jam_ind", &r.jam_ind()), ("reserved2", &r.reserved2()), ("pin_irq", &r.pin_irq()), ("pull_h", &r.pull_h()), ("pull_l", &r.pull_l())]) }
pub fn named_RxmRtcm(r: &RxmRtcmRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("RxmRtcm", &[("version", &r.version()), ("flags", &r.flags()), ("sub_type", &r.sub_type()), ("ref_station", &r.ref_station()), ("msg_type", &r.msg_type())]) }
pub fn named_EsfMeas(r: &EsfMeasRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("EsfMeas", &[("time_tag", &r.time_tag()), ("flags", &r.flags()), ("id", &r.id()), ("data", &r.data()), ("calib_tag", &r.calib_tag())]) }
pub fn named_EsfIns(r: &EsfInsRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("EsfIns", &[("bit_field", &r.bit_field()), ("reserved", &r.reserved()), ("itow", &r.itow()), ("x_ang_rate", &r.x_angular_rate()), ("y_ang_rate", &r.y_angular_rate()), ("z_ang_rate", &r.z_angular_rate()), ("x_accel", &r.x_acceleration()), ("y_accel", &r.y_acceleration()), ("z_accel", &r.z_acceleration())]) }
pub fn named_HnrAtt(r: &HnrAttRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("HnrAtt", &[("itow", &r.itow()), ("version", &r.version()), ("reserved1", &r.reserved1()), ("roll", &r.vehicle_roll()), ("pitch", &r.vehicle_pitch()), ("heading", &r.vehicle_heading()), ("acc_roll", &r.vehicle_roll_accuracy()), ("acc_pitch", &r.vehicle_pitch_accuracy()), ("acc_heading", &r.vehicle_heading_accuracy())]) }
pub fn named_HnrIns(r: &HnrInsRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("HnrIns", &[("bit_field", &r.bit_field()), ("reserved", &r.reserved()), ("itow", &r.itow()), ("x_ang_rate", &r.x_angular_rate()), ("y_ang_rate", &r.y_angular_rate()), ("z_ang_rate", &r.z_angular_rate()), ("x_accel", &r.x_acceleration()), ("y_accel", &r.y_acceleration()), ("z_accel", &r.z_acceleration())]) }
pub fn named_HnrPvt(r: &HnrPvtRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("HnrPvt", &[("itow", &r.itow()), ("year", &r.year()), ("month", &r.month()), ("day", &r.day()), ("hour", &r.hour()), ("min", &r.min()), ("sec", &r.sec()), ("valid", &r.valid()), ("nano", &r.nano()), ("gps_fix", &r.gps_fix()), ("flags", &r.flags()), ("reserved1", &r.reserved1()), ("lon", &r.longitude()), ("lat", &r.latitude()), ("height", &r.height_above_ellipsoid()), ("height_msl", &r.height_msl()), ("g_speed", &r.ground_speed_2d()), ("speed", &r.speed_3d()), ("head_mot", &r.heading_motion()), ("head_veh", &r.heading_vehicle()), ("h_acc", &r.h_acc()), ("v_acc", &r.v_acc()), ("s_acc", &r.s_acc()), ("head_acc", &r.heading_accurracy()), ("reserved2", &r.reserved2())]) }
pub fn named_NavAtt(r: &NavAttRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavAtt", &[("itow", &r.itow()), ("version", &r.version()), ("reserved1", &r.reserved1()), ("roll", &r.vehicle_roll()), ("pitch", &r.vehicle_pitch()), ("heading", &r.vehicle_heading()), ("acc_roll", &r.vehicle_roll_accuracy()), ("acc_pitch", &r.vehicle_pitch_accuracy()), ("acc_heading", &r.vehicle_heading_accuracy())]) }
pub fn named_NavClock(r: &NavClockRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavClock", &[("itow", &r.itow()), ("clk_b", &r.clk_b()), ("clk_d", &r.clk_d()), ("t_acc", &r.t_acc()), ("f_acc", &r.f_acc())]) }
pub fn named_NavVelECEF(r: &NavVelECEFRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavVelECEF", &[("itow", &r.itow()), ("ecef_vx", &r.ecef_vx()), ("ecef_vy", &r.ecef_vy()), ("ecef_vz", &r.ecef_vz()), ("s_acc", &r.s_acc())]) }
pub fn named_MgaGpsEPH(r: &MgaGpsEPHRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("MgaGpsEPH", &[("msg_type", &r.msg_type()), ("version", &r.version()), ("sv_id", &r.sv_id()), ("reserved1", &r.reserved1()), ("fit_interval", &r.fit_interval()), ("ura_index", &r.ura_index()), ("sv_health", &r.sv_health()), ("tgd", &r.tgd()), ("iodc", &r.iodc()), ("toc", &r.toc()), ("reserved2", &r.reserved2()), ("af2", &r.af2()), ("afl", &r.afl()), ("af0", &r.af0()), ("crs", &r.crs()), ("delta_n", &r.delta_n()), ("m0", &r.m0()), ("cuc", &r.cuc()), ("cus", &r.cus()), ("e", &r.e()), ("sqrt_a", &r.sqrt_a()), ("toe", &r.toe()), ("cic", &r.cic()), ("omega0", &r.omega0()), ("cis", &r.cis()), ("crc", &r.crc()), ("i0", &r.i0()), ("omega", &r.omega()), ("omega_dot", &r.omega_dot()), ("idot", &r.idot()), ("reserved3", &r.reserved3())]) }
pub fn named_RxmSfrbx(r: &RxmSfrbxRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("RxmSfrbx", &[("gnss_id", &r.gnss_id()), ("sv_id", &r.sv_id()), ("reserved1", &r.reserved1()), ("freq_id", &r.freq_id()), ("num_words", &r.num_words()), ("reserved2", &r.reserved2()), ("version", &r.version()), ("reserved3", &r.reserved3()), ("dwrd", &r.dwrd())]) }
pub fn named_EsfRaw(r: &EsfRawRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("EsfRaw", &[("msss", &r.msss()), ("data", &r.data())]) }
pub fn named_TimSvin(r: &TimSvinRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("TimSvin", &[("dur", &r.dur()), ("mean_x", &r.mean_x()), ("mean_y", &r.mean_y()), ("mean_z", &r.mean_z()), ("mean_v", &r.mean_v()), ("obs", &r.obs()), ("valid", &r.valid()), ("active", &r.active()), ("reserved", &r.reserved())]) }
pub fn named_SecUniqId(r: &SecUniqIdRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("SecUniqId", &[("version", &r.version()), ("reserved1", &r.reserved1()), ("unique_id", &r.unique_id())]) }
pub fn named_NavSatSvInfo(r: &NavSatSvInfoRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("NavSatSvInfo", &[("gnss_id", &r.gnss_id()), ("sv_id", &r.sv_id()), ("cno", &r.cno()), ("elev", &r.elev()), ("azim", &r.azim()), ("pr_res", &r.pr_res()), ("flags", &r.flags())]) }
pub fn named_RxmRawxInfo(r: &RxmRawxInfoRef, k: &mut dyn FnMut(&'static str, &[Named])) { k("RxmRawxInfo", &[("pr_mes", &r.pr_mes()), ("cp_mes", &r.cp_mes()), ("do_mes", &r.do_mes()), ("gnss_id", &r.gnss_id()), ("sv_id", &r.sv_id()), ("reserved2", &r.reserved2()), ("freq_id", &r.freq_id()), ("lock_time", &r.lock_time()), ("cno", &r.cno()), ("pr_stdev", &r.pr_stdev()), ("cp_stdev", &r.cp_stdev()), ("do_stdev", &r.do_stdev()), ("trk_stat", &r.trk_stat()), ("reserved3", &r.reserved3())]) }
/// Every field of a packet in the order of its definition, unlike `observe` with the repeated parts.
pub fn named(p: &PacketRef, k: &mut dyn FnMut(&'static str, &[Named])) -> bool {
    match p {
        PacketRef::NavPosLlh(r) => named_NavPosLlh(r, k),
        PacketRef::NavStatus(r) => named_NavStatus(r, k),
        PacketRef::NavDop(r) => named_NavDop(r, k),
        PacketRef::NavPvt(r) => named_NavPvt(r, k),
        PacketRef::NavSolution(r) => named_NavSolution(r, k),
        PacketRef::NavVelNed(r) => named_NavVelNed(r, k),
        PacketRef::NavHpPosLlh(r) => named_NavHpPosLlh(r, k),
        PacketRef::NavHpPosEcef(r) => named_NavHpPosEcef(r, k),
        PacketRef::NavTimeUTC(r) => named_NavTimeUTC(r, k),
        PacketRef::NavTimeLs(r) => named_NavTimeLs(r, k),
        PacketRef::NavSat(r) => named_NavSat(r, k),
        PacketRef::NavEoe(r) => named_NavEoe(r, k),
        PacketRef::NavOdo(r) => named_NavOdo(r, k),
        PacketRef::CfgOdo(r) => named_CfgOdo(r, k),
        PacketRef::MgaAck(r) => named_MgaAck(r, k),
        PacketRef::MgaGpsIono(r) => named_MgaGpsIono(r, k),
        PacketRef::MgaGpsEph(r) => named_MgaGpsEph(r, k),
        PacketRef::MgaGloEph(r) => named_MgaGloEph(r, k),
        PacketRef::AlpSrv(r) => named_AlpSrv(r, k),
        PacketRef::AckAck(r) => named_AckAck(r, k),
        PacketRef::AckNak(r) => named_AckNak(r, k),
        PacketRef::CfgItfm(r) => named_CfgItfm(r, k),
        PacketRef::CfgPrtI2c(r) => named_CfgPrtI2c(r, k),
        PacketRef::CfgPrtSpi(r) => named_CfgPrtSpi(r, k),
        PacketRef::CfgPrtUart(r) => named_CfgPrtUart(r, k),
        PacketRef::CfgNav5(r) => named_CfgNav5(r, k),
        PacketRef::CfgAnt(r) => named_CfgAnt(r, k),
        PacketRef::CfgTmode2(r) => named_CfgTmode2(r, k),
        PacketRef::CfgTmode3(r) => named_CfgTmode3(r, k),
        PacketRef::CfgTp5(r) => named_CfgTp5(r, k),
        PacketRef::InfError(r) => named_InfError(r, k),
        PacketRef::InfWarning(r) => named_InfWarning(r, k),
        PacketRef::InfNotice(r) => named_InfNotice(r, k),
        PacketRef::InfTest(r) => named_InfTest(r, k),
        PacketRef::InfDebug(r) => named_InfDebug(r, k),
        PacketRef::RxmRawx(r) => named_RxmRawx(r, k),
        PacketRef::TimTp(r) => named_TimTp(r, k),
        PacketRef::TimTm2(r) => named_TimTm2(r, k),
        PacketRef::MonVer(r) => named_MonVer(r, k),
        PacketRef::MonGnss(r) => named_MonGnss(r, k),
        PacketRef::MonHw(r) => named_MonHw(r, k),
        PacketRef::RxmRtcm(r) => named_RxmRtcm(r, k),
        PacketRef::EsfMeas(r) => named_EsfMeas(r, k),
        PacketRef::EsfIns(r) => named_EsfIns(r, k),
        PacketRef::HnrAtt(r) => named_HnrAtt(r, k),
        PacketRef::HnrIns(r) => named_HnrIns(r, k),
        PacketRef::HnrPvt(r) => named_HnrPvt(r, k),
        PacketRef::NavAtt(r) => named_NavAtt(r, k),
        PacketRef::NavClock(r) => named_NavClock(r, k),
        PacketRef::NavVelECEF(r) => named_NavVelECEF(r, k),
        PacketRef::MgaGpsEPH(r) => named_MgaGpsEPH(r, k),
        PacketRef::RxmSfrbx(r) => named_RxmSfrbx(r, k),
        PacketRef::EsfRaw(r) => named_EsfRaw(r, k),
        PacketRef::TimSvin(r) => named_TimSvin(r, k),
        PacketRef::SecUniqId(r) => named_SecUniqId(r, k),
        _ => return false,
    }
    true
}

pub fn uart_mode(raw: u32) -> UartMode {
    UartMode::new(
        if raw >> 6 & 3 == 2 { DataBits::Seven } else { DataBits::Eight },
        match raw >> 9 & 7 { 0 => Parity::Even, 1 => Parity::Odd, _ => Parity::None },
        match raw >> 12 & 3 { 0 => StopBits::One, 1 => StopBits::OneHalf, 2 => StopBits::Two, _ => StopBits::Half },
    )
}

pub fn mk_NavResetOdo(v: &[FV]) -> NavResetOdoBuilder { NavResetOdoBuilder {  } }
pub fn mk_CfgOdo(v: &[FV]) -> CfgOdoBuilder { CfgOdoBuilder { version: v[0].i as _, reserved: v[1].arr(), flags: OdoCogFilterFlags::from_bits_truncate(v[2].i as _), odo_cfg: match v[3].i { 0 => OdoProfile::Running, 1 => OdoProfile::Cycling, 2 => OdoProfile::Swimming, 3 => OdoProfile::Car, 4 => OdoProfile::Custom, x => panic!("no variant {x}") }, reserved2: v[4].arr(), cog_max_speed: v[5].i as _, cog_max_pos_acc: v[6].i as _, reserved3: v[7].arr(), vel_lp_gain: v[8].i as _, cog_lp_gain: v[9].i as _, reserved4: v[10].arr() } }
pub fn mk_CfgItfm(v: &[FV]) -> CfgItfmBuilder { CfgItfmBuilder { config: CfgItfmConfig::from(v[0].i as u32), config2: CfgItfmConfig2::from(v[1].i as u32) } }
pub fn mk_CfgInf(v: &[FV]) -> CfgInfBuilder { CfgInfBuilder { protocol_id: v[0].i as _, reserved: v[1].arr(), inf_msg_mask_0: CfgInfMask::from_bits_truncate(v[2].i as _), inf_msg_mask_1: CfgInfMask::from_bits_truncate(v[3].i as _), inf_msg_mask_2: CfgInfMask::from_bits_truncate(v[4].i as _), inf_msg_mask_3: CfgInfMask::from_bits_truncate(v[5].i as _), inf_msg_mask_4: CfgInfMask::from_bits_truncate(v[6].i as _), inf_msg_mask_5: CfgInfMask::from_bits_truncate(v[7].i as _) } }
pub fn mk_AidIni(v: &[FV]) -> AidIniBuilder { AidIniBuilder { ecef_x_or_lat: v[0].i as _, ecef_y_or_lon: v[1].i as _, ecef_z_or_alt: v[2].i as _, pos_accuracy: v[3].i as _, time_cfg: v[4].i as _, week_or_ym: v[5].i as _, tow_or_hms: v[6].i as _, tow_ns: v[7].i as _, tm_accuracy_ms: v[8].i as _, tm_accuracy_ns: v[9].i as _, clk_drift_or_freq: v[10].i as _, clk_drift_or_freq_accuracy: v[11].i as _, flags: v[12].i as _ } }
pub fn mk_CfgRst(v: &[FV]) -> CfgRstBuilder { CfgRstBuilder { nav_bbr_mask: NavBbrMask::from_bits_truncate(v[0].i as _), reset_mode: match v[1].i { 0 => ResetMode::HardwareResetImmediately, 1 => ResetMode::ControlledSoftwareReset, 2 => ResetMode::ControlledSoftwareResetGpsOnly, 4 => ResetMode::HardwareResetAfterShutdown, 8 => ResetMode::ControlledGpsStop, _ => ResetMode::ControlledGpsStart }, reserved1: v[2].i as _ } }
pub fn mk_CfgAnt(v: &[FV]) -> CfgAntBuilder { CfgAntBuilder { flags: AntFlags::from_bits_truncate(v[0].i as _), pins: v[1].i as _ } }
pub fn mk_CfgTp5(v: &[FV]) -> CfgTp5Builder { CfgTp5Builder { tp_idx: match v[0].i { 0 => CfgTp5TimePulseMode::TimePulse, 1 => CfgTp5TimePulseMode::TimePulse2, x => panic!("no variant {x}") }, version: v[1].i as _, reserved1: v[2].arr(), ant_cable_delay: v[3].f as _, rf_group_delay: v[4].f as _, freq_period: v[5].f as _, freq_period_lock: v[6].f as _, pulse_len_ratio: v[7].f as _, pulse_len_ratio_lock: v[8].f as _, user_delay: v[9].f as _, flags: CfgTp5Flags::from_bits_truncate(v[10].i as _) } }
pub fn mk_CfgTmode2(v: &[FV]) -> CfgTmode2Builder { CfgTmode2Builder { time_transfer_mode: match v[0].i { 0 => CfgTmode2TimeXferModes::Disabled, 1 => CfgTmode2TimeXferModes::SurveyIn, 2 => CfgTmode2TimeXferModes::FixedMode, x => panic!("no variant {x}") }, reserved1: v[1].i as _, flags: CfgTmode2Flags::from_bits_truncate(v[2].i as _), ecef_x_or_lat: v[3].f as _, ecef_y_or_lon: v[4].f as _, ecef_z_or_alt: v[5].f as _, fixed_pos_acc: v[6].f as _, survey_in_min_duration: v[7].i as _, survery_in_accur_limit: v[8].f as _ } }
pub fn mk_CfgTmode3(v: &[FV]) -> CfgTmode3Builder { CfgTmode3Builder { version: v[0].i as _, reserved1: v[1].i as _, rcvr_mode: CfgTmode3RcvrMode::from_bits_truncate(v[2].i as _), flags: CfgTmode3Flags::from_bits_truncate(v[3].i as _), ecef_x_or_lat: v[4].f as _, ecef_y_or_lon: v[5].f as _, ecef_z_or_alt: v[6].f as _, ecef_x_or_lat_hp: v[7].f as _, ecef_y_or_lon_hp: v[8].f as _, ecef_z_or_alt_hp: v[9].f as _, reserved2: v[10].i as _, fixed_pos_acc: v[11].f as _, sv_in_min_duration: v[12].i as _, sv_in_accur_limit: v[13].f as _, reserved3: v[14].arr() } }
pub fn mk_CfgPrtI2c(v: &[FV]) -> CfgPrtI2cBuilder { CfgPrtI2cBuilder { portid: match v[0].i { 0 => I2cPortId::I2c, x => panic!("no variant {x}") }, reserved1: v[1].i as _, tx_ready: v[2].i as _, mode: v[3].i as _, reserved2: v[4].i as _, in_proto_mask: InProtoMask::from_bits_truncate(v[5].i as _), out_proto_mask: OutProtoMask::from_bits_truncate(v[6].i as _), flags: v[7].i as _, reserved3: v[8].i as _ } }
pub fn mk_CfgPrtUart(v: &[FV]) -> CfgPrtUartBuilder { CfgPrtUartBuilder { portid: match v[0].i { 1 => UartPortId::Uart1, 2 => UartPortId::Uart2, 3 => UartPortId::Usb, x => panic!("no variant {x}") }, reserved0: v[1].i as _, tx_ready: v[2].i as _, mode: uart_mode(v[3].i as u32), baud_rate: v[4].i as _, in_proto_mask: InProtoMask::from_bits_truncate(v[5].i as _), out_proto_mask: OutProtoMask::from_bits_truncate(v[6].i as _), flags: v[7].i as _, reserved5: v[8].i as _ } }
pub fn mk_CfgPrtSpi(v: &[FV]) -> CfgPrtSpiBuilder { CfgPrtSpiBuilder { portid: match v[0].i { 4 => SpiPortId::Spi, x => panic!("no variant {x}") }, reserved0: v[1].i as _, tx_ready: v[2].i as _, mode: v[3].i as _, reserved3: v[4].i as _, in_proto_mask: InProtoMask::from_bits_truncate(v[5].i as _), out_proto_mask: OutProtoMask::from_bits_truncate(v[6].i as _), flags: v[7].i as _, reserved5: v[8].i as _ } }
pub fn mk_CfgRate(v: &[FV]) -> CfgRateBuilder { CfgRateBuilder { measure_rate_ms: v[0].i as _, nav_rate: v[1].i as _, time_ref: match v[2].i { 0 => AlignmentToReferenceTime::Utc, 1 => AlignmentToReferenceTime::Gps, 2 => AlignmentToReferenceTime::Glo, 3 => AlignmentToReferenceTime::Bds, _ => AlignmentToReferenceTime::Gal } } }
pub fn mk_CfgMsgSinglePort(v: &[FV]) -> CfgMsgSinglePortBuilder { CfgMsgSinglePortBuilder { msg_class: v[0].i as _, msg_id: v[1].i as _, rate: v[2].i as _ } }
pub fn mk_CfgMsgAllPorts(v: &[FV]) -> CfgMsgAllPortsBuilder { CfgMsgAllPortsBuilder { msg_class: v[0].i as _, msg_id: v[1].i as _, rates: v[2].arr() } }
pub fn mk_CfgNav5(v: &[FV]) -> CfgNav5Builder { CfgNav5Builder { mask: CfgNav5Params::from_bits_truncate(v[0].i as _), dyn_model: match v[1].i { 0 => CfgNav5DynModel::Portable, 2 => CfgNav5DynModel::Stationary, 3 => CfgNav5DynModel::Pedestrian, 4 => CfgNav5DynModel::Automotive, 5 => CfgNav5DynModel::Sea, 6 => CfgNav5DynModel::AirborneWithLess1gAcceleration, 7 => CfgNav5DynModel::AirborneWithLess2gAcceleration, 8 => CfgNav5DynModel::AirborneWith4gAcceleration, 9 => CfgNav5DynModel::WristWornWatch, 10 => CfgNav5DynModel::Bike, x => panic!("no variant {x}") }, fix_mode: match v[2].i { 1 => CfgNav5FixMode::Only2D, 2 => CfgNav5FixMode::Only3D, 3 => CfgNav5FixMode::Auto2D3D, x => panic!("no variant {x}") }, fixed_alt: v[3].f as _, fixed_alt_var: v[4].f as _, min_elev_degrees: v[5].i as _, dr_limit: v[6].i as _, pdop: v[7].f as _, tdop: v[8].f as _, pacc: v[9].i as _, tacc: v[10].i as _, static_hold_thresh: v[11].f as _, dgps_time_out: v[12].i as _, cno_thresh_num_svs: v[13].i as _, cno_thresh: v[14].i as _, reserved1: v[15].arr(), static_hold_max_dist: v[16].i as _, utc_standard: match v[17].i { 0 => CfgNav5UtcStandard::Automatic, 3 => CfgNav5UtcStandard::Usno, 6 => CfgNav5UtcStandard::UtcSu, 7 => CfgNav5UtcStandard::UtcChina, x => panic!("no variant {x}") }, reserved2: v[18].arr() } }
pub fn mk_CfgNavX5(v: &[FV]) -> CfgNavX5Builder { CfgNavX5Builder { version: v[0].i as _, mask1: CfgNavX5Params1::from_bits_truncate(v[1].i as _), mask2: CfgNavX5Params2::from_bits_truncate(v[2].i as _), reserved1: v[3].arr(), min_svs: v[4].i as _, max_svs: v[5].i as _, min_cno_dbhz: v[6].i as _, reserved2: v[7].i as _, ini_fix_3d: v[8].i as _, reserved3: v[9].arr(), ack_aiding: v[10].i as _, wkn_rollover: v[11].i as _, sig_atten_comp_mode: v[12].i as _, reserved4: v[13].i as _, reserved5: v[14].arr(), reserved6: v[15].arr(), use_ppp: v[16].i as _, aop_cfg: v[17].i as _, reserved7: v[18].arr(), aop_orb_max_err: v[19].i as _, reserved8: v[20].arr(), reserved9: v[21].arr(), use_adr: v[22].i as _ } }
/// Runs `e` on the builder of a definition with the given field values.
pub fn build<T: Emit>(pk: usize, v: &[FV], e: &mut T) -> bool {
    match pk {
        PK_NavResetOdo => e.emit(|| mk_NavResetOdo(v), NavResetOdoBuilder::into_packet_bytes, <[u8; NavResetOdoBuilder::PACKET_LEN]>::from),
        PK_CfgOdo => e.emit(|| mk_CfgOdo(v), CfgOdoBuilder::into_packet_bytes, <[u8; CfgOdoBuilder::PACKET_LEN]>::from),
        PK_CfgItfm => e.emit(|| mk_CfgItfm(v), CfgItfmBuilder::into_packet_bytes, <[u8; CfgItfmBuilder::PACKET_LEN]>::from),
        PK_CfgInf => e.emit(|| mk_CfgInf(v), CfgInfBuilder::into_packet_bytes, <[u8; CfgInfBuilder::PACKET_LEN]>::from),
        PK_AidIni => e.emit(|| mk_AidIni(v), AidIniBuilder::into_packet_bytes, <[u8; AidIniBuilder::PACKET_LEN]>::from),
        PK_CfgRst => e.emit(|| mk_CfgRst(v), CfgRstBuilder::into_packet_bytes, <[u8; CfgRstBuilder::PACKET_LEN]>::from),
        PK_CfgAnt => e.emit(|| mk_CfgAnt(v), CfgAntBuilder::into_packet_bytes, <[u8; CfgAntBuilder::PACKET_LEN]>::from),
        PK_CfgTp5 => e.emit(|| mk_CfgTp5(v), CfgTp5Builder::into_packet_bytes, <[u8; CfgTp5Builder::PACKET_LEN]>::from),
        PK_CfgTmode2 => e.emit(|| mk_CfgTmode2(v), CfgTmode2Builder::into_packet_bytes, <[u8; CfgTmode2Builder::PACKET_LEN]>::from),
        PK_CfgTmode3 => e.emit(|| mk_CfgTmode3(v), CfgTmode3Builder::into_packet_bytes, <[u8; CfgTmode3Builder::PACKET_LEN]>::from),
        PK_CfgPrtI2c => e.emit(|| mk_CfgPrtI2c(v), CfgPrtI2cBuilder::into_packet_bytes, <[u8; CfgPrtI2cBuilder::PACKET_LEN]>::from),
        PK_CfgPrtUart => e.emit(|| mk_CfgPrtUart(v), CfgPrtUartBuilder::into_packet_bytes, <[u8; CfgPrtUartBuilder::PACKET_LEN]>::from),
        PK_CfgPrtSpi => e.emit(|| mk_CfgPrtSpi(v), CfgPrtSpiBuilder::into_packet_bytes, <[u8; CfgPrtSpiBuilder::PACKET_LEN]>::from),
        PK_CfgRate => e.emit(|| mk_CfgRate(v), CfgRateBuilder::into_packet_bytes, <[u8; CfgRateBuilder::PACKET_LEN]>::from),
        PK_CfgMsgSinglePort => e.emit(|| mk_CfgMsgSinglePort(v), CfgMsgSinglePortBuilder::into_packet_bytes, <[u8; CfgMsgSinglePortBuilder::PACKET_LEN]>::from),
        PK_CfgMsgAllPorts => e.emit(|| mk_CfgMsgAllPorts(v), CfgMsgAllPortsBuilder::into_packet_bytes, <[u8; CfgMsgAllPortsBuilder::PACKET_LEN]>::from),
        PK_CfgNav5 => e.emit(|| mk_CfgNav5(v), CfgNav5Builder::into_packet_bytes, <[u8; CfgNav5Builder::PACKET_LEN]>::from),
        PK_CfgNavX5 => e.emit(|| mk_CfgNavX5(v), CfgNavX5Builder::into_packet_bytes, <[u8; CfgNavX5Builder::PACKET_LEN]>::from),
        _ => return false,
    }
    true
}
pub fn build_default<T: Emit>(pk: usize, e: &mut T) -> bool {
    match pk {
        PK_CfgOdo => e.emit(|| CfgOdoBuilder::default(), CfgOdoBuilder::into_packet_bytes, <[u8; CfgOdoBuilder::PACKET_LEN]>::from),
        PK_CfgInf => e.emit(|| CfgInfBuilder::default(), CfgInfBuilder::into_packet_bytes, <[u8; CfgInfBuilder::PACKET_LEN]>::from),
        PK_AidIni => e.emit(|| AidIniBuilder::default(), AidIniBuilder::into_packet_bytes, <[u8; AidIniBuilder::PACKET_LEN]>::from),
        PK_CfgTp5 => e.emit(|| CfgTp5Builder::default(), CfgTp5Builder::into_packet_bytes, <[u8; CfgTp5Builder::PACKET_LEN]>::from),
        PK_CfgTmode2 => e.emit(|| CfgTmode2Builder::default(), CfgTmode2Builder::into_packet_bytes, <[u8; CfgTmode2Builder::PACKET_LEN]>::from),
        PK_CfgTmode3 => e.emit(|| CfgTmode3Builder::default(), CfgTmode3Builder::into_packet_bytes, <[u8; CfgTmode3Builder::PACKET_LEN]>::from),
        PK_CfgPrtI2c => e.emit(|| CfgPrtI2cBuilder::default(), CfgPrtI2cBuilder::into_packet_bytes, <[u8; CfgPrtI2cBuilder::PACKET_LEN]>::from),
        PK_CfgPrtSpi => e.emit(|| CfgPrtSpiBuilder::default(), CfgPrtSpiBuilder::into_packet_bytes, <[u8; CfgPrtSpiBuilder::PACKET_LEN]>::from),
        PK_CfgNav5 => e.emit(|| CfgNav5Builder::default(), CfgNav5Builder::into_packet_bytes, <[u8; CfgNav5Builder::PACKET_LEN]>::from),
        PK_CfgNavX5 => e.emit(|| CfgNavX5Builder::default(), CfgNavX5Builder::into_packet_bytes, <[u8; CfgNavX5Builder::PACKET_LEN]>::from),
        _ => return false,
    }
    true
}
/// Named flags as the code under test defines them: index into FLAGS, name, bits.
pub fn flag_consts() -> Vec<(usize, &'static str, u64)> {
    vec![
        (0, "INVALID_ECEF", NavHpPosEcefFlags::INVALID_ECEF.bits() as u64),
        (1, "GPS_FIX_OK", NavPvtFlags::GPS_FIX_OK.bits() as u64),
        (1, "DIFF_SOLN", NavPvtFlags::DIFF_SOLN.bits() as u64),
        (1, "HEAD_VEH_VALID", NavPvtFlags::HEAD_VEH_VALID.bits() as u64),
        (1, "CARR_SOLN_FLOAT", NavPvtFlags::CARR_SOLN_FLOAT.bits() as u64),
        (1, "CARR_SOLN_FIXED", NavPvtFlags::CARR_SOLN_FIXED.bits() as u64),
        (2, "CONFIRMED_AVAI", NavPvtFlags2::CONFIRMED_AVAI.bits() as u64),
        (2, "CONFIRMED_DATE", NavPvtFlags2::CONFIRMED_DATE.bits() as u64),
        (2, "CONFIRMED_TIME", NavPvtFlags2::CONFIRMED_TIME.bits() as u64),
        (3, "GPS_FIX_OK", NavStatusFlags::GPS_FIX_OK.bits() as u64),
        (3, "DIFF_SOLN", NavStatusFlags::DIFF_SOLN.bits() as u64),
        (3, "WKN_SET", NavStatusFlags::WKN_SET.bits() as u64),
        (3, "TOW_SET", NavStatusFlags::TOW_SET.bits() as u64),
        (4, "USE_ODO", OdoCogFilterFlags::USE_ODO.bits() as u64),
        (4, "USE_COG", OdoCogFilterFlags::USE_COG.bits() as u64),
        (4, "OUT_LP_VEL", OdoCogFilterFlags::OUT_LP_VEL.bits() as u64),
        (4, "OUT_LP_COG", OdoCogFilterFlags::OUT_LP_COG.bits() as u64),
        (5, "ERROR", CfgInfMask::ERROR.bits() as u64),
        (5, "WARNING", CfgInfMask::WARNING.bits() as u64),
        (5, "NOTICE", CfgInfMask::NOTICE.bits() as u64),
        (5, "TEST", CfgInfMask::TEST.bits() as u64),
        (5, "DEBUG", CfgInfMask::DEBUG.bits() as u64),
        (6, "SVCS", AntFlags::SVCS.bits() as u64),
        (6, "SCD", AntFlags::SCD.bits() as u64),
        (6, "OCD", AntFlags::OCD.bits() as u64),
        (6, "PDWN_ON_SCD", AntFlags::PDWN_ON_SCD.bits() as u64),
        (6, "RECOVERY", AntFlags::RECOVERY.bits() as u64),
        (7, "LLA", CfgTmode2Flags::LLA.bits() as u64),
        (7, "ALT_INVALID", CfgTmode2Flags::ALT_INVALID.bits() as u64),
        (8, "VALID_CURR_LS", NavTimeLsFlags::VALID_CURR_LS.bits() as u64),
        (8, "VALID_TIME_TO_LS_EVENT", NavTimeLsFlags::VALID_TIME_TO_LS_EVENT.bits() as u64),
        (9, "DISABLED", CfgTmode3RcvrMode::DISABLED.bits() as u64),
        (9, "SURVEY_IN", CfgTmode3RcvrMode::SURVEY_IN.bits() as u64),
        (9, "FIXED_MODE", CfgTmode3RcvrMode::FIXED_MODE.bits() as u64),
        (10, "ACTIVE", CfgTp5Flags::ACTIVE.bits() as u64),
        (10, "LOCK_GNSS_FREQ", CfgTp5Flags::LOCK_GNSS_FREQ.bits() as u64),
        (10, "LOCKED_OTHER_SET", CfgTp5Flags::LOCKED_OTHER_SET.bits() as u64),
        (10, "IS_FREQ", CfgTp5Flags::IS_FREQ.bits() as u64),
        (10, "IS_LENGTH", CfgTp5Flags::IS_LENGTH.bits() as u64),
        (10, "ALIGN_TO_TOW", CfgTp5Flags::ALIGN_TO_TOW.bits() as u64),
        (10, "POLARITY", CfgTp5Flags::POLARITY.bits() as u64),
        (10, "UTC_TIME_GRID", CfgTp5Flags::UTC_TIME_GRID.bits() as u64),
        (10, "GPS_TIME_GRID", CfgTp5Flags::GPS_TIME_GRID.bits() as u64),
        (10, "GLO_TIME_GRID", CfgTp5Flags::GLO_TIME_GRID.bits() as u64),
        (10, "BDS_TIME_GRID", CfgTp5Flags::BDS_TIME_GRID.bits() as u64),
        (10, "GAL_TIME_GRID", CfgTp5Flags::GAL_TIME_GRID.bits() as u64),
        (10, "SYNC_MODE_0", CfgTp5Flags::SYNC_MODE_0.bits() as u64),
        (10, "SYNC_MODE_1", CfgTp5Flags::SYNC_MODE_1.bits() as u64),
        (11, "LLA", CfgTmode3Flags::LLA.bits() as u64),
        (12, "EPHEMERIS", NavBbrMask::EPHEMERIS.bits() as u64),
        (12, "ALMANACH", NavBbrMask::ALMANACH.bits() as u64),
        (12, "HEALTH", NavBbrMask::HEALTH.bits() as u64),
        (12, "KLOBUCHARD", NavBbrMask::KLOBUCHARD.bits() as u64),
        (12, "POSITION", NavBbrMask::POSITION.bits() as u64),
        (12, "CLOCK_DRIFT", NavBbrMask::CLOCK_DRIFT.bits() as u64),
        (12, "OSCILATOR_PARAMETER", NavBbrMask::OSCILATOR_PARAMETER.bits() as u64),
        (12, "UTC_CORRECTION_PARAMETERS", NavBbrMask::UTC_CORRECTION_PARAMETERS.bits() as u64),
        (12, "RTC", NavBbrMask::RTC.bits() as u64),
        (12, "SFDR_PARAMETERS", NavBbrMask::SFDR_PARAMETERS.bits() as u64),
        (12, "SFDR_VEHICLE_MONITORING_PARAMETERS", NavBbrMask::SFDR_VEHICLE_MONITORING_PARAMETERS.bits() as u64),
        (12, "TCT_PARAMETERS", NavBbrMask::TCT_PARAMETERS.bits() as u64),
        (12, "AUTONOMOUS_ORBIT_PARAMETERS", NavBbrMask::AUTONOMOUS_ORBIT_PARAMETERS.bits() as u64),
        (13, "RAM", CfgLayer::RAM.bits() as u64),
        (13, "BBR", CfgLayer::BBR.bits() as u64),
        (13, "FLASH", CfgLayer::FLASH.bits() as u64),
        (14, "UBLOX", InProtoMask::UBLOX.bits() as u64),
        (14, "NMEA", InProtoMask::NMEA.bits() as u64),
        (14, "RTCM", InProtoMask::RTCM.bits() as u64),
        (14, "RTCM3", InProtoMask::RTCM3.bits() as u64),
        (15, "UBLOX", OutProtoMask::UBLOX.bits() as u64),
        (15, "NMEA", OutProtoMask::NMEA.bits() as u64),
        (15, "RTCM3", OutProtoMask::RTCM3.bits() as u64),
        (16, "VALID_TOW", NavTimeUtcFlags::VALID_TOW.bits() as u64),
        (16, "VALID_WKN", NavTimeUtcFlags::VALID_WKN.bits() as u64),
        (16, "VALID_UTC", NavTimeUtcFlags::VALID_UTC.bits() as u64),
        (17, "DYN", CfgNav5Params::DYN.bits() as u64),
        (17, "MIN_EL", CfgNav5Params::MIN_EL.bits() as u64),
        (17, "POS_FIX_MODE", CfgNav5Params::POS_FIX_MODE.bits() as u64),
        (17, "DR_LIM", CfgNav5Params::DR_LIM.bits() as u64),
        (17, "POS_MASK_APPLY", CfgNav5Params::POS_MASK_APPLY.bits() as u64),
        (17, "TIME_MASK", CfgNav5Params::TIME_MASK.bits() as u64),
        (17, "STATIC_HOLD_MASK", CfgNav5Params::STATIC_HOLD_MASK.bits() as u64),
        (17, "DGPS_MASK", CfgNav5Params::DGPS_MASK.bits() as u64),
        (17, "CNO_THRESHOLD", CfgNav5Params::CNO_THRESHOLD.bits() as u64),
        (17, "UTC", CfgNav5Params::UTC.bits() as u64),
        (18, "MIN_MAX", CfgNavX5Params1::MIN_MAX.bits() as u64),
        (18, "MIN_CNO", CfgNavX5Params1::MIN_CNO.bits() as u64),
        (18, "INITIAL_3D_FIX", CfgNavX5Params1::INITIAL_3D_FIX.bits() as u64),
        (18, "WKN_ROLL", CfgNavX5Params1::WKN_ROLL.bits() as u64),
        (18, "AID_ACK", CfgNavX5Params1::AID_ACK.bits() as u64),
        (18, "USE_PPP", CfgNavX5Params1::USE_PPP.bits() as u64),
        (18, "AOP_CFG", CfgNavX5Params1::AOP_CFG.bits() as u64),
        (19, "USE_ADR", CfgNavX5Params2::USE_ADR.bits() as u64),
        (19, "USE_SIG_ATTEN_COMP", CfgNavX5Params2::USE_SIG_ATTEN_COMP.bits() as u64),
        (20, "LEAP_SEC", RecStatFlags::LEAP_SEC.bits() as u64),
        (20, "CLK_RESET", RecStatFlags::CLK_RESET.bits() as u64),
        (21, "GPS", MonGnssConstellMask::GPS.bits() as u64),
        (21, "GLO", MonGnssConstellMask::GLO.bits() as u64),
        (21, "BDC", MonGnssConstellMask::BDC.bits() as u64),
        (21, "GAL", MonGnssConstellMask::GAL.bits() as u64),
        (22, "VERSION", EsfInsBitFlags::VERSION.bits() as u64),
        (22, "X_ANG_RATE_VALID", EsfInsBitFlags::X_ANG_RATE_VALID.bits() as u64),
        (22, "Y_ANG_RATE_VALID", EsfInsBitFlags::Y_ANG_RATE_VALID.bits() as u64),
        (22, "Z_ANG_RATE_VALID", EsfInsBitFlags::Z_ANG_RATE_VALID.bits() as u64),
        (22, "X_ACCEL_VALID", EsfInsBitFlags::X_ACCEL_VALID.bits() as u64),
        (22, "Y_ACCEL_VALID", EsfInsBitFlags::Y_ACCEL_VALID.bits() as u64),
        (22, "Z_ACCEL_VALID", EsfInsBitFlags::Z_ACCEL_VALID.bits() as u64),
        (23, "VERSION", HnrInsBitFlags::VERSION.bits() as u64),
        (23, "X_ANG_RATE_VALID", HnrInsBitFlags::X_ANG_RATE_VALID.bits() as u64),
        (23, "Y_ANG_RATE_VALID", HnrInsBitFlags::Y_ANG_RATE_VALID.bits() as u64),
        (23, "Z_ANG_RATE_VALID", HnrInsBitFlags::Z_ANG_RATE_VALID.bits() as u64),
        (23, "X_ACCEL_VALID", HnrInsBitFlags::X_ACCEL_VALID.bits() as u64),
        (23, "Y_ACCEL_VALID", HnrInsBitFlags::Y_ACCEL_VALID.bits() as u64),
        (23, "Z_ACCEL_VALID", HnrInsBitFlags::Z_ACCEL_VALID.bits() as u64),
        (24, "GPS_FIX_OK", HnrPvtFlags::GPS_FIX_OK.bits() as u64),
        (24, "DIFF_SOLN", HnrPvtFlags::DIFF_SOLN.bits() as u64),
        (24, "WKN_SET", HnrPvtFlags::WKN_SET.bits() as u64),
        (24, "TOW_SET", HnrPvtFlags::TOW_SET.bits() as u64),
        (24, "HEAD_VEH_VALID", HnrPvtFlags::HEAD_VEH_VALID.bits() as u64),
        (25, "VALID_DATE", HnrPvtValidFlags::VALID_DATE.bits() as u64),
        (25, "VALID_TIME", HnrPvtValidFlags::VALID_TIME.bits() as u64),
        (25, "FULLY_RESOLVED", HnrPvtValidFlags::FULLY_RESOLVED.bits() as u64),
        (26, "STD_1", StdevFlags::STD_1.bits() as u64),
        (26, "STD_2", StdevFlags::STD_2.bits() as u64),
        (26, "STD_3", StdevFlags::STD_3.bits() as u64),
        (26, "STD_4", StdevFlags::STD_4.bits() as u64),
        (27, "PR_VALID", TrkStatFlags::PR_VALID.bits() as u64),
        (27, "CP_VALID", TrkStatFlags::CP_VALID.bits() as u64),
        (27, "HALF_CYCLE", TrkStatFlags::HALF_CYCLE.bits() as u64),
        (27, "SUB_HALF_CYCLE", TrkStatFlags::SUB_HALF_CYCLE.bits() as u64),
    ]
}
/// (CLASS, ID, FIXED_PAYLOAD_LEN, MAX_PAYLOAD_LEN) of every definition, from the code under test.
pub static META: &[(u8, u8, Option<u16>, u16)] = &[
    (<NavPosLlh as UbxPacketMeta>::CLASS, <NavPosLlh as UbxPacketMeta>::ID, <NavPosLlh as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavPosLlh as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavVelNed as UbxPacketMeta>::CLASS, <NavVelNed as UbxPacketMeta>::ID, <NavVelNed as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavVelNed as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavHpPosLlh as UbxPacketMeta>::CLASS, <NavHpPosLlh as UbxPacketMeta>::ID, <NavHpPosLlh as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavHpPosLlh as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavHpPosEcef as UbxPacketMeta>::CLASS, <NavHpPosEcef as UbxPacketMeta>::ID, <NavHpPosEcef as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavHpPosEcef as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavPvt as UbxPacketMeta>::CLASS, <NavPvt as UbxPacketMeta>::ID, <NavPvt as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavPvt as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavStatus as UbxPacketMeta>::CLASS, <NavStatus as UbxPacketMeta>::ID, <NavStatus as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavStatus as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavDop as UbxPacketMeta>::CLASS, <NavDop as UbxPacketMeta>::ID, <NavDop as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavDop as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavEoe as UbxPacketMeta>::CLASS, <NavEoe as UbxPacketMeta>::ID, <NavEoe as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavEoe as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavSolution as UbxPacketMeta>::CLASS, <NavSolution as UbxPacketMeta>::ID, <NavSolution as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavSolution as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavSatSvInfo as UbxPacketMeta>::CLASS, <NavSatSvInfo as UbxPacketMeta>::ID, <NavSatSvInfo as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavSatSvInfo as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavSat as UbxPacketMeta>::CLASS, <NavSat as UbxPacketMeta>::ID, <NavSat as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavSat as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavOdo as UbxPacketMeta>::CLASS, <NavOdo as UbxPacketMeta>::ID, <NavOdo as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavOdo as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavResetOdo as UbxPacketMeta>::CLASS, <NavResetOdo as UbxPacketMeta>::ID, <NavResetOdo as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavResetOdo as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgOdo as UbxPacketMeta>::CLASS, <CfgOdo as UbxPacketMeta>::ID, <CfgOdo as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgOdo as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgItfm as UbxPacketMeta>::CLASS, <CfgItfm as UbxPacketMeta>::ID, <CfgItfm as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgItfm as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgInf as UbxPacketMeta>::CLASS, <CfgInf as UbxPacketMeta>::ID, <CfgInf as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgInf as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<InfError as UbxPacketMeta>::CLASS, <InfError as UbxPacketMeta>::ID, <InfError as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <InfError as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<InfNotice as UbxPacketMeta>::CLASS, <InfNotice as UbxPacketMeta>::ID, <InfNotice as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <InfNotice as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<InfTest as UbxPacketMeta>::CLASS, <InfTest as UbxPacketMeta>::ID, <InfTest as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <InfTest as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<InfWarning as UbxPacketMeta>::CLASS, <InfWarning as UbxPacketMeta>::ID, <InfWarning as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <InfWarning as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<InfDebug as UbxPacketMeta>::CLASS, <InfDebug as UbxPacketMeta>::ID, <InfDebug as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <InfDebug as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<AidIni as UbxPacketMeta>::CLASS, <AidIni as UbxPacketMeta>::ID, <AidIni as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <AidIni as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<AlpSrv as UbxPacketMeta>::CLASS, <AlpSrv as UbxPacketMeta>::ID, <AlpSrv as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <AlpSrv as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<AckAck as UbxPacketMeta>::CLASS, <AckAck as UbxPacketMeta>::ID, <AckAck as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <AckAck as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<AckNak as UbxPacketMeta>::CLASS, <AckNak as UbxPacketMeta>::ID, <AckNak as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <AckNak as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgRst as UbxPacketMeta>::CLASS, <CfgRst as UbxPacketMeta>::ID, <CfgRst as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgRst as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgAnt as UbxPacketMeta>::CLASS, <CfgAnt as UbxPacketMeta>::ID, <CfgAnt as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgAnt as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgTp5 as UbxPacketMeta>::CLASS, <CfgTp5 as UbxPacketMeta>::ID, <CfgTp5 as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgTp5 as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgTmode2 as UbxPacketMeta>::CLASS, <CfgTmode2 as UbxPacketMeta>::ID, <CfgTmode2 as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgTmode2 as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<TimSvin as UbxPacketMeta>::CLASS, <TimSvin as UbxPacketMeta>::ID, <TimSvin as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <TimSvin as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavTimeLs as UbxPacketMeta>::CLASS, <NavTimeLs as UbxPacketMeta>::ID, <NavTimeLs as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavTimeLs as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgTmode3 as UbxPacketMeta>::CLASS, <CfgTmode3 as UbxPacketMeta>::ID, <CfgTmode3 as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgTmode3 as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgValSet as UbxPacketMeta>::CLASS, <CfgValSet as UbxPacketMeta>::ID, <CfgValSet as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgValSet as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgPrtI2c as UbxPacketMeta>::CLASS, <CfgPrtI2c as UbxPacketMeta>::ID, <CfgPrtI2c as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgPrtI2c as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgPrtUart as UbxPacketMeta>::CLASS, <CfgPrtUart as UbxPacketMeta>::ID, <CfgPrtUart as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgPrtUart as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgPrtSpi as UbxPacketMeta>::CLASS, <CfgPrtSpi as UbxPacketMeta>::ID, <CfgPrtSpi as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgPrtSpi as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavTimeUTC as UbxPacketMeta>::CLASS, <NavTimeUTC as UbxPacketMeta>::ID, <NavTimeUTC as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavTimeUTC as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgRate as UbxPacketMeta>::CLASS, <CfgRate as UbxPacketMeta>::ID, <CfgRate as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgRate as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgMsgSinglePort as UbxPacketMeta>::CLASS, <CfgMsgSinglePort as UbxPacketMeta>::ID, <CfgMsgSinglePort as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgMsgSinglePort as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgMsgAllPorts as UbxPacketMeta>::CLASS, <CfgMsgAllPorts as UbxPacketMeta>::ID, <CfgMsgAllPorts as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgMsgAllPorts as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgNav5 as UbxPacketMeta>::CLASS, <CfgNav5 as UbxPacketMeta>::ID, <CfgNav5 as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgNav5 as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<CfgNavX5 as UbxPacketMeta>::CLASS, <CfgNavX5 as UbxPacketMeta>::ID, <CfgNavX5 as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <CfgNavX5 as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<MgaAck as UbxPacketMeta>::CLASS, <MgaAck as UbxPacketMeta>::ID, <MgaAck as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <MgaAck as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<MgaGloEph as UbxPacketMeta>::CLASS, <MgaGloEph as UbxPacketMeta>::ID, <MgaGloEph as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <MgaGloEph as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<MgaGpsIono as UbxPacketMeta>::CLASS, <MgaGpsIono as UbxPacketMeta>::ID, <MgaGpsIono as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <MgaGpsIono as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<MgaGpsEph as UbxPacketMeta>::CLASS, <MgaGpsEph as UbxPacketMeta>::ID, <MgaGpsEph as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <MgaGpsEph as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<TimTp as UbxPacketMeta>::CLASS, <TimTp as UbxPacketMeta>::ID, <TimTp as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <TimTp as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<TimTm2 as UbxPacketMeta>::CLASS, <TimTm2 as UbxPacketMeta>::ID, <TimTm2 as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <TimTm2 as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<RxmRawx as UbxPacketMeta>::CLASS, <RxmRawx as UbxPacketMeta>::ID, <RxmRawx as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <RxmRawx as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<MonHw as UbxPacketMeta>::CLASS, <MonHw as UbxPacketMeta>::ID, <MonHw as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <MonHw as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<MonGnss as UbxPacketMeta>::CLASS, <MonGnss as UbxPacketMeta>::ID, <MonGnss as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <MonGnss as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<MonVer as UbxPacketMeta>::CLASS, <MonVer as UbxPacketMeta>::ID, <MonVer as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <MonVer as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<RxmRtcm as UbxPacketMeta>::CLASS, <RxmRtcm as UbxPacketMeta>::ID, <RxmRtcm as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <RxmRtcm as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<EsfMeas as UbxPacketMeta>::CLASS, <EsfMeas as UbxPacketMeta>::ID, <EsfMeas as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <EsfMeas as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<EsfRaw as UbxPacketMeta>::CLASS, <EsfRaw as UbxPacketMeta>::ID, <EsfRaw as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <EsfRaw as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<EsfIns as UbxPacketMeta>::CLASS, <EsfIns as UbxPacketMeta>::ID, <EsfIns as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <EsfIns as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<HnrAtt as UbxPacketMeta>::CLASS, <HnrAtt as UbxPacketMeta>::ID, <HnrAtt as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <HnrAtt as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<HnrIns as UbxPacketMeta>::CLASS, <HnrIns as UbxPacketMeta>::ID, <HnrIns as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <HnrIns as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<HnrPvt as UbxPacketMeta>::CLASS, <HnrPvt as UbxPacketMeta>::ID, <HnrPvt as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <HnrPvt as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavAtt as UbxPacketMeta>::CLASS, <NavAtt as UbxPacketMeta>::ID, <NavAtt as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavAtt as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavClock as UbxPacketMeta>::CLASS, <NavClock as UbxPacketMeta>::ID, <NavClock as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavClock as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<RxmSfrbx as UbxPacketMeta>::CLASS, <RxmSfrbx as UbxPacketMeta>::ID, <RxmSfrbx as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <RxmSfrbx as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<NavVelECEF as UbxPacketMeta>::CLASS, <NavVelECEF as UbxPacketMeta>::ID, <NavVelECEF as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <NavVelECEF as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<MgaGpsEPH as UbxPacketMeta>::CLASS, <MgaGpsEPH as UbxPacketMeta>::ID, <MgaGpsEPH as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <MgaGpsEPH as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<RxmRawxInfo as UbxPacketMeta>::CLASS, <RxmRawxInfo as UbxPacketMeta>::ID, <RxmRawxInfo as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <RxmRawxInfo as UbxPacketMeta>::MAX_PAYLOAD_LEN),
    (<SecUniqId as UbxPacketMeta>::CLASS, <SecUniqId as UbxPacketMeta>::ID, <SecUniqId as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <SecUniqId as UbxPacketMeta>::MAX_PAYLOAD_LEN),
];
pub fn poll(pk: usize) -> [u8; 8] {
    match pk {
        0 => UbxPacketRequest::request_for::<NavPosLlh>().into_packet_bytes(),
        1 => UbxPacketRequest::request_for::<NavVelNed>().into_packet_bytes(),
        2 => UbxPacketRequest::request_for::<NavHpPosLlh>().into_packet_bytes(),
        3 => UbxPacketRequest::request_for::<NavHpPosEcef>().into_packet_bytes(),
        4 => UbxPacketRequest::request_for::<NavPvt>().into_packet_bytes(),
        5 => UbxPacketRequest::request_for::<NavStatus>().into_packet_bytes(),
        6 => UbxPacketRequest::request_for::<NavDop>().into_packet_bytes(),
        7 => UbxPacketRequest::request_for::<NavEoe>().into_packet_bytes(),
        8 => UbxPacketRequest::request_for::<NavSolution>().into_packet_bytes(),
        9 => UbxPacketRequest::request_for::<NavSatSvInfo>().into_packet_bytes(),
        10 => UbxPacketRequest::request_for::<NavSat>().into_packet_bytes(),
        11 => UbxPacketRequest::request_for::<NavOdo>().into_packet_bytes(),
        12 => UbxPacketRequest::request_for::<NavResetOdo>().into_packet_bytes(),
        13 => UbxPacketRequest::request_for::<CfgOdo>().into_packet_bytes(),
        14 => UbxPacketRequest::request_for::<CfgItfm>().into_packet_bytes(),
        15 => UbxPacketRequest::request_for::<CfgInf>().into_packet_bytes(),
        16 => UbxPacketRequest::request_for::<InfError>().into_packet_bytes(),
        17 => UbxPacketRequest::request_for::<InfNotice>().into_packet_bytes(),
        18 => UbxPacketRequest::request_for::<InfTest>().into_packet_bytes(),
        19 => UbxPacketRequest::request_for::<InfWarning>().into_packet_bytes(),
        20 => UbxPacketRequest::request_for::<InfDebug>().into_packet_bytes(),
        21 => UbxPacketRequest::request_for::<AidIni>().into_packet_bytes(),
        22 => UbxPacketRequest::request_for::<AlpSrv>().into_packet_bytes(),
        23 => UbxPacketRequest::request_for::<AckAck>().into_packet_bytes(),
        24 => UbxPacketRequest::request_for::<AckNak>().into_packet_bytes(),
        25 => UbxPacketRequest::request_for::<CfgRst>().into_packet_bytes(),
        26 => UbxPacketRequest::request_for::<CfgAnt>().into_packet_bytes(),
        27 => UbxPacketRequest::request_for::<CfgTp5>().into_packet_bytes(),
        28 => UbxPacketRequest::request_for::<CfgTmode2>().into_packet_bytes(),
        29 => UbxPacketRequest::request_for::<TimSvin>().into_packet_bytes(),
        30 => UbxPacketRequest::request_for::<NavTimeLs>().into_packet_bytes(),
        31 => UbxPacketRequest::request_for::<CfgTmode3>().into_packet_bytes(),
        32 => UbxPacketRequest::request_for::<CfgValSet>().into_packet_bytes(),
        33 => UbxPacketRequest::request_for::<CfgPrtI2c>().into_packet_bytes(),
        34 => UbxPacketRequest::request_for::<CfgPrtUart>().into_packet_bytes(),
        35 => UbxPacketRequest::request_for::<CfgPrtSpi>().into_packet_bytes(),
        36 => UbxPacketRequest::request_for::<NavTimeUTC>().into_packet_bytes(),
        37 => UbxPacketRequest::request_for::<CfgRate>().into_packet_bytes(),
        38 => UbxPacketRequest::request_for::<CfgMsgSinglePort>().into_packet_bytes(),
        39 => UbxPacketRequest::request_for::<CfgMsgAllPorts>().into_packet_bytes(),
        40 => UbxPacketRequest::request_for::<CfgNav5>().into_packet_bytes(),
        41 => UbxPacketRequest::request_for::<CfgNavX5>().into_packet_bytes(),
        42 => UbxPacketRequest::request_for::<MgaAck>().into_packet_bytes(),
        43 => UbxPacketRequest::request_for::<MgaGloEph>().into_packet_bytes(),
        44 => UbxPacketRequest::request_for::<MgaGpsIono>().into_packet_bytes(),
        45 => UbxPacketRequest::request_for::<MgaGpsEph>().into_packet_bytes(),
        46 => UbxPacketRequest::request_for::<TimTp>().into_packet_bytes(),
        47 => UbxPacketRequest::request_for::<TimTm2>().into_packet_bytes(),
        48 => UbxPacketRequest::request_for::<RxmRawx>().into_packet_bytes(),
        49 => UbxPacketRequest::request_for::<MonHw>().into_packet_bytes(),
        50 => UbxPacketRequest::request_for::<MonGnss>().into_packet_bytes(),
        51 => UbxPacketRequest::request_for::<MonVer>().into_packet_bytes(),
        52 => UbxPacketRequest::request_for::<RxmRtcm>().into_packet_bytes(),
        53 => UbxPacketRequest::request_for::<EsfMeas>().into_packet_bytes(),
        54 => UbxPacketRequest::request_for::<EsfRaw>().into_packet_bytes(),
        55 => UbxPacketRequest::request_for::<EsfIns>().into_packet_bytes(),
        56 => UbxPacketRequest::request_for::<HnrAtt>().into_packet_bytes(),
        57 => UbxPacketRequest::request_for::<HnrIns>().into_packet_bytes(),
        58 => UbxPacketRequest::request_for::<HnrPvt>().into_packet_bytes(),
        59 => UbxPacketRequest::request_for::<NavAtt>().into_packet_bytes(),
        60 => UbxPacketRequest::request_for::<NavClock>().into_packet_bytes(),
        61 => UbxPacketRequest::request_for::<RxmSfrbx>().into_packet_bytes(),
        62 => UbxPacketRequest::request_for::<NavVelECEF>().into_packet_bytes(),
        63 => UbxPacketRequest::request_for::<MgaGpsEPH>().into_packet_bytes(),
        64 => UbxPacketRequest::request_for::<RxmRawxInfo>().into_packet_bytes(),
        65 => UbxPacketRequest::request_for::<SecUniqId>().into_packet_bytes(),
        _ => unreachable!(),
    }
}
pub fn ack_for(pk: usize, r: &AckAckRef) -> bool {
    match pk {
        0 => r.is_ack_for::<NavPosLlh>(),
        1 => r.is_ack_for::<NavVelNed>(),
        2 => r.is_ack_for::<NavHpPosLlh>(),
        3 => r.is_ack_for::<NavHpPosEcef>(),
        4 => r.is_ack_for::<NavPvt>(),
        5 => r.is_ack_for::<NavStatus>(),
        6 => r.is_ack_for::<NavDop>(),
        7 => r.is_ack_for::<NavEoe>(),
        8 => r.is_ack_for::<NavSolution>(),
        9 => r.is_ack_for::<NavSatSvInfo>(),
        10 => r.is_ack_for::<NavSat>(),
        11 => r.is_ack_for::<NavOdo>(),
        12 => r.is_ack_for::<NavResetOdo>(),
        13 => r.is_ack_for::<CfgOdo>(),
        14 => r.is_ack_for::<CfgItfm>(),
        15 => r.is_ack_for::<CfgInf>(),
        16 => r.is_ack_for::<InfError>(),
        17 => r.is_ack_for::<InfNotice>(),
        18 => r.is_ack_for::<InfTest>(),
        19 => r.is_ack_for::<InfWarning>(),
        20 => r.is_ack_for::<InfDebug>(),
        21 => r.is_ack_for::<AidIni>(),
        22 => r.is_ack_for::<AlpSrv>(),
        23 => r.is_ack_for::<AckAck>(),
        24 => r.is_ack_for::<AckNak>(),
        25 => r.is_ack_for::<CfgRst>(),
        26 => r.is_ack_for::<CfgAnt>(),
        27 => r.is_ack_for::<CfgTp5>(),
        28 => r.is_ack_for::<CfgTmode2>(),
        29 => r.is_ack_for::<TimSvin>(),
        30 => r.is_ack_for::<NavTimeLs>(),
        31 => r.is_ack_for::<CfgTmode3>(),
        32 => r.is_ack_for::<CfgValSet>(),
        33 => r.is_ack_for::<CfgPrtI2c>(),
        34 => r.is_ack_for::<CfgPrtUart>(),
        35 => r.is_ack_for::<CfgPrtSpi>(),
        36 => r.is_ack_for::<NavTimeUTC>(),
        37 => r.is_ack_for::<CfgRate>(),
        38 => r.is_ack_for::<CfgMsgSinglePort>(),
        39 => r.is_ack_for::<CfgMsgAllPorts>(),
        40 => r.is_ack_for::<CfgNav5>(),
        41 => r.is_ack_for::<CfgNavX5>(),
        42 => r.is_ack_for::<MgaAck>(),
        43 => r.is_ack_for::<MgaGloEph>(),
        44 => r.is_ack_for::<MgaGpsIono>(),
        45 => r.is_ack_for::<MgaGpsEph>(),
        46 => r.is_ack_for::<TimTp>(),
        47 => r.is_ack_for::<TimTm2>(),
        48 => r.is_ack_for::<RxmRawx>(),
        49 => r.is_ack_for::<MonHw>(),
        50 => r.is_ack_for::<MonGnss>(),
        51 => r.is_ack_for::<MonVer>(),
        52 => r.is_ack_for::<RxmRtcm>(),
        53 => r.is_ack_for::<EsfMeas>(),
        54 => r.is_ack_for::<EsfRaw>(),
        55 => r.is_ack_for::<EsfIns>(),
        56 => r.is_ack_for::<HnrAtt>(),
        57 => r.is_ack_for::<HnrIns>(),
        58 => r.is_ack_for::<HnrPvt>(),
        59 => r.is_ack_for::<NavAtt>(),
        60 => r.is_ack_for::<NavClock>(),
        61 => r.is_ack_for::<RxmSfrbx>(),
        62 => r.is_ack_for::<NavVelECEF>(),
        63 => r.is_ack_for::<MgaGpsEPH>(),
        64 => r.is_ack_for::<RxmRawxInfo>(),
        65 => r.is_ack_for::<SecUniqId>(),
        _ => unreachable!(),
    }
}
pub fn nak_for(pk: usize, r: &AckNakRef) -> bool {
    match pk {
        0 => r.is_nak_for::<NavPosLlh>(),
        1 => r.is_nak_for::<NavVelNed>(),
        2 => r.is_nak_for::<NavHpPosLlh>(),
        3 => r.is_nak_for::<NavHpPosEcef>(),
        4 => r.is_nak_for::<NavPvt>(),
        5 => r.is_nak_for::<NavStatus>(),
        6 => r.is_nak_for::<NavDop>(),
        7 => r.is_nak_for::<NavEoe>(),
        8 => r.is_nak_for::<NavSolution>(),
        9 => r.is_nak_for::<NavSatSvInfo>(),
        10 => r.is_nak_for::<NavSat>(),
        11 => r.is_nak_for::<NavOdo>(),
        12 => r.is_nak_for::<NavResetOdo>(),
        13 => r.is_nak_for::<CfgOdo>(),
        14 => r.is_nak_for::<CfgItfm>(),
        15 => r.is_nak_for::<CfgInf>(),
        16 => r.is_nak_for::<InfError>(),
        17 => r.is_nak_for::<InfNotice>(),
        18 => r.is_nak_for::<InfTest>(),
        19 => r.is_nak_for::<InfWarning>(),
        20 => r.is_nak_for::<InfDebug>(),
        21 => r.is_nak_for::<AidIni>(),
        22 => r.is_nak_for::<AlpSrv>(),
        23 => r.is_nak_for::<AckAck>(),
        24 => r.is_nak_for::<AckNak>(),
        25 => r.is_nak_for::<CfgRst>(),
        26 => r.is_nak_for::<CfgAnt>(),
        27 => r.is_nak_for::<CfgTp5>(),
        28 => r.is_nak_for::<CfgTmode2>(),
        29 => r.is_nak_for::<TimSvin>(),
        30 => r.is_nak_for::<NavTimeLs>(),
        31 => r.is_nak_for::<CfgTmode3>(),
        32 => r.is_nak_for::<CfgValSet>(),
        33 => r.is_nak_for::<CfgPrtI2c>(),
        34 => r.is_nak_for::<CfgPrtUart>(),
        35 => r.is_nak_for::<CfgPrtSpi>(),
        36 => r.is_nak_for::<NavTimeUTC>(),
        37 => r.is_nak_for::<CfgRate>(),
        38 => r.is_nak_for::<CfgMsgSinglePort>(),
        39 => r.is_nak_for::<CfgMsgAllPorts>(),
        40 => r.is_nak_for::<CfgNav5>(),
        41 => r.is_nak_for::<CfgNavX5>(),
        42 => r.is_nak_for::<MgaAck>(),
        43 => r.is_nak_for::<MgaGloEph>(),
        44 => r.is_nak_for::<MgaGpsIono>(),
        45 => r.is_nak_for::<MgaGpsEph>(),
        46 => r.is_nak_for::<TimTp>(),
        47 => r.is_nak_for::<TimTm2>(),
        48 => r.is_nak_for::<RxmRawx>(),
        49 => r.is_nak_for::<MonHw>(),
        50 => r.is_nak_for::<MonGnss>(),
        51 => r.is_nak_for::<MonVer>(),
        52 => r.is_nak_for::<RxmRtcm>(),
        53 => r.is_nak_for::<EsfMeas>(),
        54 => r.is_nak_for::<EsfRaw>(),
        55 => r.is_nak_for::<EsfIns>(),
        56 => r.is_nak_for::<HnrAtt>(),
        57 => r.is_nak_for::<HnrIns>(),
        58 => r.is_nak_for::<HnrPvt>(),
        59 => r.is_nak_for::<NavAtt>(),
        60 => r.is_nak_for::<NavClock>(),
        61 => r.is_nak_for::<RxmSfrbx>(),
        62 => r.is_nak_for::<NavVelECEF>(),
        63 => r.is_nak_for::<MgaGpsEPH>(),
        64 => r.is_nak_for::<RxmRawxInfo>(),
        65 => r.is_nak_for::<SecUniqId>(),
        _ => unreachable!(),
    }
}
pub fn single_rate(pk: usize, rate: u8) -> [u8; 11] {
    match pk {
        0 => CfgMsgSinglePortBuilder::set_rate_for::<NavPosLlh>(rate).into_packet_bytes(),
        1 => CfgMsgSinglePortBuilder::set_rate_for::<NavVelNed>(rate).into_packet_bytes(),
        2 => CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosLlh>(rate).into_packet_bytes(),
        3 => CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosEcef>(rate).into_packet_bytes(),
        4 => CfgMsgSinglePortBuilder::set_rate_for::<NavPvt>(rate).into_packet_bytes(),
        5 => CfgMsgSinglePortBuilder::set_rate_for::<NavStatus>(rate).into_packet_bytes(),
        6 => CfgMsgSinglePortBuilder::set_rate_for::<NavDop>(rate).into_packet_bytes(),
        7 => CfgMsgSinglePortBuilder::set_rate_for::<NavEoe>(rate).into_packet_bytes(),
        8 => CfgMsgSinglePortBuilder::set_rate_for::<NavSolution>(rate).into_packet_bytes(),
        9 => CfgMsgSinglePortBuilder::set_rate_for::<NavSatSvInfo>(rate).into_packet_bytes(),
        10 => CfgMsgSinglePortBuilder::set_rate_for::<NavSat>(rate).into_packet_bytes(),
        11 => CfgMsgSinglePortBuilder::set_rate_for::<NavOdo>(rate).into_packet_bytes(),
        12 => CfgMsgSinglePortBuilder::set_rate_for::<NavResetOdo>(rate).into_packet_bytes(),
        13 => CfgMsgSinglePortBuilder::set_rate_for::<CfgOdo>(rate).into_packet_bytes(),
        14 => CfgMsgSinglePortBuilder::set_rate_for::<CfgItfm>(rate).into_packet_bytes(),
        15 => CfgMsgSinglePortBuilder::set_rate_for::<CfgInf>(rate).into_packet_bytes(),
        16 => CfgMsgSinglePortBuilder::set_rate_for::<InfError>(rate).into_packet_bytes(),
        17 => CfgMsgSinglePortBuilder::set_rate_for::<InfNotice>(rate).into_packet_bytes(),
        18 => CfgMsgSinglePortBuilder::set_rate_for::<InfTest>(rate).into_packet_bytes(),
        19 => CfgMsgSinglePortBuilder::set_rate_for::<InfWarning>(rate).into_packet_bytes(),
        20 => CfgMsgSinglePortBuilder::set_rate_for::<InfDebug>(rate).into_packet_bytes(),
        21 => CfgMsgSinglePortBuilder::set_rate_for::<AidIni>(rate).into_packet_bytes(),
        22 => CfgMsgSinglePortBuilder::set_rate_for::<AlpSrv>(rate).into_packet_bytes(),
        23 => CfgMsgSinglePortBuilder::set_rate_for::<AckAck>(rate).into_packet_bytes(),
        24 => CfgMsgSinglePortBuilder::set_rate_for::<AckNak>(rate).into_packet_bytes(),
        25 => CfgMsgSinglePortBuilder::set_rate_for::<CfgRst>(rate).into_packet_bytes(),
        26 => CfgMsgSinglePortBuilder::set_rate_for::<CfgAnt>(rate).into_packet_bytes(),
        27 => CfgMsgSinglePortBuilder::set_rate_for::<CfgTp5>(rate).into_packet_bytes(),
        28 => CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode2>(rate).into_packet_bytes(),
        29 => CfgMsgSinglePortBuilder::set_rate_for::<TimSvin>(rate).into_packet_bytes(),
        30 => CfgMsgSinglePortBuilder::set_rate_for::<NavTimeLs>(rate).into_packet_bytes(),
        31 => CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode3>(rate).into_packet_bytes(),
        32 => CfgMsgSinglePortBuilder::set_rate_for::<CfgValSet>(rate).into_packet_bytes(),
        33 => CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtI2c>(rate).into_packet_bytes(),
        34 => CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtUart>(rate).into_packet_bytes(),
        35 => CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtSpi>(rate).into_packet_bytes(),
        36 => CfgMsgSinglePortBuilder::set_rate_for::<NavTimeUTC>(rate).into_packet_bytes(),
        37 => CfgMsgSinglePortBuilder::set_rate_for::<CfgRate>(rate).into_packet_bytes(),
        38 => CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgSinglePort>(rate).into_packet_bytes(),
        39 => CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgAllPorts>(rate).into_packet_bytes(),
        40 => CfgMsgSinglePortBuilder::set_rate_for::<CfgNav5>(rate).into_packet_bytes(),
        41 => CfgMsgSinglePortBuilder::set_rate_for::<CfgNavX5>(rate).into_packet_bytes(),
        42 => CfgMsgSinglePortBuilder::set_rate_for::<MgaAck>(rate).into_packet_bytes(),
        43 => CfgMsgSinglePortBuilder::set_rate_for::<MgaGloEph>(rate).into_packet_bytes(),
        44 => CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsIono>(rate).into_packet_bytes(),
        45 => CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEph>(rate).into_packet_bytes(),
        46 => CfgMsgSinglePortBuilder::set_rate_for::<TimTp>(rate).into_packet_bytes(),
        47 => CfgMsgSinglePortBuilder::set_rate_for::<TimTm2>(rate).into_packet_bytes(),
        48 => CfgMsgSinglePortBuilder::set_rate_for::<RxmRawx>(rate).into_packet_bytes(),
        49 => CfgMsgSinglePortBuilder::set_rate_for::<MonHw>(rate).into_packet_bytes(),
        50 => CfgMsgSinglePortBuilder::set_rate_for::<MonGnss>(rate).into_packet_bytes(),
        51 => CfgMsgSinglePortBuilder::set_rate_for::<MonVer>(rate).into_packet_bytes(),
        52 => CfgMsgSinglePortBuilder::set_rate_for::<RxmRtcm>(rate).into_packet_bytes(),
        53 => CfgMsgSinglePortBuilder::set_rate_for::<EsfMeas>(rate).into_packet_bytes(),
        54 => CfgMsgSinglePortBuilder::set_rate_for::<EsfRaw>(rate).into_packet_bytes(),
        55 => CfgMsgSinglePortBuilder::set_rate_for::<EsfIns>(rate).into_packet_bytes(),
        56 => CfgMsgSinglePortBuilder::set_rate_for::<HnrAtt>(rate).into_packet_bytes(),
        57 => CfgMsgSinglePortBuilder::set_rate_for::<HnrIns>(rate).into_packet_bytes(),
        58 => CfgMsgSinglePortBuilder::set_rate_for::<HnrPvt>(rate).into_packet_bytes(),
        59 => CfgMsgSinglePortBuilder::set_rate_for::<NavAtt>(rate).into_packet_bytes(),
        60 => CfgMsgSinglePortBuilder::set_rate_for::<NavClock>(rate).into_packet_bytes(),
        61 => CfgMsgSinglePortBuilder::set_rate_for::<RxmSfrbx>(rate).into_packet_bytes(),
        62 => CfgMsgSinglePortBuilder::set_rate_for::<NavVelECEF>(rate).into_packet_bytes(),
        63 => CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEPH>(rate).into_packet_bytes(),
        64 => CfgMsgSinglePortBuilder::set_rate_for::<RxmRawxInfo>(rate).into_packet_bytes(),
        65 => CfgMsgSinglePortBuilder::set_rate_for::<SecUniqId>(rate).into_packet_bytes(),
        _ => unreachable!(),
    }
}
pub fn all_rates(pk: usize, rates: [u8; 6]) -> [u8; 16] {
    match pk {
        0 => CfgMsgAllPortsBuilder::set_rate_for::<NavPosLlh>(rates).into_packet_bytes(),
        1 => CfgMsgAllPortsBuilder::set_rate_for::<NavVelNed>(rates).into_packet_bytes(),
        2 => CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosLlh>(rates).into_packet_bytes(),
        3 => CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosEcef>(rates).into_packet_bytes(),
        4 => CfgMsgAllPortsBuilder::set_rate_for::<NavPvt>(rates).into_packet_bytes(),
        5 => CfgMsgAllPortsBuilder::set_rate_for::<NavStatus>(rates).into_packet_bytes(),
        6 => CfgMsgAllPortsBuilder::set_rate_for::<NavDop>(rates).into_packet_bytes(),
        7 => CfgMsgAllPortsBuilder::set_rate_for::<NavEoe>(rates).into_packet_bytes(),
        8 => CfgMsgAllPortsBuilder::set_rate_for::<NavSolution>(rates).into_packet_bytes(),
        9 => CfgMsgAllPortsBuilder::set_rate_for::<NavSatSvInfo>(rates).into_packet_bytes(),
        10 => CfgMsgAllPortsBuilder::set_rate_for::<NavSat>(rates).into_packet_bytes(),
        11 => CfgMsgAllPortsBuilder::set_rate_for::<NavOdo>(rates).into_packet_bytes(),
        12 => CfgMsgAllPortsBuilder::set_rate_for::<NavResetOdo>(rates).into_packet_bytes(),
        13 => CfgMsgAllPortsBuilder::set_rate_for::<CfgOdo>(rates).into_packet_bytes(),
        14 => CfgMsgAllPortsBuilder::set_rate_for::<CfgItfm>(rates).into_packet_bytes(),
        15 => CfgMsgAllPortsBuilder::set_rate_for::<CfgInf>(rates).into_packet_bytes(),
        16 => CfgMsgAllPortsBuilder::set_rate_for::<InfError>(rates).into_packet_bytes(),
        17 => CfgMsgAllPortsBuilder::set_rate_for::<InfNotice>(rates).into_packet_bytes(),
        18 => CfgMsgAllPortsBuilder::set_rate_for::<InfTest>(rates).into_packet_bytes(),
        19 => CfgMsgAllPortsBuilder::set_rate_for::<InfWarning>(rates).into_packet_bytes(),
        20 => CfgMsgAllPortsBuilder::set_rate_for::<InfDebug>(rates).into_packet_bytes(),
        21 => CfgMsgAllPortsBuilder::set_rate_for::<AidIni>(rates).into_packet_bytes(),
        22 => CfgMsgAllPortsBuilder::set_rate_for::<AlpSrv>(rates).into_packet_bytes(),
        23 => CfgMsgAllPortsBuilder::set_rate_for::<AckAck>(rates).into_packet_bytes(),
        24 => CfgMsgAllPortsBuilder::set_rate_for::<AckNak>(rates).into_packet_bytes(),
        25 => CfgMsgAllPortsBuilder::set_rate_for::<CfgRst>(rates).into_packet_bytes(),
        26 => CfgMsgAllPortsBuilder::set_rate_for::<CfgAnt>(rates).into_packet_bytes(),
        27 => CfgMsgAllPortsBuilder::set_rate_for::<CfgTp5>(rates).into_packet_bytes(),
        28 => CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode2>(rates).into_packet_bytes(),
        29 => CfgMsgAllPortsBuilder::set_rate_for::<TimSvin>(rates).into_packet_bytes(),
        30 => CfgMsgAllPortsBuilder::set_rate_for::<NavTimeLs>(rates).into_packet_bytes(),
        31 => CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode3>(rates).into_packet_bytes(),
        32 => CfgMsgAllPortsBuilder::set_rate_for::<CfgValSet>(rates).into_packet_bytes(),
        33 => CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtI2c>(rates).into_packet_bytes(),
        34 => CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtUart>(rates).into_packet_bytes(),
        35 => CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtSpi>(rates).into_packet_bytes(),
        36 => CfgMsgAllPortsBuilder::set_rate_for::<NavTimeUTC>(rates).into_packet_bytes(),
        37 => CfgMsgAllPortsBuilder::set_rate_for::<CfgRate>(rates).into_packet_bytes(),
        38 => CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgSinglePort>(rates).into_packet_bytes(),
        39 => CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgAllPorts>(rates).into_packet_bytes(),
        40 => CfgMsgAllPortsBuilder::set_rate_for::<CfgNav5>(rates).into_packet_bytes(),
        41 => CfgMsgAllPortsBuilder::set_rate_for::<CfgNavX5>(rates).into_packet_bytes(),
        42 => CfgMsgAllPortsBuilder::set_rate_for::<MgaAck>(rates).into_packet_bytes(),
        43 => CfgMsgAllPortsBuilder::set_rate_for::<MgaGloEph>(rates).into_packet_bytes(),
        44 => CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsIono>(rates).into_packet_bytes(),
        45 => CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEph>(rates).into_packet_bytes(),
        46 => CfgMsgAllPortsBuilder::set_rate_for::<TimTp>(rates).into_packet_bytes(),
        47 => CfgMsgAllPortsBuilder::set_rate_for::<TimTm2>(rates).into_packet_bytes(),
        48 => CfgMsgAllPortsBuilder::set_rate_for::<RxmRawx>(rates).into_packet_bytes(),
        49 => CfgMsgAllPortsBuilder::set_rate_for::<MonHw>(rates).into_packet_bytes(),
        50 => CfgMsgAllPortsBuilder::set_rate_for::<MonGnss>(rates).into_packet_bytes(),
        51 => CfgMsgAllPortsBuilder::set_rate_for::<MonVer>(rates).into_packet_bytes(),
        52 => CfgMsgAllPortsBuilder::set_rate_for::<RxmRtcm>(rates).into_packet_bytes(),
        53 => CfgMsgAllPortsBuilder::set_rate_for::<EsfMeas>(rates).into_packet_bytes(),
        54 => CfgMsgAllPortsBuilder::set_rate_for::<EsfRaw>(rates).into_packet_bytes(),
        55 => CfgMsgAllPortsBuilder::set_rate_for::<EsfIns>(rates).into_packet_bytes(),
        56 => CfgMsgAllPortsBuilder::set_rate_for::<HnrAtt>(rates).into_packet_bytes(),
        57 => CfgMsgAllPortsBuilder::set_rate_for::<HnrIns>(rates).into_packet_bytes(),
        58 => CfgMsgAllPortsBuilder::set_rate_for::<HnrPvt>(rates).into_packet_bytes(),
        59 => CfgMsgAllPortsBuilder::set_rate_for::<NavAtt>(rates).into_packet_bytes(),
        60 => CfgMsgAllPortsBuilder::set_rate_for::<NavClock>(rates).into_packet_bytes(),
        61 => CfgMsgAllPortsBuilder::set_rate_for::<RxmSfrbx>(rates).into_packet_bytes(),
        62 => CfgMsgAllPortsBuilder::set_rate_for::<NavVelECEF>(rates).into_packet_bytes(),
        63 => CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEPH>(rates).into_packet_bytes(),
        64 => CfgMsgAllPortsBuilder::set_rate_for::<RxmRawxInfo>(rates).into_packet_bytes(),
        65 => CfgMsgAllPortsBuilder::set_rate_for::<SecUniqId>(rates).into_packet_bytes(),
        _ => unreachable!(),
    }
}
