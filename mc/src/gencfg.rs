//! Written by tools/gen_cfg.py from spec/cfgval.json. Do not edit.
use ublox::cfg_val::*;
use ublox::*;
pub struct Ck {
    pub name: &'static str,
    pub key: u32,
    pub width: usize,
    /// The number of codes, 0: any value of the width.
    pub codes: u64,
}
pub static CFGS: &[Ck] = &[
    Ck { name: "Uart1Baudrate", key: 0x40520001, width: 4, codes: 0 },
    Ck { name: "Uart1StopBits", key: 0x20520002, width: 1, codes: 4 },
    Ck { name: "Uart1DataBits", key: 0x20520003, width: 1, codes: 2 },
    Ck { name: "Uart1Parity", key: 0x20520004, width: 1, codes: 3 },
    Ck { name: "Uart1Enabled", key: 0x10520005, width: 1, codes: 2 },
    Ck { name: "Uart1InProtUbx", key: 0x10730001, width: 1, codes: 2 },
    Ck { name: "Uart1InProtNmea", key: 0x10730002, width: 1, codes: 2 },
    Ck { name: "Uart1InProtRtcm3x", key: 0x10730004, width: 1, codes: 2 },
    Ck { name: "Uart1OutProtUbx", key: 0x10740001, width: 1, codes: 2 },
    Ck { name: "Uart1OutProtNmea", key: 0x10740002, width: 1, codes: 2 },
    Ck { name: "Uart1OutProtRtcm3x", key: 0x10740004, width: 1, codes: 2 },
    Ck { name: "Uart2Baudrate", key: 0x40530001, width: 4, codes: 0 },
    Ck { name: "Uart2StopBits", key: 0x20530002, width: 1, codes: 4 },
    Ck { name: "Uart2DataBits", key: 0x20530003, width: 1, codes: 2 },
    Ck { name: "Uart2Parity", key: 0x20530004, width: 1, codes: 3 },
    Ck { name: "Uart2Enabled", key: 0x10530005, width: 1, codes: 2 },
    Ck { name: "Uart2Remap", key: 0x10530006, width: 1, codes: 2 },
    Ck { name: "Uart2InProtUbx", key: 0x10750001, width: 1, codes: 2 },
    Ck { name: "Uart2InProtNmea", key: 0x10750002, width: 1, codes: 2 },
    Ck { name: "Uart2InProtRtcm3x", key: 0x10750004, width: 1, codes: 2 },
    Ck { name: "Uart2OutProtUbx", key: 0x10760001, width: 1, codes: 2 },
    Ck { name: "Uart2OutProtNmea", key: 0x10760002, width: 1, codes: 2 },
    Ck { name: "Uart2OutProtRtcm3x", key: 0x10760004, width: 1, codes: 2 },
    Ck { name: "UsbEnabled", key: 0x10650001, width: 1, codes: 2 },
    Ck { name: "UsbSelfpow", key: 0x10650002, width: 1, codes: 2 },
    Ck { name: "UsbVendorId", key: 0x3065000a, width: 2, codes: 0 },
    Ck { name: "UsbProductId", key: 0x3065000b, width: 2, codes: 0 },
    Ck { name: "UsbPower", key: 0x3065000c, width: 2, codes: 0 },
    Ck { name: "UsbVendorStr0", key: 0x5065000d, width: 8, codes: 0 },
    Ck { name: "UsbVendorStr1", key: 0x5065000e, width: 8, codes: 0 },
    Ck { name: "UsbVendorStr2", key: 0x5065000f, width: 8, codes: 0 },
    Ck { name: "UsbVendorStr3", key: 0x50650010, width: 8, codes: 0 },
    Ck { name: "UsbProductStr0", key: 0x50650011, width: 8, codes: 0 },
    Ck { name: "UsbProductStr1", key: 0x50650012, width: 8, codes: 0 },
    Ck { name: "UsbProductStr2", key: 0x50650013, width: 8, codes: 0 },
    Ck { name: "UsbProductStr3", key: 0x50650014, width: 8, codes: 0 },
    Ck { name: "UsbSerialNoStr0", key: 0x50650015, width: 8, codes: 0 },
    Ck { name: "UsbSerialNoStr1", key: 0x50650016, width: 8, codes: 0 },
    Ck { name: "UsbSerialNoStr2", key: 0x50650017, width: 8, codes: 0 },
    Ck { name: "UsbSerialNoStr3", key: 0x50650018, width: 8, codes: 0 },
    Ck { name: "UsbinprotUbx", key: 0x10770001, width: 1, codes: 2 },
    Ck { name: "UsbinprotNmea", key: 0x10770002, width: 1, codes: 2 },
    Ck { name: "UsbinprotRtcm3X", key: 0x10770004, width: 1, codes: 2 },
    Ck { name: "UsbOutProtUbx", key: 0x10780001, width: 1, codes: 2 },
    Ck { name: "UsbOutProtNmea", key: 0x10780002, width: 1, codes: 2 },
    Ck { name: "UsbOutProtRtcm3x", key: 0x10780004, width: 1, codes: 2 },
    Ck { name: "InfmsgUbxI2c", key: 0x20920001, width: 1, codes: 0 },
    Ck { name: "InfmsgUbxUart1", key: 0x20920002, width: 1, codes: 0 },
    Ck { name: "InfmsgUbxUart2", key: 0x20920003, width: 1, codes: 0 },
    Ck { name: "InfmsgUbxUsb", key: 0x20920004, width: 1, codes: 0 },
    Ck { name: "InfmsgUbxSpi", key: 0x20920005, width: 1, codes: 0 },
    Ck { name: "InfmsgNmeaI2c", key: 0x20920006, width: 1, codes: 0 },
    Ck { name: "InfmsgNmeaUart1", key: 0x20920007, width: 1, codes: 0 },
    Ck { name: "InfmsgNmeaUart2", key: 0x20920008, width: 1, codes: 0 },
    Ck { name: "InfmsgNmeaUsb", key: 0x20920009, width: 1, codes: 0 },
    Ck { name: "InfmsgNmeaSpi", key: 0x2092000a, width: 1, codes: 0 },
    Ck { name: "RateMeas", key: 0x30210001, width: 2, codes: 0 },
    Ck { name: "RateNav", key: 0x30210002, width: 2, codes: 0 },
    Ck { name: "RateTimeref", key: 0x20210003, width: 1, codes: 5 },
    Ck { name: "MsgoutNmeaIdDtmI2c", key: 0x209100a6, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdDtmSpi", key: 0x209100aa, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdDtmUart1", key: 0x209100a7, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdDtmUart2", key: 0x209100a8, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdDtmUsb", key: 0x209100a9, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGbsI2c", key: 0x209100dd, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGbsSpi", key: 0x209100e1, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGbsUart1", key: 0x209100de, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGbsUart2", key: 0x209100df, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGbsUsb", key: 0x209100e0, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGgaI2c", key: 0x209100ba, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGgaSpi", key: 0x209100be, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGgaUart1", key: 0x209100bb, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGgaUart2", key: 0x209100bc, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGgaUsb", key: 0x209100bd, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGllI2c", key: 0x209100c9, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGllSpi", key: 0x209100cd, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGllUart1", key: 0x209100ca, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGllUart2", key: 0x209100cb, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGllUsb", key: 0x209100cc, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGnsI2c", key: 0x209100b5, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGnsSpi", key: 0x209100b9, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGnsUart1", key: 0x209100b6, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGnsUart2", key: 0x209100b7, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGnsUsb", key: 0x209100b8, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGrsI2c", key: 0x209100ce, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGrsSpi", key: 0x209100d2, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGrsUart1", key: 0x209100cf, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGrsUart2", key: 0x209100d0, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGrsUsb", key: 0x209100d1, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsaI2c", key: 0x209100bf, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsaSpi", key: 0x209100c3, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsaUart1", key: 0x209100c0, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsaUart2", key: 0x209100c1, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsaUsb", key: 0x209100c2, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGstI2c", key: 0x209100d3, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGstSpi", key: 0x209100d7, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGstUart1", key: 0x209100d4, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGstUart2", key: 0x209100d5, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGstUsb", key: 0x209100d6, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsvI2c", key: 0x209100c4, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsvSpi", key: 0x209100c8, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsvUart1", key: 0x209100c5, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsvUart2", key: 0x209100c6, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdGsvUsb", key: 0x209100c7, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdRmcI2c", key: 0x209100ab, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdRmcSpi", key: 0x209100af, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdRmcUart1", key: 0x209100ac, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdRmcUart2", key: 0x209100ad, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdRmcUsb", key: 0x209100ae, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVlwI2c", key: 0x209100e7, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVlwSpi", key: 0x209100eb, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVlwUart1", key: 0x209100e8, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVlwUart2", key: 0x209100e9, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVlwUsb", key: 0x209100ea, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVtgI2c", key: 0x209100b0, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVtgSpi", key: 0x209100b4, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVtgUart1", key: 0x209100b1, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVtgUart2", key: 0x209100b2, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdVtgUsb", key: 0x209100b3, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdZdaI2c", key: 0x209100d8, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdZdaSpi", key: 0x209100dc, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdZdaUart1", key: 0x209100d9, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdZdaUart2", key: 0x209100da, width: 1, codes: 0 },
    Ck { name: "MsgoutNmeaIdZdaUsb", key: 0x209100db, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolypI2c", key: 0x209100ec, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolypSpi", key: 0x209100f0, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolypUart1", key: 0x209100ed, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolypUart2", key: 0x209100ee, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolypUsb", key: 0x209100ef, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolysI2c", key: 0x209100f1, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolysSpi", key: 0x209100f5, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolysUart1", key: 0x209100f2, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolysUart2", key: 0x209100f3, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolysUsb", key: 0x209100f4, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolytI2c", key: 0x209100f6, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolytSpi", key: 0x209100fa, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolytUart1", key: 0x209100f7, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolytUart2", key: 0x209100f8, width: 1, codes: 0 },
    Ck { name: "MsgoutPubxIdPolytUsb", key: 0x209100f9, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1005I2c", key: 0x209102bd, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1005Spi", key: 0x209102c1, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1005Uart1", key: 0x209102be, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1005Uart2", key: 0x209102bf, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1005Usb", key: 0x209102c0, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1074I2c", key: 0x2091035e, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1074Spi", key: 0x20910362, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1074Uart1", key: 0x2091035f, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1074Uart2", key: 0x20910360, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1074Usb", key: 0x20910361, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1077I2c", key: 0x209102cc, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1077Spi", key: 0x209102d0, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1077Uart1", key: 0x209102cd, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1077Uart2", key: 0x209102ce, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1077Usb", key: 0x209102cf, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1084I2c", key: 0x20910363, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1084Spi", key: 0x20910367, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1084Uart1", key: 0x20910364, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1084Uart2", key: 0x20910365, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1084Usb", key: 0x20910366, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1087I2c", key: 0x209102d1, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1087Spi", key: 0x209102d5, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1087Uart1", key: 0x209102d2, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1087Uart2", key: 0x209102d3, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1087Usb", key: 0x209102d4, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1094I2c", key: 0x20910368, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1094Spi", key: 0x2091036c, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1094Uart1", key: 0x20910369, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1094Uart2", key: 0x2091036a, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1094Usb", key: 0x2091036b, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1097I2c", key: 0x20910318, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1097Spi", key: 0x2091031c, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1097Uart1", key: 0x20910319, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1097Uart2", key: 0x2091031a, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1097Usb", key: 0x2091031b, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1124I2c", key: 0x2091036d, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1124Spi", key: 0x20910371, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1124Uart1", key: 0x2091036e, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1124Uart2", key: 0x2091036f, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1124Usb", key: 0x20910370, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1127I2c", key: 0x209102d6, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1127Spi", key: 0x209102da, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1127Uart1", key: 0x209102d7, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1127Uart2", key: 0x209102d8, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1127Usb", key: 0x209102d9, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1230I2c", key: 0x20910303, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1230Spi", key: 0x20910307, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1230Uart1", key: 0x20910304, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1230Uart2", key: 0x20910305, width: 1, codes: 0 },
    Ck { name: "MsgoutRtcm3xType1230Usb", key: 0x20910306, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxLogInfoI2c", key: 0x20910259, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxLogInfoSpi", key: 0x2091025d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxLogInfoUart1", key: 0x2091025a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxLogInfoUart2", key: 0x2091025b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxLogInfoUsb", key: 0x2091025c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonCommsI2c", key: 0x2091034f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonCommsSpi", key: 0x20910353, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonCommsUart1", key: 0x20910350, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonCommsUart2", key: 0x20910351, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonCommsUsb", key: 0x20910352, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw2I2c", key: 0x209101b9, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw2Spi", key: 0x209101bd, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw2Uart1", key: 0x209101ba, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw2Uart2", key: 0x209101bb, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw2Usb", key: 0x209101bc, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw3I2c", key: 0x20910354, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw3Spi", key: 0x20910358, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw3Uart1", key: 0x20910355, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw3Uart2", key: 0x20910356, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHw3Usb", key: 0x20910357, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHwI2c", key: 0x209101b4, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHwSpi", key: 0x209101b8, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHwUart1", key: 0x209101b5, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHwUart2", key: 0x209101b6, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonHwUsb", key: 0x209101b7, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonIoI2c", key: 0x209101a5, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonIoSpi", key: 0x209101a9, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonIoUart1", key: 0x209101a6, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonIoUart2", key: 0x209101a7, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonIoUsb", key: 0x209101a8, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonMsgPpI2c", key: 0x20910196, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonMsgPpSpi", key: 0x2091019a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonMsgPpUart1", key: 0x20910197, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonMsgPpUart2", key: 0x20910198, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonMsgPpUsb", key: 0x20910199, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRfI2c", key: 0x20910359, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRfSpi", key: 0x2091035d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRfUart1", key: 0x2091035a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRfUart2", key: 0x2091035b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRfUsb", key: 0x2091035c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxbufI2c", key: 0x209101a0, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxbufSpi", key: 0x209101a4, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxbufUart1", key: 0x209101a1, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxbufUart2", key: 0x209101a2, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxbufUsb", key: 0x209101a3, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxrI2c", key: 0x20910187, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxrSpi", key: 0x2091018b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxrUart1", key: 0x20910188, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxrUart2", key: 0x20910189, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonRxrUsb", key: 0x2091018a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonTxbufI2c", key: 0x2091019b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonTxbufSpi", key: 0x2091019f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonTxbufUart1", key: 0x2091019c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonTxbufUart2", key: 0x2091019d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxMonTxbufUsb", key: 0x2091019e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavClockI2c", key: 0x20910065, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavClockSpi", key: 0x20910069, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavClockUart1", key: 0x20910066, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavClockUart2", key: 0x20910067, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavClockUsb", key: 0x20910068, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavDopI2c", key: 0x20910038, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavDopSpi", key: 0x2091003c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavDopUart1", key: 0x20910039, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavDopUart2", key: 0x2091003a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavDopUsb", key: 0x2091003b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavEoeI2c", key: 0x2091015f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavEoeSpi", key: 0x20910163, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavEoeUart1", key: 0x20910160, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavEoeUart2", key: 0x20910161, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavEoeUsb", key: 0x20910162, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavGeofenceI2c", key: 0x209100a1, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavGeofenceSpi", key: 0x209100a5, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavGeofenceUart1", key: 0x209100a2, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavGeofenceUart2", key: 0x209100a3, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavGeofenceUsb", key: 0x209100a4, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosEcefI2c", key: 0x2091002e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosEcefSpi", key: 0x20910032, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosEcefUart1", key: 0x2091002f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosEcefUart2", key: 0x20910030, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosEcefUsb", key: 0x20910031, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosllhI2c", key: 0x20910033, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosllhSpi", key: 0x20910037, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosllhUart1", key: 0x20910034, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosllhUart2", key: 0x20910035, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavHpPosllhUsb", key: 0x20910036, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOdoI2c", key: 0x2091007e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOdoSpi", key: 0x20910082, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOdoUart1", key: 0x2091007f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOdoUart2", key: 0x20910080, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOdoUsb", key: 0x20910081, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOrbI2c", key: 0x20910010, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOrbSpi", key: 0x20910014, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOrbUart1", key: 0x20910011, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOrbUart2", key: 0x20910012, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavOrbUsb", key: 0x20910013, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosEcefI2c", key: 0x20910024, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosEcefSpi", key: 0x20910028, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosEcefUart1", key: 0x20910025, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosEcefUart2", key: 0x20910026, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosEcefUsb", key: 0x20910027, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosLlhI2c", key: 0x20910029, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosLlhSpi", key: 0x2091002d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosLlhUart1", key: 0x2091002a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosLlhUart2", key: 0x2091002b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPosLlhUsb", key: 0x2091002c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPvtI2c", key: 0x20910006, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPvtSpi", key: 0x2091000a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPvtUart1", key: 0x20910007, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPvtUart2", key: 0x20910008, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavPvtUsb", key: 0x20910009, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavRelposnedI2c", key: 0x2091008d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavRelposnedSpi", key: 0x20910091, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavRelposnedUart1", key: 0x2091008e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavRelposnedUart2", key: 0x2091008f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavRelposnedUsb", key: 0x20910090, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSatI2c", key: 0x20910015, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSatSpi", key: 0x20910019, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSatUart1", key: 0x20910016, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSatUart2", key: 0x20910017, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSatUsb", key: 0x20910018, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSigI2c", key: 0x20910345, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSigSpi", key: 0x20910349, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSigUart1", key: 0x20910346, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSigUart2", key: 0x20910347, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSigUsb", key: 0x20910348, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavStatusI2c", key: 0x2091001a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavStatusSpi", key: 0x2091001e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavStatusUart1", key: 0x2091001b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavStatusUart2", key: 0x2091001c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavStatusUsb", key: 0x2091001d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSvinI2c", key: 0x20910088, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSvinSpi", key: 0x2091008c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSvinUart1", key: 0x20910089, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSvinUart2", key: 0x2091008a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavSvinUsb", key: 0x2091008b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeBdsI2c", key: 0x20910051, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeBdsSpi", key: 0x20910055, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeBdsUart1", key: 0x20910052, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeBdsUart2", key: 0x20910053, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeBdsUsb", key: 0x20910054, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGalI2c", key: 0x20910056, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGalSpi", key: 0x2091005a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGalUart1", key: 0x20910057, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGalUart2", key: 0x20910058, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGalUsb", key: 0x20910059, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGloI2c", key: 0x2091004c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGloSpi", key: 0x20910050, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGloUart1", key: 0x2091004d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGloUart2", key: 0x2091004e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGloUsb", key: 0x2091004f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGpsI2c", key: 0x20910047, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGpsSpi", key: 0x2091004b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGpsUart1", key: 0x20910048, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGpsUart2", key: 0x20910049, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeGpsUsb", key: 0x2091004a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeLsI2c", key: 0x20910060, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeLsSpi", key: 0x20910064, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeLsUart1", key: 0x20910061, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeLsUart2", key: 0x20910062, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeLsUsb", key: 0x20910063, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeUtcI2c", key: 0x2091005b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeUtcSpi", key: 0x2091005f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeUtcUart1", key: 0x2091005c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeUtcUart2", key: 0x2091005d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavTimeUtcUsb", key: 0x2091005e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelEcefI2c", key: 0x2091003d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelEcefSpi", key: 0x20910041, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelEcefUart1", key: 0x2091003e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelEcefUart2", key: 0x2091003f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelEcefUsb", key: 0x20910040, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelNedI2c", key: 0x20910042, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelNedSpi", key: 0x20910046, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelNedUart1", key: 0x20910043, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelNedUart2", key: 0x20910044, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxNavVelNedUsb", key: 0x20910045, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmMeasxI2c", key: 0x20910204, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmMeasxSpi", key: 0x20910208, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmMeasxUart1", key: 0x20910205, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmMeasxUart2", key: 0x20910206, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmMeasxUsb", key: 0x20910207, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRawxI2c", key: 0x209102a4, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRawxSpi", key: 0x209102a8, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRawxUart1", key: 0x209102a5, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRawxUart2", key: 0x209102a6, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRawxUsb", key: 0x209102a7, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRlmI2c", key: 0x2091025e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRlmSpi", key: 0x20910262, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRlmUart1", key: 0x2091025f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRlmUart2", key: 0x20910260, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRlmUsb", key: 0x20910261, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRtcmI2c", key: 0x20910268, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRtcmSpi", key: 0x2091026c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRtcmUart1", key: 0x20910269, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRtcmUart2", key: 0x2091026a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmRtcmUsb", key: 0x2091026b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmSfrbxI2c", key: 0x20910231, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmSfrbxSpi", key: 0x20910235, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmSfrbxUart1", key: 0x20910232, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmSfrbxUart2", key: 0x20910233, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxRxmSfrbxUsb", key: 0x20910234, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTm2I2c", key: 0x20910178, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTm2Spi", key: 0x2091017c, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTm2Uart1", key: 0x20910179, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTm2Uart2", key: 0x2091017a, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTm2Usb", key: 0x2091017b, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTpI2c", key: 0x2091017d, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTpSpi", key: 0x20910181, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTpUart1", key: 0x2091017e, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTpUart2", key: 0x2091017f, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimTpUsb", key: 0x20910180, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimVrfyI2c", key: 0x20910092, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimVrfySpi", key: 0x20910096, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimVrfyUart1", key: 0x20910093, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimVrfyUart2", key: 0x20910094, width: 1, codes: 0 },
    Ck { name: "MsgoutUbxTimVrfyUsb", key: 0x20910095, width: 1, codes: 0 },
    Ck { name: "SignalGpsEna", key: 0x1031001f, width: 1, codes: 2 },
    Ck { name: "SignalGpsL1caEna", key: 0x10310001, width: 1, codes: 2 },
    Ck { name: "SignalGpsL2cEna", key: 0x10310003, width: 1, codes: 2 },
    Ck { name: "SignalGalEna", key: 0x10310021, width: 1, codes: 2 },
    Ck { name: "SignalGalE1Ena", key: 0x10310007, width: 1, codes: 2 },
    Ck { name: "SignalGalE5bEna", key: 0x1031000a, width: 1, codes: 2 },
    Ck { name: "SignalBdsEna", key: 0x10310022, width: 1, codes: 2 },
    Ck { name: "SignalBdsB1Ena", key: 0x1031000d, width: 1, codes: 2 },
    Ck { name: "SignalBdsB2Ena", key: 0x1031000e, width: 1, codes: 2 },
    Ck { name: "SignalQzssEna", key: 0x10310024, width: 1, codes: 2 },
    Ck { name: "SignalQzssL1caEna", key: 0x10310012, width: 1, codes: 2 },
    Ck { name: "SignalQzssL2cEna", key: 0x10310015, width: 1, codes: 2 },
    Ck { name: "SignalGloEna", key: 0x10310025, width: 1, codes: 2 },
    Ck { name: "SignalGloL1Ena", key: 0x10310018, width: 1, codes: 2 },
    Ck { name: "SignalGLoL2Ena", key: 0x1031001a, width: 1, codes: 2 },
    Ck { name: "TpPulseDef", key: 0x20050023, width: 1, codes: 2 },
    Ck { name: "TpPulseLengthDef", key: 0x20050030, width: 1, codes: 2 },
    Ck { name: "TpAntCableDelay", key: 0x30050001, width: 2, codes: 0 },
    Ck { name: "TpPeriodTp1", key: 0x40050002, width: 4, codes: 0 },
    Ck { name: "TpPeriodLockTp1", key: 0x40050003, width: 4, codes: 0 },
    Ck { name: "TpFreqTp1", key: 0x40050024, width: 4, codes: 0 },
    Ck { name: "TpFreqLockTp1", key: 0x40050025, width: 4, codes: 0 },
    Ck { name: "TpLenTp1", key: 0x40050004, width: 4, codes: 0 },
    Ck { name: "TpLenLockTp1", key: 0x40050005, width: 4, codes: 0 },
    Ck { name: "TpTp1Ena", key: 0x10050007, width: 1, codes: 2 },
    Ck { name: "TpSyncGnssTp1", key: 0x10050008, width: 1, codes: 2 },
    Ck { name: "TpUseLockedTp1", key: 0x10050009, width: 1, codes: 2 },
    Ck { name: "TpAlignToTowTp1", key: 0x1005000a, width: 1, codes: 2 },
    Ck { name: "TpPolTp1", key: 0x1005000b, width: 1, codes: 2 },
    Ck { name: "TpTimegridTp1", key: 0x2005000c, width: 1, codes: 5 },
];
/// The item with a value code.
pub fn cfg_make(k: usize, v: u64) -> CfgVal {
    match k {
        0 => CfgVal::Uart1Baudrate(v as u32),
        1 => CfgVal::Uart1StopBits(match v { 0 => StopBits::Half, 1 => StopBits::One, 2 => StopBits::OneHalf, _ => StopBits::Two }),
        2 => CfgVal::Uart1DataBits(match v { 0 => DataBits::Eight, _ => DataBits::Seven }),
        3 => CfgVal::Uart1Parity(match v { 0 => Parity::None, 1 => Parity::Odd, _ => Parity::Even }),
        4 => CfgVal::Uart1Enabled(match v { 0 => false, _ => true }),
        5 => CfgVal::Uart1InProtUbx(match v { 0 => false, _ => true }),
        6 => CfgVal::Uart1InProtNmea(match v { 0 => false, _ => true }),
        7 => CfgVal::Uart1InProtRtcm3x(match v { 0 => false, _ => true }),
        8 => CfgVal::Uart1OutProtUbx(match v { 0 => false, _ => true }),
        9 => CfgVal::Uart1OutProtNmea(match v { 0 => false, _ => true }),
        10 => CfgVal::Uart1OutProtRtcm3x(match v { 0 => false, _ => true }),
        11 => CfgVal::Uart2Baudrate(v as u32),
        12 => CfgVal::Uart2StopBits(match v { 0 => StopBits::Half, 1 => StopBits::One, 2 => StopBits::OneHalf, _ => StopBits::Two }),
        13 => CfgVal::Uart2DataBits(match v { 0 => DataBits::Eight, _ => DataBits::Seven }),
        14 => CfgVal::Uart2Parity(match v { 0 => Parity::None, 1 => Parity::Odd, _ => Parity::Even }),
        15 => CfgVal::Uart2Enabled(match v { 0 => false, _ => true }),
        16 => CfgVal::Uart2Remap(match v { 0 => false, _ => true }),
        17 => CfgVal::Uart2InProtUbx(match v { 0 => false, _ => true }),
        18 => CfgVal::Uart2InProtNmea(match v { 0 => false, _ => true }),
        19 => CfgVal::Uart2InProtRtcm3x(match v { 0 => false, _ => true }),
        20 => CfgVal::Uart2OutProtUbx(match v { 0 => false, _ => true }),
        21 => CfgVal::Uart2OutProtNmea(match v { 0 => false, _ => true }),
        22 => CfgVal::Uart2OutProtRtcm3x(match v { 0 => false, _ => true }),
        23 => CfgVal::UsbEnabled(match v { 0 => false, _ => true }),
        24 => CfgVal::UsbSelfpow(match v { 0 => false, _ => true }),
        25 => CfgVal::UsbVendorId(v as u16),
        26 => CfgVal::UsbProductId(v as u16),
        27 => CfgVal::UsbPower(v as u16),
        28 => CfgVal::UsbVendorStr0(v as u64),
        29 => CfgVal::UsbVendorStr1(v as u64),
        30 => CfgVal::UsbVendorStr2(v as u64),
        31 => CfgVal::UsbVendorStr3(v as u64),
        32 => CfgVal::UsbProductStr0(v as u64),
        33 => CfgVal::UsbProductStr1(v as u64),
        34 => CfgVal::UsbProductStr2(v as u64),
        35 => CfgVal::UsbProductStr3(v as u64),
        36 => CfgVal::UsbSerialNoStr0(v as u64),
        37 => CfgVal::UsbSerialNoStr1(v as u64),
        38 => CfgVal::UsbSerialNoStr2(v as u64),
        39 => CfgVal::UsbSerialNoStr3(v as u64),
        40 => CfgVal::UsbinprotUbx(match v { 0 => false, _ => true }),
        41 => CfgVal::UsbinprotNmea(match v { 0 => false, _ => true }),
        42 => CfgVal::UsbinprotRtcm3X(match v { 0 => false, _ => true }),
        43 => CfgVal::UsbOutProtUbx(match v { 0 => false, _ => true }),
        44 => CfgVal::UsbOutProtNmea(match v { 0 => false, _ => true }),
        45 => CfgVal::UsbOutProtRtcm3x(match v { 0 => false, _ => true }),
        46 => CfgVal::InfmsgUbxI2c(CfgInfMask::from_bits_truncate(v as u8)),
        47 => CfgVal::InfmsgUbxUart1(CfgInfMask::from_bits_truncate(v as u8)),
        48 => CfgVal::InfmsgUbxUart2(CfgInfMask::from_bits_truncate(v as u8)),
        49 => CfgVal::InfmsgUbxUsb(CfgInfMask::from_bits_truncate(v as u8)),
        50 => CfgVal::InfmsgUbxSpi(CfgInfMask::from_bits_truncate(v as u8)),
        51 => CfgVal::InfmsgNmeaI2c(CfgInfMask::from_bits_truncate(v as u8)),
        52 => CfgVal::InfmsgNmeaUart1(CfgInfMask::from_bits_truncate(v as u8)),
        53 => CfgVal::InfmsgNmeaUart2(CfgInfMask::from_bits_truncate(v as u8)),
        54 => CfgVal::InfmsgNmeaUsb(CfgInfMask::from_bits_truncate(v as u8)),
        55 => CfgVal::InfmsgNmeaSpi(CfgInfMask::from_bits_truncate(v as u8)),
        56 => CfgVal::RateMeas(v as u16),
        57 => CfgVal::RateNav(v as u16),
        58 => CfgVal::RateTimeref(match v { 0 => AlignmentToReferenceTime::Utc, 1 => AlignmentToReferenceTime::Gps, 2 => AlignmentToReferenceTime::Glo, 3 => AlignmentToReferenceTime::Bds, _ => AlignmentToReferenceTime::Gal }),
        59 => CfgVal::MsgoutNmeaIdDtmI2c(v as u8),
        60 => CfgVal::MsgoutNmeaIdDtmSpi(v as u8),
        61 => CfgVal::MsgoutNmeaIdDtmUart1(v as u8),
        62 => CfgVal::MsgoutNmeaIdDtmUart2(v as u8),
        63 => CfgVal::MsgoutNmeaIdDtmUsb(v as u8),
        64 => CfgVal::MsgoutNmeaIdGbsI2c(v as u8),
        65 => CfgVal::MsgoutNmeaIdGbsSpi(v as u8),
        66 => CfgVal::MsgoutNmeaIdGbsUart1(v as u8),
        67 => CfgVal::MsgoutNmeaIdGbsUart2(v as u8),
        68 => CfgVal::MsgoutNmeaIdGbsUsb(v as u8),
        69 => CfgVal::MsgoutNmeaIdGgaI2c(v as u8),
        70 => CfgVal::MsgoutNmeaIdGgaSpi(v as u8),
        71 => CfgVal::MsgoutNmeaIdGgaUart1(v as u8),
        72 => CfgVal::MsgoutNmeaIdGgaUart2(v as u8),
        73 => CfgVal::MsgoutNmeaIdGgaUsb(v as u8),
        74 => CfgVal::MsgoutNmeaIdGllI2c(v as u8),
        75 => CfgVal::MsgoutNmeaIdGllSpi(v as u8),
        76 => CfgVal::MsgoutNmeaIdGllUart1(v as u8),
        77 => CfgVal::MsgoutNmeaIdGllUart2(v as u8),
        78 => CfgVal::MsgoutNmeaIdGllUsb(v as u8),
        79 => CfgVal::MsgoutNmeaIdGnsI2c(v as u8),
        80 => CfgVal::MsgoutNmeaIdGnsSpi(v as u8),
        81 => CfgVal::MsgoutNmeaIdGnsUart1(v as u8),
        82 => CfgVal::MsgoutNmeaIdGnsUart2(v as u8),
        83 => CfgVal::MsgoutNmeaIdGnsUsb(v as u8),
        84 => CfgVal::MsgoutNmeaIdGrsI2c(v as u8),
        85 => CfgVal::MsgoutNmeaIdGrsSpi(v as u8),
        86 => CfgVal::MsgoutNmeaIdGrsUart1(v as u8),
        87 => CfgVal::MsgoutNmeaIdGrsUart2(v as u8),
        88 => CfgVal::MsgoutNmeaIdGrsUsb(v as u8),
        89 => CfgVal::MsgoutNmeaIdGsaI2c(v as u8),
        90 => CfgVal::MsgoutNmeaIdGsaSpi(v as u8),
        91 => CfgVal::MsgoutNmeaIdGsaUart1(v as u8),
        92 => CfgVal::MsgoutNmeaIdGsaUart2(v as u8),
        93 => CfgVal::MsgoutNmeaIdGsaUsb(v as u8),
        94 => CfgVal::MsgoutNmeaIdGstI2c(v as u8),
        95 => CfgVal::MsgoutNmeaIdGstSpi(v as u8),
        96 => CfgVal::MsgoutNmeaIdGstUart1(v as u8),
        97 => CfgVal::MsgoutNmeaIdGstUart2(v as u8),
        98 => CfgVal::MsgoutNmeaIdGstUsb(v as u8),
        99 => CfgVal::MsgoutNmeaIdGsvI2c(v as u8),
        100 => CfgVal::MsgoutNmeaIdGsvSpi(v as u8),
        101 => CfgVal::MsgoutNmeaIdGsvUart1(v as u8),
        102 => CfgVal::MsgoutNmeaIdGsvUart2(v as u8),
        103 => CfgVal::MsgoutNmeaIdGsvUsb(v as u8),
        104 => CfgVal::MsgoutNmeaIdRmcI2c(v as u8),
        105 => CfgVal::MsgoutNmeaIdRmcSpi(v as u8),
        106 => CfgVal::MsgoutNmeaIdRmcUart1(v as u8),
        107 => CfgVal::MsgoutNmeaIdRmcUart2(v as u8),
        108 => CfgVal::MsgoutNmeaIdRmcUsb(v as u8),
        109 => CfgVal::MsgoutNmeaIdVlwI2c(v as u8),
        110 => CfgVal::MsgoutNmeaIdVlwSpi(v as u8),
        111 => CfgVal::MsgoutNmeaIdVlwUart1(v as u8),
        112 => CfgVal::MsgoutNmeaIdVlwUart2(v as u8),
        113 => CfgVal::MsgoutNmeaIdVlwUsb(v as u8),
        114 => CfgVal::MsgoutNmeaIdVtgI2c(v as u8),
        115 => CfgVal::MsgoutNmeaIdVtgSpi(v as u8),
        116 => CfgVal::MsgoutNmeaIdVtgUart1(v as u8),
        117 => CfgVal::MsgoutNmeaIdVtgUart2(v as u8),
        118 => CfgVal::MsgoutNmeaIdVtgUsb(v as u8),
        119 => CfgVal::MsgoutNmeaIdZdaI2c(v as u8),
        120 => CfgVal::MsgoutNmeaIdZdaSpi(v as u8),
        121 => CfgVal::MsgoutNmeaIdZdaUart1(v as u8),
        122 => CfgVal::MsgoutNmeaIdZdaUart2(v as u8),
        123 => CfgVal::MsgoutNmeaIdZdaUsb(v as u8),
        124 => CfgVal::MsgoutPubxIdPolypI2c(v as u8),
        125 => CfgVal::MsgoutPubxIdPolypSpi(v as u8),
        126 => CfgVal::MsgoutPubxIdPolypUart1(v as u8),
        127 => CfgVal::MsgoutPubxIdPolypUart2(v as u8),
        128 => CfgVal::MsgoutPubxIdPolypUsb(v as u8),
        129 => CfgVal::MsgoutPubxIdPolysI2c(v as u8),
        130 => CfgVal::MsgoutPubxIdPolysSpi(v as u8),
        131 => CfgVal::MsgoutPubxIdPolysUart1(v as u8),
        132 => CfgVal::MsgoutPubxIdPolysUart2(v as u8),
        133 => CfgVal::MsgoutPubxIdPolysUsb(v as u8),
        134 => CfgVal::MsgoutPubxIdPolytI2c(v as u8),
        135 => CfgVal::MsgoutPubxIdPolytSpi(v as u8),
        136 => CfgVal::MsgoutPubxIdPolytUart1(v as u8),
        137 => CfgVal::MsgoutPubxIdPolytUart2(v as u8),
        138 => CfgVal::MsgoutPubxIdPolytUsb(v as u8),
        139 => CfgVal::MsgoutRtcm3xType1005I2c(v as u8),
        140 => CfgVal::MsgoutRtcm3xType1005Spi(v as u8),
        141 => CfgVal::MsgoutRtcm3xType1005Uart1(v as u8),
        142 => CfgVal::MsgoutRtcm3xType1005Uart2(v as u8),
        143 => CfgVal::MsgoutRtcm3xType1005Usb(v as u8),
        144 => CfgVal::MsgoutRtcm3xType1074I2c(v as u8),
        145 => CfgVal::MsgoutRtcm3xType1074Spi(v as u8),
        146 => CfgVal::MsgoutRtcm3xType1074Uart1(v as u8),
        147 => CfgVal::MsgoutRtcm3xType1074Uart2(v as u8),
        148 => CfgVal::MsgoutRtcm3xType1074Usb(v as u8),
        149 => CfgVal::MsgoutRtcm3xType1077I2c(v as u8),
        150 => CfgVal::MsgoutRtcm3xType1077Spi(v as u8),
        151 => CfgVal::MsgoutRtcm3xType1077Uart1(v as u8),
        152 => CfgVal::MsgoutRtcm3xType1077Uart2(v as u8),
        153 => CfgVal::MsgoutRtcm3xType1077Usb(v as u8),
        154 => CfgVal::MsgoutRtcm3xType1084I2c(v as u8),
        155 => CfgVal::MsgoutRtcm3xType1084Spi(v as u8),
        156 => CfgVal::MsgoutRtcm3xType1084Uart1(v as u8),
        157 => CfgVal::MsgoutRtcm3xType1084Uart2(v as u8),
        158 => CfgVal::MsgoutRtcm3xType1084Usb(v as u8),
        159 => CfgVal::MsgoutRtcm3xType1087I2c(v as u8),
        160 => CfgVal::MsgoutRtcm3xType1087Spi(v as u8),
        161 => CfgVal::MsgoutRtcm3xType1087Uart1(v as u8),
        162 => CfgVal::MsgoutRtcm3xType1087Uart2(v as u8),
        163 => CfgVal::MsgoutRtcm3xType1087Usb(v as u8),
        164 => CfgVal::MsgoutRtcm3xType1094I2c(v as u8),
        165 => CfgVal::MsgoutRtcm3xType1094Spi(v as u8),
        166 => CfgVal::MsgoutRtcm3xType1094Uart1(v as u8),
        167 => CfgVal::MsgoutRtcm3xType1094Uart2(v as u8),
        168 => CfgVal::MsgoutRtcm3xType1094Usb(v as u8),
        169 => CfgVal::MsgoutRtcm3xType1097I2c(v as u8),
        170 => CfgVal::MsgoutRtcm3xType1097Spi(v as u8),
        171 => CfgVal::MsgoutRtcm3xType1097Uart1(v as u8),
        172 => CfgVal::MsgoutRtcm3xType1097Uart2(v as u8),
        173 => CfgVal::MsgoutRtcm3xType1097Usb(v as u8),
        174 => CfgVal::MsgoutRtcm3xType1124I2c(v as u8),
        175 => CfgVal::MsgoutRtcm3xType1124Spi(v as u8),
        176 => CfgVal::MsgoutRtcm3xType1124Uart1(v as u8),
        177 => CfgVal::MsgoutRtcm3xType1124Uart2(v as u8),
        178 => CfgVal::MsgoutRtcm3xType1124Usb(v as u8),
        179 => CfgVal::MsgoutRtcm3xType1127I2c(v as u8),
        180 => CfgVal::MsgoutRtcm3xType1127Spi(v as u8),
        181 => CfgVal::MsgoutRtcm3xType1127Uart1(v as u8),
        182 => CfgVal::MsgoutRtcm3xType1127Uart2(v as u8),
        183 => CfgVal::MsgoutRtcm3xType1127Usb(v as u8),
        184 => CfgVal::MsgoutRtcm3xType1230I2c(v as u8),
        185 => CfgVal::MsgoutRtcm3xType1230Spi(v as u8),
        186 => CfgVal::MsgoutRtcm3xType1230Uart1(v as u8),
        187 => CfgVal::MsgoutRtcm3xType1230Uart2(v as u8),
        188 => CfgVal::MsgoutRtcm3xType1230Usb(v as u8),
        189 => CfgVal::MsgoutUbxLogInfoI2c(v as u8),
        190 => CfgVal::MsgoutUbxLogInfoSpi(v as u8),
        191 => CfgVal::MsgoutUbxLogInfoUart1(v as u8),
        192 => CfgVal::MsgoutUbxLogInfoUart2(v as u8),
        193 => CfgVal::MsgoutUbxLogInfoUsb(v as u8),
        194 => CfgVal::MsgoutUbxMonCommsI2c(v as u8),
        195 => CfgVal::MsgoutUbxMonCommsSpi(v as u8),
        196 => CfgVal::MsgoutUbxMonCommsUart1(v as u8),
        197 => CfgVal::MsgoutUbxMonCommsUart2(v as u8),
        198 => CfgVal::MsgoutUbxMonCommsUsb(v as u8),
        199 => CfgVal::MsgoutUbxMonHw2I2c(v as u8),
        200 => CfgVal::MsgoutUbxMonHw2Spi(v as u8),
        201 => CfgVal::MsgoutUbxMonHw2Uart1(v as u8),
        202 => CfgVal::MsgoutUbxMonHw2Uart2(v as u8),
        203 => CfgVal::MsgoutUbxMonHw2Usb(v as u8),
        204 => CfgVal::MsgoutUbxMonHw3I2c(v as u8),
        205 => CfgVal::MsgoutUbxMonHw3Spi(v as u8),
        206 => CfgVal::MsgoutUbxMonHw3Uart1(v as u8),
        207 => CfgVal::MsgoutUbxMonHw3Uart2(v as u8),
        208 => CfgVal::MsgoutUbxMonHw3Usb(v as u8),
        209 => CfgVal::MsgoutUbxMonHwI2c(v as u8),
        210 => CfgVal::MsgoutUbxMonHwSpi(v as u8),
        211 => CfgVal::MsgoutUbxMonHwUart1(v as u8),
        212 => CfgVal::MsgoutUbxMonHwUart2(v as u8),
        213 => CfgVal::MsgoutUbxMonHwUsb(v as u8),
        214 => CfgVal::MsgoutUbxMonIoI2c(v as u8),
        215 => CfgVal::MsgoutUbxMonIoSpi(v as u8),
        216 => CfgVal::MsgoutUbxMonIoUart1(v as u8),
        217 => CfgVal::MsgoutUbxMonIoUart2(v as u8),
        218 => CfgVal::MsgoutUbxMonIoUsb(v as u8),
        219 => CfgVal::MsgoutUbxMonMsgPpI2c(v as u8),
        220 => CfgVal::MsgoutUbxMonMsgPpSpi(v as u8),
        221 => CfgVal::MsgoutUbxMonMsgPpUart1(v as u8),
        222 => CfgVal::MsgoutUbxMonMsgPpUart2(v as u8),
        223 => CfgVal::MsgoutUbxMonMsgPpUsb(v as u8),
        224 => CfgVal::MsgoutUbxMonRfI2c(v as u8),
        225 => CfgVal::MsgoutUbxMonRfSpi(v as u8),
        226 => CfgVal::MsgoutUbxMonRfUart1(v as u8),
        227 => CfgVal::MsgoutUbxMonRfUart2(v as u8),
        228 => CfgVal::MsgoutUbxMonRfUsb(v as u8),
        229 => CfgVal::MsgoutUbxMonRxbufI2c(v as u8),
        230 => CfgVal::MsgoutUbxMonRxbufSpi(v as u8),
        231 => CfgVal::MsgoutUbxMonRxbufUart1(v as u8),
        232 => CfgVal::MsgoutUbxMonRxbufUart2(v as u8),
        233 => CfgVal::MsgoutUbxMonRxbufUsb(v as u8),
        234 => CfgVal::MsgoutUbxMonRxrI2c(v as u8),
        235 => CfgVal::MsgoutUbxMonRxrSpi(v as u8),
        236 => CfgVal::MsgoutUbxMonRxrUart1(v as u8),
        237 => CfgVal::MsgoutUbxMonRxrUart2(v as u8),
        238 => CfgVal::MsgoutUbxMonRxrUsb(v as u8),
        239 => CfgVal::MsgoutUbxMonTxbufI2c(v as u8),
        240 => CfgVal::MsgoutUbxMonTxbufSpi(v as u8),
        241 => CfgVal::MsgoutUbxMonTxbufUart1(v as u8),
        242 => CfgVal::MsgoutUbxMonTxbufUart2(v as u8),
        243 => CfgVal::MsgoutUbxMonTxbufUsb(v as u8),
        244 => CfgVal::MsgoutUbxNavClockI2c(v as u8),
        245 => CfgVal::MsgoutUbxNavClockSpi(v as u8),
        246 => CfgVal::MsgoutUbxNavClockUart1(v as u8),
        247 => CfgVal::MsgoutUbxNavClockUart2(v as u8),
        248 => CfgVal::MsgoutUbxNavClockUsb(v as u8),
        249 => CfgVal::MsgoutUbxNavDopI2c(v as u8),
        250 => CfgVal::MsgoutUbxNavDopSpi(v as u8),
        251 => CfgVal::MsgoutUbxNavDopUart1(v as u8),
        252 => CfgVal::MsgoutUbxNavDopUart2(v as u8),
        253 => CfgVal::MsgoutUbxNavDopUsb(v as u8),
        254 => CfgVal::MsgoutUbxNavEoeI2c(v as u8),
        255 => CfgVal::MsgoutUbxNavEoeSpi(v as u8),
        256 => CfgVal::MsgoutUbxNavEoeUart1(v as u8),
        257 => CfgVal::MsgoutUbxNavEoeUart2(v as u8),
        258 => CfgVal::MsgoutUbxNavEoeUsb(v as u8),
        259 => CfgVal::MsgoutUbxNavGeofenceI2c(v as u8),
        260 => CfgVal::MsgoutUbxNavGeofenceSpi(v as u8),
        261 => CfgVal::MsgoutUbxNavGeofenceUart1(v as u8),
        262 => CfgVal::MsgoutUbxNavGeofenceUart2(v as u8),
        263 => CfgVal::MsgoutUbxNavGeofenceUsb(v as u8),
        264 => CfgVal::MsgoutUbxNavHpPosEcefI2c(v as u8),
        265 => CfgVal::MsgoutUbxNavHpPosEcefSpi(v as u8),
        266 => CfgVal::MsgoutUbxNavHpPosEcefUart1(v as u8),
        267 => CfgVal::MsgoutUbxNavHpPosEcefUart2(v as u8),
        268 => CfgVal::MsgoutUbxNavHpPosEcefUsb(v as u8),
        269 => CfgVal::MsgoutUbxNavHpPosllhI2c(v as u8),
        270 => CfgVal::MsgoutUbxNavHpPosllhSpi(v as u8),
        271 => CfgVal::MsgoutUbxNavHpPosllhUart1(v as u8),
        272 => CfgVal::MsgoutUbxNavHpPosllhUart2(v as u8),
        273 => CfgVal::MsgoutUbxNavHpPosllhUsb(v as u8),
        274 => CfgVal::MsgoutUbxNavOdoI2c(v as u8),
        275 => CfgVal::MsgoutUbxNavOdoSpi(v as u8),
        276 => CfgVal::MsgoutUbxNavOdoUart1(v as u8),
        277 => CfgVal::MsgoutUbxNavOdoUart2(v as u8),
        278 => CfgVal::MsgoutUbxNavOdoUsb(v as u8),
        279 => CfgVal::MsgoutUbxNavOrbI2c(v as u8),
        280 => CfgVal::MsgoutUbxNavOrbSpi(v as u8),
        281 => CfgVal::MsgoutUbxNavOrbUart1(v as u8),
        282 => CfgVal::MsgoutUbxNavOrbUart2(v as u8),
        283 => CfgVal::MsgoutUbxNavOrbUsb(v as u8),
        284 => CfgVal::MsgoutUbxNavPosEcefI2c(v as u8),
        285 => CfgVal::MsgoutUbxNavPosEcefSpi(v as u8),
        286 => CfgVal::MsgoutUbxNavPosEcefUart1(v as u8),
        287 => CfgVal::MsgoutUbxNavPosEcefUart2(v as u8),
        288 => CfgVal::MsgoutUbxNavPosEcefUsb(v as u8),
        289 => CfgVal::MsgoutUbxNavPosLlhI2c(v as u8),
        290 => CfgVal::MsgoutUbxNavPosLlhSpi(v as u8),
        291 => CfgVal::MsgoutUbxNavPosLlhUart1(v as u8),
        292 => CfgVal::MsgoutUbxNavPosLlhUart2(v as u8),
        293 => CfgVal::MsgoutUbxNavPosLlhUsb(v as u8),
        294 => CfgVal::MsgoutUbxNavPvtI2c(v as u8),
        295 => CfgVal::MsgoutUbxNavPvtSpi(v as u8),
        296 => CfgVal::MsgoutUbxNavPvtUart1(v as u8),
        297 => CfgVal::MsgoutUbxNavPvtUart2(v as u8),
        298 => CfgVal::MsgoutUbxNavPvtUsb(v as u8),
        299 => CfgVal::MsgoutUbxNavRelposnedI2c(v as u8),
        300 => CfgVal::MsgoutUbxNavRelposnedSpi(v as u8),
        301 => CfgVal::MsgoutUbxNavRelposnedUart1(v as u8),
        302 => CfgVal::MsgoutUbxNavRelposnedUart2(v as u8),
        303 => CfgVal::MsgoutUbxNavRelposnedUsb(v as u8),
        304 => CfgVal::MsgoutUbxNavSatI2c(v as u8),
        305 => CfgVal::MsgoutUbxNavSatSpi(v as u8),
        306 => CfgVal::MsgoutUbxNavSatUart1(v as u8),
        307 => CfgVal::MsgoutUbxNavSatUart2(v as u8),
        308 => CfgVal::MsgoutUbxNavSatUsb(v as u8),
        309 => CfgVal::MsgoutUbxNavSigI2c(v as u8),
        310 => CfgVal::MsgoutUbxNavSigSpi(v as u8),
        311 => CfgVal::MsgoutUbxNavSigUart1(v as u8),
        312 => CfgVal::MsgoutUbxNavSigUart2(v as u8),
        313 => CfgVal::MsgoutUbxNavSigUsb(v as u8),
        314 => CfgVal::MsgoutUbxNavStatusI2c(v as u8),
        315 => CfgVal::MsgoutUbxNavStatusSpi(v as u8),
        316 => CfgVal::MsgoutUbxNavStatusUart1(v as u8),
        317 => CfgVal::MsgoutUbxNavStatusUart2(v as u8),
        318 => CfgVal::MsgoutUbxNavStatusUsb(v as u8),
        319 => CfgVal::MsgoutUbxNavSvinI2c(v as u8),
        320 => CfgVal::MsgoutUbxNavSvinSpi(v as u8),
        321 => CfgVal::MsgoutUbxNavSvinUart1(v as u8),
        322 => CfgVal::MsgoutUbxNavSvinUart2(v as u8),
        323 => CfgVal::MsgoutUbxNavSvinUsb(v as u8),
        324 => CfgVal::MsgoutUbxNavTimeBdsI2c(v as u8),
        325 => CfgVal::MsgoutUbxNavTimeBdsSpi(v as u8),
        326 => CfgVal::MsgoutUbxNavTimeBdsUart1(v as u8),
        327 => CfgVal::MsgoutUbxNavTimeBdsUart2(v as u8),
        328 => CfgVal::MsgoutUbxNavTimeBdsUsb(v as u8),
        329 => CfgVal::MsgoutUbxNavTimeGalI2c(v as u8),
        330 => CfgVal::MsgoutUbxNavTimeGalSpi(v as u8),
        331 => CfgVal::MsgoutUbxNavTimeGalUart1(v as u8),
        332 => CfgVal::MsgoutUbxNavTimeGalUart2(v as u8),
        333 => CfgVal::MsgoutUbxNavTimeGalUsb(v as u8),
        334 => CfgVal::MsgoutUbxNavTimeGloI2c(v as u8),
        335 => CfgVal::MsgoutUbxNavTimeGloSpi(v as u8),
        336 => CfgVal::MsgoutUbxNavTimeGloUart1(v as u8),
        337 => CfgVal::MsgoutUbxNavTimeGloUart2(v as u8),
        338 => CfgVal::MsgoutUbxNavTimeGloUsb(v as u8),
        339 => CfgVal::MsgoutUbxNavTimeGpsI2c(v as u8),
        340 => CfgVal::MsgoutUbxNavTimeGpsSpi(v as u8),
        341 => CfgVal::MsgoutUbxNavTimeGpsUart1(v as u8),
        342 => CfgVal::MsgoutUbxNavTimeGpsUart2(v as u8),
        343 => CfgVal::MsgoutUbxNavTimeGpsUsb(v as u8),
        344 => CfgVal::MsgoutUbxNavTimeLsI2c(v as u8),
        345 => CfgVal::MsgoutUbxNavTimeLsSpi(v as u8),
        346 => CfgVal::MsgoutUbxNavTimeLsUart1(v as u8),
        347 => CfgVal::MsgoutUbxNavTimeLsUart2(v as u8),
        348 => CfgVal::MsgoutUbxNavTimeLsUsb(v as u8),
        349 => CfgVal::MsgoutUbxNavTimeUtcI2c(v as u8),
        350 => CfgVal::MsgoutUbxNavTimeUtcSpi(v as u8),
        351 => CfgVal::MsgoutUbxNavTimeUtcUart1(v as u8),
        352 => CfgVal::MsgoutUbxNavTimeUtcUart2(v as u8),
        353 => CfgVal::MsgoutUbxNavTimeUtcUsb(v as u8),
        354 => CfgVal::MsgoutUbxNavVelEcefI2c(v as u8),
        355 => CfgVal::MsgoutUbxNavVelEcefSpi(v as u8),
        356 => CfgVal::MsgoutUbxNavVelEcefUart1(v as u8),
        357 => CfgVal::MsgoutUbxNavVelEcefUart2(v as u8),
        358 => CfgVal::MsgoutUbxNavVelEcefUsb(v as u8),
        359 => CfgVal::MsgoutUbxNavVelNedI2c(v as u8),
        360 => CfgVal::MsgoutUbxNavVelNedSpi(v as u8),
        361 => CfgVal::MsgoutUbxNavVelNedUart1(v as u8),
        362 => CfgVal::MsgoutUbxNavVelNedUart2(v as u8),
        363 => CfgVal::MsgoutUbxNavVelNedUsb(v as u8),
        364 => CfgVal::MsgoutUbxRxmMeasxI2c(v as u8),
        365 => CfgVal::MsgoutUbxRxmMeasxSpi(v as u8),
        366 => CfgVal::MsgoutUbxRxmMeasxUart1(v as u8),
        367 => CfgVal::MsgoutUbxRxmMeasxUart2(v as u8),
        368 => CfgVal::MsgoutUbxRxmMeasxUsb(v as u8),
        369 => CfgVal::MsgoutUbxRxmRawxI2c(v as u8),
        370 => CfgVal::MsgoutUbxRxmRawxSpi(v as u8),
        371 => CfgVal::MsgoutUbxRxmRawxUart1(v as u8),
        372 => CfgVal::MsgoutUbxRxmRawxUart2(v as u8),
        373 => CfgVal::MsgoutUbxRxmRawxUsb(v as u8),
        374 => CfgVal::MsgoutUbxRxmRlmI2c(v as u8),
        375 => CfgVal::MsgoutUbxRxmRlmSpi(v as u8),
        376 => CfgVal::MsgoutUbxRxmRlmUart1(v as u8),
        377 => CfgVal::MsgoutUbxRxmRlmUart2(v as u8),
        378 => CfgVal::MsgoutUbxRxmRlmUsb(v as u8),
        379 => CfgVal::MsgoutUbxRxmRtcmI2c(v as u8),
        380 => CfgVal::MsgoutUbxRxmRtcmSpi(v as u8),
        381 => CfgVal::MsgoutUbxRxmRtcmUart1(v as u8),
        382 => CfgVal::MsgoutUbxRxmRtcmUart2(v as u8),
        383 => CfgVal::MsgoutUbxRxmRtcmUsb(v as u8),
        384 => CfgVal::MsgoutUbxRxmSfrbxI2c(v as u8),
        385 => CfgVal::MsgoutUbxRxmSfrbxSpi(v as u8),
        386 => CfgVal::MsgoutUbxRxmSfrbxUart1(v as u8),
        387 => CfgVal::MsgoutUbxRxmSfrbxUart2(v as u8),
        388 => CfgVal::MsgoutUbxRxmSfrbxUsb(v as u8),
        389 => CfgVal::MsgoutUbxTimTm2I2c(v as u8),
        390 => CfgVal::MsgoutUbxTimTm2Spi(v as u8),
        391 => CfgVal::MsgoutUbxTimTm2Uart1(v as u8),
        392 => CfgVal::MsgoutUbxTimTm2Uart2(v as u8),
        393 => CfgVal::MsgoutUbxTimTm2Usb(v as u8),
        394 => CfgVal::MsgoutUbxTimTpI2c(v as u8),
        395 => CfgVal::MsgoutUbxTimTpSpi(v as u8),
        396 => CfgVal::MsgoutUbxTimTpUart1(v as u8),
        397 => CfgVal::MsgoutUbxTimTpUart2(v as u8),
        398 => CfgVal::MsgoutUbxTimTpUsb(v as u8),
        399 => CfgVal::MsgoutUbxTimVrfyI2c(v as u8),
        400 => CfgVal::MsgoutUbxTimVrfySpi(v as u8),
        401 => CfgVal::MsgoutUbxTimVrfyUart1(v as u8),
        402 => CfgVal::MsgoutUbxTimVrfyUart2(v as u8),
        403 => CfgVal::MsgoutUbxTimVrfyUsb(v as u8),
        404 => CfgVal::SignalGpsEna(match v { 0 => false, _ => true }),
        405 => CfgVal::SignalGpsL1caEna(match v { 0 => false, _ => true }),
        406 => CfgVal::SignalGpsL2cEna(match v { 0 => false, _ => true }),
        407 => CfgVal::SignalGalEna(match v { 0 => false, _ => true }),
        408 => CfgVal::SignalGalE1Ena(match v { 0 => false, _ => true }),
        409 => CfgVal::SignalGalE5bEna(match v { 0 => false, _ => true }),
        410 => CfgVal::SignalBdsEna(match v { 0 => false, _ => true }),
        411 => CfgVal::SignalBdsB1Ena(match v { 0 => false, _ => true }),
        412 => CfgVal::SignalBdsB2Ena(match v { 0 => false, _ => true }),
        413 => CfgVal::SignalQzssEna(match v { 0 => false, _ => true }),
        414 => CfgVal::SignalQzssL1caEna(match v { 0 => false, _ => true }),
        415 => CfgVal::SignalQzssL2cEna(match v { 0 => false, _ => true }),
        416 => CfgVal::SignalGloEna(match v { 0 => false, _ => true }),
        417 => CfgVal::SignalGloL1Ena(match v { 0 => false, _ => true }),
        418 => CfgVal::SignalGLoL2Ena(match v { 0 => false, _ => true }),
        419 => CfgVal::TpPulseDef(match v { 0 => TpPulse::Period, _ => TpPulse::Freq }),
        420 => CfgVal::TpPulseLengthDef(match v { 0 => TpPulseLength::Ratio, _ => TpPulseLength::Length }),
        421 => CfgVal::TpAntCableDelay(v as i16),
        422 => CfgVal::TpPeriodTp1(v as u32),
        423 => CfgVal::TpPeriodLockTp1(v as u32),
        424 => CfgVal::TpFreqTp1(v as u32),
        425 => CfgVal::TpFreqLockTp1(v as u32),
        426 => CfgVal::TpLenTp1(v as u32),
        427 => CfgVal::TpLenLockTp1(v as u32),
        428 => CfgVal::TpTp1Ena(match v { 0 => false, _ => true }),
        429 => CfgVal::TpSyncGnssTp1(match v { 0 => false, _ => true }),
        430 => CfgVal::TpUseLockedTp1(match v { 0 => false, _ => true }),
        431 => CfgVal::TpAlignToTowTp1(match v { 0 => false, _ => true }),
        432 => CfgVal::TpPolTp1(match v { 0 => false, _ => true }),
        433 => CfgVal::TpTimegridTp1(match v { 0 => AlignmentToReferenceTime::Utc, 1 => AlignmentToReferenceTime::Gps, 2 => AlignmentToReferenceTime::Glo, 3 => AlignmentToReferenceTime::Bds, _ => AlignmentToReferenceTime::Gal }),
        _ => panic!("no item {k}"),
    }
}
/// Which item, with which value code.
pub fn cfg_read(x: &CfgVal) -> Option<(usize, u64)> {
    Some(match x {
        CfgVal::Uart1Baudrate(v) => (0, *v as u64),
        CfgVal::Uart1StopBits(v) => (1, match v { StopBits::Half => 0, StopBits::One => 1, StopBits::OneHalf => 2, StopBits::Two => 3, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart1DataBits(v) => (2, match v { DataBits::Eight => 0, DataBits::Seven => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart1Parity(v) => (3, match v { Parity::None => 0, Parity::Odd => 1, Parity::Even => 2, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart1Enabled(v) => (4, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart1InProtUbx(v) => (5, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart1InProtNmea(v) => (6, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart1InProtRtcm3x(v) => (7, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart1OutProtUbx(v) => (8, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart1OutProtNmea(v) => (9, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart1OutProtRtcm3x(v) => (10, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2Baudrate(v) => (11, *v as u64),
        CfgVal::Uart2StopBits(v) => (12, match v { StopBits::Half => 0, StopBits::One => 1, StopBits::OneHalf => 2, StopBits::Two => 3, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2DataBits(v) => (13, match v { DataBits::Eight => 0, DataBits::Seven => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2Parity(v) => (14, match v { Parity::None => 0, Parity::Odd => 1, Parity::Even => 2, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2Enabled(v) => (15, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2Remap(v) => (16, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2InProtUbx(v) => (17, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2InProtNmea(v) => (18, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2InProtRtcm3x(v) => (19, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2OutProtUbx(v) => (20, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2OutProtNmea(v) => (21, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::Uart2OutProtRtcm3x(v) => (22, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::UsbEnabled(v) => (23, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::UsbSelfpow(v) => (24, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::UsbVendorId(v) => (25, *v as u64),
        CfgVal::UsbProductId(v) => (26, *v as u64),
        CfgVal::UsbPower(v) => (27, *v as u64),
        CfgVal::UsbVendorStr0(v) => (28, *v as u64),
        CfgVal::UsbVendorStr1(v) => (29, *v as u64),
        CfgVal::UsbVendorStr2(v) => (30, *v as u64),
        CfgVal::UsbVendorStr3(v) => (31, *v as u64),
        CfgVal::UsbProductStr0(v) => (32, *v as u64),
        CfgVal::UsbProductStr1(v) => (33, *v as u64),
        CfgVal::UsbProductStr2(v) => (34, *v as u64),
        CfgVal::UsbProductStr3(v) => (35, *v as u64),
        CfgVal::UsbSerialNoStr0(v) => (36, *v as u64),
        CfgVal::UsbSerialNoStr1(v) => (37, *v as u64),
        CfgVal::UsbSerialNoStr2(v) => (38, *v as u64),
        CfgVal::UsbSerialNoStr3(v) => (39, *v as u64),
        CfgVal::UsbinprotUbx(v) => (40, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::UsbinprotNmea(v) => (41, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::UsbinprotRtcm3X(v) => (42, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::UsbOutProtUbx(v) => (43, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::UsbOutProtNmea(v) => (44, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::UsbOutProtRtcm3x(v) => (45, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::InfmsgUbxI2c(v) => (46, v.bits() as u64),
        CfgVal::InfmsgUbxUart1(v) => (47, v.bits() as u64),
        CfgVal::InfmsgUbxUart2(v) => (48, v.bits() as u64),
        CfgVal::InfmsgUbxUsb(v) => (49, v.bits() as u64),
        CfgVal::InfmsgUbxSpi(v) => (50, v.bits() as u64),
        CfgVal::InfmsgNmeaI2c(v) => (51, v.bits() as u64),
        CfgVal::InfmsgNmeaUart1(v) => (52, v.bits() as u64),
        CfgVal::InfmsgNmeaUart2(v) => (53, v.bits() as u64),
        CfgVal::InfmsgNmeaUsb(v) => (54, v.bits() as u64),
        CfgVal::InfmsgNmeaSpi(v) => (55, v.bits() as u64),
        CfgVal::RateMeas(v) => (56, *v as u64),
        CfgVal::RateNav(v) => (57, *v as u64),
        CfgVal::RateTimeref(v) => (58, match v { AlignmentToReferenceTime::Utc => 0, AlignmentToReferenceTime::Gps => 1, AlignmentToReferenceTime::Glo => 2, AlignmentToReferenceTime::Bds => 3, AlignmentToReferenceTime::Gal => 4, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::MsgoutNmeaIdDtmI2c(v) => (59, *v as u64),
        CfgVal::MsgoutNmeaIdDtmSpi(v) => (60, *v as u64),
        CfgVal::MsgoutNmeaIdDtmUart1(v) => (61, *v as u64),
        CfgVal::MsgoutNmeaIdDtmUart2(v) => (62, *v as u64),
        CfgVal::MsgoutNmeaIdDtmUsb(v) => (63, *v as u64),
        CfgVal::MsgoutNmeaIdGbsI2c(v) => (64, *v as u64),
        CfgVal::MsgoutNmeaIdGbsSpi(v) => (65, *v as u64),
        CfgVal::MsgoutNmeaIdGbsUart1(v) => (66, *v as u64),
        CfgVal::MsgoutNmeaIdGbsUart2(v) => (67, *v as u64),
        CfgVal::MsgoutNmeaIdGbsUsb(v) => (68, *v as u64),
        CfgVal::MsgoutNmeaIdGgaI2c(v) => (69, *v as u64),
        CfgVal::MsgoutNmeaIdGgaSpi(v) => (70, *v as u64),
        CfgVal::MsgoutNmeaIdGgaUart1(v) => (71, *v as u64),
        CfgVal::MsgoutNmeaIdGgaUart2(v) => (72, *v as u64),
        CfgVal::MsgoutNmeaIdGgaUsb(v) => (73, *v as u64),
        CfgVal::MsgoutNmeaIdGllI2c(v) => (74, *v as u64),
        CfgVal::MsgoutNmeaIdGllSpi(v) => (75, *v as u64),
        CfgVal::MsgoutNmeaIdGllUart1(v) => (76, *v as u64),
        CfgVal::MsgoutNmeaIdGllUart2(v) => (77, *v as u64),
        CfgVal::MsgoutNmeaIdGllUsb(v) => (78, *v as u64),
        CfgVal::MsgoutNmeaIdGnsI2c(v) => (79, *v as u64),
        CfgVal::MsgoutNmeaIdGnsSpi(v) => (80, *v as u64),
        CfgVal::MsgoutNmeaIdGnsUart1(v) => (81, *v as u64),
        CfgVal::MsgoutNmeaIdGnsUart2(v) => (82, *v as u64),
        CfgVal::MsgoutNmeaIdGnsUsb(v) => (83, *v as u64),
        CfgVal::MsgoutNmeaIdGrsI2c(v) => (84, *v as u64),
        CfgVal::MsgoutNmeaIdGrsSpi(v) => (85, *v as u64),
        CfgVal::MsgoutNmeaIdGrsUart1(v) => (86, *v as u64),
        CfgVal::MsgoutNmeaIdGrsUart2(v) => (87, *v as u64),
        CfgVal::MsgoutNmeaIdGrsUsb(v) => (88, *v as u64),
        CfgVal::MsgoutNmeaIdGsaI2c(v) => (89, *v as u64),
        CfgVal::MsgoutNmeaIdGsaSpi(v) => (90, *v as u64),
        CfgVal::MsgoutNmeaIdGsaUart1(v) => (91, *v as u64),
        CfgVal::MsgoutNmeaIdGsaUart2(v) => (92, *v as u64),
        CfgVal::MsgoutNmeaIdGsaUsb(v) => (93, *v as u64),
        CfgVal::MsgoutNmeaIdGstI2c(v) => (94, *v as u64),
        CfgVal::MsgoutNmeaIdGstSpi(v) => (95, *v as u64),
        CfgVal::MsgoutNmeaIdGstUart1(v) => (96, *v as u64),
        CfgVal::MsgoutNmeaIdGstUart2(v) => (97, *v as u64),
        CfgVal::MsgoutNmeaIdGstUsb(v) => (98, *v as u64),
        CfgVal::MsgoutNmeaIdGsvI2c(v) => (99, *v as u64),
        CfgVal::MsgoutNmeaIdGsvSpi(v) => (100, *v as u64),
        CfgVal::MsgoutNmeaIdGsvUart1(v) => (101, *v as u64),
        CfgVal::MsgoutNmeaIdGsvUart2(v) => (102, *v as u64),
        CfgVal::MsgoutNmeaIdGsvUsb(v) => (103, *v as u64),
        CfgVal::MsgoutNmeaIdRmcI2c(v) => (104, *v as u64),
        CfgVal::MsgoutNmeaIdRmcSpi(v) => (105, *v as u64),
        CfgVal::MsgoutNmeaIdRmcUart1(v) => (106, *v as u64),
        CfgVal::MsgoutNmeaIdRmcUart2(v) => (107, *v as u64),
        CfgVal::MsgoutNmeaIdRmcUsb(v) => (108, *v as u64),
        CfgVal::MsgoutNmeaIdVlwI2c(v) => (109, *v as u64),
        CfgVal::MsgoutNmeaIdVlwSpi(v) => (110, *v as u64),
        CfgVal::MsgoutNmeaIdVlwUart1(v) => (111, *v as u64),
        CfgVal::MsgoutNmeaIdVlwUart2(v) => (112, *v as u64),
        CfgVal::MsgoutNmeaIdVlwUsb(v) => (113, *v as u64),
        CfgVal::MsgoutNmeaIdVtgI2c(v) => (114, *v as u64),
        CfgVal::MsgoutNmeaIdVtgSpi(v) => (115, *v as u64),
        CfgVal::MsgoutNmeaIdVtgUart1(v) => (116, *v as u64),
        CfgVal::MsgoutNmeaIdVtgUart2(v) => (117, *v as u64),
        CfgVal::MsgoutNmeaIdVtgUsb(v) => (118, *v as u64),
        CfgVal::MsgoutNmeaIdZdaI2c(v) => (119, *v as u64),
        CfgVal::MsgoutNmeaIdZdaSpi(v) => (120, *v as u64),
        CfgVal::MsgoutNmeaIdZdaUart1(v) => (121, *v as u64),
        CfgVal::MsgoutNmeaIdZdaUart2(v) => (122, *v as u64),
        CfgVal::MsgoutNmeaIdZdaUsb(v) => (123, *v as u64),
        CfgVal::MsgoutPubxIdPolypI2c(v) => (124, *v as u64),
        CfgVal::MsgoutPubxIdPolypSpi(v) => (125, *v as u64),
        CfgVal::MsgoutPubxIdPolypUart1(v) => (126, *v as u64),
        CfgVal::MsgoutPubxIdPolypUart2(v) => (127, *v as u64),
        CfgVal::MsgoutPubxIdPolypUsb(v) => (128, *v as u64),
        CfgVal::MsgoutPubxIdPolysI2c(v) => (129, *v as u64),
        CfgVal::MsgoutPubxIdPolysSpi(v) => (130, *v as u64),
        CfgVal::MsgoutPubxIdPolysUart1(v) => (131, *v as u64),
        CfgVal::MsgoutPubxIdPolysUart2(v) => (132, *v as u64),
        CfgVal::MsgoutPubxIdPolysUsb(v) => (133, *v as u64),
        CfgVal::MsgoutPubxIdPolytI2c(v) => (134, *v as u64),
        CfgVal::MsgoutPubxIdPolytSpi(v) => (135, *v as u64),
        CfgVal::MsgoutPubxIdPolytUart1(v) => (136, *v as u64),
        CfgVal::MsgoutPubxIdPolytUart2(v) => (137, *v as u64),
        CfgVal::MsgoutPubxIdPolytUsb(v) => (138, *v as u64),
        CfgVal::MsgoutRtcm3xType1005I2c(v) => (139, *v as u64),
        CfgVal::MsgoutRtcm3xType1005Spi(v) => (140, *v as u64),
        CfgVal::MsgoutRtcm3xType1005Uart1(v) => (141, *v as u64),
        CfgVal::MsgoutRtcm3xType1005Uart2(v) => (142, *v as u64),
        CfgVal::MsgoutRtcm3xType1005Usb(v) => (143, *v as u64),
        CfgVal::MsgoutRtcm3xType1074I2c(v) => (144, *v as u64),
        CfgVal::MsgoutRtcm3xType1074Spi(v) => (145, *v as u64),
        CfgVal::MsgoutRtcm3xType1074Uart1(v) => (146, *v as u64),
        CfgVal::MsgoutRtcm3xType1074Uart2(v) => (147, *v as u64),
        CfgVal::MsgoutRtcm3xType1074Usb(v) => (148, *v as u64),
        CfgVal::MsgoutRtcm3xType1077I2c(v) => (149, *v as u64),
        CfgVal::MsgoutRtcm3xType1077Spi(v) => (150, *v as u64),
        CfgVal::MsgoutRtcm3xType1077Uart1(v) => (151, *v as u64),
        CfgVal::MsgoutRtcm3xType1077Uart2(v) => (152, *v as u64),
        CfgVal::MsgoutRtcm3xType1077Usb(v) => (153, *v as u64),
        CfgVal::MsgoutRtcm3xType1084I2c(v) => (154, *v as u64),
        CfgVal::MsgoutRtcm3xType1084Spi(v) => (155, *v as u64),
        CfgVal::MsgoutRtcm3xType1084Uart1(v) => (156, *v as u64),
        CfgVal::MsgoutRtcm3xType1084Uart2(v) => (157, *v as u64),
        CfgVal::MsgoutRtcm3xType1084Usb(v) => (158, *v as u64),
        CfgVal::MsgoutRtcm3xType1087I2c(v) => (159, *v as u64),
        CfgVal::MsgoutRtcm3xType1087Spi(v) => (160, *v as u64),
        CfgVal::MsgoutRtcm3xType1087Uart1(v) => (161, *v as u64),
        CfgVal::MsgoutRtcm3xType1087Uart2(v) => (162, *v as u64),
        CfgVal::MsgoutRtcm3xType1087Usb(v) => (163, *v as u64),
        CfgVal::MsgoutRtcm3xType1094I2c(v) => (164, *v as u64),
        CfgVal::MsgoutRtcm3xType1094Spi(v) => (165, *v as u64),
        CfgVal::MsgoutRtcm3xType1094Uart1(v) => (166, *v as u64),
        CfgVal::MsgoutRtcm3xType1094Uart2(v) => (167, *v as u64),
        CfgVal::MsgoutRtcm3xType1094Usb(v) => (168, *v as u64),
        CfgVal::MsgoutRtcm3xType1097I2c(v) => (169, *v as u64),
        CfgVal::MsgoutRtcm3xType1097Spi(v) => (170, *v as u64),
        CfgVal::MsgoutRtcm3xType1097Uart1(v) => (171, *v as u64),
        CfgVal::MsgoutRtcm3xType1097Uart2(v) => (172, *v as u64),
        CfgVal::MsgoutRtcm3xType1097Usb(v) => (173, *v as u64),
        CfgVal::MsgoutRtcm3xType1124I2c(v) => (174, *v as u64),
        CfgVal::MsgoutRtcm3xType1124Spi(v) => (175, *v as u64),
        CfgVal::MsgoutRtcm3xType1124Uart1(v) => (176, *v as u64),
        CfgVal::MsgoutRtcm3xType1124Uart2(v) => (177, *v as u64),
        CfgVal::MsgoutRtcm3xType1124Usb(v) => (178, *v as u64),
        CfgVal::MsgoutRtcm3xType1127I2c(v) => (179, *v as u64),
        CfgVal::MsgoutRtcm3xType1127Spi(v) => (180, *v as u64),
        CfgVal::MsgoutRtcm3xType1127Uart1(v) => (181, *v as u64),
        CfgVal::MsgoutRtcm3xType1127Uart2(v) => (182, *v as u64),
        CfgVal::MsgoutRtcm3xType1127Usb(v) => (183, *v as u64),
        CfgVal::MsgoutRtcm3xType1230I2c(v) => (184, *v as u64),
        CfgVal::MsgoutRtcm3xType1230Spi(v) => (185, *v as u64),
        CfgVal::MsgoutRtcm3xType1230Uart1(v) => (186, *v as u64),
        CfgVal::MsgoutRtcm3xType1230Uart2(v) => (187, *v as u64),
        CfgVal::MsgoutRtcm3xType1230Usb(v) => (188, *v as u64),
        CfgVal::MsgoutUbxLogInfoI2c(v) => (189, *v as u64),
        CfgVal::MsgoutUbxLogInfoSpi(v) => (190, *v as u64),
        CfgVal::MsgoutUbxLogInfoUart1(v) => (191, *v as u64),
        CfgVal::MsgoutUbxLogInfoUart2(v) => (192, *v as u64),
        CfgVal::MsgoutUbxLogInfoUsb(v) => (193, *v as u64),
        CfgVal::MsgoutUbxMonCommsI2c(v) => (194, *v as u64),
        CfgVal::MsgoutUbxMonCommsSpi(v) => (195, *v as u64),
        CfgVal::MsgoutUbxMonCommsUart1(v) => (196, *v as u64),
        CfgVal::MsgoutUbxMonCommsUart2(v) => (197, *v as u64),
        CfgVal::MsgoutUbxMonCommsUsb(v) => (198, *v as u64),
        CfgVal::MsgoutUbxMonHw2I2c(v) => (199, *v as u64),
        CfgVal::MsgoutUbxMonHw2Spi(v) => (200, *v as u64),
        CfgVal::MsgoutUbxMonHw2Uart1(v) => (201, *v as u64),
        CfgVal::MsgoutUbxMonHw2Uart2(v) => (202, *v as u64),
        CfgVal::MsgoutUbxMonHw2Usb(v) => (203, *v as u64),
        CfgVal::MsgoutUbxMonHw3I2c(v) => (204, *v as u64),
        CfgVal::MsgoutUbxMonHw3Spi(v) => (205, *v as u64),
        CfgVal::MsgoutUbxMonHw3Uart1(v) => (206, *v as u64),
        CfgVal::MsgoutUbxMonHw3Uart2(v) => (207, *v as u64),
        CfgVal::MsgoutUbxMonHw3Usb(v) => (208, *v as u64),
        CfgVal::MsgoutUbxMonHwI2c(v) => (209, *v as u64),
        CfgVal::MsgoutUbxMonHwSpi(v) => (210, *v as u64),
        CfgVal::MsgoutUbxMonHwUart1(v) => (211, *v as u64),
        CfgVal::MsgoutUbxMonHwUart2(v) => (212, *v as u64),
        CfgVal::MsgoutUbxMonHwUsb(v) => (213, *v as u64),
        CfgVal::MsgoutUbxMonIoI2c(v) => (214, *v as u64),
        CfgVal::MsgoutUbxMonIoSpi(v) => (215, *v as u64),
        CfgVal::MsgoutUbxMonIoUart1(v) => (216, *v as u64),
        CfgVal::MsgoutUbxMonIoUart2(v) => (217, *v as u64),
        CfgVal::MsgoutUbxMonIoUsb(v) => (218, *v as u64),
        CfgVal::MsgoutUbxMonMsgPpI2c(v) => (219, *v as u64),
        CfgVal::MsgoutUbxMonMsgPpSpi(v) => (220, *v as u64),
        CfgVal::MsgoutUbxMonMsgPpUart1(v) => (221, *v as u64),
        CfgVal::MsgoutUbxMonMsgPpUart2(v) => (222, *v as u64),
        CfgVal::MsgoutUbxMonMsgPpUsb(v) => (223, *v as u64),
        CfgVal::MsgoutUbxMonRfI2c(v) => (224, *v as u64),
        CfgVal::MsgoutUbxMonRfSpi(v) => (225, *v as u64),
        CfgVal::MsgoutUbxMonRfUart1(v) => (226, *v as u64),
        CfgVal::MsgoutUbxMonRfUart2(v) => (227, *v as u64),
        CfgVal::MsgoutUbxMonRfUsb(v) => (228, *v as u64),
        CfgVal::MsgoutUbxMonRxbufI2c(v) => (229, *v as u64),
        CfgVal::MsgoutUbxMonRxbufSpi(v) => (230, *v as u64),
        CfgVal::MsgoutUbxMonRxbufUart1(v) => (231, *v as u64),
        CfgVal::MsgoutUbxMonRxbufUart2(v) => (232, *v as u64),
        CfgVal::MsgoutUbxMonRxbufUsb(v) => (233, *v as u64),
        CfgVal::MsgoutUbxMonRxrI2c(v) => (234, *v as u64),
        CfgVal::MsgoutUbxMonRxrSpi(v) => (235, *v as u64),
        CfgVal::MsgoutUbxMonRxrUart1(v) => (236, *v as u64),
        CfgVal::MsgoutUbxMonRxrUart2(v) => (237, *v as u64),
        CfgVal::MsgoutUbxMonRxrUsb(v) => (238, *v as u64),
        CfgVal::MsgoutUbxMonTxbufI2c(v) => (239, *v as u64),
        CfgVal::MsgoutUbxMonTxbufSpi(v) => (240, *v as u64),
        CfgVal::MsgoutUbxMonTxbufUart1(v) => (241, *v as u64),
        CfgVal::MsgoutUbxMonTxbufUart2(v) => (242, *v as u64),
        CfgVal::MsgoutUbxMonTxbufUsb(v) => (243, *v as u64),
        CfgVal::MsgoutUbxNavClockI2c(v) => (244, *v as u64),
        CfgVal::MsgoutUbxNavClockSpi(v) => (245, *v as u64),
        CfgVal::MsgoutUbxNavClockUart1(v) => (246, *v as u64),
        CfgVal::MsgoutUbxNavClockUart2(v) => (247, *v as u64),
        CfgVal::MsgoutUbxNavClockUsb(v) => (248, *v as u64),
        CfgVal::MsgoutUbxNavDopI2c(v) => (249, *v as u64),
        CfgVal::MsgoutUbxNavDopSpi(v) => (250, *v as u64),
        CfgVal::MsgoutUbxNavDopUart1(v) => (251, *v as u64),
        CfgVal::MsgoutUbxNavDopUart2(v) => (252, *v as u64),
        CfgVal::MsgoutUbxNavDopUsb(v) => (253, *v as u64),
        CfgVal::MsgoutUbxNavEoeI2c(v) => (254, *v as u64),
        CfgVal::MsgoutUbxNavEoeSpi(v) => (255, *v as u64),
        CfgVal::MsgoutUbxNavEoeUart1(v) => (256, *v as u64),
        CfgVal::MsgoutUbxNavEoeUart2(v) => (257, *v as u64),
        CfgVal::MsgoutUbxNavEoeUsb(v) => (258, *v as u64),
        CfgVal::MsgoutUbxNavGeofenceI2c(v) => (259, *v as u64),
        CfgVal::MsgoutUbxNavGeofenceSpi(v) => (260, *v as u64),
        CfgVal::MsgoutUbxNavGeofenceUart1(v) => (261, *v as u64),
        CfgVal::MsgoutUbxNavGeofenceUart2(v) => (262, *v as u64),
        CfgVal::MsgoutUbxNavGeofenceUsb(v) => (263, *v as u64),
        CfgVal::MsgoutUbxNavHpPosEcefI2c(v) => (264, *v as u64),
        CfgVal::MsgoutUbxNavHpPosEcefSpi(v) => (265, *v as u64),
        CfgVal::MsgoutUbxNavHpPosEcefUart1(v) => (266, *v as u64),
        CfgVal::MsgoutUbxNavHpPosEcefUart2(v) => (267, *v as u64),
        CfgVal::MsgoutUbxNavHpPosEcefUsb(v) => (268, *v as u64),
        CfgVal::MsgoutUbxNavHpPosllhI2c(v) => (269, *v as u64),
        CfgVal::MsgoutUbxNavHpPosllhSpi(v) => (270, *v as u64),
        CfgVal::MsgoutUbxNavHpPosllhUart1(v) => (271, *v as u64),
        CfgVal::MsgoutUbxNavHpPosllhUart2(v) => (272, *v as u64),
        CfgVal::MsgoutUbxNavHpPosllhUsb(v) => (273, *v as u64),
        CfgVal::MsgoutUbxNavOdoI2c(v) => (274, *v as u64),
        CfgVal::MsgoutUbxNavOdoSpi(v) => (275, *v as u64),
        CfgVal::MsgoutUbxNavOdoUart1(v) => (276, *v as u64),
        CfgVal::MsgoutUbxNavOdoUart2(v) => (277, *v as u64),
        CfgVal::MsgoutUbxNavOdoUsb(v) => (278, *v as u64),
        CfgVal::MsgoutUbxNavOrbI2c(v) => (279, *v as u64),
        CfgVal::MsgoutUbxNavOrbSpi(v) => (280, *v as u64),
        CfgVal::MsgoutUbxNavOrbUart1(v) => (281, *v as u64),
        CfgVal::MsgoutUbxNavOrbUart2(v) => (282, *v as u64),
        CfgVal::MsgoutUbxNavOrbUsb(v) => (283, *v as u64),
        CfgVal::MsgoutUbxNavPosEcefI2c(v) => (284, *v as u64),
        CfgVal::MsgoutUbxNavPosEcefSpi(v) => (285, *v as u64),
        CfgVal::MsgoutUbxNavPosEcefUart1(v) => (286, *v as u64),
        CfgVal::MsgoutUbxNavPosEcefUart2(v) => (287, *v as u64),
        CfgVal::MsgoutUbxNavPosEcefUsb(v) => (288, *v as u64),
        CfgVal::MsgoutUbxNavPosLlhI2c(v) => (289, *v as u64),
        CfgVal::MsgoutUbxNavPosLlhSpi(v) => (290, *v as u64),
        CfgVal::MsgoutUbxNavPosLlhUart1(v) => (291, *v as u64),
        CfgVal::MsgoutUbxNavPosLlhUart2(v) => (292, *v as u64),
        CfgVal::MsgoutUbxNavPosLlhUsb(v) => (293, *v as u64),
        CfgVal::MsgoutUbxNavPvtI2c(v) => (294, *v as u64),
        CfgVal::MsgoutUbxNavPvtSpi(v) => (295, *v as u64),
        CfgVal::MsgoutUbxNavPvtUart1(v) => (296, *v as u64),
        CfgVal::MsgoutUbxNavPvtUart2(v) => (297, *v as u64),
        CfgVal::MsgoutUbxNavPvtUsb(v) => (298, *v as u64),
        CfgVal::MsgoutUbxNavRelposnedI2c(v) => (299, *v as u64),
        CfgVal::MsgoutUbxNavRelposnedSpi(v) => (300, *v as u64),
        CfgVal::MsgoutUbxNavRelposnedUart1(v) => (301, *v as u64),
        CfgVal::MsgoutUbxNavRelposnedUart2(v) => (302, *v as u64),
        CfgVal::MsgoutUbxNavRelposnedUsb(v) => (303, *v as u64),
        CfgVal::MsgoutUbxNavSatI2c(v) => (304, *v as u64),
        CfgVal::MsgoutUbxNavSatSpi(v) => (305, *v as u64),
        CfgVal::MsgoutUbxNavSatUart1(v) => (306, *v as u64),
        CfgVal::MsgoutUbxNavSatUart2(v) => (307, *v as u64),
        CfgVal::MsgoutUbxNavSatUsb(v) => (308, *v as u64),
        CfgVal::MsgoutUbxNavSigI2c(v) => (309, *v as u64),
        CfgVal::MsgoutUbxNavSigSpi(v) => (310, *v as u64),
        CfgVal::MsgoutUbxNavSigUart1(v) => (311, *v as u64),
        CfgVal::MsgoutUbxNavSigUart2(v) => (312, *v as u64),
        CfgVal::MsgoutUbxNavSigUsb(v) => (313, *v as u64),
        CfgVal::MsgoutUbxNavStatusI2c(v) => (314, *v as u64),
        CfgVal::MsgoutUbxNavStatusSpi(v) => (315, *v as u64),
        CfgVal::MsgoutUbxNavStatusUart1(v) => (316, *v as u64),
        CfgVal::MsgoutUbxNavStatusUart2(v) => (317, *v as u64),
        CfgVal::MsgoutUbxNavStatusUsb(v) => (318, *v as u64),
        CfgVal::MsgoutUbxNavSvinI2c(v) => (319, *v as u64),
        CfgVal::MsgoutUbxNavSvinSpi(v) => (320, *v as u64),
        CfgVal::MsgoutUbxNavSvinUart1(v) => (321, *v as u64),
        CfgVal::MsgoutUbxNavSvinUart2(v) => (322, *v as u64),
        CfgVal::MsgoutUbxNavSvinUsb(v) => (323, *v as u64),
        CfgVal::MsgoutUbxNavTimeBdsI2c(v) => (324, *v as u64),
        CfgVal::MsgoutUbxNavTimeBdsSpi(v) => (325, *v as u64),
        CfgVal::MsgoutUbxNavTimeBdsUart1(v) => (326, *v as u64),
        CfgVal::MsgoutUbxNavTimeBdsUart2(v) => (327, *v as u64),
        CfgVal::MsgoutUbxNavTimeBdsUsb(v) => (328, *v as u64),
        CfgVal::MsgoutUbxNavTimeGalI2c(v) => (329, *v as u64),
        CfgVal::MsgoutUbxNavTimeGalSpi(v) => (330, *v as u64),
        CfgVal::MsgoutUbxNavTimeGalUart1(v) => (331, *v as u64),
        CfgVal::MsgoutUbxNavTimeGalUart2(v) => (332, *v as u64),
        CfgVal::MsgoutUbxNavTimeGalUsb(v) => (333, *v as u64),
        CfgVal::MsgoutUbxNavTimeGloI2c(v) => (334, *v as u64),
        CfgVal::MsgoutUbxNavTimeGloSpi(v) => (335, *v as u64),
        CfgVal::MsgoutUbxNavTimeGloUart1(v) => (336, *v as u64),
        CfgVal::MsgoutUbxNavTimeGloUart2(v) => (337, *v as u64),
        CfgVal::MsgoutUbxNavTimeGloUsb(v) => (338, *v as u64),
        CfgVal::MsgoutUbxNavTimeGpsI2c(v) => (339, *v as u64),
        CfgVal::MsgoutUbxNavTimeGpsSpi(v) => (340, *v as u64),
        CfgVal::MsgoutUbxNavTimeGpsUart1(v) => (341, *v as u64),
        CfgVal::MsgoutUbxNavTimeGpsUart2(v) => (342, *v as u64),
        CfgVal::MsgoutUbxNavTimeGpsUsb(v) => (343, *v as u64),
        CfgVal::MsgoutUbxNavTimeLsI2c(v) => (344, *v as u64),
        CfgVal::MsgoutUbxNavTimeLsSpi(v) => (345, *v as u64),
        CfgVal::MsgoutUbxNavTimeLsUart1(v) => (346, *v as u64),
        CfgVal::MsgoutUbxNavTimeLsUart2(v) => (347, *v as u64),
        CfgVal::MsgoutUbxNavTimeLsUsb(v) => (348, *v as u64),
        CfgVal::MsgoutUbxNavTimeUtcI2c(v) => (349, *v as u64),
        CfgVal::MsgoutUbxNavTimeUtcSpi(v) => (350, *v as u64),
        CfgVal::MsgoutUbxNavTimeUtcUart1(v) => (351, *v as u64),
        CfgVal::MsgoutUbxNavTimeUtcUart2(v) => (352, *v as u64),
        CfgVal::MsgoutUbxNavTimeUtcUsb(v) => (353, *v as u64),
        CfgVal::MsgoutUbxNavVelEcefI2c(v) => (354, *v as u64),
        CfgVal::MsgoutUbxNavVelEcefSpi(v) => (355, *v as u64),
        CfgVal::MsgoutUbxNavVelEcefUart1(v) => (356, *v as u64),
        CfgVal::MsgoutUbxNavVelEcefUart2(v) => (357, *v as u64),
        CfgVal::MsgoutUbxNavVelEcefUsb(v) => (358, *v as u64),
        CfgVal::MsgoutUbxNavVelNedI2c(v) => (359, *v as u64),
        CfgVal::MsgoutUbxNavVelNedSpi(v) => (360, *v as u64),
        CfgVal::MsgoutUbxNavVelNedUart1(v) => (361, *v as u64),
        CfgVal::MsgoutUbxNavVelNedUart2(v) => (362, *v as u64),
        CfgVal::MsgoutUbxNavVelNedUsb(v) => (363, *v as u64),
        CfgVal::MsgoutUbxRxmMeasxI2c(v) => (364, *v as u64),
        CfgVal::MsgoutUbxRxmMeasxSpi(v) => (365, *v as u64),
        CfgVal::MsgoutUbxRxmMeasxUart1(v) => (366, *v as u64),
        CfgVal::MsgoutUbxRxmMeasxUart2(v) => (367, *v as u64),
        CfgVal::MsgoutUbxRxmMeasxUsb(v) => (368, *v as u64),
        CfgVal::MsgoutUbxRxmRawxI2c(v) => (369, *v as u64),
        CfgVal::MsgoutUbxRxmRawxSpi(v) => (370, *v as u64),
        CfgVal::MsgoutUbxRxmRawxUart1(v) => (371, *v as u64),
        CfgVal::MsgoutUbxRxmRawxUart2(v) => (372, *v as u64),
        CfgVal::MsgoutUbxRxmRawxUsb(v) => (373, *v as u64),
        CfgVal::MsgoutUbxRxmRlmI2c(v) => (374, *v as u64),
        CfgVal::MsgoutUbxRxmRlmSpi(v) => (375, *v as u64),
        CfgVal::MsgoutUbxRxmRlmUart1(v) => (376, *v as u64),
        CfgVal::MsgoutUbxRxmRlmUart2(v) => (377, *v as u64),
        CfgVal::MsgoutUbxRxmRlmUsb(v) => (378, *v as u64),
        CfgVal::MsgoutUbxRxmRtcmI2c(v) => (379, *v as u64),
        CfgVal::MsgoutUbxRxmRtcmSpi(v) => (380, *v as u64),
        CfgVal::MsgoutUbxRxmRtcmUart1(v) => (381, *v as u64),
        CfgVal::MsgoutUbxRxmRtcmUart2(v) => (382, *v as u64),
        CfgVal::MsgoutUbxRxmRtcmUsb(v) => (383, *v as u64),
        CfgVal::MsgoutUbxRxmSfrbxI2c(v) => (384, *v as u64),
        CfgVal::MsgoutUbxRxmSfrbxSpi(v) => (385, *v as u64),
        CfgVal::MsgoutUbxRxmSfrbxUart1(v) => (386, *v as u64),
        CfgVal::MsgoutUbxRxmSfrbxUart2(v) => (387, *v as u64),
        CfgVal::MsgoutUbxRxmSfrbxUsb(v) => (388, *v as u64),
        CfgVal::MsgoutUbxTimTm2I2c(v) => (389, *v as u64),
        CfgVal::MsgoutUbxTimTm2Spi(v) => (390, *v as u64),
        CfgVal::MsgoutUbxTimTm2Uart1(v) => (391, *v as u64),
        CfgVal::MsgoutUbxTimTm2Uart2(v) => (392, *v as u64),
        CfgVal::MsgoutUbxTimTm2Usb(v) => (393, *v as u64),
        CfgVal::MsgoutUbxTimTpI2c(v) => (394, *v as u64),
        CfgVal::MsgoutUbxTimTpSpi(v) => (395, *v as u64),
        CfgVal::MsgoutUbxTimTpUart1(v) => (396, *v as u64),
        CfgVal::MsgoutUbxTimTpUart2(v) => (397, *v as u64),
        CfgVal::MsgoutUbxTimTpUsb(v) => (398, *v as u64),
        CfgVal::MsgoutUbxTimVrfyI2c(v) => (399, *v as u64),
        CfgVal::MsgoutUbxTimVrfySpi(v) => (400, *v as u64),
        CfgVal::MsgoutUbxTimVrfyUart1(v) => (401, *v as u64),
        CfgVal::MsgoutUbxTimVrfyUart2(v) => (402, *v as u64),
        CfgVal::MsgoutUbxTimVrfyUsb(v) => (403, *v as u64),
        CfgVal::SignalGpsEna(v) => (404, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalGpsL1caEna(v) => (405, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalGpsL2cEna(v) => (406, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalGalEna(v) => (407, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalGalE1Ena(v) => (408, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalGalE5bEna(v) => (409, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalBdsEna(v) => (410, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalBdsB1Ena(v) => (411, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalBdsB2Ena(v) => (412, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalQzssEna(v) => (413, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalQzssL1caEna(v) => (414, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalQzssL2cEna(v) => (415, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalGloEna(v) => (416, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalGloL1Ena(v) => (417, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::SignalGLoL2Ena(v) => (418, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::TpPulseDef(v) => (419, match v { TpPulse::Period => 0, TpPulse::Freq => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::TpPulseLengthDef(v) => (420, match v { TpPulseLength::Ratio => 0, TpPulseLength::Length => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::TpAntCableDelay(v) => (421, *v as u16 as u64),
        CfgVal::TpPeriodTp1(v) => (422, *v as u64),
        CfgVal::TpPeriodLockTp1(v) => (423, *v as u64),
        CfgVal::TpFreqTp1(v) => (424, *v as u64),
        CfgVal::TpFreqLockTp1(v) => (425, *v as u64),
        CfgVal::TpLenTp1(v) => (426, *v as u64),
        CfgVal::TpLenLockTp1(v) => (427, *v as u64),
        CfgVal::TpTp1Ena(v) => (428, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::TpSyncGnssTp1(v) => (429, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::TpUseLockedTp1(v) => (430, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::TpAlignToTowTp1(v) => (431, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::TpPolTp1(v) => (432, match v { false => 0, true => 1, #[allow(unreachable_patterns)] _ => u64::MAX }),
        CfgVal::TpTimegridTp1(v) => (433, match v { AlignmentToReferenceTime::Utc => 0, AlignmentToReferenceTime::Gps => 1, AlignmentToReferenceTime::Glo => 2, AlignmentToReferenceTime::Bds => 3, AlignmentToReferenceTime::Gal => 4, #[allow(unreachable_patterns)] _ => u64::MAX }),
        _ => return None,
    })
}
