#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('model_checking', 'bounded exhaustive execution of the parser against a reference scan automaton',
         'Every byte string of the stated alphabets and lengths, every token sequence up to the depth, every 16-bit length and every class/id/checksum is run on the real parser and compared outcome by outcome with an independent scan model. Assumes longer or other streams behave like these.'),
 'C02': ('model_checking', 'exhaustive enumeration of chunkings and iterator-drop schedules on the real parser',
         'All compositions of short strings, all two-cut chunkings times all early-drop patterns of token streams, byte-by-byte and prefilled buffers, every split of frames of all size classes.'),
 'C03': ('fault_enumeration', 'exhaustive fault enumeration over frames with an independent monitor',
         'Every byte substitution, bit-pair flip, insertion, deletion, swap, every checksum pair, every payload length, and every split; each delivered packet is checked against the bytes of the stream.'),
 'C04': ('fault_enumeration', 'exhaustive damage enumeration in front of and between stamped frames',
         'Every damage string over five byte values up to the stated length and every damage token pair, under several chunkings, drop schedules and fixed capacities.'),
 'C05': ('model_checking', 'explicit-state search to the fixpoint over buffer contents, each transition executed on the implementation',
         'The reachable buffer contents of small capacities are closed under all chunks up to a length over the alphabet, so histories of any length over them are covered; larger frames and capacities by enumeration of sizes and splits.'),
 'C06': ('model_checking', 'exhaustive operation sequences on the buffers against a queue model',
         'All operation sequences up to the depth for all small capacities and boundary sizes for larger ones, memory guarded by canaries.'),
 'C07': ('model_checking', 'exhaustive periodic adversarial histories with bounds monitors and a watchdog',
         'All periodic streams up to the stated period over six byte values, all short strings, every repeated header; outcome counts, end answers and buffered lengths are checked after every call.'),
 'C08': ('exploration', 'bounded exhaustive enumeration of received payloads under a panic monitor',
         'Every value of every byte of every definition over several backgrounds, all 16-bit values, edge pairs, every length of every class and id, every ESF-MEAS flag word, broken text, calendar fields, short strings: all accessors, views, iterators, Debug, Serialize and conversions are run on each. Assumes combinations of three or more unusual bytes behave like these.'),
 'C09': ('exploration', 'exhaustive enumeration of class, id, length and restricted values against an independent dispatch model',
         'All 65536 class and id pairs, every length of known pairs, every value of every restricted field, compared with the frozen packet table.'),
 'C10': ('exploration', 'exhaustive per-field value enumeration against a frozen table of offsets, types and scales',
         'Every value of every byte of every field over several backgrounds (all 16-bit values, edge words for wider fields): raw and converted accessors are compared with the table. Byte independence is checked by perturbing every other byte.'),
 'C11': ('exploration', 'exhaustive enumeration of block counts, truncations and block contents against an independent block model',
         'Every block count and every payload length of each variable-length packet, every value of every byte of every block position, compared with a model decoding each block from the frozen table.'),
 'C12': ('exploration', 'exhaustive enumeration of raw values of every enumeration, flag set and bit field against frozen tables',
         'All raw values of one and two byte fields, every single bit and bit pair of four byte fields, all sub-field values under several surroundings.'),
 'C13': ('exploration', 'exhaustive enumeration of builder field values against an independent encoder',
         'Every builder, every field with all one and two byte values and edge words, pairs of fields with edge values, over several backgrounds; the frame is compared byte for byte with an encoder built on the frozen table.'),
 'C14': ('fault_enumeration', 'exhaustive fault injection at every write of every emission path',
         'Every builder through every emission path, every failure point of the sink and every reserve failure, every prior buffer length up to a bound.'),
 'C15': ('exploration', 'exhaustive enumeration of builder values through parse and rebuild',
         'Every packet that can be built: every field with all one and two byte values and edge words is built, parsed, compared, rebuilt.'),
 'C16': ('exploration', 'exhaustive enumeration of raw values and rounding boundaries against exact arithmetic',
         'All 16-bit raw values and edge neighbourhoods of 32-bit ones of every scaled field; boundary floats between and at representable values, infinities and NaN.'),
 'C17': ('exploration', 'exhaustive enumeration of configuration items, values and item lists against a frozen key table',
         'All 434 items with all values up to 16 bits and edge values beyond, all ordered pairs of items and all short lists over representatives.'),
 'C18': ('exploration', 'exhaustive enumeration of classes, ids, rates and acknowledgement contents against the frozen packet table',
         'All 65536 class and id pairs for polls and acknowledgements of every type, all rates per port.'),
 'C19': ('exploration', 'exhaustive enumeration of received payloads through the serialiser against a recording serialiser and the frozen field table',
         'Every packet type with every value of every byte over several backgrounds, block counts and truncated parts; the map is recorded call by call and compared with names, order and values.'),
 'C20': ('exploration', 'exhaustive enumeration of calendar fields and edge coordinates against exact integer arithmetic',
         'Every calendar date and clock time of the field ranges, all values of the high-precision components, edge words of the coordinates, over every conversion.'),
 'C21': ('exploration', 'bounded exhaustive enumeration of macro definitions, compiled by the real macros and run against an independent layout model',
         'All short sequences and ordered pairs of field kinds, all single flags, edge enumerations, packet lists in every order; every wrong length, missing, repeated or malformed attribute has to be rejected. Assumes longer definitions compose like the enumerated ones.'),
 'C22': ('model_checking', 'bounded exhaustive exploration of device behaviours, option combinations and I/O faults driving the real command line tool',
         'All option combinations, device reply sequences up to the stated depth, read chunkings and fault points are run on the compiled CLI against a simulated serial device and compared with a protocol model. Interrupted system calls and real hardware timing are not modelled.'),
 'C23': ('exploration', 'exhaustive enumeration of feature sets crossed with a bounded space of inputs on the compiled crate, observations compared pairwise',
         'All eight combinations of std, alloc and serde over the same streams, packets, builders, items and failures; the sets without std are linked without the standard library. Only one target architecture.'),
 'C24': ('exploration', 'exhaustive enumeration of values through recording and replaying serde formats',
         'All pairs of unusual and single-bit floating-point values for positions and velocities, all UART modes, reset modes and 16-bit satellite flag words, all interference words of either half, each written and read in a self-describing and a positional format.'),
 'C25': ('exploration', 'exhaustive enumeration of received payloads, error values and output failure points against an independent printer',
         'Every value of every byte of every packet type over several backgrounds, block counts, all class and id pairs, flag words, all room sizes of a failing sink, all checksum pairs and lengths of errors; the text is compared with one assembled from accessors and bytes.'),
 'C27': ('model_checking', 'exhaustive operation sequences on the iterators against a list-position model',
         'All sequences of 14 operations up to the depth on an iterator and its copy, for every kind of repeated part and number of blocks; every adaptor, size hint and behaviour after the end is examined in every state reached.'),
 'C26': ('exploration', 'exhaustive enumeration of received packets, sequences and splits on the compiled application against an independent reading of the bytes',
         'All fix types, edge values of the reported numbers alone and in pairs, all days of four years, times no calendar has, version texts of every length and byte, every packet type, all short sequences in several piece sizes run through the compiled CLI against a simulated serial device.'),
}
NA = {}
props = [json.loads(l)['id'] for l in open(f'{ROOT}/properties.jsonl')]
checks = []
for p in props:
    if p not in T:
        continue
    lvl, tech, note = T[p]
    checks.append({'property': p, 'quick_cmd': f'./check.sh {p}', 'thorough_cmd': f'env VERIF_TIER=thorough ./check.sh {p}',
                   'technique': tech, 'level': lvl, 'level_note': note})
na = [{'property': p, 'reason': NA.get(p, 'no check built yet')} for p in props if p not in T]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed. Known and repaired defects: known_findings.txt. Replay a violation with ./check.sh <ID> --replay <file>.'}
json.dump(m, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
