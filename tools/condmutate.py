#!/usr/bin/env python3
"""condmutate.py FILE: changes of a file that do something else under a condition that is rarely true, in the format of
tools/mutate."""
import json, os, sys
src = open(sys.argv[1], "rb").read().decode()
TABLE = {
    "grapheme_clusters.go": [("\t\tif split {\n", [
        "count > 255", "count > 65535", "count == 64", "count%64 == 0 && count > 0", "len(data) == 4096", "len(data) > 65535", "len(data) == 65536 && !atEOF", "cap(data) == len(data) && len(data) > 16",
        "len(remain) == 0 && atEOF && count > 8", "len(remain) == 0 && !atEOF", "next == prev && count > 12", "next == properties && count > 12", "data[0] == data[count] && count > 4",
        "data[count-1] == data[count] && count > 2", "moreCount == 4 && data[count+3] == 0xbf", "moreCount == 3 && data[count+2] == 0x80 && count > 6",
        "moreCount == 4 && data[count+1] == 0xaf", "moreCount == 2 && data[count] == 0xdb", "len(remain) > 0 && remain[0] == data[0] && count > 3", "len(remain) > 1 && remain[1] >= 0xf0",
        "len(remain) > 0 && remain[0] == 0xff", "count > 3 && data[count-3] == data[count]", "len(data)-count == 5", "len(data)&15 == 0 && len(data) > 30", "prev.InCBProperty() == next.InCBProperty() && prev != next && count > 9",
        "moreCount == 4 && data[count+1]&0x30 == 0x30", "moreCount == 3 && data[count] == 0xef && count > 3", "uint8(count*31) == data[count]", "count > 1 && data[count-1]^data[count] == 0x11"],
        ["split = true", "split = false", "nextState = machine.Begin(next)", "nextState = state"])],
    "property_table.go": [
        ("\tswitch length {\n", ["len(p) > 4096", "len(p) == 255", "len(p) == 65536", "cap(p) == len(p) && len(p) > 40", "p[len(p)-1] == 0xff && len(p) > 9", "len(p) > length && p[length] == 0xcc && len(p)&7 == 5",
         "len(p) > length && p[length] == p[0] && length == 2", "len(p) > 2*length && p[length] == first && p[length+1] != p[1] && length == 3", "len(p) > length && p[length] == 0xfe", "len(p) > length+1 && p[length] >= 0x80 && p[length] < 0xc0 && p[length+1] == 0xed",
         "length == 4 && p[3] == p[2] && len(p) == 7", "length == 3 && len(p) == 4 && p[3] == 0xe0", "len(p) == length+3 && p[length] == 0xf0 && length == 4", "cap(p) > 1<<20 && cap(p) == len(p)", "len(p) > 9 && p[8] == 0xad"],
         ["return Error, 1", "return zeroProperties, length", "first ^= 1", "return 0, 0"]),
        ("\t\t// Buffer begins with incomplete UTF-8 sequence.\n", ["length == 4 && len(p) == 3 && p[1] == 0xb0", "length == 4 && len(p) == 2 && first == 0xf3", "length == 3 && p[len(p)-1] == 0xbf", "cap(p) == len(p)", "first == 0xf4 && len(p) > 1 && p[1] > 0x8f", "first == 0xe0 && len(p) > 1 && p[1] < 0xa0", "first == 0xed && len(p) > 1 && p[1] >= 0xa0", "first == 0xc0", "first == 0xf5"],
         ["return Error, 1", "return Error, len(p)"])],
    "version_agnostic.go": [
        ("\tcopyTokens := func", ["len(buf) == 4096", "len(buf) == 65536", "len(buf) > 1<<20", "len(buf) > 5 && buf[0] == buf[len(buf)-1]", "cap(buf) > 2*len(buf)+100", "len(buf) > 3 && buf[len(buf)-1] == '\\n' && buf[len(buf)-2] == '\\n'", "len(buf) == 0", "len(buf) == 1", "len(buf)&4095 == 4095"],
         ["buf = bytes.TrimSpace(buf)", "buf = buf[:len(buf):len(buf)]", "buf = append(buf, 0)", "return nil, nil", "return [][]byte{}, nil"]),
        ("\t\treturn advance, bytes.Clone(token), err\n", ["advance == 0 && token != nil", "advance > 0 && token == nil", "len(token) > 4096", "advance > len(token)+9", "advance < len(token)", "err != nil && len(token) > 0", "err == bufio.ErrFinalToken", "len(token) == 0 && token != nil", "atEOF && advance == len(data)", "advance < 0", "advance > len(data)", "len(data) > 9000"],
         ["return advance, token, err", "return advance, nil, err", "err = nil", "return advance, append([]byte{}, token...), err", "return len(token), bytes.Clone(token), err", "token = data[:len(token)]"]),
        ("\treturn realImpl.TokenCount(buf, splitFunc)\n", ["len(buf) > 65536", "len(buf) == 4096", "len(buf) == 0", "len(buf) > 2 && buf[0] == 0xef && buf[1] == 0xbb", "len(buf) > 0 && buf[len(buf)-1] == 0"],
         ["ts, err := AllTokens(buf, splitFunc)\n\treturn len(ts), err", "return 0, nil", "buf = bytes.TrimSpace(buf)", "ts, _ := AllTokens(buf, splitFunc)\n\treturn len(ts), nil"]),
        ("\treturn realImpl.ScanUTF8Sequences(data, atEOF)\n", ["len(data) > 4096", "len(data) == 4 && data[0] == 0xf4", "len(data) > 3 && data[0] == 0xef && data[1] == 0xbf && data[2] == 0xbe", "len(data) > 1 && data[0] == 0xed && data[1] > 0x9f", "len(data) == 3 && data[0] == 0xf0 && !atEOF", "len(data) > 1 && data[0] == 0xf0 && data[1] < 0x90", "cap(data) == len(data) && len(data) > 30", "len(data) > 0 && data[0] == 0", "len(data) == 2 && atEOF && data[0] == 0xe2", "len(data) == 1 && !atEOF"],
         ["atEOF = true", "atEOF = false", "return 1, data[:1], nil", "return 1, data[:1:1], nil"])],
    "ucd_scan.go": [
        ("\t\trng, fieldsRaw, ok := bytes.Cut(raw", ["len(raw) > 200", "len(raw) == 64", "len(raw) > 1 && raw[0] == ' '", "len(raw) > 1 && raw[len(raw)-1] == ';'", "bytes.Count(raw, fieldSeparator) > 3", "bytes.Contains(raw, []byte{';', ';'})", "len(raw) > 0 && raw[0] == 0xef", "len(raw) > 0 && raw[0] == '\\t'", "bytes.Contains(raw, []byte{'\\r'})", "bytes.Contains(raw, []byte{0xc2})", "bytes.Contains(raw, []byte{'.', '.', '.'})", "bytes.Contains(raw, []byte{'@'})"],
         ["continue", "raw = bytes.TrimRight(raw, \" ;\")", "raw = raw[1:]", "raw = bytes.ToUpper(raw)", "raw = raw[:len(raw)-1]"]),
        ("\t\tif start < 0 || start > end", ["start == end && isRange", "end-start == 0xffff", "start == 0", "end == unicode.MaxRune", "len(startHex) > 6", "len(startHex) < 4", "start > 0xffff && start&0xffff == 0", "len(endHex) != len(startHex) && isRange", "start <= 0xdfff && end >= 0xd800", "start&0xffff == 0xffff", "start>>8 == end>>8 && isRange && end&0xff == 0xff"],
         ["continue", "end = start", "end++", "start++"]),
        ("\t\t\tif !yield(string(val)) {\n", ["len(val) == 0", "len(val) > 40", "!foundSep && len(val) == 0", "bytes.IndexByte(val, ' ') > 0", "len(remain) == 1", "len(val) > 0 && val[0] == '.'"],
         ["remain = after\n\t\t\t\tif !foundSep {\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t\tcontinue", "val = append(val, 'x')", "val = before", "val = bytes.ToLower(val)"]),
        ("\treturn string(bytes.TrimSpace(before))\n", ["len(before) == 0", "len(f) == len(before)", "len(before) > 32", "bytes.IndexByte(bytes.TrimSpace(before), ' ') > 0"], ["before = f", "before = nil", "before = before[:len(before)/2]"])],
    "testdata_scan.go": [
        ("\t\twantSegs := bytes.Split(raw", ["len(raw) > 100", "len(raw) < 5", "bytes.Contains(raw, []byte{'\\r'})", "!bytes.HasPrefix(raw, splitMarker)", "!bytes.HasSuffix(raw, splitMarker)", "bytes.Contains(raw, []byte{' ', ' '})", "bytes.Contains(raw, []byte{'\\t'})"],
         ["continue", "raw = bytes.Trim(raw, \"÷\")", "raw = raw[:len(raw)-1]", "raw = append(splitMarker, raw...)"]),
        ("\t\t\t\tbuf := make([]byte, 4)\n", ["charInt > 0xfffff", "charInt == 0", "len(charHexStr) > 6", "len(charHexStr) < 4", "len(entry.Input) > 60", "len(currentSeg) > 30", "charInt == 0xfffd", "len(wantSegs) > 12"],
         ["continue", "charInt ^= 1", "currentSeg = nil", "currentSeg = append(currentSeg, 0)"])],
    "generate.go": [
        ("\tasU8 := make([]byte, 4)\n", ["r == 0x10ffff", "r>>16 == 5", "r == 0x7f", "r == 0x80", "r>>12 == 0xd", "len(t.rawProps)>>6 == 600", "len(t.rawProps)>>6 > 900", "len(t.indices)>>6 == 40", "r&0xfff == 0xfff", "r >= 0xfff80 && r < 0x100000", "r&0xffff == 0xfffe", "r == 0"],
         ["r++", "r = 0xe000", "return new(uint8)"]),
        ("\t\tif *rawProps != 0", []  , []),
        ("\tblockKey := propertyBlockKey(srcBlock)\n", ["len(ret.Properties)>>6 == 255", "len(ret.Properties)>>6 > 255", "len(ret.Properties)>>6 == 512", "srcBlock[0] == srcBlock[63] && srcBlock[0] != 0 && srcBlock[1] == 0", "currentIdx == 63 && indexLevels == 0 && srcBlock[62] == 0xff", "srcBlock[63] != 0 && srcBlock[62] == 0", "len(propBlockIdxs) > 200", "srcBlock[31] != 0 && srcBlock[32] == 0 && srcBlock[0] == 0"],
         ["srcBlock = make([]uint8, blockSize)", "srcBlock = t.rawProps[:blockSize]", "srcBlock = append([]uint8{srcBlock[1]}, srcBlock[1:]...)", "delete(propBlockIdxs, propertyBlockKey(srcBlock))"]),
        ("\t\tblockKey := indexBlockKey(newBlock)\n", ["newBlock[0] == newBlock[63] && newBlock[0] != newBlock[1]", "len(ret.Indices)>>6 > 64", "newBlock[0] > 255", "newBlock[0] == 255", "newBlock[63] > 255 && newBlock[62] <= 255", "indexLevels == 2 && newBlock[32] != newBlock[31]"],
         ["newBlock[1] = newBlock[0]", "newBlock[62] = newBlock[63]", "delete(indexBlockIdxs, indexBlockKey(newBlock))"]),
        ("\t\tif prop == 0 {\n", ["entry.End-entry.Start > 4096", "entry.Start == 0", "entry.End == 0x110000", "entry.Start > 0xffff && entry.Start&0xff == 0"], ["continue", "entry.End--", "entry.Start++"]),
        ("\t\tpropName := fields[1]\n", ["len(fields) > 2", "entry.End-entry.Start > 4096", "entry.Start < 128", "entry.Start&63 == 63 && entry.End == entry.Start+2"], ["continue", "entry.End--", "fields[1] = fields[len(fields)-1]"])],
}
for anchor, ps, es in TABLE[os.path.basename(sys.argv[1])]:
    if anchor not in src:
        continue
    at = len(src[:src.index(anchor)].encode())
    ind = anchor[:len(anchor) - len(anchor.lstrip("\t"))]
    for p in ps:
        for e in es:
            t = "%sif %s {\n%s\t%s\n%s}\n" % (ind, p, ind, e, ind)
            print(json.dumps({"at": at, "end": at, "text": t, "what": p + ": " + e}))
