# Behaviour-preserving edits (tools/refactor.py).  Each: id, edits [(file, old, new)]; every
# occurrence of old is replaced.
TAIL = """    // Calculate how much of the input was consumed.
    if input_i > input.len() {
        input_i = input.len();
    } else {
        while !input.is_char_boundary(input_i) {
            input_i += 1;
        }
    }
"""
HELP_TAIL = """fn consumed_len(input: &str, mut end: usize) -> usize {
    if end > input.len() {
        return input.len();
    }
    while !input.is_char_boundary(end) {
        end += 1;
    }
    end
}

"""
ERR4 = """                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });
"""
EDITS = []


def R(id, *edits):
    EDITS.append({"id": id, "edits": list(edits)})


def all_of(files, *eds):
    return [(f, o, n) for f in files for o, n in eds]


U16 = ["src/utf16_le.rs", "src/utf16_be.rs"]
U32 = ["src/utf32_le.rs", "src/utf32_be.rs"]
SIG = "pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResult<'a> {"

# 1. tail loop moved to a helper
R("tail-helper-u32", *all_of(U32, (TAIL, "    let input_i = consumed_len(input, input_i);\n"), (SIG, HELP_TAIL + SIG)))
R("tail-helper-sb", ("src/single_byte.rs", TAIL, "    let input_i = consumed_len(input, input_i);\n"), ("src/single_byte.rs", "fn ascii_ext_encode_from_str<'a>(\n    table", HELP_TAIL + "fn ascii_ext_encode_from_str<'a>(\n    table"))
R("tail-helper-sjis", ("src/shiftjis_whatwg.rs", TAIL, "    input_i = consumed_len(input, input_i);\n"), ("src/shiftjis_whatwg.rs", SIG, HELP_TAIL + SIG))
# 2. error construction helper
R("err-helper-u16", *all_of(U16, ("""return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });""", "return Err(invalid_data(input_i, input.len(), output_i));"), ("pub fn decode_to_str", """fn invalid_data(start: usize, end: usize, written: usize) -> DecodeError {
    DecodeError {
        cause: DecodeErrorCause::InvalidData,
        error_range: (start, end),
        output_bytes_written: written,
    }
}

pub fn decode_to_str""")))
R("err-helper-result-big5", ("src/big5_whatwg.rs", """return Err(DecodeError {
                cause: DecodeErrorCause::InvalidData,
                error_range: (input_i, input_i + 1),
                output_bytes_written: output_i,
            });""", "return invalid(input_i, 1, output_i);"), ("src/big5_whatwg.rs", "/// Note: is potentially lossy.\n", """fn invalid<'a>(start: usize, len: usize, written: usize) -> DecodeResult<'a> {
    Err(DecodeError {
        cause: DecodeErrorCause::InvalidData,
        error_range: (start, start + len),
        output_bytes_written: written,
    })
}

/// Note: is potentially lossy.
"""))
# 3. loop with match
R("loop-match-u16", *all_of(U16, ("    while let Some(bytes) = itr.next() {\n", "    loop {\n        let bytes = match itr.next() {\n            Some(b) => b,\n            None => break,\n        };\n")))
R("for-to-while-u32", *all_of(U32, ("    for bytes in input.chunks(4) {\n", "    let mut itr = input.chunks(4);\n    while let Some(bytes) = itr.next() {\n")))
R("for-to-while-enc-sjis", ("src/shiftjis_whatwg.rs", "    for (offset, c) in input.char_indices() {\n", "    let mut chars = input.char_indices();\n    while let Some((offset, c)) = chars.next() {\n"))
# 4. copy_from_slice
R("copy4-u32", *all_of(U32, ("""            out_buffer[output_i] = code[0];
            out_buffer[output_i + 1] = code[1];
            out_buffer[output_i + 2] = code[2];
            out_buffer[output_i + 3] = code[3];
""", "            out_buffer[output_i..output_i + 4].copy_from_slice(&code);\n")))
R("copy2-big5", ("src/big5_whatwg.rs", """                out_buffer[output_i] = big5_bytes[0];
                out_buffer[output_i + 1] = big5_bytes[1];
""", "                out_buffer[output_i..(output_i + 2)].copy_from_slice(&big5_bytes);\n"))
# 5. range patterns / contains / is_ascii
R("is-ascii-big5", ("src/big5_whatwg.rs", "byte_1 <= 127", "byte_1.is_ascii()"), ("src/big5_whatwg.rs", "byte_2 <= 127", "byte_2.is_ascii()"))
R("matches-sjis", ("src/shiftjis_whatwg.rs", "(byte_1 > 0x9F && byte_1 < 0xE0) || byte_1 > 0xFC", "matches!(byte_1, 0xA0..=0xDF | 0xFD..=0xFF)"), ("src/shiftjis_whatwg.rs", "code >= 0xFF61 && code <= 0xFF9F", "(0xFF61..=0xFF9F).contains(&code)"))
R("match-arms-big5", ("src/big5_whatwg.rs", "if byte_2 < 0x40 || byte_2 > 0xFE || (byte_2 > 0x7E && byte_2 < 0xA1) {", "let valid_trail = match byte_2 {\n                0x40..=0x7E => true,\n                0xA1..=0xFE => true,\n                _ => false,\n            };\n            if !valid_trail {"))
R("match-ascii-sb", ("src/single_byte.rs", "        if c as u32 <= 127 {", "        if c.is_ascii() {"))
# 6. enumerate
R("enumerate-sb", ("src/single_byte.rs", "    for &byte in input.iter() {", "    for (i, &byte) in input.iter().enumerate() {"), ("src/single_byte.rs", "error_range: (input_i, input_i + 1),", "error_range: (i, i + 1),"))
R("by-value-sb", ("src/single_byte.rs", "    for &byte in input.iter() {", "    for byte in input.iter().copied() {"))
R("in-slice-sb", ("src/single_byte.rs", "    for &byte in input.iter() {", "    for &byte in input {"))
# 7. copy_len
R("copylen-loop", ("src/utf8.rs", """    if output_len >= input.len() {
        input.len()
    } else {
        let mut i = output_len;
        while i > 0 && (input[i] & 0b1100_0000) == 0b1000_0000 {
            i -= 1;
        }
        i
    }
""", """    if output_len >= input.len() {
        return input.len();
    }
    let mut i = output_len;
    loop {
        if i == 0 || (input[i] & 0xC0) != 0x80 {
            return i;
        }
        i -= 1;
    }
"""))
R("copylen-rename", ("src/utf8.rs", "copy_len", "floor_char_boundary"))
R("copylen-boundary", ("src/utf8.rs", "(input[i] & 0b1100_0000) == 0b1000_0000\n                    ||", "(0x80..0xC0).contains(&input[i])\n                    ||"))
R("copylen-helper", ("src/utf8.rs", "while i > 0 && (input[i] & 0b1100_0000) == 0b1000_0000 {", "while i > 0 && is_continuation(input[i]) {"), ("src/utf8.rs", "&& ((input[i] & 0b1100_0000) == 0b1000_0000", "&& (is_continuation(input[i])"), ("src/utf8.rs", "#[inline(always)]\nfn copy_len", "fn is_continuation(b: u8) -> bool {\n    b & 0b1100_0000 == 0b1000_0000\n}\n\n#[inline(always)]\nfn copy_len"))
# 8. utf8 encode
R("utf8-enc-bytes", ("src/utf8.rs", """    let cl = copy_len(input.as_bytes(), out_buffer.len());
    out_buffer[..cl].copy_from_slice(input[..cl].as_bytes());
    Ok((&out_buffer[..cl], cl))
""", """    let bytes = input.as_bytes();
    let len = copy_len(bytes, out_buffer.len());
    let out = &mut out_buffer[..len];
    out.copy_from_slice(&bytes[..len]);
    Ok((out, len))
"""))
R("utf8-dec-match", ("src/utf8.rs", "        if !is_truncated {", "        if is_truncated == false {"))
R("utf8-dec-early", ("src/utf8.rs", "    if bytes_copied < out_buffer.len() && bytes_copied == valid_up_to && valid_up_to < input.len() {", "    let reached_bad = bytes_copied == valid_up_to && valid_up_to < input.len();\n    if reached_bad && bytes_copied < out_buffer.len() {"))
# 9. room variable
R("room-u16", *all_of(U16, ("if (output_i + 1) < out_buffer.len() {", "if out_buffer.len() - output_i >= 2 {"), ("} else if (output_i + 3) < out_buffer.len() {", "} else if out_buffer.len() - output_i >= 4 {")))
R("room-sb", ("src/single_byte.rs", "if (output_i + s.len()) > output.len() {", "let room = output.len() - output_i;\n            if s.len() > room {"))
R("early-break-u32", *all_of(U32, ("        if (output_i + 3) < out_buffer.len() {\n            let code", "        if output_i + 4 > out_buffer.len() {\n            break;\n        }\n        {\n            let code"), ("""            input_i = offset + 1;
        } else {
            break;
        }
""", """            input_i = offset + 1;
        }
""")))
# 10. arithmetic
R("arith-sjis", ("src/shiftjis_whatwg.rs", "(code - 0xFF61 + 0xA1) as u8", "(code - 0xFEC0) as u8"), ("src/shiftjis_whatwg.rs", "byte_1 as u32 + 0xFF61 - 0xA1", "0xFEC0 + byte_1 as u32"))
R("shift-u16", ("src/utf16_be.rs", "u16::from_be_bytes([bytes[0], bytes[1]])", "((bytes[0] as u16) << 8) | bytes[1] as u16"), ("src/utf16_le.rs", "u16::from_le_bytes([bytes[0], bytes[1]])", "bytes[0] as u16 | (bytes[1] as u16) << 8"))
R("shift-u32", ("src/utf32_be.rs", "u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]])", "(bytes[0] as u32) << 24 | (bytes[1] as u32) << 16 | (bytes[2] as u32) << 8 | bytes[3] as u32"), ("src/utf32_le.rs", "(c as u32).to_le_bytes()", "[c as u8, (c as u32 >> 8) as u8, (c as u32 >> 16) as u8, (c as u32 >> 24) as u8]"))
R("sub-u16", *all_of(U16, ("0xD800 | ((code >> 10) as u16)", "0xD800 + (code / 0x400) as u16"), ("0xDC00 | ((code as u16) & 0x3FF)", "0xDC00 + (code % 0x400) as u16")))
R("surrogate-range-u16", *all_of(U16, ("(code_1 & 0xFC00) == 0xDC00", "code_1 >= 0xDC00"), ("(code_2 & 0xFC00) != 0xDC00", "code_2 < 0xDC00 || code_2 > 0xDFFF")))
R("surrogate-helper-u16", *all_of(U16, ("(code_1 & 0xFC00) == 0xDC00", "is_low_surrogate(code_1)"), ("(code_2 & 0xFC00) != 0xDC00", "!is_low_surrogate(code_2)"), ("pub fn decode_to_str", "#[inline]\nfn is_low_surrogate(unit: u16) -> bool {\n    (unit & 0xFC00) == 0xDC00\n}\n\npub fn decode_to_str")))
# 11. renames
R("rename-u16", *all_of(U16, ("output_i", "written"), ("input_i", "consumed")))
R("rename-big5", ("src/big5_whatwg.rs", "output_i", "out_pos"), ("src/big5_whatwg.rs", "input_i", "in_pos"))
R("rename-sb", ("src/single_byte.rs", "output_i", "o"), ("src/single_byte.rs", "input_i", "n"))
# 12. consumed without tail
R("len-utf8-u32", *all_of(U32, ("input_i = offset + 1;", "input_i = offset + c.len_utf8();"), (TAIL, "")))
R("len-utf8-sjis", ("src/shiftjis_whatwg.rs", "input_i = offset + 1;", "input_i = offset + c.len_utf8();"), ("src/shiftjis_whatwg.rs", TAIL, ""))
R("len-utf8-big5", ("src/big5_whatwg.rs", "input_i = offset + 1;", "input_i = offset + c.len_utf8();"), ("src/big5_whatwg.rs", "input_i = offset2 + 1;", "input_i = offset2 + c2.len_utf8();"), ("src/big5_whatwg.rs", TAIL, ""))
R("accum-sb", ("src/single_byte.rs", "input_i = offset + 1;", "input_i += c.len_utf8();"), ("src/single_byte.rs", TAIL, ""))
# 13. index loop decoders
R("index-loop-sb", ("src/single_byte.rs", "    for &byte in input.iter() {", "    while input_i < input.len() {\n        let byte = input[input_i];"))
R("index-loop-u32", *all_of(U32, ("    for bytes in input.chunks(4) {", "    while input_i < input.len() {\n        let bytes = &input[input_i..];")))
# 14. map_grapheme
R("grapheme-if", ("src/big5_whatwg.rs", """    match (a, b) {
        (0xCA, 0x304) => Some([0x88, 0x62]),
        (0xCA, 0x30C) => Some([0x88, 0x64]),
        (0xEA, 0x304) => Some([0x88, 0xA3]),
        (0xEA, 0x30C) => Some([0x88, 0xA5]),
        _ => None,
    }
""", """    let trail = match (a, b) {
        (0xCA, 0x304) => 0x62,
        (0xCA, 0x30C) => 0x64,
        (0xEA, 0x304) => 0xA3,
        (0xEA, 0x30C) => 0xA5,
        _ => return None,
    };
    Some([0x88, trail])
"""))
R("grapheme-char", ("src/big5_whatwg.rs", "if code == 0xCA || code == 0xEA {", "if c == '\\u{CA}' || c == '\\u{EA}' {"))
R("peek-big5", ("src/big5_whatwg.rs", "itr.clone().next()", "itr.as_str().chars().next().map(|c2| (offset + c.len_utf8(), c2))"))
# 15. table access
R("get-big5", ("src/big5_whatwg.rs", "let string = if big5_ptr >= DECODE_TABLE.len() || DECODE_TABLE[big5_ptr] == '�' {", "let code = DECODE_TABLE.get(big5_ptr).cloned().unwrap_or('�');\n            let string = if code == '�' {"), ("src/big5_whatwg.rs", "DECODE_TABLE[big5_ptr].encode_utf8(&mut buf)", "code.encode_utf8(&mut buf)"))
R("ptr-helper-big5", ("src/big5_whatwg.rs", """            let big5_ptr = {
                let lead = (byte_1 as usize - 0x81) * 157;
                let trail = if byte_2 < 0x7f {
                    byte_2 as usize - 0x40
                } else {
                    byte_2 as usize - 0x62
                };
                lead + trail
            };
""", "            let big5_ptr = pointer(byte_1, byte_2);\n"), ("src/big5_whatwg.rs", "/// Note: is potentially lossy.\n", """/// The index pointer of a lead/trail pair.
fn pointer(lead: u8, trail: u8) -> usize {
    let row = (lead - 0x81) as usize;
    let col = (if trail < 0x7F { trail - 0x40 } else { trail - 0x62 }) as usize;
    row * 157 + col
}

/// Note: is potentially lossy.
"""))
R("const-names-sjis", ("src/shiftjis_whatwg.rs", "8836", "EUDC_START"), ("src/shiftjis_whatwg.rs", "10715", "EUDC_END"), ("src/shiftjis_whatwg.rs", SIG, "const EUDC_START: u32 = 8836;\nconst EUDC_END: u32 = 10715;\n\n" + SIG))
R("special-case-helper-sjis", ("src/shiftjis_whatwg.rs", """                let jis_ptr = code - 0xE000 + 8836;
                let lead = jis_ptr / 188;
                let lead_offset = if lead < 0x1F { 0x81 } else { 0xC1 };
                let trail = jis_ptr % 188;
                let trail_offset = if trail < 0x3F { 0x40 } else { 0x41 };
                [(lead + lead_offset) as u8, (trail + trail_offset) as u8]
""", "                eudc_bytes(code)\n"), ("src/shiftjis_whatwg.rs", "/// Note: is potentially lossy.\n", """fn eudc_bytes(code: u32) -> [u8; 2] {
    let ptr = code - 0xE000 + 8836;
    let (lead, trail) = (ptr / 188, ptr % 188);
    [
        (lead + if lead < 0x1F { 0x81 } else { 0xC1 }) as u8,
        (trail + if trail < 0x3F { 0x40 } else { 0x41 }) as u8,
    ]
}

/// Note: is potentially lossy.
"""))
R("single-match-sjis", ("src/shiftjis_whatwg.rs", """        } else if code <= 128 {
            // Ascii
            out_buffer[output_i] = code as u8;
            output_i += 1;
            input_i = offset + 1;
        } else if code == 0xA5 {
            // Special case 1
            out_buffer[output_i] = 0x5C;
            output_i += 1;
            input_i = offset + 1;
        } else if code == 0x203E {
            // Special case 2
            out_buffer[output_i] = 0x7E;
            output_i += 1;
            input_i = offset + 1;
        } else if code >= 0xFF61 && code <= 0xFF9F {
            // Special case 3
            out_buffer[output_i] = (code - 0xFF61 + 0xA1) as u8;
            output_i += 1;
            input_i = offset + 1;
        } else if""", """        }
        let single = match code {
            0..=128 => Some(code as u8),
            0xA5 => Some(0x5C),
            0x203E => Some(0x7E),
            0xFF61..=0xFF9F => Some((code - 0xFF61 + 0xA1) as u8),
            _ => None,
        };
        if let Some(byte) = single {
            out_buffer[output_i] = byte;
            output_i += 1;
            input_i = offset + 1;
        } else if"""))
R("fold-2212-sjis", ("src/shiftjis_whatwg.rs", """                if code == 0x2212 {
                    // Special case 4
                    code = 0xFF0D;
                }
                let code = core::char::from_u32(code).unwrap();
""", "                let code = if c == '\\u{2212}' { '\\u{FF0D}' } else { c };\n"), ("src/shiftjis_whatwg.rs", "let mut code = c as u32;", "let code = c as u32;"))
R("match-search-sb", ("src/single_byte.rs", """        } else if let Ok(i) = table.binary_search_by_key(&c, |x| x.0) {
            output[output_i] = table[i].1;
            output_i += 1;
            input_i = offset + 1;
        } else {
            return Err(EncodeError {
                character: c,
                error_range: (offset, offset + c.len_utf8()),
                output_bytes_written: output_i,
            });
        }
""", """        } else {
            match table.binary_search_by_key(&c, |&(ch, _)| ch) {
                Ok(i) => {
                    output[output_i] = table[i].1;
                    output_i += 1;
                    input_i = offset + 1;
                }
                Err(_) => {
                    return Err(EncodeError {
                        character: c,
                        error_range: (offset, offset + c.len_utf8()),
                        output_bytes_written: output_i,
                    });
                }
            }
        }
"""))
R("search-cmp-sb", ("src/single_byte.rs", "table.binary_search_by_key(&c, |x| x.0)", "table.binary_search_by(|entry| entry.0.cmp(&c))"))
R("lookup-helper-sb", ("src/single_byte.rs", """        if c as u32 <= 127 {
            output[output_i] = c as u8;
            output_i += 1;
            input_i = offset + 1;
        } else if let Ok(i) = table.binary_search_by_key(&c, |x| x.0) {
            output[output_i] = table[i].1;
            output_i += 1;
            input_i = offset + 1;
        } else {""", """        if let Some(byte) = lookup(table, c) {
            output[output_i] = byte;
            output_i += 1;
            input_i = offset + 1;
        } else {"""), ("src/single_byte.rs", "#[inline]\nfn ascii_ext_decode_to_str", """fn lookup(table: &[(char, u8)], c: char) -> Option<u8> {
    if (c as u32) < 0x80 {
        return Some(c as u8);
    }
    match table.binary_search_by_key(&c, |x| x.0) {
        Ok(i) => Some(table[i].1),
        Err(_) => None,
    }
}

#[inline]
fn ascii_ext_decode_to_str"""))
# 16. output helpers
R("push-helper-u32", *all_of(U32, ("""            let mut buf = [0u8; 4];
            let s = code.encode_utf8(&mut buf);
            if (output_i + s.len()) > out_buffer.len() {
                break;
            }
            out_buffer[output_i..(output_i + s.len())].copy_from_slice(s.as_bytes());

            // Update our counters.
            input_i += 4;
            output_i += s.len();
""", """            let len = code.len_utf8();
            if output_i + len > out_buffer.len() {
                break;
            }
            code.encode_utf8(&mut out_buffer[output_i..output_i + len]);

            // Update our counters.
            input_i += 4;
            output_i += len;
""")))
R("put-helper-sb", ("src/single_byte.rs", """            let mut buf = [0u8; 4];
            let s = code.encode_utf8(&mut buf);
            if (output_i + s.len()) > output.len() {
                break;
            }
            output[output_i..(output_i + s.len())].copy_from_slice(s.as_bytes());
            input_i += 1;
            output_i += s.len();
""", """            match put_char(code, output, output_i) {
                Some(next) => output_i = next,
                None => break,
            }
            input_i += 1;
"""), ("src/single_byte.rs", "#[inline]\nfn ascii_ext_decode_to_str", """fn put_char(c: char, out: &mut [u8], at: usize) -> Option<usize> {
    let mut buf = [0u8; 4];
    let s = c.encode_utf8(&mut buf);
    let end = at + s.len();
    if end > out.len() {
        return None;
    }
    out[at..end].copy_from_slice(s.as_bytes());
    Some(end)
}

#[inline]
fn ascii_ext_decode_to_str"""))
R("loop-stmts-order-sb", ("src/single_byte.rs", "            output[output_i] = byte;\n            input_i += 1;\n            output_i += 1;", "            output[output_i] = byte;\n            output_i += 1;\n            input_i += 1;"))
R("noop-all", *[(f, "    let mut output_i = 0;\n", "    let mut output_i = 0;\n    let _unused = output_i;\n") for f in U16 + U32 + ["src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"]])
R("get-slice-u32", *all_of(U32, ("        if bytes.len() < 4 {", "        if bytes.len() != 4 {")))
R("guard-continue-big5", ("src/big5_whatwg.rs", """        } else if byte_1 <= 127 {
            // Ascii
            out_buffer[output_i] = byte_1;
            output_i += 1;
            input_i += 1;
        } else if byte_1 == 0x80""", """        }
        if byte_1 <= 127 {
            // Ascii
            out_buffer[output_i] = byte_1;
            output_i += 1;
            input_i += 1;
            continue;
        }
        if byte_1 == 0x80"""))
R("is-end-flip-u16", *all_of(U16, ("""            if !is_end {
                break;
            } else {
                // Error: incomplete data at end-of-input.
                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });
            }
""", """            if is_end {
                // Error: incomplete data at end-of-input.
                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });
            }
            break;
""")))
R("lead-match-sjis", ("src/shiftjis_whatwg.rs", "                    (DECODE_TABLE[jis_ptr as usize].encode_utf8(&mut buf), 2)\n", "                    let decoded = DECODE_TABLE[jis_ptr as usize];\n                    (decoded.encode_utf8(&mut buf), 2)\n"), ("src/shiftjis_whatwg.rs", "let jis_ptr = {\n                    let lead_offset = if byte_1 < 0xA0 { 0x81 } else { 0xC1 };\n                    let trail_offset = if byte_2 < 0x7F { 0x40 } else { 0x41 };\n                    (byte_1 as u32 - lead_offset) * 188 + byte_2 as u32 - trail_offset\n                };", "let lead = byte_1 as u32 - if byte_1 < 0xA0 { 0x81 } else { 0xC1 };\n                let trail = byte_2 as u32 - if byte_2 < 0x7F { 0x40 } else { 0x41 };\n                let jis_ptr = lead * 188 + trail;"))

# ---------------------------------------------------------------------------
# Second batch: restructured control flow, helpers of several shapes.
UTF8COPY = """        // Encode to utf8.
        let mut buf = [0u8; 4];
        let s = code.encode_utf8(&mut buf);
        if (output_i + s.len()) > out_buffer.len() {
            break;
        }
        out_buffer[output_i..(output_i + s.len())].copy_from_slice(s.as_bytes());
"""
# a helper that writes through &mut usize
R("push-mut-u32", *all_of(U32, ("""            out_buffer[output_i] = code[0];
            out_buffer[output_i + 1] = code[1];
            out_buffer[output_i + 2] = code[2];
            out_buffer[output_i + 3] = code[3];
            output_i += 4;
""", "            push_bytes(out_buffer, &mut output_i, &code);\n"), (SIG, """fn push_bytes(out: &mut [u8], at: &mut usize, bytes: &[u8]) {
    let end = *at + bytes.len();
    out[*at..end].copy_from_slice(bytes);
    *at = end;
}

""" + SIG)))
R("write-unit-u16", *all_of(U16, ("""            out_buffer[output_i] = first[0];
            out_buffer[output_i + 1] = first[1];
            out_buffer[output_i + 2] = second[0];
            out_buffer[output_i + 3] = second[1];
            output_i += 4;
""", """            write_unit(out_buffer, output_i, first);
            write_unit(out_buffer, output_i + 2, second);
            output_i += 4;
"""), ("""                out_buffer[output_i] = val[0];
                out_buffer[output_i + 1] = val[1];
""", "                write_unit(out_buffer, output_i, val);\n"), (SIG, """#[inline]
fn write_unit(out: &mut [u8], at: usize, unit: [u8; 2]) {
    out[at] = unit[0];
    out[at + 1] = unit[1];
}

""" + SIG)))
# byte loops
R("byte-loop-u32", *all_of(U32, ("""            out_buffer[output_i] = code[0];
            out_buffer[output_i + 1] = code[1];
            out_buffer[output_i + 2] = code[2];
            out_buffer[output_i + 3] = code[3];
            output_i += 4;
""", """            for k in 0..4 {
                out_buffer[output_i + k] = code[k];
            }
            output_i += 4;
""")))
R("byte-iter-u32", *all_of(U32, ("""            out_buffer[output_i] = code[0];
            out_buffer[output_i + 1] = code[1];
            out_buffer[output_i + 2] = code[2];
            out_buffer[output_i + 3] = code[3];
            output_i += 4;
""", """            for &b in code.iter() {
                out_buffer[output_i] = b;
                output_i += 1;
            }
""")))
R("byte-iter-sb", ("src/single_byte.rs", """            output[output_i..(output_i + s.len())].copy_from_slice(s.as_bytes());
            input_i += 1;
            output_i += s.len();
""", """            for &b in s.as_bytes() {
                output[output_i] = b;
                output_i += 1;
            }
            input_i += 1;
"""))
R("byte-range-sb", ("src/single_byte.rs", """            output[output_i..(output_i + s.len())].copy_from_slice(s.as_bytes());
""", """            let bytes = s.as_bytes();
            for k in 0..bytes.len() {
                output[output_i + k] = bytes[k];
            }
"""))
# more state
R("room-state-sb", ("src/single_byte.rs", "    for (offset, c) in input.char_indices() {\n        if output_i >= output.len() {\n            break;\n        }\n", "    let mut room = output.len();\n    for (offset, c) in input.char_indices() {\n        if room == 0 {\n            break;\n        }\n"), ("src/single_byte.rs", "            output_i += 1;\n            input_i = offset + 1;", "            output_i += 1;\n            room -= 1;\n            input_i = offset + 1;"))
R("cap-local-u16", *all_of(U16, ("    let mut output_i = 0;\n", "    let mut output_i = 0;\n    let capacity = out_buffer.len();\n"), ("(output_i + 1) < out_buffer.len()", "(output_i + 1) < capacity"), ("(output_i + 3) < out_buffer.len()", "(output_i + 3) < capacity"), ("(output_i + s.len()) > out_buffer.len()", "(output_i + s.len()) > capacity")))
R("cap-local-big5", ("src/big5_whatwg.rs", "    let mut output_i = 0;\n", "    let mut output_i = 0;\n    let out_len = out_buffer.len();\n"), ("src/big5_whatwg.rs", "output_i >= out_buffer.len()", "output_i >= out_len"), ("src/big5_whatwg.rs", "> out_buffer.len()", "> out_len"), ("src/big5_whatwg.rs", "< out_buffer.len()", "< out_len"))
R("tuple-state-u32", *all_of(U32, ("    let mut input_i = 0;\n    let mut output_i = 0;\n", "    let (mut input_i, mut output_i) = (0, 0);\n")))
R("typed-state-big5", ("src/big5_whatwg.rs", "    let mut input_i = 0;\n    let mut output_i = 0;\n", "    let mut output_i: usize = 0;\n    let mut input_i: usize = 0;\n"))
# range loops
R("range-loop-sb", ("src/single_byte.rs", "    for &byte in input.iter() {", "    for i in 0..input.len() {\n        let byte = input[i];"))
R("index-enc-sb", ("src/single_byte.rs", "    for (offset, c) in input.char_indices() {\n", "    while let Some(c) = input[input_i..].chars().next() {\n        let offset = input_i;\n"), ("src/single_byte.rs", "input_i = offset + 1;", "input_i += c.len_utf8();"), ("src/single_byte.rs", TAIL, ""))
R("index-enc-u32", *all_of(U32, ("    for (offset, c) in input.char_indices() {\n", "    while input_i < input.len() {\n        let c = input[input_i..].chars().next().unwrap();\n"), ("input_i = offset + 1;", "input_i += c.len_utf8();"), (TAIL, "")))
R("chars-enc-u16", *all_of(U16, ("    for (offset, c) in input.char_indices() {\n", "    for c in input.chars() {\n"), ("input_i = offset + 1;", "input_i += c.len_utf8();"), (TAIL, "")))
R("split-first-sb", ("src/single_byte.rs", "    for &byte in input.iter() {\n", "    let mut rest = input;\n    while let Some((&byte, tail)) = rest.split_first() {\n        rest = tail;\n"))
R("rest-u32", *all_of(U32, ("    for bytes in input.chunks(4) {\n", "    let mut rest = input;\n    while !rest.is_empty() {\n        let bytes = rest;\n"), ("            input_i += 4;\n", "            input_i += 4;\n            rest = &rest[4..];\n")))
# early returns
R("early-return-sb", ("src/single_byte.rs", "            if output_i >= output.len() {\n                break;\n            }\n            output[output_i] = byte;", "            if output_i >= output.len() {\n                return Ok((\n                    unsafe { core::str::from_utf8_unchecked(&output[..output_i]) },\n                    input_i,\n                ));\n            }\n            output[output_i] = byte;"))
R("exact-if-u32", *all_of(U32, ("        if bytes.len() < 4 {\n            if !is_end {\n                break;\n            } else {", "        if bytes.len() < 4 && !is_end {\n            break;\n        }\n        if bytes.len() < 4 {\n            {")))
# ? and Option helpers
R("unit-helper-u16le", ("src/utf16_le.rs", "            let code_1 = u16::from_le_bytes([bytes[0], bytes[1]]);", "            let code_1 = read_unit(bytes);"), ("src/utf16_le.rs", "u16::from_le_bytes([bytes_2[0], bytes_2[1]])", "read_unit(bytes_2)"), ("src/utf16_le.rs", "pub fn decode_to_str", "#[inline(always)]\nfn read_unit(b: &[u8]) -> u16 {\n    u16::from_le_bytes([b[0], b[1]])\n}\n\npub fn decode_to_str"))
R("combine-helper-u16", *all_of(U16, ("""                unsafe {
                    core::char::from_u32_unchecked(
                        (((code_1 as u32 - 0xD800) << 10) | (code_2 as u32 - 0xDC00)) + 0x10000,
                    )
                }
""", "                combine(code_1, code_2)\n"), ("pub fn decode_to_str", """fn combine(hi: u16, lo: u16) -> char {
    let hi = hi as u32 - 0xD800;
    let lo = lo as u32 - 0xDC00;
    unsafe { core::char::from_u32_unchecked(0x10000 + ((hi << 10) | lo)) }
}

pub fn decode_to_str""")))
R("split-helper-u16", *all_of(U16, ("            let first = (0xD800 | ((code >> 10) as u16)).to_", "            let (hi, lo) = surrogates(code);\n            let first = hi.to_"), ("(0xDC00 | ((code as u16) & 0x3FF)).to_", "lo.to_"), ("            code -= 0x10000;\n", ""), ("let mut code = c as u32;", "let code = c as u32;"), (SIG, """fn surrogates(code: u32) -> (u16, u16) {
    let v = code - 0x10000;
    (0xD800 | ((v >> 10) as u16), 0xDC00 | ((v as u16) & 0x3FF))
}

""" + SIG)))
R("lookup-opt-big5", ("src/big5_whatwg.rs", """        } else if let Ok(ptr_i) = ENCODE_TABLE.binary_search_by_key(&c, |x| x.0) {
""", """        } else if let Some(big5_bytes) = table_lookup(c) {
"""), ("src/big5_whatwg.rs", "                let big5_bytes = ENCODE_TABLE[ptr_i].1;\n", ""), ("src/big5_whatwg.rs", "fn map_grapheme", """fn table_lookup(c: char) -> Option<[u8; 2]> {
    ENCODE_TABLE.binary_search_by_key(&c, |x| x.0).ok().map(|i| ENCODE_TABLE[i].1)
}

fn map_grapheme"""))
R("question-big5", ("src/big5_whatwg.rs", """        } else if let Ok(ptr_i) = ENCODE_TABLE.binary_search_by_key(&c, |x| x.0) {
""", """        } else if let Some(big5_bytes) = table_lookup(c) {
"""), ("src/big5_whatwg.rs", "                let big5_bytes = ENCODE_TABLE[ptr_i].1;\n", ""), ("src/big5_whatwg.rs", "fn map_grapheme", """fn table_lookup(c: char) -> Option<[u8; 2]> {
    let i = ENCODE_TABLE.binary_search_by_key(&c, |x| x.0).ok()?;
    Some(ENCODE_TABLE[i].1)
}

fn map_grapheme"""))
R("enc-char-sjis", ("src/shiftjis_whatwg.rs", """            let jis_bytes = if code >= 0xE000""", """            let jis_bytes = if let Some(b) = eudc(code) {
                b
            } else if code >= 0xE000"""), ("src/shiftjis_whatwg.rs", SIG, """fn eudc(code: u32) -> Option<[u8; 2]> {
    if code < 0xE000 || code > 0xE757 {
        return None;
    }
    let ptr = code - 0xE000 + 8836;
    let lead = ptr / 188;
    let trail = ptr % 188;
    let lead = if lead < 0x1F { lead + 0x81 } else { lead + 0xC1 };
    let trail = if trail < 0x3F { trail + 0x40 } else { trail + 0x41 };
    Some([lead as u8, trail as u8])
}

""" + SIG))
R("encode-char-sjis", ("src/shiftjis_whatwg.rs", """                if code == 0x2212 {
                    // Special case 4
                    code = 0xFF0D;
                }
                let code = core::char::from_u32(code).unwrap();
                if let Ok(ptr_i) = ENCODE_TABLE.binary_search_by_key(&code, |x| x.0) {
                    ENCODE_TABLE[ptr_i].1
                } else {
                    return Err(EncodeError {
                        character: c,
                        error_range: (offset, offset + c.len_utf8()),
                        output_bytes_written: output_i,
                    });
                }
""", """                // Special case 4
                let key = match c {
                    '\\u{2212}' => '\\u{FF0D}',
                    other => other,
                };
                match ENCODE_TABLE.binary_search_by_key(&key, |x| x.0) {
                    Ok(ptr_i) => ENCODE_TABLE[ptr_i].1,
                    Err(_) => {
                        return Err(EncodeError {
                            character: c,
                            error_range: (offset, offset + c.len_utf8()),
                            output_bytes_written: output_i,
                        })
                    }
                }
"""), ("src/shiftjis_whatwg.rs", "let mut code = c as u32;", "let code = c as u32;"))
R("decode-helper-sjis", ("src/shiftjis_whatwg.rs", """                let jis_ptr = {
                    let lead_offset = if byte_1 < 0xA0 { 0x81 } else { 0xC1 };
                    let trail_offset = if byte_2 < 0x7F { 0x40 } else { 0x41 };
                    (byte_1 as u32 - lead_offset) * 188 + byte_2 as u32 - trail_offset
                };

                if jis_ptr >= 8836 && jis_ptr <= 10715 {
                    // Special case 5
                    (
                        core::char::from_u32(jis_ptr + 0xE000 - 8836)
                            .unwrap()
                            .encode_utf8(&mut buf),
                        2,
                    )
                } else if jis_ptr as usize >= DECODE_TABLE.len()
                    || DECODE_TABLE[jis_ptr as usize] == '�'
                {
""", """                if let Some(c) = decode_pair(byte_1, byte_2) {
                    (c.encode_utf8(&mut buf), 2)
                } else {
"""), ("src/shiftjis_whatwg.rs", """                } else {
                    // Encode codepoint to utf8.
                    (DECODE_TABLE[jis_ptr as usize].encode_utf8(&mut buf), 2)
                }
""", """                }
"""), ("src/shiftjis_whatwg.rs", "/// Note: is potentially lossy.\n", """fn decode_pair(lead: u8, trail: u8) -> Option<char> {
    let lead_offset = if lead < 0xA0 { 0x81 } else { 0xC1 };
    let trail_offset = if trail < 0x7F { 0x40 } else { 0x41 };
    let ptr = (lead as u32 - lead_offset) * 188 + trail as u32 - trail_offset;
    if ptr >= 8836 && ptr <= 10715 {
        return core::char::from_u32(ptr - 8836 + 0xE000);
    }
    match DECODE_TABLE.get(ptr as usize) {
        Some(&c) if c != '�' => Some(c),
        _ => None,
    }
}

/// Note: is potentially lossy.
"""))
R("string-helper-big5", ("src/big5_whatwg.rs", """                match big5_ptr {
                    // Special handling for codes that map to graphemes.
                    1133 => "\\u{00CA}\\u{0304}",
                    1135 => "\\u{00CA}\\u{030C}",
                    1164 => "\\u{00EA}\\u{0304}",
                    1166 => "\\u{00EA}\\u{030C}",
                    _ => {
""", """                match grapheme_str(big5_ptr) {
                    Some(s) => s,
                    None => {
"""), ("src/big5_whatwg.rs", "/// Note: is potentially lossy.\n", """/// Codes that map to graphemes.
fn grapheme_str(ptr: usize) -> Option<&'static str> {
    Some(match ptr {
        1133 => "\\u{00CA}\\u{0304}",
        1135 => "\\u{00CA}\\u{030C}",
        1164 => "\\u{00EA}\\u{0304}",
        1166 => "\\u{00EA}\\u{030C}",
        _ => return None,
    })
}

/// Note: is potentially lossy.
"""))
R("error-closure-big5", ("src/big5_whatwg.rs", "    let mut buf = [0u8; 4]; // For encoding utf8 codepoints.\n", "    let mut buf = [0u8; 4]; // For encoding utf8 codepoints.\n    let error = |start: usize, len: usize, written: usize| DecodeError {\n        cause: DecodeErrorCause::InvalidData,\n        error_range: (start, start + len),\n        output_bytes_written: written,\n    };\n"), ("src/big5_whatwg.rs", """return Err(DecodeError {
                cause: DecodeErrorCause::InvalidData,
                error_range: (input_i, input_i + 1),
                output_bytes_written: output_i,
            });""", "return Err(error(input_i, 1, output_i));"))
R("err-len-big5", ("src/big5_whatwg.rs", "error_range: (input_i, input_i + if byte_2 <= 127 { 1 } else { 2 }),", "error_range: (input_i, input_i + bad_len(byte_2)),"), ("src/big5_whatwg.rs", "/// Note: is potentially lossy.\n", "fn bad_len(trail: u8) -> usize {\n    if trail < 0x80 {\n        1\n    } else {\n        2\n    }\n}\n\n/// Note: is potentially lossy.\n"))
# shared bodies
R("shared-dec-u32", *all_of(["src/utf32_be.rs"], ("pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {\n", "pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {\n    decode_with(input, out_buffer, is_end, u32::from_be_bytes)\n}\n\nfn decode_with<'a>(\n    input: &[u8],\n    out_buffer: &'a mut [u8],\n    is_end: bool,\n    read: fn([u8; 4]) -> u32,\n) -> DecodeResult<'a> {\n"), ("core::char::from_u32(u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))", "core::char::from_u32(read([bytes[0], bytes[1], bytes[2], bytes[3]]))")))
R("shared-enc-u32", *all_of(["src/utf32_le.rs"], (SIG, SIG + "\n    encode_impl(input, out_buffer, false)\n}\n\nfn encode_impl<'a>(input: &str, out_buffer: &'a mut [u8], big_endian: bool) -> EncodeResult<'a> {"), ("let code = (c as u32).to_le_bytes();", "let code = if big_endian {\n                (c as u32).to_be_bytes()\n            } else {\n                (c as u32).to_le_bytes()\n            };")))
R("finish-helper-sb", ("src/single_byte.rs", """    Ok((
        unsafe { core::str::from_utf8_unchecked(&output[..output_i]) },
        input_i,
    ))
""", "    finish(output, output_i, input_i)\n"), ("src/single_byte.rs", "#[inline]\nfn ascii_ext_decode_to_str", "fn finish<'a>(output: &'a [u8], written: usize, consumed: usize) -> DecodeResult<'a> {\n    Ok((\n        unsafe { core::str::from_utf8_unchecked(&output[..written]) },\n        consumed,\n    ))\n}\n\n#[inline]\nfn ascii_ext_decode_to_str"))
R("let-text-u16", *all_of(U16, ("""    Ok((
        unsafe { core::str::from_utf8_unchecked(&out_buffer[..output_i]) },
        input_i,
    ))
""", """    let written = &out_buffer[..output_i];
    let text = unsafe { core::str::from_utf8_unchecked(written) };
    Ok((text, input_i))
""")))
# writes
R("get-mut-sb", ("src/single_byte.rs", """            if (output_i + s.len()) > output.len() {
                break;
            }
            output[output_i..(output_i + s.len())].copy_from_slice(s.as_bytes());
""", """            match output.get_mut(output_i..(output_i + s.len())) {
                Some(slot) => slot.copy_from_slice(s.as_bytes()),
                None => break,
            }
"""))
R("split-at-mut-big5", ("src/big5_whatwg.rs", "            out_buffer[output_i..(output_i + string.len())].copy_from_slice(string.as_bytes());\n", "            let end = output_i + string.len();\n            let dest = &mut out_buffer[output_i..end];\n            dest.copy_from_slice(string.as_bytes());\n"))
R("encode-into-sjis", ("src/shiftjis_whatwg.rs", "            out_buffer[output_i..(output_i + string.len())].copy_from_slice(string.as_bytes());\n", "            let bytes = string.as_bytes();\n            out_buffer[output_i..][..bytes.len()].copy_from_slice(bytes);\n"))
R("peekable-big5", ("src/big5_whatwg.rs", "    let mut itr = input.char_indices();\n", "    let mut itr = input.char_indices().peekable();\n"), ("src/big5_whatwg.rs", "if let Some((offset2, c2)) = itr.clone().next() {", "if let Some(&(offset2, c2)) = itr.peek() {"))
# control flow
R("labeled-u16", *all_of(U16, ("    while let Some(bytes) = itr.next() {\n", "    'units: while let Some(bytes) = itr.next() {\n"), ("        if (output_i + s.len()) > out_buffer.len() {\n            break;", "        if (output_i + s.len()) > out_buffer.len() {\n            break 'units;")))
R("let-else-u32", *all_of(["src/utf32_be.rs"], ("""        if let Some(code) =
            core::char::from_u32(u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))
        {
""", """        let Some(code) =
            core::char::from_u32(u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))
        else {
            return Err(DecodeError {
                cause: DecodeErrorCause::InvalidData,
                error_range: (input_i, input_i + 4),
                output_bytes_written: output_i,
            });
        };
        {
"""), ("""            output_i += s.len();
        } else {
            // Error: invalid codepoint.
            return Err(DecodeError {
                cause: DecodeErrorCause::InvalidData,
                error_range: (input_i, input_i + 4),
                output_bytes_written: output_i,
            });
        }
""", "            output_i += s.len();\n        }\n")))
R("match-code-u32", *all_of(["src/utf32_be.rs"], ("""        if let Some(code) =
            core::char::from_u32(u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))
        {
""", """        let value = u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
        let is_scalar = value < 0xD800 || (value > 0xDFFF && value <= 0x10FFFF);
        if is_scalar {
            let code = unsafe { core::char::from_u32_unchecked(value) };
""")))
R("match-len-u16", *all_of(U16, ("        let mut code = c as u32;\n        if code <= 0xFFFF {", "        let mut code = c as u32;\n        if c.len_utf16() == 1 {"), ("input_i += code.len_utf16() * 2;", "input_i += if (code as u32) < 0x10000 { 2 } else { 4 };")))
R("demorgan-utf8", ("src/utf8.rs", """            while i < input.len()
                && ((input[i] & 0b1100_0000) == 0b1000_0000
                    || (input[i] & 0b1111_1000) == 0b1111_1000)
            {
                i += 1;
            }
""", """            loop {
                if i >= input.len() {
                    break;
                }
                let b = input[i];
                if !((b >= 0x80 && b < 0xC0) || b >= 0xF8) {
                    break;
                }
                i += 1;
            }
"""))
R("extent-helper-utf8", ("src/utf8.rs", """            let mut i = valid_up_to + 1;
            while i < input.len()
                && ((input[i] & 0b1100_0000) == 0b1000_0000
                    || (input[i] & 0b1111_1000) == 0b1111_1000)
            {
                i += 1;
            }
""", "            let i = next_start(input, valid_up_to + 1);\n"), ("src/utf8.rs", "/// Calculates how many bytes", """fn next_start(input: &[u8], mut i: usize) -> usize {
    while i < input.len()
        && ((input[i] & 0b1100_0000) == 0b1000_0000 || (input[i] & 0b1111_1000) == 0b1111_1000)
    {
        i += 1;
    }
    i
}

/// Calculates how many bytes"""))
R("min-utf8", ("src/utf8.rs", """    if output_len >= input.len() {
        input.len()
    } else {
        let mut i = output_len;
        while i > 0 && (input[i] & 0b1100_0000) == 0b1000_0000 {
            i -= 1;
        }
        i
    }
""", """    let mut i = output_len.min(input.len());
    if i < input.len() {
        while i > 0 && (input[i] & 0b1100_0000) == 0b1000_0000 {
            i -= 1;
        }
    }
    i
"""))
R("boundary-utf8", ("src/utf8.rs", "    let cl = copy_len(input.as_bytes(), out_buffer.len());\n", "    let mut cl = input.len().min(out_buffer.len());\n    while !input.is_char_boundary(cl) {\n        cl -= 1;\n    }\n"))
R("stop-utf8", ("src/utf8.rs", "    // Determine if there's an error.\n    if bytes_copied < out_buffer.len() && bytes_copied == valid_up_to && valid_up_to < input.len() {", "    // Determine if there's an error.\n    let is_full = bytes_copied == out_buffer.len();\n    let is_cut = bytes_copied < valid_up_to;\n    if !is_full && !is_cut && valid_up_to < input.len() {"))
R("while-not-full-sb", ("src/single_byte.rs", """    for (offset, c) in input.char_indices() {
        if output_i >= output.len() {
            break;
        }
""", """    let mut chars = input.char_indices();
    while output_i < output.len() {
        let (offset, c) = match chars.next() {
            Some(x) => x,
            None => break,
        };
"""))
R("done-flag-sb", ("src/single_byte.rs", """    for &byte in input.iter() {
        if byte < 0x80 {
            // 1-byte case
            if output_i >= output.len() {
                break;
            }
""", """    for &byte in input.iter() {
        let is_full = output_i >= output.len();
        if byte < 0x80 {
            // 1-byte case
            if is_full {
                break;
            }
"""))
R("tail-for-sb", ("src/single_byte.rs", """        while !input.is_char_boundary(input_i) {
            input_i += 1;
        }
""", """        loop {
            if input.is_char_boundary(input_i) {
                break;
            }
            input_i += 1;
        }
"""))
R("last-char-u16", *all_of(U16, (TAIL, """    // Calculate how much of the input was consumed.
    while input_i < input.len() && !input.is_char_boundary(input_i) {
        input_i += 1;
    }
""")))
R("closure-emit-u16", *all_of(U16, ("pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResult<'a> {\n", "pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResult<'a> {\n    let high = |v: u32| 0xD800 | ((v >> 10) as u16);\n    let low = |v: u32| 0xDC00 | ((v as u16) & 0x3FF);\n"), ("(0xD800 | ((code >> 10) as u16))", "high(code)"), ("(0xDC00 | ((code as u16) & 0x3FF))", "low(code)")))
R("wrapping-u16", *all_of(U16, ("code -= 0x10000;", "code = code.wrapping_sub(0x10000);"), ("(((code_1 as u32 - 0xD800) << 10) | (code_2 as u32 - 0xDC00)) + 0x10000", "((code_1 as u32 & 0x3FF) << 10 | (code_2 as u32 & 0x3FF)) + 0x10000")))
R("chunks-exact-u32", *all_of(U32, ("        if bytes.len() < 4 {\n", "        let complete = bytes.len() == 4;\n        if !complete {\n")))
R("rem-u32", *all_of(U32, ("error_range: (input_i, input.len()),", "error_range: (input_i, input_i + bytes.len()),")))
R("sum-trail-big5", ("src/big5_whatwg.rs", "let lead = (byte_1 as usize - 0x81) * 157;", "let lead = 157 * (byte_1 - 0x81) as usize;"), ("src/big5_whatwg.rs", "byte_2 as usize - 0x62", "byte_2 as usize - 0xA1 + 0x3F"))
R("nested-match-big5", ("src/big5_whatwg.rs", """    match (a, b) {
        (0xCA, 0x304) => Some([0x88, 0x62]),
        (0xCA, 0x30C) => Some([0x88, 0x64]),
        (0xEA, 0x304) => Some([0x88, 0xA3]),
        (0xEA, 0x30C) => Some([0x88, 0xA5]),
        _ => None,
    }
""", """    let code = match a {
        0xCA => match b {
            0x304 => 0x8862u16,
            0x30C => 0x8864,
            _ => return None,
        },
        0xEA if b == 0x304 => 0x88A3,
        0xEA if b == 0x30C => 0x88A5,
        _ => return None,
    };
    Some(code.to_be_bytes())
"""))
R("grapheme-first-big5", ("src/big5_whatwg.rs", """                    if let Some((offset2, c2)) = itr.clone().next() {
                        let code2 = c2 as u32;
                        if let Some(bytes) = map_grapheme(code, code2) {
                            itr.next();
                            out_buffer[output_i] = bytes[0];
                            out_buffer[output_i + 1] = bytes[1];
                            output_i += 2;
                            input_i = offset2 + 1;
                            continue;
                        }
                    } else if !is_end {
                        break;
                    }
""", """                    let mut ahead = itr.clone();
                    match ahead.next() {
                        None => {
                            if !is_end {
                                break;
                            }
                        }
                        Some((offset2, c2)) => {
                            if let Some(bytes) = map_grapheme(code, c2 as u32) {
                                itr = ahead;
                                out_buffer[output_i] = bytes[0];
                                out_buffer[output_i + 1] = bytes[1];
                                output_i += 2;
                                input_i = offset2 + 1;
                                continue;
                            }
                        }
                    }
"""))
R("swap-checks-sjis", ("src/shiftjis_whatwg.rs", "if byte_2 < 0x40 || byte_2 == 0x7F || byte_2 > 0xFC {", "let in_low = byte_2 >= 0x40 && byte_2 <= 0x7E;\n                let in_high = byte_2 >= 0x80 && byte_2 <= 0xFC;\n                if !(in_low || in_high) {"))
R("u16-pairs-window", *all_of(U16, ("(input_i + 3) >= input.len()", "input.len() - input_i < 4"), ("let bytes_2 = itr.next().unwrap();", "let bytes_2 = &input[input_i + 2..input_i + 4];\n                itr.next();")))
R("u16-index", *all_of(U16, ("    let mut itr = input.chunks(2);\n    while let Some(bytes) = itr.next() {\n", "    while input_i < input.len() {\n        let bytes = &input[input_i..];\n"), ("let bytes_2 = itr.next().unwrap();", "let bytes_2 = &bytes[2..4];")))
# ---- batch 4: helpers in other modules, slice patterns, conversions, debug assertions
R("assoc-err-u16", *(all_of(U16, ("""return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });""", "return Err(DecodeError::invalid(input_i, input.len(), output_i));")) + [("src/lib.rs", "#[derive(Debug, Copy, Clone, PartialEq)]\npub enum DecodeErrorCause {", """impl DecodeError {
    fn invalid(start: usize, end: usize, output_bytes_written: usize) -> Self {
        DecodeError {
            cause: DecodeErrorCause::InvalidData,
            error_range: (start, end),
            output_bytes_written,
        }
    }
}

#[derive(Debug, Copy, Clone, PartialEq)]
pub enum DecodeErrorCause {""")]))
R("util-mod-u32", *(all_of(U32, (TAIL, "    let input_i = util::consumed_len(input, input_i);\n"), ("use {DecodeError,", "use util;\nuse {DecodeError,")) + [("src/lib.rs", "pub mod utf8;", "mod util {\n    pub(crate) " + HELP_TAIL.replace("\n", "\n    ").rstrip() + "\n}\npub mod utf8;")]))
R("macro-err-big5", ("src/big5_whatwg.rs", """                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input_i + if byte_2 <= 127 { 1 } else { 2 }),
                    output_bytes_written: output_i,
                });""", "                fail!(input_i, if byte_2 <= 127 { 1 } else { 2 }, output_i);"), ("src/big5_whatwg.rs", "/// Note: is potentially lossy.\n", """macro_rules! fail {
    ($at:expr, $len:expr, $written:expr) => {
        return Err(DecodeError {
            cause: DecodeErrorCause::InvalidData,
            error_range: ($at, $at + $len),
            output_bytes_written: $written,
        })
    };
}

/// Note: is potentially lossy.
"""))
R("chunks-exact2-u32", ("src/utf32_le.rs", """    for bytes in input.chunks(4) {
        if bytes.len() < 4 {
            if !is_end {
                break;
            } else {
                // Error: incomplete data at end-of-input.
                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });
            }
        }

""", "    let mut full = false;\n    for bytes in input.chunks_exact(4) {\n"), ("src/utf32_le.rs", """            if (output_i + s.len()) > out_buffer.len() {
                break;
            }
""", """            if (output_i + s.len()) > out_buffer.len() {
                full = true;
                break;
            }
"""), ("src/utf32_le.rs", """    Ok((
        unsafe {""", """    if !full && is_end && input_i < input.len() {
        return Err(DecodeError {
            cause: DecodeErrorCause::InvalidData,
            error_range: (input_i, input.len()),
            output_bytes_written: output_i,
        });
    }

    Ok((
        unsafe {"""))
R("position-utf8", ("src/utf8.rs", """            let mut i = valid_up_to + 1;
            while i < input.len()
                && ((input[i] & 0b1100_0000) == 0b1000_0000
                    || (input[i] & 0b1111_1000) == 0b1111_1000)
            {
                i += 1;
            }
""", """            let i = input[valid_up_to + 1..]
                .iter()
                .position(|&b| (b & 0b1100_0000) != 0b1000_0000 && (b & 0b1111_1000) != 0b1111_1000)
                .map_or(input.len(), |n| valid_up_to + 1 + n);
"""))
R("takewhile-utf8", ("src/utf8.rs", """            let mut i = valid_up_to + 1;
            while i < input.len()
                && ((input[i] & 0b1100_0000) == 0b1000_0000
                    || (input[i] & 0b1111_1000) == 0b1111_1000)
            {
                i += 1;
            }
""", """            let i = valid_up_to
                + 1
                + input[valid_up_to + 1..]
                    .iter()
                    .take_while(|&&b| (b & 0b1100_0000) == 0b1000_0000 || b >= 0b1111_1000)
                    .count();
"""))
R("scan-for-utf8", ("src/utf8.rs", """            let mut i = valid_up_to + 1;
            while i < input.len()
                && ((input[i] & 0b1100_0000) == 0b1000_0000
                    || (input[i] & 0b1111_1000) == 0b1111_1000)
            {
                i += 1;
            }
""", """            let mut i = valid_up_to + 1;
            for &b in &input[i..] {
                if (b & 0b1100_0000) != 0b1000_0000 && (b & 0b1111_1000) != 0b1111_1000 {
                    break;
                }
                i += 1;
            }
"""))
R("scan-helper-utf8", ("src/utf8.rs", """            while i < input.len()
                && ((input[i] & 0b1100_0000) == 0b1000_0000
                    || (input[i] & 0b1111_1000) == 0b1111_1000)
            {
                i += 1;
            }
""", """            while i < input.len() && !may_start(input[i]) {
                i += 1;
            }
"""), ("src/utf8.rs", "/// Calculates how many bytes", "fn may_start(byte: u8) -> bool {\n    let continuation = (byte & 0b1100_0000) == 0b1000_0000;\n    let invalid = (byte & 0b1111_1000) == 0b1111_1000;\n    !(continuation || invalid)\n}\n\n/// Calculates how many bytes"))
R("rev-find-utf8", ("src/utf8.rs", """        let mut i = output_len;
        while i > 0 && (input[i] & 0b1100_0000) == 0b1000_0000 {
            i -= 1;
        }
        i
""", """        (0..output_len + 1)
            .rev()
            .find(|&i| (input[i] & 0b1100_0000) != 0b1000_0000)
            .unwrap_or(0)
"""))
R("as-str-big5", ("src/big5_whatwg.rs", "            input_i = offset + 1;\n        } else if let Ok(ptr_i)", "            input_i = input.len() - itr.as_str().len();\n        } else if let Ok(ptr_i)"))
R("common-tail-sb", ("src/single_byte.rs", """        if c as u32 <= 127 {
            output[output_i] = c as u8;
            output_i += 1;
            input_i = offset + 1;
        } else if let Ok(i) = table.binary_search_by_key(&c, |x| x.0) {
            output[output_i] = table[i].1;
            output_i += 1;
            input_i = offset + 1;
        } else {
            return Err(EncodeError {
                character: c,
                error_range: (offset, offset + c.len_utf8()),
                output_bytes_written: output_i,
            });
        }
""", """        output[output_i] = if c as u32 <= 127 {
            c as u8
        } else {
            match table.binary_search_by_key(&c, |x| x.0) {
                Ok(i) => table[i].1,
                Err(_) => {
                    return Err(EncodeError {
                        character: c,
                        error_range: (offset, offset + c.len_utf8()),
                        output_bytes_written: output_i,
                    })
                }
            }
        };
        output_i += 1;
        input_i = offset + 1;
"""))
R("grapheme-chars-big5", ("src/big5_whatwg.rs", "fn map_grapheme(a: u32, b: u32) -> Option<[u8; 2]> {\n    match (a, b) {\n        (0xCA, 0x304) => Some([0x88, 0x62]),\n        (0xCA, 0x30C) => Some([0x88, 0x64]),\n        (0xEA, 0x304) => Some([0x88, 0xA3]),\n        (0xEA, 0x30C) => Some([0x88, 0xA5]),", "fn map_grapheme(a: char, b: char) -> Option<[u8; 2]> {\n    match (a, b) {\n        ('\\u{CA}', '\\u{304}') => Some([0x88, 0x62]),\n        ('\\u{CA}', '\\u{30C}') => Some([0x88, 0x64]),\n        ('\\u{EA}', '\\u{304}') => Some([0x88, 0xA3]),\n        ('\\u{EA}', '\\u{30C}') => Some([0x88, 0xA5]),"), ("src/big5_whatwg.rs", "                        let code2 = c2 as u32;\n                        if let Some(bytes) = map_grapheme(code, code2) {", "                        if let Some(bytes) = map_grapheme(c, c2) {"))
R("fnptr-u16", ("src/utf16_le.rs", SIG, SIG + "\n    encode_with(input, out_buffer, u16::to_le_bytes)\n}\n\nfn encode_with<'a>(input: &str, out_buffer: &'a mut [u8], to_bytes: fn(u16) -> [u8; 2]) -> EncodeResult<'a> {"), ("src/utf16_le.rs", "(code as u16).to_le_bytes()", "to_bytes(code as u16)"), ("src/utf16_le.rs", "(0xD800 | ((code >> 10) as u16)).to_le_bytes()", "to_bytes(0xD800 | ((code >> 10) as u16))"), ("src/utf16_le.rs", "(0xDC00 | ((code as u16) & 0x3FF)).to_le_bytes()", "to_bytes(0xDC00 | ((code as u16) & 0x3FF))"))
R("encode-utf16", *[e for f, le in (("src/utf16_le.rs", "le"), ("src/utf16_be.rs", "be")) for e in [(f, """            // Two code units
            code -= 0x10000;
            let first = (0xD800 | ((code >> 10) as u16)).to_%s_bytes();
            let second = (0xDC00 | ((code as u16) & 0x3FF)).to_%s_bytes();
""" % (le, le), """            // Two code units
            let mut units = [0u16; 2];
            c.encode_utf16(&mut units);
            let first = units[0].to_%s_bytes();
            let second = units[1].to_%s_bytes();
""" % (le, le)), (f, "let mut code = c as u32;", "let code = c as u32;")]])
R("use-invalid-u32", *all_of(U32, ("cause: DecodeErrorCause::InvalidData,", "cause: InvalidData,"), ("use {DecodeError,", "use DecodeErrorCause::InvalidData;\nuse {DecodeError,"), ("DecodeError, DecodeErrorCause, DecodeResult", "DecodeError, DecodeResult")))
R("slice-pattern-u32", *[e for f, le in (("src/utf32_le.rs", "le"), ("src/utf32_be.rs", "be")) for e in [(f, "core::char::from_u32(u32::from_%s_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))" % le, "core::char::from_u32(u32::from_%s_bytes(quad))" % le), (f, """        if bytes.len() < 4 {
            if !is_end {
                break;
            } else {
                // Error: incomplete data at end-of-input.
                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });
            }
        }
""", """        let quad = match *bytes {
            [a, b, c, d] => [a, b, c, d],
            _ if !is_end => break,
            _ => {
                // Error: incomplete data at end-of-input.
                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });
            }
        };
""")]])
R("conversions-sjis", ("src/shiftjis_whatwg.rs", "(byte_1 as u32 - lead_offset) * 188 + byte_2 as u32 - trail_offset", "(u32::from(byte_1) - lead_offset) * 188 + u32::from(byte_2) - trail_offset"), ("src/shiftjis_whatwg.rs", "let mut code = c as u32;", "let mut code = u32::from(c);"))
R("conversions-sb", ("src/single_byte.rs", "table[byte as usize - 0x80]", "table[usize::from(byte) - 0x80]"), ("src/single_byte.rs", "if c as u32 <= 127 {", "if u32::from(c) <= 127 {"))
R("debug-assert-all", ("src/single_byte.rs", "        if output_i >= output.len() {\n            break;\n        }\n        if c as u32", "        debug_assert!(output_i <= output.len());\n        debug_assert!(input_i <= input.len(), \"past the end: {}\", input_i);\n        if output_i >= output.len() {\n            break;\n        }\n        if c as u32"), ("src/big5_whatwg.rs", "            let big5_ptr = {", "            debug_assert_ne!(byte_1, 0xFF);\n            let big5_ptr = {"), ("src/utf32_le.rs", "            input_i += 4;\n", "            input_i += 4;\n            debug_assert_eq!(input_i % 4, 0);\n"))
R("writer-struct-u32", ("src/utf32_be.rs", """            let code = (c as u32).to_be_bytes();
            out_buffer[output_i] = code[0];
            out_buffer[output_i + 1] = code[1];
            out_buffer[output_i + 2] = code[2];
            out_buffer[output_i + 3] = code[3];
            output_i += 4;
""", """            output_i = write4(out_buffer, output_i, (c as u32).to_be_bytes());
"""), ("src/utf32_be.rs", SIG, """fn write4(buffer: &mut [u8], at: usize, bytes: [u8; 4]) -> usize {
    buffer[at] = bytes[0];
    buffer[at + 1] = bytes[1];
    buffer[at + 2] = bytes[2];
    buffer[at + 3] = bytes[3];
    at + 4
}

""" + SIG))
R("zip-write-u32", ("src/utf32_be.rs", """            out_buffer[output_i] = code[0];
            out_buffer[output_i + 1] = code[1];
            out_buffer[output_i + 2] = code[2];
            out_buffer[output_i + 3] = code[3];
""", """            for (slot, byte) in out_buffer[output_i..].iter_mut().zip(code.iter()) {
                *slot = *byte;
            }
"""))
R("for-range-write-u32", ("src/utf32_be.rs", """            out_buffer[output_i] = code[0];
            out_buffer[output_i + 1] = code[1];
            out_buffer[output_i + 2] = code[2];
            out_buffer[output_i + 3] = code[3];
""", """            for k in 0..4 {
                out_buffer[output_i + k] = code[k];
            }
"""))
R("slice-tail-u16", *all_of(U16, ("            out_buffer[output_i] = first[0];\n            out_buffer[output_i + 1] = first[1];\n            out_buffer[output_i + 2] = second[0];\n            out_buffer[output_i + 3] = second[1];\n", "            out_buffer[output_i..output_i + 2].copy_from_slice(&first);\n            out_buffer[output_i + 2..output_i + 4].copy_from_slice(&second);\n")))
R("step-by-u32", ("src/utf32_le.rs", "    for bytes in input.chunks(4) {\n", "    for start in (0..input.len()).step_by(4) {\n        let bytes = &input[start..core::cmp::min(start + 4, input.len())];\n"))
R("is-some-and-u16", *all_of(U16, ("            if code_1 < 0xD800 || code_1 > 0xDFFF {", "            let is_surrogate = matches!(code_1, 0xD800..=0xDFFF);\n            if !is_surrogate {")))
R("char-from-sb", ("src/single_byte.rs", """            // Use lookup table.
            let code = table[byte as usize - 0x80];
            if code == '�' {""", """            // Use lookup table.
            let code = match table[(byte & 0x7F) as usize] {
                '�' => None,
                code => Some(code),
            };
            if code.is_none() {"""), ("src/single_byte.rs", "let s = code.encode_utf8(&mut buf);", "let s = code.unwrap().encode_utf8(&mut buf);"))
R("tuple-swap-utf8", ("src/utf8.rs", """    let (valid_up_to, is_truncated) = match core::str::from_utf8(input) {
        Ok(text) => (text.len(), false),
        Err(e) => (e.valid_up_to(), e.error_len().is_none()),
    };
""", """    let checked = core::str::from_utf8(input);
    let valid_up_to = match checked {
        Ok(_) => input.len(),
        Err(ref e) => e.valid_up_to(),
    };
    let is_truncated = match checked {
        Ok(_) => false,
        Err(e) => e.error_len() == None,
    };
"""))
# ---- batch 5
R("eudc-helper-sjis", ("src/shiftjis_whatwg.rs", """                // Private use range.
""", """                // Private use range.
"""), ("src/shiftjis_whatwg.rs", "let jis_ptr = code - 0xE000 + 8836;", "let jis_ptr = eudc_pointer(code);"), ("src/shiftjis_whatwg.rs", SIG, "const EUDC_FIRST: u32 = 0xE000;\nconst EUDC_POINTER: u32 = 8836;\n\nfn eudc_pointer(code: u32) -> u32 {\n    EUDC_POINTER + (code - EUDC_FIRST)\n}\n\n" + SIG))
EDITS[-1]["edits"].pop(0)
R("pointer-helper-sjis", ("src/shiftjis_whatwg.rs", """                let jis_ptr = {
                    let lead_offset = if byte_1 < 0xA0 { 0x81 } else { 0xC1 };
                    let trail_offset = if byte_2 < 0x7F { 0x40 } else { 0x41 };
                    (byte_1 as u32 - lead_offset) * 188 + byte_2 as u32 - trail_offset
                };
""", "                let jis_ptr = pointer(byte_1, byte_2) as u32;\n"), ("src/shiftjis_whatwg.rs", "if byte_2 < 0x40 || byte_2 == 0x7F || byte_2 > 0xFC {", "if !is_trail(byte_2) {"), ("src/shiftjis_whatwg.rs", SIG, """fn is_trail(byte: u8) -> bool {
    match byte {
        0x40..=0x7E | 0x80..=0xFC => true,
        _ => false,
    }
}

fn pointer(lead: u8, trail: u8) -> usize {
    let row = if lead < 0xA0 {
        lead - 0x81
    } else {
        lead - 0xC1
    };
    let cell = if trail < 0x7F {
        trail - 0x40
    } else {
        trail - 0x41
    };
    row as usize * 188 + cell as usize
}

""" + SIG))
R("u80-encode-sjis", ("src/shiftjis_whatwg.rs", """        } else if byte_1 == 128 {
            // Edge-case, close to ascii.
            if output_i + 1 >= out_buffer.len() {
                break;
            } else {
                out_buffer[output_i] = 0xC2;
                out_buffer[output_i + 1] = 0x80;
                output_i += 2;
                input_i += 1;
            }
        } else {
            // Get our decoded data, either from the table or by special handling.
            let (string, input_consumed) = if byte_1 >= 0xA1 && byte_1 <= 0xDF {
""", """        } else {
            let (string, input_consumed) = if byte_1 == 128 {
                ('\\u{80}'.encode_utf8(&mut buf), 1)
            } else if byte_1 >= 0xA1 && byte_1 <= 0xDF {
"""))
R("second-unit-u16", ("src/utf16_le.rs", """                if (input_i + 3) >= input.len() {
                    if !is_end {
                        break;
                    } else {
                        // Error: incomplete data at end-of-input.
                        return Err(DecodeError {
                            cause: DecodeErrorCause::InvalidData,
                            error_range: (input_i, input.len()),
                            output_bytes_written: output_i,
                        });
                    }
                }
                let bytes_2 = itr.next().unwrap();
""", """                let bytes_2 = match itr.next() {
                    Some(b) if b.len() == 2 => b,
                    _ => {
                        if !is_end {
                            break;
                        }
                        // Error: incomplete data at end-of-input.
                        return Err(DecodeError {
                            cause: DecodeErrorCause::InvalidData,
                            error_range: (input_i, input.len()),
                            output_bytes_written: output_i,
                        });
                    }
                };
"""))
R("empty-return-all", ("src/utf16_be.rs", "    // Loop through the input, getting 2 bytes at a time.\n", "    if input.is_empty() {\n        return Ok((\"\", 0));\n    }\n\n    // Loop through the input, getting 2 bytes at a time.\n"), ("src/big5_whatwg.rs", "    let mut itr = input.char_indices();\n", "    if input.is_empty() {\n        return Ok((&out_buffer[..0], 0));\n    }\n    let mut itr = input.char_indices();\n"), ("src/utf8.rs", "    let cl = copy_len(", "    if out_buffer.is_empty() || input.is_empty() {\n        return Ok((&[], 0));\n    }\n    let cl = copy_len("))
R("ascii-fast-sb", ("src/single_byte.rs", """    let mut input_i = 0;
    let mut output_i = 0;
    for &byte in input.iter() {
""", """    let mut input_i = 0;
    let mut output_i = 0;
    while input_i < input.len() && output_i < output.len() && input[input_i] < 0x80 {
        output[output_i] = input[input_i];
        input_i += 1;
        output_i += 1;
    }
    for &byte in input[input_i..].iter() {
"""))
R("ascii-fast-u32", ("src/utf32_le.rs", """        // Do the decode.
        if let Some(code) =""", """        // ASCII, the common case.
        if bytes[0] < 0x80 && bytes[1] == 0 && bytes[2] == 0 && bytes[3] == 0 {
            if output_i >= out_buffer.len() {
                break;
            }
            out_buffer[output_i] = bytes[0];
            input_i += 4;
            output_i += 1;
            continue;
        }

        // Do the decode.
        if let Some(code) ="""))
R("ascii-fast-u16", ("src/utf16_be.rs", """        // Decode to scalar value.
        let code = {""", """        if bytes[0] == 0 && bytes[1] < 0x80 {
            if output_i < out_buffer.len() {
                out_buffer[output_i] = bytes[1];
                input_i += 2;
                output_i += 1;
                continue;
            }
            break;
        }

        // Decode to scalar value.
        let code = {"""))
R("sub-out-sjis", ("src/shiftjis_whatwg.rs", """            out_buffer[output_i] = jis_bytes[0];
            out_buffer[output_i + 1] = jis_bytes[1];
""", """            let out = &mut out_buffer[output_i..];
            out[0] = jis_bytes[0];
            out[1] = jis_bytes[1];
"""))
R("repl-const-all", ("src/single_byte.rs", "if code == '�' {", "if code == UNDEFINED {"), ("src/single_byte.rs", "pub mod ascii {", "/// Marks the bytes a code page leaves undefined.\nconst UNDEFINED: char = core::char::REPLACEMENT_CHARACTER;\n\npub mod ascii {"), ("src/big5_whatwg.rs", "DECODE_TABLE[big5_ptr] == '�'", "DECODE_TABLE[big5_ptr] == core::char::REPLACEMENT_CHARACTER"))
R("use-core-u32", *all_of(U32, ("core::char::from_u32", "char::from_u32"), ("core::str::from_utf8_unchecked", "str::from_utf8_unchecked"), ("use core;\n", "use core::{char, str};\n")))
R("use-core-utf8", ("src/utf8.rs", "core::str::from_utf8(input)", "from_utf8(input)"), ("src/utf8.rs", "core::str::from_utf8_unchecked", "from_utf8_unchecked"), ("src/utf8.rs", "use core;\n", "use core::str::{from_utf8, from_utf8_unchecked};\n"))
R("for-tail-u16", *all_of(U16, (TAIL, """    // Calculate how much of the input was consumed.
    for i in input_i..input.len() + 1 {
        if input.is_char_boundary(i) {
            input_i = i;
            break;
        }
    }
""")))
R("nested-if-utf8", ("src/utf8.rs", """        // First we check if we're truncated.  If not, then it's an error.
        if !is_truncated {""", """        // First we check if we're truncated.  If not, then it's an error.
        if is_truncated && !is_end {
            // Fall through: more input may complete the character.
        } else if !is_truncated {"""), ("src/utf8.rs", "} else if is_end {\n            // If", "} else {\n            // If"))
R("end-var-utf8", ("src/utf8.rs", """            // Return the error.
            return Err(DecodeError {
                cause: DecodeErrorCause::InvalidData,
                error_range: (valid_up_to, i),
                output_bytes_written: bytes_copied,
            });
        } else if is_end {
            // If we're truncated _and_ at end-of-input, that's also an error.
            return Err(DecodeError {
                cause: DecodeErrorCause::InvalidData,
                error_range: (valid_up_to, input.len()),
                output_bytes_written: bytes_copied,
            });
        }
""", """            error_end = Some(i);
        } else if is_end {
            // If we're truncated _and_ at end-of-input, that's also an error.
            error_end = Some(input.len());
        }
    }
    if let Some(end) = error_end {
        return Err(DecodeError {
            cause: DecodeErrorCause::InvalidData,
            error_range: (valid_up_to, end),
            output_bytes_written: bytes_copied,
        });
"""), ("src/utf8.rs", "    // Determine if there's an error.\n", "    // Determine if there's an error.\n    let mut error_end = None;\n"))
R("lookup-fn-sb", ("src/single_byte.rs", """        if c as u32 <= 127 {
            output[output_i] = c as u8;
            output_i += 1;
            input_i = offset + 1;
        } else if let Ok(i) = table.binary_search_by_key(&c, |x| x.0) {
            output[output_i] = table[i].1;
            output_i += 1;
            input_i = offset + 1;
        } else {
            return Err(EncodeError {
                character: c,
                error_range: (offset, offset + c.len_utf8()),
                output_bytes_written: output_i,
            });
        }
""", """        match encode_char(table, c) {
            Some(byte) => {
                output[output_i] = byte;
                output_i += 1;
                input_i = offset + 1;
            }
            None => {
                return Err(EncodeError {
                    character: c,
                    error_range: (offset, offset + c.len_utf8()),
                    output_bytes_written: output_i,
                })
            }
        }
"""), ("src/single_byte.rs", "/// This is shared among the single byte decoders", "fn encode_char(table: &[(char, u8)], c: char) -> Option<u8> {\n    if c.is_ascii() {\n        return Some(c as u8);\n    }\n    table.binary_search_by(|x| x.0.cmp(&c)).ok().map(|i| table[i].1)\n}\n\n/// This is shared among the single byte decoders"))
R("match-units-u16", *all_of(U16, ("            if code_1 < 0xD800 || code_1 > 0xDFFF {", "            let kind = match code_1 {\n                0xD800..=0xDBFF => 1,\n                0xDC00..=0xDFFF => 2,\n                _ => 0,\n            };\n            if kind == 0 {"), ("} else if (code_1 & 0xFC00) == 0xDC00 {", "} else if kind == 2 {")))
R("bool-block-big5", ("src/big5_whatwg.rs", """            let string = if big5_ptr >= DECODE_TABLE.len() || DECODE_TABLE[big5_ptr] == '�' {
                match big5_ptr {""", """            let mapped = if big5_ptr < DECODE_TABLE.len() {
                DECODE_TABLE[big5_ptr]
            } else {
                '�'
            };
            let string = if mapped == '�' {
                match big5_ptr {"""), ("src/big5_whatwg.rs", "                DECODE_TABLE[big5_ptr].encode_utf8(&mut buf)\n", "                mapped.encode_utf8(&mut buf)\n"))

# ---- batch 6
R("guard-code-big5", ("src/big5_whatwg.rs", """                match big5_ptr {
                    // Special handling for codes that map to graphemes.
                    1133 => "\\u{00CA}\\u{0304}",
                    1135 => "\\u{00CA}\\u{030C}",
                    1164 => "\\u{00EA}\\u{0304}",
                    1166 => "\\u{00EA}\\u{030C}",
                    _ => {""", """                match big5_ptr {
                    // Special handling for codes that map to graphemes.
                    p if p == 1133 => "\\u{00CA}\\u{0304}",
                    1135 => "\\u{00CA}\\u{030C}",
                    p if p >= 1164 && p < 1165 => "\\u{00EA}\\u{0304}",
                    1166 => "\\u{00EA}\\u{030C}",
                    _ => {"""))
R("guard-next-big5", ("src/big5_whatwg.rs", """                    if let Some((offset2, c2)) = itr.clone().next() {
                        let code2 = c2 as u32;
                        if let Some(bytes) = map_grapheme(code, code2) {
                            itr.next();
                            out_buffer[output_i] = bytes[0];
                            out_buffer[output_i + 1] = bytes[1];
                            output_i += 2;
                            input_i = offset2 + 1;
                            continue;
                        }
                    } else if !is_end {
                        break;
                    }
""", """                    match itr.clone().next() {
                        Some((offset2, c2)) if c2 == '\\u{304}' || c2 == '\\u{30C}' => {
                            if let Some(bytes) = map_grapheme(code, c2 as u32) {
                                itr.next();
                                out_buffer[output_i] = bytes[0];
                                out_buffer[output_i + 1] = bytes[1];
                                output_i += 2;
                                input_i = offset2 + 1;
                                continue;
                            }
                        }
                        None if !is_end => break,
                        _ => {}
                    }
"""))
R("guard-lead-sjis", ("src/shiftjis_whatwg.rs", """        } else if byte_1 <= 127 {
            // Ascii
            out_buffer[output_i] = byte_1;
            output_i += 1;
            input_i += 1;
        } else if byte_1 == 128 {
            // Edge-case, close to ascii.
            if output_i + 1 >= out_buffer.len() {
                break;
            } else {
                out_buffer[output_i] = 0xC2;
                out_buffer[output_i + 1] = 0x80;
                output_i += 2;
                input_i += 1;
            }
        } else {
""", """        }
        match byte_1 {
            b if b <= 127 => {
                // Ascii
                out_buffer[output_i] = b;
                output_i += 1;
                input_i += 1;
                continue;
            }
            128 if output_i + 1 >= out_buffer.len() => break,
            128 => {
                out_buffer[output_i] = 0xC2;
                out_buffer[output_i + 1] = 0x80;
                output_i += 2;
                input_i += 1;
                continue;
            }
            _ => {}
        }
        {
"""))
R("guard-sb", ("src/single_byte.rs", """        if c as u32 <= 127 {
            output[output_i] = c as u8;
            output_i += 1;
            input_i = offset + 1;
        } else if let Ok(i) = table.binary_search_by_key(&c, |x| x.0) {
            output[output_i] = table[i].1;
            output_i += 1;
            input_i = offset + 1;
        } else {
            return Err(EncodeError {
                character: c,
                error_range: (offset, offset + c.len_utf8()),
                output_bytes_written: output_i,
            });
        }
""", """        output[output_i] = match table.binary_search_by_key(&c, |x| x.0) {
            _ if (c as u32) < 0x80 => c as u8,
            Ok(i) => table[i].1,
            Err(_) => {
                return Err(EncodeError {
                    character: c,
                    error_range: (offset, offset + c.len_utf8()),
                    output_bytes_written: output_i,
                })
            }
        };
        output_i += 1;
        input_i = offset + 1;
"""))
R("guard-from-u32", *all_of(U32, ("""        if let Some(code) =
            core::char::from_u32(""", """        let scalar = core::char::from_u32("""), ("[bytes[0], bytes[1], bytes[2], bytes[3]]))\n        {\n            // Encode to utf8.\n            let mut buf = [0u8; 4];\n            let s = code.encode_utf8(&mut buf);\n            if (output_i + s.len()) > out_buffer.len() {\n                break;\n            }\n", "[bytes[0], bytes[1], bytes[2], bytes[3]]));\n        let mut buf = [0u8; 4];\n        match scalar {\n            Some(code) if output_i + code.len_utf8() > out_buffer.len() => break,\n            Some(code) => {\n            let s = code.encode_utf8(&mut buf);\n"), ("            output_i += s.len();\n        } else {\n", "            output_i += s.len();\n            }\n            None => {\n"), ("""                output_bytes_written: output_i,
            });
        }
    }

    Ok((
        unsafe""", """                output_bytes_written: output_i,
            });
            }
        }
    }

    Ok((
        unsafe""")))
R("assoc-const-sjis", ("src/shiftjis_whatwg.rs", "                let jis_ptr = code - 0xE000 + 8836;\n                let lead = jis_ptr / 188;", "                let jis_ptr = code - Eudc::FIRST_CHAR + Eudc::FIRST_PTR;\n                let lead = jis_ptr / Eudc::ROW;"), ("src/shiftjis_whatwg.rs", "let trail = jis_ptr % 188;", "let trail = jis_ptr % Eudc::ROW;"), ("src/shiftjis_whatwg.rs", "pub fn encode_from_str", "struct Eudc;\n\nimpl Eudc {\n    const FIRST_CHAR: u32 = 0xE000;\n    const FIRST_PTR: u32 = 8836;\n    const ROW: u32 = 188;\n}\n\npub fn encode_from_str"))
R("u16-max", *all_of(U16, ("if code <= 0xFFFF {", "if code <= core::u16::MAX as u32 {")))
R("nested-fn-big5", ("src/big5_whatwg.rs", """            let big5_ptr = {
                let lead = (byte_1 as usize - 0x81) * 157;
                let trail = if byte_2 < 0x7f {
                    byte_2 as usize - 0x40
                } else {
                    byte_2 as usize - 0x62
                };
                lead + trail
            };
""", """            fn pointer(lead: u8, trail: u8) -> usize {
                let offset = if trail < 0x7f { 0x40 } else { 0x62 };
                (lead as usize - 0x81) * 157 + (trail as usize - offset)
            }
            let big5_ptr = pointer(byte_1, byte_2);
"""))
R("nested-const-sjis", ("src/shiftjis_whatwg.rs", """                let jis_ptr = {
                    let lead_offset""", """                let jis_ptr = {
                    const ROW: u32 = 188;
                    let lead_offset"""), ("src/shiftjis_whatwg.rs", "(byte_1 as u32 - lead_offset) * 188 +", "(byte_1 as u32 - lead_offset) * ROW +"))
R("consumed-u16", *all_of(U16, ("                input_i = offset + 1;\n            } else {\n                break;\n            }\n        } else if", "                input_i = offset + c.len_utf8();\n            } else {\n                break;\n            }\n        } else if"), ("            output_i += 4;\n            input_i = offset + 1;\n", "            output_i += 4;\n            input_i = offset + c.len_utf8();\n"), (TAIL, "")))
R("consumed-sum-sjis", ("src/shiftjis_whatwg.rs", "input_i = offset + 1;", "input_i += c.len_utf8();"), ("src/shiftjis_whatwg.rs", "for (offset, c) in input.char_indices() {\n", "for (offset, c) in input.char_indices() {\n        debug_assert_eq!(offset, input_i);\n"))
R("struct-cursor-sb", ("src/single_byte.rs", "    let mut input_i = 0;\n    let mut output_i = 0;\n    for &byte in input.iter() {\n", "    let (mut input_i, mut output_i) = (0usize, 0usize);\n    for &byte in input {\n"))
R("utf8-errfn", ("src/utf8.rs", """            return Err(DecodeError {
                cause: DecodeErrorCause::InvalidData,
                error_range: (valid_up_to, i),
                output_bytes_written: bytes_copied,
            });
""", """            return invalid(valid_up_to, i, bytes_copied);
"""), ("src/utf8.rs", """            return Err(DecodeError {
                cause: DecodeErrorCause::InvalidData,
                error_range: (valid_up_to, input.len()),
                output_bytes_written: bytes_copied,
            });
""", """            return invalid(valid_up_to, input.len(), bytes_copied);
"""), ("src/utf8.rs", "/// Calculates how many bytes should", "fn invalid<'a>(from: usize, to: usize, written: usize) -> DecodeResult<'a> {\n    Err(DecodeError {\n        cause: DecodeErrorCause::InvalidData,\n        error_range: (from, to),\n        output_bytes_written: written,\n    })\n}\n\n/// Calculates how many bytes should"))
R("bytes-eq-big5", ("src/big5_whatwg.rs", "if code == 0xCA || code == 0xEA {", "if c == '\\u{CA}' || c == '\\u{EA}' {"), ("src/big5_whatwg.rs", "fn map_grapheme(a: u32, b: u32) -> Option<[u8; 2]> {\n    match (a, b) {\n        (0xCA, 0x304) => Some([0x88, 0x62]),\n        (0xCA, 0x30C) => Some([0x88, 0x64]),\n        (0xEA, 0x304) => Some([0x88, 0xA3]),\n        (0xEA, 0x30C) => Some([0x88, 0xA5]),\n        _ => None,\n    }\n}", "fn map_grapheme(a: u32, b: u32) -> Option<[u8; 2]> {\n    let trail = match (a, b) {\n        (0xCA, 0x304) => 0x62,\n        (0xCA, 0x30C) => 0x64,\n        (0xEA, 0x304) => 0xA3,\n        (0xEA, 0x30C) => 0xA5,\n        _ => return None,\n    };\n    Some([0x88, trail])\n}"))
R("grapheme-table-big5", ("src/big5_whatwg.rs", "    match (a, b) {\n        (0xCA, 0x304) => Some([0x88, 0x62]),\n        (0xCA, 0x30C) => Some([0x88, 0x64]),\n        (0xEA, 0x304) => Some([0x88, 0xA3]),\n        (0xEA, 0x30C) => Some([0x88, 0xA5]),\n        _ => None,\n    }\n", "    let second = match b {\n        0x304 => 0,\n        0x30C => 1,\n        _ => return None,\n    };\n    match a {\n        0xCA => Some(GRAPHEMES[0][second]),\n        0xEA => Some(GRAPHEMES[1][second]),\n        _ => None,\n    }\n"), ("src/big5_whatwg.rs", "fn map_grapheme", "const GRAPHEMES: [[[u8; 2]; 2]; 2] = [[[0x88, 0x62], [0x88, 0x64]], [[0x88, 0xA3], [0x88, 0xA5]]];\n\nfn map_grapheme"))
R("shared-tail-crate", ("src/lib.rs", "/// Result type for encoding text", "pub(crate) fn char_end(text: &str, mut i: usize) -> usize {\n    if i > text.len() {\n        return text.len();\n    }\n    while !text.is_char_boundary(i) {\n        i += 1;\n    }\n    i\n}\n\n/// Result type for encoding text"), *all_of(U16 + U32 + ["src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"], (TAIL, "    // Calculate how much of the input was consumed.\n    let input_i = ::char_end(input, input_i);\n")))
# batch 7
R("contains-big5", ("src/big5_whatwg.rs", "} else if byte_1 == 0x80 || byte_1 == 0xFF {", "} else if !(0x81..=0xFE).contains(&byte_1) {"), ("src/big5_whatwg.rs", "if byte_2 < 0x40 || byte_2 > 0xFE || (byte_2 > 0x7E && byte_2 < 0xA1) {", "if !(0x40..=0x7E).contains(&byte_2) && !(0xA1..=0xFE).contains(&byte_2) {"))
R("contains-sjis", ("src/shiftjis_whatwg.rs", "} else if code >= 0xFF61 && code <= 0xFF9F {", "} else if (0xFF61..0xFFA0).contains(&code) {"), ("src/shiftjis_whatwg.rs", "if jis_ptr >= 8836 && jis_ptr <= 10715 {", "if (8836..10716).contains(&jis_ptr) {"))
R("char-range-sjis", ("src/shiftjis_whatwg.rs", "} else if code >= 0xFF61 && code <= 0xFF9F {", "} else if c >= '\\u{FF61}' && c <= '\\u{FF9F}' {"), ("src/shiftjis_whatwg.rs", "let jis_bytes = if code >= 0xE000 && code <= 0xE757 {", "let jis_bytes = if ('\\u{E000}'..='\\u{E757}').contains(&c) {"))
R("step-enum-u16", *all_of(U16, ("""    // Loop through the input, getting 2 bytes at a time.
    let mut itr = input.chunks(2);
    while let Some(bytes) = itr.next() {
        if bytes.len() < 2 {
            if !is_end {
                break;
            } else {
                // Error: incomplete data at end-of-input.
                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });
            }
        }

        // Decode to scalar value.
        let code = {
""", """    while input_i < input.len() {
        let code = match next_char(&input[input_i..]) {
            Step::Char(c) => c,
            Step::Truncated => {
                if !is_end {
                    break;
                }
                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });
            }
            Step::Unpaired => {
                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input_i + 2),
                    output_bytes_written: output_i,
                });
            }
        };
        /*
""")))
def _step_u16(f):
    e = "be" if "be" in f else "le"
    return f, """
enum Step {
    Char(char),
    Truncated,
    Unpaired,
}

fn next_char(bytes: &[u8]) -> Step {
    if bytes.len() < 2 {
        return Step::Truncated;
    }
    let first = u16::from_%s_bytes([bytes[0], bytes[1]]);
    if first < 0xD800 || first > 0xDFFF {
        return Step::Char(unsafe { core::char::from_u32_unchecked(first as u32) });
    }
    if first >= 0xDC00 {
        return Step::Unpaired;
    }
    if bytes.len() < 4 {
        return Step::Truncated;
    }
    let second = u16::from_%s_bytes([bytes[2], bytes[3]]);
    if second < 0xDC00 || second > 0xDFFF {
        return Step::Unpaired;
    }
    let code = 0x10000 + ((first as u32 - 0xD800) << 10) + (second as u32 - 0xDC00);
    Step::Char(unsafe { core::char::from_u32_unchecked(code) })
}

pub fn decode_to_str""" % (e, e)
for b in [EDITS[-1]]:
    # the loop body between the old head and "Encode to utf8" goes away
    src = {f: open("/repo/" + f).read() for f in U16}
    ed = []
    for f in U16:
        s = src[f]
        i = s.index("    // Loop through the input, getting 2 bytes at a time.\n"); j = s.index("        // Encode to utf8.\n")
        new = [n for (g, o, n) in b["edits"] if g == f][0].replace("        /*\n", "\n")
        ed.append((f, s[i:j], new))
        ed.append((f, "\npub fn decode_to_str", _step_u16(f)[1]))
    b["edits"] = ed
R("step-enum-big5", ("src/big5_whatwg.rs", """            // Get our decoded data, either from the table or by special handling.
            let string = if big5_ptr >= DECODE_TABLE.len() || DECODE_TABLE[big5_ptr] == '�' {
                match big5_ptr {
                    // Special handling for codes that map to graphemes.
                    1133 => "\\u{00CA}\\u{0304}",
                    1135 => "\\u{00CA}\\u{030C}",
                    1164 => "\\u{00EA}\\u{0304}",
                    1166 => "\\u{00EA}\\u{030C}",
                    _ => {
""", """            // Get our decoded data, either from the table or by special handling.
            let string = match lookup(big5_ptr) {
                Decoded::Pair(text) => text,
                Decoded::Single(c) => c.encode_utf8(&mut buf),
                Decoded::Undefined => {
                    {
"""), ("src/big5_whatwg.rs", """                    }
                }
            } else {
                // Encode codepoint to utf8.
                DECODE_TABLE[big5_ptr].encode_utf8(&mut buf)
            };
""", """                    }
                }
            };
"""), ("src/big5_whatwg.rs", "pub fn decode_to_str", """enum Decoded {
    Single(char),
    Pair(&'static str),
    Undefined,
}

fn lookup(ptr: usize) -> Decoded {
    match ptr {
        1133 => Decoded::Pair("\\u{00CA}\\u{0304}"),
        1135 => Decoded::Pair("\\u{00CA}\\u{030C}"),
        1164 => Decoded::Pair("\\u{00EA}\\u{0304}"),
        1166 => Decoded::Pair("\\u{00EA}\\u{030C}"),
        _ if ptr >= DECODE_TABLE.len() => Decoded::Undefined,
        _ => {
            let c = DECODE_TABLE[ptr];
            if c == '�' {
                Decoded::Undefined
            } else {
                Decoded::Single(c)
            }
        }
    }
}

pub fn decode_to_str"""))
R("iter-param-big5", ("src/big5_whatwg.rs", "} else if let Some(&byte_2) = itr.next() {", "} else if let Some(byte_2) = next_byte(&mut itr) {"), ("src/big5_whatwg.rs", "pub fn decode_to_str", "fn next_byte<'a>(itr: &mut core::slice::Iter<'a, u8>) -> Option<u8> {\n    itr.next().map(|b| *b)\n}\n\npub fn decode_to_str"))
R("fn-param-sb", ("src/single_byte.rs", """        } else if let Ok(i) = table.binary_search_by_key(&c, |x| x.0) {
            output[output_i] = table[i].1;
            output_i += 1;
            input_i = offset + 1;
""", """        } else if let Some(byte) = find(c) {
            output[output_i] = byte;
            output_i += 1;
            input_i = offset + 1;
"""), ("src/single_byte.rs", "    // Do the encode.\n    let mut input_i = 0;\n", "    let find = |c: char| table.binary_search_by_key(&c, |x| x.0).ok().map(|i| table[i].1);\n\n    // Do the encode.\n    let mut input_i = 0;\n"))
R("question-sb", ("src/single_byte.rs", """        } else if let Ok(i) = table.binary_search_by_key(&c, |x| x.0) {
            output[output_i] = table[i].1;
            output_i += 1;
            input_i = offset + 1;
        } else {
            return Err(EncodeError {
                character: c,
                error_range: (offset, offset + c.len_utf8()),
                output_bytes_written: output_i,
            });
        }
""", """        } else {
            let i = table.binary_search_by_key(&c, |x| x.0).map_err(|_| EncodeError {
                character: c,
                error_range: (offset, offset + c.len_utf8()),
                output_bytes_written: output_i,
            })?;
            output[output_i] = table[i].1;
            output_i += 1;
            input_i = offset + 1;
        }
"""))
R("ok-or-else-u32", *all_of(U32, ("""        if let Some(code) =
            core::char::from_u32(""", """        let code =
            core::char::from_u32("""), ("[bytes[0], bytes[1], bytes[2], bytes[3]]))\n        {\n", "[bytes[0], bytes[1], bytes[2], bytes[3]])).ok_or_else(|| DecodeError {\n                cause: DecodeErrorCause::InvalidData,\n                error_range: (input_i, input_i + 4),\n                output_bytes_written: output_i,\n            })?;\n        {\n"), ("""            output_i += s.len();
        } else {
            // Error: invalid codepoint.
            return Err(DecodeError {
                cause: DecodeErrorCause::InvalidData,
                error_range: (input_i, input_i + 4),
                output_bytes_written: output_i,
            });
        }
""", """            output_i += s.len();
        }
""")))
R("then-some-big5", ("src/big5_whatwg.rs", "            let string = if big5_ptr >= DECODE_TABLE.len() || DECODE_TABLE[big5_ptr] == '�' {", "            let undefined = DECODE_TABLE.get(big5_ptr).map_or(true, |&c| c == '�');\n            let string = if undefined {"))
R("filter-big5", ("src/big5_whatwg.rs", "            let string = if big5_ptr >= DECODE_TABLE.len() || DECODE_TABLE[big5_ptr] == '�' {\n                match big5_ptr {", "            let string = if let Some(c) = DECODE_TABLE.get(big5_ptr).copied().filter(|&c| c != '�') {\n                c.encode_utf8(&mut buf)\n            } else {\n                match big5_ptr {"), ("src/big5_whatwg.rs", """            } else {
                // Encode codepoint to utf8.
                DECODE_TABLE[big5_ptr].encode_utf8(&mut buf)
            };
""", """            };
"""))
R("checked-add-u32", *all_of(U32, ("        if (output_i + 3) < out_buffer.len() {", "        let room = out_buffer.len().saturating_sub(output_i);\n        if room >= 4 {")))
R("double-slice-all", *all_of(U32 + U16 + ["src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"], (OUT_COPY if "OUT_COPY" in dir() else "", "")))
EDITS.pop()
for _f in U32 + U16:
    pass
R("double-slice-u32", *all_of(U32, ("out_buffer[output_i..(output_i + s.len())].copy_from_slice(s.as_bytes());", "out_buffer[output_i..][..s.len()].copy_from_slice(s.as_bytes());")))
R("chunk-enumerate-u32", *all_of(U32, ("    let mut input_i = 0;\n    let mut output_i = 0;\n\n    // Loop through the input, getting 4 bytes at a time.\n    for bytes in input.chunks(4) {\n", "    let mut output_i = 0;\n    let mut consumed = 0;\n\n    for (n, bytes) in input.chunks(4).enumerate() {\n        let input_i = n * 4;\n"), ("            input_i += 4;\n", "            consumed = input_i + 4;\n"), ("out_buffer[..output_i]) },\n        input_i,\n", "out_buffer[..output_i]) },\n        consumed,\n")))
R("usize-from-big5", ("src/big5_whatwg.rs", "let lead = (byte_1 as usize - 0x81) * 157;", "let lead = usize::from(byte_1 - 0x81) * 157;"), ("src/big5_whatwg.rs", "                    byte_2 as usize - 0x40\n", "                    usize::from(byte_2 - 0x40)\n"), ("src/big5_whatwg.rs", "                    byte_2 as usize - 0x62\n", "                    usize::from(byte_2 - 0x62)\n"))
R("buf-inside-big5", ("src/big5_whatwg.rs", "    let mut buf = [0u8; 4]; // For encoding utf8 codepoints.\n", ""), ("src/big5_whatwg.rs", "            // Get our decoded data, either", "            let mut buf = [0u8; 4];\n            // Get our decoded data, either"))
R("const-fn-sjis", ("src/shiftjis_whatwg.rs", "                let jis_ptr = {\n                    let lead_offset = if byte_1 < 0xA0 { 0x81 } else { 0xC1 };\n                    let trail_offset = if byte_2 < 0x7F { 0x40 } else { 0x41 };\n                    (byte_1 as u32 - lead_offset) * 188 + byte_2 as u32 - trail_offset\n                };\n", "                let jis_ptr = pointer(byte_1 as u32, byte_2 as u32);\n"), ("src/shiftjis_whatwg.rs", "/// Note: is potentially lossy.", "#[inline]\nconst fn pointer(lead: u32, trail: u32) -> u32 {\n    let row = if lead < 0xA0 { lead - 0x81 } else { lead - 0xC1 };\n    let cell = if trail < 0x7F { trail - 0x40 } else { trail - 0x41 };\n    row * 188 + cell\n}\n\n/// Note: is potentially lossy."))
R("labeled-block-sjis", ("src/shiftjis_whatwg.rs", """            let jis_bytes = if code >= 0xE000 && code <= 0xE757 {""", """            let jis_bytes = 'bytes: {
            if code >= 0xE000 && code <= 0xE757 {"""), ("src/shiftjis_whatwg.rs", "                [(lead + lead_offset) as u8, (trail + trail_offset) as u8]\n            } else {\n", "                break 'bytes [(lead + lead_offset) as u8, (trail + trail_offset) as u8];\n            }\n"), ("src/shiftjis_whatwg.rs", """                        output_bytes_written: output_i,
                    });
                }
            };

            out_buffer""", """                        output_bytes_written: output_i,
                    });
                }
            };

            out_buffer"""))
R("range-ret-utf8", ("src/utf8.rs", """            // Find the byte range of the error by finding the next valid
            // starting byte (or reaching end of input).
            let mut i = valid_up_to + 1;
            while i < input.len()
                && ((input[i] & 0b1100_0000) == 0b1000_0000
                    || (input[i] & 0b1111_1000) == 0b1111_1000)
            {
                i += 1;
            }
""", """            let range = error_range(input, valid_up_to);
"""), ("src/utf8.rs", "error_range: (valid_up_to, i),", "error_range: range,"), ("src/utf8.rs", "/// Calculates how many bytes should", """/// The byte range of the error that begins at `start`.
fn error_range(input: &[u8], start: usize) -> (usize, usize) {
    let mut end = start + 1;
    while end < input.len() {
        let byte = input[end];
        let is_continuation = byte & 0xC0 == 0x80;
        let is_never_valid = byte >= 0xF8;
        if !is_continuation && !is_never_valid {
            break;
        }
        end += 1;
    }
    (start, end)
}

/// Calculates how many bytes should"""))
R("while-some-rest-utf8", ("src/utf8.rs", """            let mut i = valid_up_to + 1;
            while i < input.len()
                && ((input[i] & 0b1100_0000) == 0b1000_0000
                    || (input[i] & 0b1111_1000) == 0b1111_1000)
            {
                i += 1;
            }
""", """            let mut i = valid_up_to + 1;
            while let Some(&b) = input.get(i) {
                match b {
                    0x80..=0xBF | 0xF8..=0xFF => i += 1,
                    _ => break,
                }
            }
"""))
R("match-bytes-u16", *all_of(U16, ("        if bytes.len() < 2 {\n", "        let is_partial = bytes.len() != 2;\n        if is_partial {\n"), ("            if code_1 < 0xD800 || code_1 > 0xDFFF {", "            if !matches!(code_1, 0xD800..=0xDFFF) {"), ("} else if (code_1 & 0xFC00) == 0xDC00 {", "} else if code_1 >= 0xDC00 {"), ("if (code_2 & 0xFC00) != 0xDC00 {", "if !(0xDC00..0xE000).contains(&code_2) {")))
R("by-ref-u16", *all_of(U16, ("    while let Some(bytes) = itr.next() {\n", "    loop {\n        let bytes = match itr.next() {\n            None => break,\n            Some(b) => b,\n        };\n"), ("                let bytes_2 = itr.next().unwrap();\n", "                let bytes_2 = match itr.next() {\n                    Some(b) => b,\n                    None => unreachable!(),\n                };\n")))
R("if-chain-sjis", ("src/shiftjis_whatwg.rs", """        } else if code <= 128 {
            // Ascii
            out_buffer[output_i] = code as u8;
            output_i += 1;
            input_i = offset + 1;
        } else if code == 0xA5 {
            // Special case 1
            out_buffer[output_i] = 0x5C;
            output_i += 1;
            input_i = offset + 1;
        } else if code == 0x203E {
            // Special case 2
            out_buffer[output_i] = 0x7E;
            output_i += 1;
            input_i = offset + 1;
        } else if code >= 0xFF61 && code <= 0xFF9F {
            // Special case 3
            out_buffer[output_i] = (code - 0xFF61 + 0xA1) as u8;
            output_i += 1;
            input_i = offset + 1;
        } else""", """        }
        if let Some(byte) = single_byte(code) {
            out_buffer[output_i] = byte;
            output_i += 1;
            input_i = offset + 1;
        } else"""), ("src/shiftjis_whatwg.rs", "pub fn encode_from_str", """/// The code of a character that takes one byte.
fn single_byte(code: u32) -> Option<u8> {
    Some(match code {
        0..=0x80 => code as u8,
        0xA5 => b'\\\\',
        0x203E => b'~',
        0xFF61..=0xFF9F => (code - 0xFF61) as u8 + 0xA1,
        _ => return None,
    })
}

pub fn encode_from_str"""))
R("consume-tail-fn-rev", *all_of(U16 + U32 + ["src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"], (TAIL, "    // Calculate how much of the input was consumed.\n    while input_i < input.len() && !input.is_char_boundary(input_i) {\n        input_i += 1;\n    }\n")))
R("out-len-first-all", *all_of(U32, ("    let mut input_i = 0;\n    let mut output_i = 0;\n    for (offset, c)", "    let capacity = out_buffer.len() / 4;\n    let mut written = 0;\n    let mut input_i = 0;\n    let mut output_i = 0;\n    for (offset, c)"), ("        if (output_i + 3) < out_buffer.len() {", "        if written < capacity {\n            written += 1;")))
R("reuse-len-u32", *all_of(U32, ("            let s = code.encode_utf8(&mut buf);\n            if (output_i + s.len()) > out_buffer.len() {\n                break;\n            }\n            out_buffer[output_i..(output_i + s.len())].copy_from_slice(s.as_bytes());\n", "            let s = code.encode_utf8(&mut buf).as_bytes();\n            let end = output_i + s.len();\n            if end > out_buffer.len() {\n                break;\n            }\n            out_buffer[output_i..end].copy_from_slice(s);\n")))
R("direct-encode-u32", *all_of(U32, ("            let mut buf = [0u8; 4];\n            let s = code.encode_utf8(&mut buf);\n            if (output_i + s.len()) > out_buffer.len() {\n                break;\n            }\n            out_buffer[output_i..(output_i + s.len())].copy_from_slice(s.as_bytes());\n", "            if out_buffer.len() - output_i < code.len_utf8() {\n                break;\n            }\n            let s = code.encode_utf8(&mut out_buffer[output_i..]);\n")))
R("two-tables-sjis", ("src/shiftjis_whatwg.rs", """                let lead = jis_ptr / 188;
                let lead_offset = if lead < 0x1F { 0x81 } else { 0xC1 };
                let trail = jis_ptr % 188;
                let trail_offset = if trail < 0x3F { 0x40 } else { 0x41 };
                [(lead + lead_offset) as u8, (trail + trail_offset) as u8]
""", """                let (lead, trail) = (jis_ptr / 188, jis_ptr % 188);
                [
                    (lead + if lead < 0x1F { 0x81 } else { 0xC1 }) as u8,
                    (trail + if trail < 0x3F { 0x40 } else { 0x41 }) as u8,
                ]
"""))
R("incomplete-first-sjis", ("src/shiftjis_whatwg.rs", """            } else if let Some(&byte_2) = itr.next() {
""", """            } else if input_i + 1 == input.len() {
                if is_end {
                    return Err(DecodeError {
                        cause: DecodeErrorCause::InvalidData,
                        error_range: (input_i, input_i + 1),
                        output_bytes_written: output_i,
                    });
                }
                break;
            } else {
                let byte_2 = *itr.next().unwrap();
"""), ("src/shiftjis_whatwg.rs", """            } else {
                // No trailing byte available.  If it's not end-of-input, not a problem.
                // But if it is, then that's an error.
                if !is_end {
                    break;
                } else {
                    return Err(DecodeError {
                        cause: DecodeErrorCause::InvalidData,
                        error_range: (input_i, input_i + 1),
                        output_bytes_written: output_i,
                    });
                }
            };
""", """            };
"""))
# batch 8
U32BODY_LE = None
for _e, _f in (("be", "src/utf32_be.rs"), ("le", "src/utf32_le.rs")):
    _r = """    for (offset, c) in input.char_indices() {
        if (output_i + 3) < out_buffer.len() {
            let code = (c as u32).to_%s_bytes();
            out_buffer[output_i] = code[0];
            out_buffer[output_i + 1] = code[1];
            out_buffer[output_i + 2] = code[2];
            out_buffer[output_i + 3] = code[3];
            output_i += 4;
            input_i = offset + 1;
        } else {
            break;
        }
    }

""" % _e
    R("chars-rest-u32" + _e, (_f, _r + TAIL, """    while let Some(c) = input[input_i..].chars().next() {
        if out_buffer.len() - output_i < 4 {
            break;
        }
        let code = (c as u32).to_%s_bytes();
        out_buffer[output_i..output_i + 4].copy_from_slice(&code);
        output_i += 4;
        input_i += c.len_utf8();
    }
""" % _e))
    R("writer-methods-u32" + _e, (_f, _r, """    let mut out = Writer { buf: out_buffer, len: 0 };
    for (offset, c) in input.char_indices() {
        if !out.push((c as u32).to_%s_bytes()) {
            break;
        }
        input_i = offset + 1;
    }
    output_i += out.len;
    let out_buffer = out.buf;

""" % _e), (_f, "pub fn encode_from_str", """struct Writer<'b> {
    buf: &'b mut [u8],
    len: usize,
}

impl<'b> Writer<'b> {
    fn push(&mut self, code: [u8; 4]) -> bool {
        if self.len + 3 >= self.buf.len() {
            return false;
        }
        for i in 0..4 {
            self.buf[self.len + i] = code[i];
        }
        self.len += 4;
        true
    }
}

pub fn encode_from_str"""))
    R("break-value-u32" + _e, (_f, _r, """    let mut chars = input.char_indices();
    let end = loop {
        match chars.next() {
            Some((offset, c)) => {
                if (output_i + 3) >= out_buffer.len() {
                    break offset;
                }
                let code = (c as u32).to_%s_bytes();
                out_buffer[output_i] = code[0];
                out_buffer[output_i + 1] = code[1];
                out_buffer[output_i + 2] = code[2];
                out_buffer[output_i + 3] = code[3];
                output_i += 4;
            }
            None => break input.len(),
        }
    };
    input_i += end;

""" % _e))
    R("index-write-u32" + _e, (_f, _r, """    for (n, (offset, c)) in input.char_indices().enumerate() {
        let start = n * 4;
        if (start + 3) >= out_buffer.len() {
            break;
        }
        let code = (c as u32).to_%s_bytes();
        out_buffer[start..start + 4].copy_from_slice(&code);
        output_i = start + 4;
        input_i = offset + 1;
    }

""" % _e))
    R("take-u32" + _e, (_f, "    for (offset, c) in input.char_indices() {\n        if (output_i + 3) < out_buffer.len() {", "    for (offset, c) in input.char_indices().take(out_buffer.len() / 4) {\n        if (output_i + 3) < out_buffer.len() {"))
    R("u8-cast-u32" + _e, (_f, "            let code = (c as u32).to_%s_bytes();\n" % _e, "            let scalar = c as u32;\n            let code = [%s];\n" % ", ".join(x for x in (["(scalar >> 24) as u8", "(scalar >> 16) as u8", "(scalar >> 8) as u8", "scalar as u8"] if _e == "be" else ["scalar as u8", "(scalar >> 8) as u8", "(scalar >> 16) as u8", "(scalar >> 24) as u8"]))))
R("mask-surrogate-u16", *all_of(U16, ("if code_1 < 0xD800 || code_1 > 0xDFFF {", "if (code_1 & 0xF800) != 0xD800 {")))
R("shift-surrogate-u16", *all_of(U16, ("if code_1 < 0xD800 || code_1 > 0xDFFF {", "if code_1 >> 11 != 0x1B {"), ("(code_1 & 0xFC00) == 0xDC00", "code_1 >> 10 == 0x37"), ("(code_2 & 0xFC00) != 0xDC00", "code_2 >> 10 != 0x37")))
R("mask-combine-u16", *all_of(U16, ("(((code_1 as u32 - 0xD800) << 10) | (code_2 as u32 - 0xDC00)) + 0x10000,", "0x10000 + ((u32::from(code_1 & 0x3FF) << 10) | u32::from(code_2 & 0x3FF)),")))
R("encode-mask-u16", *all_of(U16, ("(0xDC00 | ((code as u16) & 0x3FF))", "(0xDC00 + (code & 0x3FF) as u16)"), ("(0xD800 | ((code >> 10) as u16))", "(0xD800 + (code >> 10) as u16)")))
R("is-err-range-sjis", ("src/shiftjis_whatwg.rs", "if jis_ptr >= 8836 && jis_ptr <= 10715 {", "if EUDC.contains(&jis_ptr) {"), ("src/shiftjis_whatwg.rs", "pub fn encode_from_str", "/// Pointers of the end-user-defined rows.\nconst EUDC: core::ops::Range<u32> = 8836..10716;\n\npub fn encode_from_str"))
R("mask-index-sb", ("src/single_byte.rs", "if byte < 0x80 {", "if byte & 0x80 == 0 {"), ("src/single_byte.rs", "table[byte as usize - 0x80]", "table[(byte & 0x7F) as usize]"))
R("get-unchecked-mut-sb", ("src/single_byte.rs", "            output[output_i] = byte;\n            input_i += 1;", "            unsafe { *output.get_unchecked_mut(output_i) = byte };\n            input_i += 1;"))
R("index-loop-sjis", ("src/shiftjis_whatwg.rs", "    let mut itr = input.iter();\n    while let Some(&byte_1) = itr.next() {\n", "    while input_i < input.len() {\n        let byte_1 = input[input_i];\n"), ("src/shiftjis_whatwg.rs", "else if let Some(&byte_2) = itr.next() {", "else if let Some(&byte_2) = input.get(input_i + 1) {"))
R("index-loop-big5", ("src/big5_whatwg.rs", "    let mut itr = input.iter();\n    while let Some(&byte_1) = itr.next() {\n", "    while input_i < input.len() {\n        let byte_1 = input[input_i];\n"), ("src/big5_whatwg.rs", "else if let Some(&byte_2) = itr.next() {", "else if input_i + 1 < input.len() {\n            let byte_2 = input[input_i + 1];"))
R("while-pair-big5", ("src/big5_whatwg.rs", "        } else if let Some(&byte_2) = itr.next() {\n", "        } else if !itr.as_slice().is_empty() {\n            let byte_2 = *itr.next().unwrap();\n"))
R("range-end-big5", ("src/big5_whatwg.rs", "error_range: (input_i, input_i + if byte_2 <= 127 { 1 } else { 2 }),", "error_range: (input_i, input_i + 1 + (byte_2 >> 7) as usize),"))
R("range-end-sjis", ("src/shiftjis_whatwg.rs", "error_range: (input_i, input_i + if byte_2 <= 127 { 1 } else { 2 }),", "error_range: (input_i, input_i + 1 + usize::from(byte_2 > 127)),"))
R("range-end-is-ascii-sjis", ("src/shiftjis_whatwg.rs", "error_range: (input_i, input_i + if byte_2 <= 127 { 1 } else { 2 }),", "error_range: (input_i, if byte_2.is_ascii() { input_i + 1 } else { input_i + 2 }),"))
R("match-lead-big5", ("src/big5_whatwg.rs", "        } else if byte_1 <= 127 {\n            // Ascii\n            out_buffer[output_i] = byte_1;\n            output_i += 1;\n            input_i += 1;\n        } else if byte_1 == 0x80 || byte_1 == 0xFF {\n", "        }\n        if byte_1.is_ascii() {\n            // Ascii\n            out_buffer[output_i] = byte_1;\n            output_i += 1;\n            input_i += 1;\n            continue;\n        }\n        if let 0x80 | 0xFF = byte_1 {\n"))
R("char-lit-big5", ("src/big5_whatwg.rs", "if code == 0xCA || code == 0xEA {", "if c == 'Ê' || c == 'ê' {"))
R("grapheme-base-fn-big5", ("src/big5_whatwg.rs", "if code == 0xCA || code == 0xEA {", "if is_grapheme_base(c) {"), ("src/big5_whatwg.rs", "fn map_grapheme", "fn is_grapheme_base(c: char) -> bool {\n    match c {\n        '\\u{CA}' | '\\u{EA}' => true,\n        _ => false,\n    }\n}\n\nfn map_grapheme"))
R("next-char-big5", ("src/big5_whatwg.rs", "                    if let Some((offset2, c2)) = itr.clone().next() {\n                        let code2 = c2 as u32;\n                        if let Some(bytes) = map_grapheme(code, code2) {\n", "                    let next = itr.clone().next();\n                    if let Some((offset2, c2)) = next {\n                        if let Some(bytes) = map_grapheme(code, c2 as u32) {\n"))
R("str-next-big5", ("src/big5_whatwg.rs", "if let Some((offset2, c2)) = itr.clone().next() {", "let offset2 = offset + 2;\n                    if let Some(c2) = input[offset2..].chars().next() {"))
R("from-digit-sjis", ("src/shiftjis_whatwg.rs", "let code = core::char::from_u32(code).unwrap();\n", "let code = if code == 0xFF0D { '－' } else { c };\n"))
R("shadow-char-sjis", ("src/shiftjis_whatwg.rs", "                if code == 0x2212 {\n                    // Special case 4\n                    code = 0xFF0D;\n                }\n                let code = core::char::from_u32(code).unwrap();\n", "                let code = match c {\n                    // Special case 4\n                    '\\u{2212}' => '\\u{FF0D}',\n                    other => other,\n                };\n"), ("src/shiftjis_whatwg.rs", "let mut code = c as u32;", "let code = c as u32;"))
R("mul-add-sjis", ("src/shiftjis_whatwg.rs", "                (byte_1 as u32 - lead_offset) * 188 + byte_2 as u32 - trail_offset\n", "                let row = byte_1 as u32 - lead_offset;\n                    let cell = byte_2 as u32 - trail_offset;\n                    cell + 188 * row\n"))
R("u16-ptr-sjis", ("src/shiftjis_whatwg.rs", "                    (byte_1 as u32 - lead_offset) * 188 + byte_2 as u32 - trail_offset\n", "                    ((byte_1 as u16 - lead_offset) * 188 + byte_2 as u16 - trail_offset) as u32\n"))
R("valid-prefix-utf8", ("src/utf8.rs", "        Ok(text) => (text.len(), false),\n        Err(e) => (e.valid_up_to(), e.error_len().is_none()),\n", "        Ok(_) => (input.len(), false),\n        Err(e) => (e.valid_up_to(), e.error_len() == None),\n"))
R("nested-ifs-utf8", ("src/utf8.rs", "        if !is_truncated {\n", "        let is_invalid = !is_truncated;\n        if is_invalid {\n"))
R("complete-flag-utf8", ("src/utf8.rs", "    if bytes_copied < out_buffer.len() && bytes_copied == valid_up_to && valid_up_to < input.len() {\n", "    let has_room = bytes_copied < out_buffer.len();\n    let copied_all = bytes_copied == valid_up_to;\n    let has_rest = valid_up_to < input.len();\n    if has_room && copied_all && has_rest {\n"))
R("cont-helper-utf8", ("src/utf8.rs", "                && ((input[i] & 0b1100_0000) == 0b1000_0000\n                    || (input[i] & 0b1111_1000) == 0b1111_1000)\n", "                && !may_start(input[i])\n"), ("src/utf8.rs", "while i > 0 && (input[i] & 0b1100_0000) == 0b1000_0000 {", "while i > 0 && is_continuation(input[i]) {"), ("src/utf8.rs", "/// Calculates how many bytes should", "fn is_continuation(byte: u8) -> bool {\n    (byte & 0b1100_0000) == 0b1000_0000\n}\n\nfn may_start(byte: u8) -> bool {\n    !is_continuation(byte) && byte < 0xF8\n}\n\n/// Calculates how many bytes should"))
R("range-cont-utf8", ("src/utf8.rs", "                && ((input[i] & 0b1100_0000) == 0b1000_0000\n                    || (input[i] & 0b1111_1000) == 0b1111_1000)\n", "                && ((0x80..0xC0).contains(&input[i]) || input[i] >= 0xF8)\n"))
R("split-utf8", ("src/utf8.rs", "    let bytes_copied = copy_len(&input[..valid_up_to], out_buffer.len());\n    out_buffer[..bytes_copied].copy_from_slice(&input[..bytes_copied]);\n", "    let (valid, _) = input.split_at(valid_up_to);\n    let bytes_copied = copy_len(valid, out_buffer.len());\n    out_buffer[..bytes_copied].copy_from_slice(&valid[..bytes_copied]);\n"))
R("iter-copy-utf8", ("src/utf8.rs", "    out_buffer[..cl].copy_from_slice(input[..cl].as_bytes());\n", "    for (i, &b) in input.as_bytes()[..cl].iter().enumerate() {\n        out_buffer[i] = b;\n    }\n"))
R("signed-loop-utf8", ("src/utf8.rs", "        let mut i = output_len;\n        while i > 0 && (input[i] & 0b1100_0000) == 0b1000_0000 {\n            i -= 1;\n        }\n        i\n", "        let mut back = 0;\n        while back < output_len && (input[output_len - back] & 0b1100_0000) == 0b1000_0000 {\n            back += 1;\n        }\n        output_len - back\n"))
R("encode-boundary-utf8", ("src/utf8.rs", "    let cl = copy_len(input.as_bytes(), out_buffer.len());\n", "    let mut cl = if input.len() < out_buffer.len() { input.len() } else { out_buffer.len() };\n    while !input.is_char_boundary(cl) {\n        cl -= 1;\n    }\n"))
R("encode-len-sb", ("src/single_byte.rs", "        if c as u32 <= 127 {", "        if c < '\\u{80}' {"))
R("early-buffer-sb", ("src/single_byte.rs", "        if byte < 0x80 {\n            // 1-byte case\n            if output_i >= output.len() {\n                break;\n            }\n", "        if output_i == output.len() && byte < 0x80 {\n            break;\n        }\n        if byte < 0x80 {\n"))
R("opt-table-sb", ("src/single_byte.rs", "            let code = table[byte as usize - 0x80];\n            if code == '�' {\n", "            let entry = Some(table[byte as usize - 0x80]).filter(|&c| c != '�');\n            let code = entry.unwrap_or('�');\n            if entry.is_none() {\n"))
_ERR1 = """                return Err(DecodeError {
                    cause: DecodeErrorCause::InvalidData,
                    error_range: (input_i, input.len()),
                    output_bytes_written: output_i,
                });
"""
R("macro-err-u32", *all_of(U32, (_ERR1, "                return invalid!(input_i, input.len(), output_i);\n"), ("            return Err(DecodeError {\n                cause: DecodeErrorCause::InvalidData,\n                error_range: (input_i, input_i + 4),\n                output_bytes_written: output_i,\n            });", "            return invalid!(input_i, input_i + 4, output_i);"), ("pub fn encode_from_str", "macro_rules! invalid {\n    ($from:expr, $to:expr, $written:expr) => {\n        Err(DecodeError {\n            cause: DecodeErrorCause::InvalidData,\n            error_range: ($from, $to),\n            output_bytes_written: $written,\n        })\n    };\n}\n\npub fn encode_from_str")))
R("macro-err-crate-u32", *(all_of(U32, (_ERR1, "                bail!(output_i, input_i => input.len());\n"), ("            return Err(DecodeError {\n                cause: DecodeErrorCause::InvalidData,\n                error_range: (input_i, input_i + 4),\n                output_bytes_written: output_i,\n            });", "            bail!(output_i, input_i => input_i + 4);")) + [("src/lib.rs", "pub mod big5_whatwg;", "macro_rules! bail {\n    ($written:expr, $from:expr => $to:expr) => {\n        return Err($crate::DecodeError {\n            cause: $crate::DecodeErrorCause::InvalidData,\n            error_range: ($from, $to),\n            output_bytes_written: $written,\n        })\n    };\n}\n\npub mod big5_whatwg;")]))
R("macro-tail-all", *(all_of(U16 + U32 + ["src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"], (TAIL, "    consumed!(input, input_i);\n")) + [("src/lib.rs", "pub mod big5_whatwg;", "macro_rules! consumed {\n    ($input:ident, $i:ident) => {\n        if $i > $input.len() {\n            $i = $input.len();\n        } else {\n            while !$input.is_char_boundary($i) {\n                $i += 1;\n            }\n        }\n    };\n}\n\npub mod big5_whatwg;")]))
R("macro-local-put-sjis", ("src/shiftjis_whatwg.rs", "    for (offset, c) in input.char_indices() {\n        let mut code = c as u32;", "    macro_rules! put {\n        ($($byte:expr),+) => {{\n            $(\n                out_buffer[output_i] = $byte;\n                output_i += 1;\n            )+\n        }};\n    }\n    for (offset, c) in input.char_indices() {\n        let mut code = c as u32;"),
  ("src/shiftjis_whatwg.rs", "            // Special case 1\n            out_buffer[output_i] = 0x5C;\n            output_i += 1;\n", "            // Special case 1\n            put!(0x5C);\n"),
  ("src/shiftjis_whatwg.rs", "            out_buffer[output_i] = jis_bytes[0];\n            out_buffer[output_i + 1] = jis_bytes[1];\n            output_i += 2;\n", "            put!(jis_bytes[0], jis_bytes[1]);\n"))
R("macro-mod-u32", *[e for f, a, b in [("src/utf32_le.rs", "from_le_bytes", "to_le_bytes"), ("src/utf32_be.rs", "from_be_bytes", "to_be_bytes")] for e in [
  (f, "pub fn encode_from_str", "macro_rules! utf32 {\n    ($from_bytes:ident, $to_bytes:ident) => {\npub fn encode_from_str"),
  (f, "u32::" + a, "u32::$from_bytes"), (f, "(c as u32)." + b, "(c as u32).$to_bytes"),
  (f, "#[cfg(test)]\nmod tests", "    };\n}\n\nutf32!(%s, %s);\n\n#[cfg(test)]\nmod tests" % (a, b))]])
R("macro-fits-u16", *all_of(U16, ("if (output_i + 1) < out_buffer.len() {", "if room_for!(2) {"), ("} else if (output_i + 3) < out_buffer.len() {", "} else if room_for!(4) {"), ("    for (offset, c) in input.char_indices() {\n", "    macro_rules! room_for {\n        ($n:literal) => {\n            output_i + $n <= out_buffer.len()\n        };\n    }\n    for (offset, c) in input.char_indices() {\n")))
R("macro-let-u32", *all_of(U32, ("            let code = (c as u32).to_le_bytes();\n", "            bytes_of!(code, c);\n"), ("pub fn encode_from_str", "macro_rules! bytes_of {\n    ($name:ident, $c:expr) => {\n        let $name = ($c as u32).to_le_bytes();\n    };\n}\n\npub fn encode_from_str"))[:2])
R("use-as-u32", *all_of(U32, ("use {DecodeError, DecodeErrorCause, DecodeResult, EncodeResult};", "use {DecodeError as Failure, DecodeErrorCause as Cause, DecodeResult, EncodeResult};"), ("Err(DecodeError {\n                    cause: DecodeErrorCause::", "Err(Failure {\n                    cause: Cause::"), ("Err(DecodeError {\n                cause: DecodeErrorCause::", "Err(Failure {\n                cause: Cause::"), ("#[cfg(test)]\nmod tests {\n    use super::*;\n", "#[cfg(test)]\nmod tests {\n    use super::*;\n    use {DecodeError, DecodeErrorCause};\n")))
R("abs-path-u16", *all_of(U16, ("return Err(DecodeError {", "return Err(::DecodeError {"), ("cause: DecodeErrorCause::", "cause: super::DecodeErrorCause::")))
R("find-utf8", ("src/utf8.rs", """            let mut i = valid_up_to + 1;
            while i < input.len()
                && ((input[i] & 0b1100_0000) == 0b1000_0000
                    || (input[i] & 0b1111_1000) == 0b1111_1000)
            {
                i += 1;
            }
""", """            let i = (valid_up_to + 1..input.len())
                .find(|&i| (input[i] & 0b1100_0000) != 0b1000_0000 && (input[i] & 0b1111_1000) != 0b1111_1000)
                .unwrap_or(input.len());
"""))
R("find-tail-all", *all_of(U16 + ["src/utf32_le.rs", "src/utf32_be.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"], (TAIL, """    // Calculate how much of the input was consumed.
    input_i = (input_i..input.len()).find(|&i| input.is_char_boundary(i)).unwrap_or(input.len());
""")))
R("find-tail-incl", *all_of(U16 + ["src/utf32_le.rs", "src/utf32_be.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"], (TAIL, """    // Calculate how much of the input was consumed.
    input_i = (input_i..=input.len()).find(|&i| input.is_char_boundary(i)).unwrap_or_else(|| input.len());
""")))
R("label-stmt-sb", ("src/single_byte.rs", """        if c as u32 <= 127 {
            output[output_i] = c as u8;
            output_i += 1;
            input_i = offset + 1;
        } else if let Ok(i) = table.binary_search_by_key(&c, |x| x.0) {
            output[output_i] = table[i].1;
            output_i += 1;
            input_i = offset + 1;
        } else {
            return Err(EncodeError {
                character: c,
                error_range: (offset, offset + c.len_utf8()),
                output_bytes_written: output_i,
            });
        }
""", """        'put: {
            if c as u32 <= 127 {
                output[output_i] = c as u8;
                break 'put;
            }
            if let Ok(i) = table.binary_search_by_key(&c, |x| x.0) {
                output[output_i] = table[i].1;
                break 'put;
            }
            return Err(EncodeError {
                character: c,
                error_range: (offset, offset + c.len_utf8()),
                output_bytes_written: output_i,
            });
        }
        output_i += 1;
        input_i = offset + 1;
"""))
