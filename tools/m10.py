PX = 'akasa-core/src/server/proxy.rs'
P = ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07']
OFF4 = 'tlv_bytes[offset] = 0;\n                tlv_bytes[offset + 1] = 0;\n                tlv_bytes[offset + 2] = 0;\n                tlv_bytes[offset + 3] = 0;\n'
VER = 'if tlv_bytes[offset + 1..offset + 5] != [0u8; 4] {'
EXP = '''let expected_value = u32::from_be_bytes([
                    tlv_bytes[offset],
                    tlv_bytes[offset + 1],
                    tlv_bytes[offset + 2],
                    tlv_bytes[offset + 3],
                ]);
'''
FU = '''let s = match String::from_utf8(tlv_bytes[offset..offset + length].to_vec()) {
                    Ok(s) => s,
                    Err(_) => {
                        log::warn!(
                            "invalid proxy protocol PP2_TYPE_AUTHORITY field: {:?}",
                            &tlv_bytes[offset..offset + length]
                        );
                        return Err(io::ErrorKind::InvalidData.into());
                    }
                };
'''
MUTS = [
('utf8-unwrap', PX, FU, 'let s = String::from_utf8(tlv_bytes[offset..offset + length].to_vec()).unwrap();\n', P),
('utf8-lossy', PX, FU, 'let s = String::from_utf8_lossy(&tlv_bytes[offset..offset + length]).into_owned();\n', P),
('host-trim', PX, 'tls_sni = Some(s);', 'tls_sni = Some(s.trim().to_owned());', P),
('host-lower', PX, 'tls_sni = Some(s);', 'tls_sni = Some(s.to_lowercase());', P),
('host-short', PX, 'tlv_bytes[offset..offset + length].to_vec()', 'tlv_bytes[offset..offset + length.min(64)].to_vec()', P),
('host-flag-before', PX, [('                if length == 0 {\n                    log::warn!("invalid proxy protocol PP2_TYPE_AUTHORITY', '                pp2_type_authority = true;\n                if length == 0 {\n                    offset += length;\n                    continue;\n                }\n                if length == 0 {\n                    log::warn!("invalid proxy protocol PP2_TYPE_AUTHORITY')], P),
('crc-zero-ok', PX, 'if expected_value != value {', 'if expected_value != 0 && expected_value != value {', P),
('crc-short', PX, 'crc32c::crc32c_append(value, tlv_bytes)', 'crc32c::crc32c_append(value, &tlv_bytes[..offset + 4])', P),
('crc-before-zero', PX, [(EXP, EXP + '                let full = crc32c::crc32c_append(crc32c::crc32c(&buffer[..16 + address_length]), tlv_bytes);\n'), ('if expected_value != value {', 'if expected_value != value && expected_value != full {')], P),
('crc-le', PX, 'let expected_value = u32::from_be_bytes', 'let expected_value = u32::from_le_bytes', P),
('crc-low16', PX, 'if expected_value != value {', 'if expected_value as u16 != value as u16 {', P),
('crc-minlen', PX, 'if length != 4 {', 'if length > 4 {', P),
('crc-first-only', PX, [('            // PP2_TYPE_CRC32C\n            0x03 => {', '            // PP2_TYPE_CRC32C\n            0x03 if offset == 3 => {')], P),
('ssl-type-short', PX, 'if length < 5 {', 'if length < 1 {', P),
('ssl-client-only', PX, VER, 'if tlv_bytes[offset] != 0 && tlv_bytes[offset + 1..offset + 5] != [0u8; 4] {', P),
('ssl-or', PX, VER, 'if tlv_bytes[offset + 1..offset + 5].iter().all(|b| *b != 0) {', P),
('ssl-flag-early', PX, [(VER, 'pp2_type_ssl = true;\n                ' + VER.replace('{', '&& !tls_termination {'))], P),
('ssl-i32', PX, VER, 'if i32::from_be_bytes([tlv_bytes[offset + 1], tlv_bytes[offset + 2], tlv_bytes[offset + 3], tlv_bytes[offset + 4]]) > 0 {', P),
('tls-either', PX, [('        if !pp2_type_ssl {\n', '        if !pp2_type_ssl && !pp2_type_authority {\n')], P),
('notls-both', PX, [('        if pp2_type_ssl {\n', '        if pp2_type_ssl && pp2_type_authority {\n')], P),
('local-noread', PX, 'if !(byte_14th == 0 && extra_length == 0) {', 'if byte_14th != 0 {', P),
('local-after', PX, '0x01 => {}\n        _ => {\n            log::warn!("invalid proxy protocol 13th byte (command)', '0x01 | 0x02 => {}\n        _ => {\n            log::warn!("invalid proxy protocol 13th byte (command)', P),
('fam-shift', PX, '0x30 => AddressFamily::Unix,', '0x30 | 0x40 => AddressFamily::Unix,', P),
('addr-min', PX, 'if extra_length < address_length {', 'if extra_length < address_length.min(36) {', P),
('skip-tlvs', PX, 'let tls_sni = parse_tlvs(', 'if !tls_termination && extra_length - address_length > 256 { return Ok(Some(Header { protocol, addresses, tls_sni: None })); }\n    let tls_sni = parse_tlvs(', P),
('no-tlv-notls', PX, 'let remaining_len = extra_length - address_length;', 'let remaining_len = extra_length - address_length;\n    if !tls_termination && remaining_len < 3 { return Ok(None); }', P),
('break-unknown', PX, '            // Ignore other types\n            _ => {}', '            // Ignore other types\n            0xE0..=0xFF => break,\n            _ => {}', P),
('noop-tail', PX, [('        if rest_len < 3 {\n', '        if rest_len < 3 && tlv_bytes[offset] == 0x04 { break; }\n        if rest_len < 3 {\n'), ('    if offset != remaining_len {', '    if offset > remaining_len {')], P),
('buf-200', PX, 'let mut buffer = [0u8; 256];', 'let mut buffer = [0u8; 128];', P),
('dest-port', PX, 'let destination_port = u16::from_be_bytes([bytes[34], bytes[35]]);', 'let destination_port = u16::from_be_bytes([bytes[32], bytes[35]]);', P),
('v4-swap', PX, [('                source_port,\n                destination_port,\n            }\n        }\n        AddressFamily::IPv6', '                source_port: destination_port,\n                destination_port: source_port,\n            }\n        }\n        AddressFamily::IPv6')], P),
('proto-left', PX, 'match byte_14th & RIGHT_MASK {', 'match (byte_14th >> 4) & RIGHT_MASK {', P),
('v4-dgram', PX, '0x02 => Protocol::Datagram,', '0x02 if byte_14th == 0x12 => Protocol::Stream,\n        0x02 => Protocol::Datagram,', P),
('rej-unix', PX, '        0x30 => AddressFamily::Unix,', '        0x30 if tls_termination => AddressFamily::Unix,', P),
('rej-dgram', PX, '        0x02 => Protocol::Datagram,', '        0x02 if !tls_termination => Protocol::Datagram,', P),
('rej-len', PX, 'if remaining_len > 256 {', 'if remaining_len > 200 {', P),
('rej-unknown', PX, '            _ => {}\n        }\n        offset', '            0x05 | 0x30 => return Err(io::ErrorKind::InvalidData.into()),\n            _ => {}\n        }\n        offset', P),
('rej-empty-tlv', PX, 'if rest_len < 3 + length {', 'if rest_len < 3 + length || length == 0 && tlv_type > 0x20 {', P),
('rej-ssl-len', PX, 'if length < 5 {', 'if length <= 5 {', P),
('rej-crc-twice', PX, 'pp2_type_ssl = true;', 'if pp2_type_ssl { return Err(io::ErrorKind::InvalidData.into()); }\n                pp2_type_ssl = true;', P),
('rej-exact', PX, 'if rest_len < 3 {', 'if rest_len <= 3 {', P),
('=read-u8', PX, [('let tlv_type = tlv_bytes[offset];\n        let length = u16::from_be_bytes([tlv_bytes[offset + 1], tlv_bytes[offset + 2]]) as usize;', 'let head = &tlv_bytes[offset..offset + 3];\n        let (tlv_type, length) = (head[0], (usize::from(head[1]) << 8) | usize::from(head[2]));')], P),
('=split3', PX, [('let tlv_type = tlv_bytes[offset];\n        let length = u16::from_be_bytes([tlv_bytes[offset + 1], tlv_bytes[offset + 2]]) as usize;', 'let (head, _) = tlv_bytes[offset..].split_at(3);\n        let tlv_type = head[0];\n        let length = u16::from_be_bytes(head[1..3].try_into().unwrap()) as usize;')], P),
('=restlen', PX, 'if rest_len < 3 + length {', 'if length > rest_len - 3 {', P),
('=crcslice', PX, [(EXP, 'let expected_value = u32::from_be_bytes(tlv_bytes[offset..offset + 4].try_into().unwrap());\n'), (OFF4, 'tlv_bytes[offset..offset + 4].copy_from_slice(&[0u8; 4]);\n')], P),
('=crcitermut', PX, OFF4, 'for b in tlv_bytes[offset..offset + 4].iter_mut() {\n                    *b = 0;\n                }\n', P),
('=crctake', PX, OFF4, 'tlv_bytes.iter_mut().skip(offset).take(4).for_each(|b| *b = 0);\n', P),
('=crcfn', PX, [('let mut value = crc32c::crc32c(&buffer[..16 + address_length]);\n                value = crc32c::crc32c_append(value, tlv_bytes);', 'let value = checksum(&buffer[..16 + address_length], tlv_bytes);'), ('// * Parse `PP2_TYPE_SSL`', 'fn checksum(head: &[u8], tail: &[u8]) -> u32 {\n    crc32c::crc32c_append(crc32c::crc32c(head), tail)\n}\n\n// * Parse `PP2_TYPE_SSL`')], P),
('=crcvec', PX, [('let mut value = crc32c::crc32c(&buffer[..16 + address_length]);\n                value = crc32c::crc32c_append(value, tlv_bytes);', 'let whole = [&buffer[..16 + address_length], &*tlv_bytes].concat();\n                let value = crc32c::crc32c(&whole);')], P),
('=hostok', PX, FU, 'let s = std::str::from_utf8(&tlv_bytes[offset..offset + length])\n                    .map_err(|_| io::Error::from(io::ErrorKind::InvalidData))?\n                    .to_owned();\n', P),
('=hostopt', PX, [('let mut pp2_type_authority = false;\n', ''), ('                pp2_type_authority = true;\n', ''), ('!pp2_type_authority', 'tls_sni.is_none()'), ('        if pp2_type_authority {', '        if tls_sni.is_some() {'), ('let mut tls_sni = None;', 'let mut tls_sni: Option<String> = None;')], P),
('=matchtail', PX, [('    if tls_termination {\n        if !pp2_type_ssl {', '    match (tls_termination, pp2_type_ssl, pp2_type_authority) {\n        (true, true, true) | (false, false, false) => return Ok(tls_sni),\n        _ => {}\n    }\n    if tls_termination {\n        if !pp2_type_ssl {')], P),
('=prefixeq', PX, 'if &prefix[..PROTOCOL_PREFIX.len()] != PROTOCOL_PREFIX {', 'if prefix.iter().zip(PROTOCOL_PREFIX).any(|(a, b)| a != b) {', P),
('=prefixall', PX, 'if &prefix[..PROTOCOL_PREFIX.len()] != PROTOCOL_PREFIX {', 'if !PROTOCOL_PREFIX.iter().enumerate().all(|(i, b)| prefix[i] == *b) {', P),
('=nibble', PX, [('match byte_13th & LEFT_MASK {\n        0x20 => {}', 'match byte_13th >> 4 {\n        2 => {}')], P),
('=localif', PX, 'if !(byte_14th == 0 && extra_length == 0) {', 'if byte_14th != 0 || extra_length > 0 {', P),
('=v6try', PX, [('let mut address = [0; 16];\n            address[..].copy_from_slice(&bytes[..16]);\n            let source_address = Ipv6Addr::from(address);\n            address[..].copy_from_slice(&bytes[16..32]);\n            let destination_address = Ipv6Addr::from(address);', 'let source_address = Ipv6Addr::from(<[u8; 16]>::try_from(&bytes[..16]).unwrap());\n            let destination_address = Ipv6Addr::from(<[u8; 16]>::try_from(&bytes[16..32]).unwrap());')], P),
('=v4u32', PX, 'let source_address = Ipv4Addr::new(bytes[0], bytes[1], bytes[2], bytes[3]);', 'let source_address = Ipv4Addr::from([bytes[0], bytes[1], bytes[2], bytes[3]]);', P),
('=split-at', PX, [('source[..].copy_from_slice(&bytes[..108]);\n            destination[..].copy_from_slice(&bytes[108..]);', 'let (s, d) = bytes.split_at(108);\n            source.copy_from_slice(s);\n            destination.copy_from_slice(d);')], P),
('=portfn', PX, [('let source_port = u16::from_be_bytes([bytes[8], bytes[9]]);\n            let destination_port = u16::from_be_bytes([bytes[10], bytes[11]]);', 'let port = |i: usize| u16::from_be_bytes([bytes[i], bytes[i + 1]]);\n            let source_port = port(8);\n            let destination_port = port(10);')], P),
('=tworeads', PX, 'reader.read_exact(tlv_bytes).await?;', 'let (a, b) = tlv_bytes.split_at_mut(remaining_len / 2);\n    reader.read_exact(a).await?;\n    reader.read_exact(b).await?;', P),
('=readif', PX, 'reader.read_exact(tlv_bytes).await?;', 'if !tlv_bytes.is_empty() {\n        reader.read_exact(tlv_bytes).await?;\n    }', P),
('=vec', PX, [('let mut tlv_bytes_buf = [0u8; 256];\n    let tlv_bytes = &mut tlv_bytes_buf[0..remaining_len];', 'let mut tlv_bytes_buf = vec![0u8; remaining_len];\n    let tlv_bytes = &mut tlv_bytes_buf[..];')], P),
('=earlyread', PX, [('    reader.read_exact(&mut buffer[0..16]).await?;', '    reader.read_exact(&mut buffer[0..12]).await?;\n    reader.read_exact(&mut buffer[12..16]).await?;')], P),
('=invalidfn', PX, [('            log::warn!("invalid proxy protocol PP2_TYPE_SSL not presented in TLS mode");\n            return Err(io::ErrorKind::InvalidData.into());', '            return Err(invalid("PP2_TYPE_SSL not presented in TLS mode"));'), ('// * Parse `PP2_TYPE_SSL`', 'fn invalid(what: &str) -> io::Error {\n    log::warn!("invalid proxy protocol {what}");\n    io::Error::new(io::ErrorKind::InvalidData, what.to_owned())\n}\n\n// * Parse `PP2_TYPE_SSL`')], P),
('=ifelse', PX, [('        match tlv_type {\n            // PP2_TYPE_AUTHORITY\n            0x02 => {\n', '        let tlv = &tlv_bytes[offset..offset + length];\n        log::trace!("tlv {tlv_type}: {tlv:?}");\n        match tlv_type {\n            // PP2_TYPE_AUTHORITY\n            0x02 => {\n')], P),
('=endvar', PX, [('        offset += 3;\n        if rest_len < 3 + length {', '        offset += 3;\n        let end = offset + length;\n        if end > remaining_len {'), ('        offset += length;\n    }', '        offset = end;\n    }')], P),

('=h-authority', PX, [(FU, 'let s = authority(&tlv_bytes[offset..offset + length])?;\n'), ('// * Parse `PP2_TYPE_SSL`', 'fn authority(value: &[u8]) -> io::Result<String> {\n    match std::str::from_utf8(value) {\n        Ok(s) => Ok(s.to_string()),\n        Err(_) => Err(io::ErrorKind::InvalidData.into()),\n    }\n}\n\n// * Parse `PP2_TYPE_SSL`')], P),
('=h-ssl', PX, [('tlv_bytes[offset + 1..offset + 5] != [0u8; 4]', '!verified(&tlv_bytes[offset..offset + length])'), ('// * Parse `PP2_TYPE_SSL`', 'fn verified(value: &[u8]) -> bool {\n    value[1..5].iter().all(|b| *b == 0)\n}\n\n// * Parse `PP2_TYPE_SSL`')], P),
('=h-crc', PX, [('if length != 4 {\n                    log::warn!("invalid proxy protocol PP2_TYPE_CRC32C length: {length}",);\n                    return Err(io::ErrorKind::InvalidData.into());\n                }\n', ''), (EXP + '                ' + OFF4 + '''                let mut value = crc32c::crc32c(&buffer[..16 + address_length]);
                value = crc32c::crc32c_append(value, tlv_bytes);
                if expected_value != value {
                    log::warn!(
                        "invalid proxy protocol PP2_TYPE_CRC32C value={value}, expected={expected_value}"
                    );
                    return Err(io::ErrorKind::InvalidData.into());
                }
''', 'check_crc(&buffer[..16 + address_length], tlv_bytes, offset, length)?;\n'), ('// * Parse `PP2_TYPE_SSL`', '''fn check_crc(head: &[u8], tlvs: &mut [u8], at: usize, length: usize) -> io::Result<()> {
    if length != 4 {
        return Err(io::ErrorKind::InvalidData.into());
    }
    let mut raw = [0u8; 4];
    raw.copy_from_slice(&tlvs[at..at + 4]);
    tlvs[at..at + 4].fill(0);
    let value = crc32c::crc32c_append(crc32c::crc32c(head), tlvs);
    if u32::from_be_bytes(raw) == value {
        Ok(())
    } else {
        Err(io::ErrorKind::InvalidData.into())
    }
}

// * Parse `PP2_TYPE_SSL`''')], P),
('=rest3', PX, [('        let rest_len = remaining_len - offset;\n        if rest_len < 3 {', '        let Some(rest_len) = (remaining_len - offset).checked_sub(3) else {'), ('if rest_len < 3 + length {', 'if rest_len < length {')], P),
('=slicepat', PX, [('        let tlv_type = tlv_bytes[offset];\n        let length = u16::from_be_bytes([tlv_bytes[offset + 1], tlv_bytes[offset + 2]]) as usize;', '        let [tlv_type, hi, lo] = tlv_bytes[offset..offset + 3] else {\n            unreachable!()\n        };\n        let length = u16::from_be_bytes([hi, lo]) as usize;')], P),
('=getslice', PX, [('        let rest_len = remaining_len - offset;\n        if rest_len < 3 {\n            log::warn!("invalid proxy protocol tlv data: {:?}", tlv_bytes);\n            return Err(io::ErrorKind::InvalidData.into());\n        }\n        let tlv_type = tlv_bytes[offset];\n        let length = u16::from_be_bytes([tlv_bytes[offset + 1], tlv_bytes[offset + 2]]) as usize;', '        let rest_len = remaining_len - offset;\n        let Some(head) = tlv_bytes.get(offset..offset + 3) else {\n            return Err(io::ErrorKind::InvalidData.into());\n        };\n        let tlv_type = head[0];\n        let length = u16::from_be_bytes([head[1], head[2]]) as usize;')], P),
('=ifchain', PX, [('match tlv_type {\n            // PP2_TYPE_AUTHORITY\n            0x02 => {', 'if tlv_type == 0x02 {'), ('            // PP2_TYPE_CRC32C\n            0x03 => {', '            else if tlv_type == 0x03 {'), ('            // PP2_TYPE_SSL\n            0x20 => {', '            else if tlv_type == 0x20 {'), ('            // Ignore other types\n            _ => {}\n        }\n        offset += length;', '        offset += length;')], P),
('=seenbits', PX, [('let mut pp2_type_ssl = false;\n    let mut pp2_type_authority = false;', 'let mut seen = 0u8;'), ('pp2_type_authority = true;', 'seen |= 2;'), ('pp2_type_ssl = true;', 'seen |= 1;'), ('    if tls_termination {\n        if !pp2_type_ssl {', '    let (pp2_type_ssl, pp2_type_authority) = (seen & 1 != 0, seen & 2 != 0);\n    if tls_termination {\n        if !pp2_type_ssl {')], P),
('=tailcmp', PX, [('    if tls_termination {\n        if !pp2_type_ssl {', '    if pp2_type_ssl != tls_termination || pp2_type_authority != tls_termination {\n        return Err(io::ErrorKind::InvalidData.into());\n    }\n    if tls_termination {\n        if !pp2_type_ssl {')], P),
('=consts', PX, [('            0x02 => {\n                if length == 0', '            PP2_TYPE_AUTHORITY => {\n                if length == 0'), ('// * Parse `PP2_TYPE_SSL`', 'const PP2_TYPE_AUTHORITY: u8 = 0x02;\n\n// * Parse `PP2_TYPE_SSL`')], P),
('=loopret', PX, [('    while offset < remaining_len {\n        let rest_len = remaining_len - offset;', '    loop {\n        let rest_len = remaining_len.saturating_sub(offset);\n        if rest_len == 0 {\n            break;\n        }')], P),
('=addrfn', PX, [('        AddressFamily::IPv4 => {\n            let source_address', '        AddressFamily::IPv4 => parse_v4(bytes),\n        AddressFamily::IPv6 if false => {\n            let source_address'), ('// * Parse `PP2_TYPE_SSL`', '''fn parse_v4(bytes: &[u8]) -> Addresses {
    let ip = |at: usize| Ipv4Addr::new(bytes[at], bytes[at + 1], bytes[at + 2], bytes[at + 3]);
    Addresses::IPv4 {
        source_address: ip(0),
        source_port: u16::from_be_bytes([bytes[8], bytes[9]]),
        destination_address: ip(4),
        destination_port: u16::from_be_bytes([bytes[10], bytes[11]]),
    }
}

// * Parse `PP2_TYPE_SSL`''')], P),
('=famlen', PX, [('match byte_14th & LEFT_MASK {\n        // Unspecified (0x00) is not supported\n        0x10 => AddressFamily::IPv4,', 'match byte_14th >> 4 {\n        0x1 => AddressFamily::IPv4,'), ('        0x20 => AddressFamily::IPv6,\n        0x30 => AddressFamily::Unix,', '        0x2 => AddressFamily::IPv6,\n        0x3 => AddressFamily::Unix,')], P),
('=whole13', PX, [('    match byte_13th & LEFT_MASK {\n        0x20 => {}', '    match byte_13th {\n        0x20..=0x2F => {}')], P),
]
