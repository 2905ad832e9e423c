PX='akasa-core/src/server/proxy.rs'
SS='akasa-core/src/protocols/scram/server.rs'
SC='akasa-core/src/protocols/scram/client.rs'
SM='akasa-core/src/protocols/scram/mod.rs'
P=['P01','P02','P03','P04','P05','P06']
S=['S01','S02','S03','S04','S05','S06','S07','S08','S09']
MUTS=[
('px-ver', PX, 'match byte_13th & LEFT_MASK {\n        0x20 => {}', 'match byte_13th & LEFT_MASK {\n        0x20 | 0x30 => {}', P),
('px-local', PX, 'if !(byte_14th == 0 && extra_length == 0)', 'if !(byte_14th == 0 || extra_length == 0)', P),
('px-len', PX, 'if extra_length < address_length {', 'if extra_length + 4 < address_length {', P),
('px-port', PX, 'let source_port = u16::from_be_bytes([bytes[8], bytes[9]]);', 'let source_port = u16::from_le_bytes([bytes[8], bytes[9]]);', P),
('px-v6', PX, 'address[..].copy_from_slice(&bytes[16..32]);', 'address[..].copy_from_slice(&bytes[15..31]);', P),
('px-unix', PX, 'destination[..].copy_from_slice(&bytes[108..]);', 'destination[..107].copy_from_slice(&bytes[108..215]);', P),
('px-crc-nozero', PX, 'tlv_bytes[offset + 3] = 0;', '', P),
('px-crc-hdr', PX, 'crc32c::crc32c(&buffer[..16 + address_length])', 'crc32c::crc32c(&buffer[..address_length])', P),
('px-crc-skip', PX, 'if expected_value != value {', 'if expected_value != value && tls_termination {', P),
('px-ssl-verify', PX, 'tlv_bytes[offset + 1..offset + 5] != [0u8; 4]', 'tlv_bytes[offset + 1..offset + 4] != [0u8; 3]', P),
('px-tls-none', PX, '        if pp2_type_authority {\n', '        if pp2_type_authority && false {\n', P),
('px-tls-auth', PX, '        if !pp2_type_authority {\n', '        if !pp2_type_authority && tls_sni.is_some() {\n', P),
('px-step', PX, '        offset += length;\n    }', '        offset += length.min(200);\n    }', P),
('px-tlvlen', PX, 'if rest_len < 3 + length {', 'if rest_len < length {', P),
('px-read', PX, 'let mut tlv_bytes_buf = [0u8; 256];', 'let mut tlv_bytes_buf = [0u8; 256];\n    let remaining_len = remaining_len.min(128);', P),
('px-300', PX, 'if remaining_len > 256 {', 'if remaining_len > 260 {', P),
('px-sig', PX, 'if &prefix[..PROTOCOL_PREFIX.len()] != PROTOCOL_PREFIX', 'if prefix[..11] != PROTOCOL_PREFIX[..11]', P),
('px-sslminlen', PX, 'if length < 5 {', 'if length < 4 {', P),
('px-proto', PX, '0x02 => Protocol::Datagram,', '0x02 | 0x03 => Protocol::Datagram,', P),
('px-nolen0', PX, 'if length == 0 {', 'if false {', P),
# behaviour preserving
('=px-while-loop', PX, 'while offset < remaining_len {', 'loop {\n        if offset >= remaining_len {\n            break;\n        }', P),
('=px-nofinal', PX, 'if offset != remaining_len {', 'if offset > remaining_len {', P),
('=px-helper', PX, [('    let address_length = match address_family {\n        AddressFamily::IPv4 => IPV4_ADDRS_LEN,\n        AddressFamily::IPv6 => IPV6_ADDRS_LEN,\n        AddressFamily::Unix => UNIX_ADDRS_LEN,\n    };','    let address_length = addrlen(address_family);'),('fn parse_addresses(','fn addrlen(f: AddressFamily) -> usize {\n    match f {\n        AddressFamily::IPv4 => IPV4_ADDRS_LEN,\n        AddressFamily::IPv6 => IPV6_ADDRS_LEN,\n        AddressFamily::Unix => UNIX_ADDRS_LEN,\n    }\n}\n\nfn parse_addresses(')], None, P),
('=px-fill', PX, 'tlv_bytes[offset] = 0;\n                tlv_bytes[offset + 1] = 0;\n                tlv_bytes[offset + 2] = 0;\n                tlv_bytes[offset + 3] = 0;', 'tlv_bytes[offset..offset + 4].fill(0);', P),
('=px-fori', PX, 'tlv_bytes[offset] = 0;\n                tlv_bytes[offset + 1] = 0;\n                tlv_bytes[offset + 2] = 0;\n                tlv_bytes[offset + 3] = 0;', 'for i in 0..4 {\n                    tlv_bytes[offset + i] = 0;\n                }', P),
('=px-tryinto', PX, 'let source_port = u16::from_be_bytes([bytes[8], bytes[9]]);', 'let source_port = ((bytes[8] as u16) << 8) | bytes[9] as u16;', P),
('=px-tryinto2', PX, 'let source_address = Ipv4Addr::new(bytes[0], bytes[1], bytes[2], bytes[3]);', 'let a4: [u8; 4] = bytes[..4].try_into().unwrap();\n            let source_address = Ipv4Addr::from(a4);', P),
('=px-startswith', PX, 'if &prefix[..PROTOCOL_PREFIX.len()] != PROTOCOL_PREFIX', 'if !prefix.starts_with(PROTOCOL_PREFIX)', P),
('=px-verall', PX, 'tlv_bytes[offset + 1..offset + 5] != [0u8; 4]', 'tlv_bytes[offset + 1..offset + 5].iter().any(|b| *b != 0)', P),
('=px-veru32', PX, 'tlv_bytes[offset + 1..offset + 5] != [0u8; 4]', 'u32::from_be_bytes([tlv_bytes[offset + 1], tlv_bytes[offset + 2], tlv_bytes[offset + 3], tlv_bytes[offset + 4]]) != 0', P),
('=px-valstart', PX, [('        offset += 3;\n        if rest_len < 3 + length {','        let offset0 = offset;\n        let _ = offset0;\n        offset += 3;\n        if rest_len - 3 < length {')], None, P),
('=px-flags', PX, '        if !pp2_type_ssl {', '        let missing_ssl = !pp2_type_ssl;\n        if missing_ssl {', P),
]
