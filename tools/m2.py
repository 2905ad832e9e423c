SS='akasa-core/src/protocols/scram/server.rs'
SC='akasa-core/src/protocols/scram/client.rs'
SM='akasa-core/src/protocols/scram/mod.rs'
S=['S01','S02','S03','S04','S05','S06','S07','S08','S09']
MUTS=[
('sc-noproof', SS, 'if proof_bytes != client_proof {', 'if proof_bytes[..] != client_proof[..proof_bytes.len().min(32)] {', S),
('sc-nonce', SS, 'if recv_nonce != nonce {', 'if !nonce.starts_with(recv_nonce) {', S),
('sc-gs2', SS, 'if STANDARD.encode(gs2header.as_bytes()) != gs2header_enc {', 'if !gs2header_enc.is_empty() && STANDARD.encode(gs2header.as_bytes()) != gs2header_enc {', S),
('sc-authz', SS, 'Some(az) if authcid != az => (', 'Some(az) if authcid.len() != az.len() => (', S),
('sc-state', SS, '                other => {\n                    *self = other;\n                    return Err(Error::InvalidState);\n                }\n            };\n\n        let (gs2header_enc', '                other => {\n                    *self = other;\n                    return Err(Error::InvalidState);\n                }\n            };\n        *self = ScramServer::WaitingForClientFinal { hashed_password: hashed_password.clone(), nonce: nonce.clone(), gs2header: gs2header.clone(), client_first_bare: client_first_bare.clone(), server_first: server_first.clone(), authcid: authcid.clone(), authzid: authzid.clone() };\n\n        let (gs2header_enc', S),
('sc-first-any', SS, '    pub fn decode_client_first(&mut self, data: &str) -> Result<(), Error> {\n', '    pub fn decode_client_first(&mut self, data: &str) -> Result<(), Error> {\n        if matches!(self, ScramServer::Done) { *self = ScramServer::New; }\n', S),
('sc-noncelen', SS, '.take(NONCE_LENGTH),', '.take(NONCE_LENGTH / 4),', S),
('sc-alpha', SS, 'if x > 43 { (x + 1) as char }', 'if x > 44 { (x + 1) as char }', S),
('sc-iter', SS, 'let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations);', 'let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations.max(4096));', S),
('sc-token', SS, "if (c == 'n' || c == 'y') && token.len() == 1", "if (c == 'n' || c == 'y')", S),
('sc-key', SM, '"Client Key"', '"Client key"', S),
('sc-pbkdf', SM, 'PBKDF2_HMAC_SHA256', 'PBKDF2_HMAC_SHA512', S),
('sc-client-nonce', SC, 'starts_with', 'ends_with', S),
('sc-authcid-eq-ci', SS, 'Some(az) if authcid != az => (', 'Some(az) if !authcid.eq_ignore_ascii_case(&az) => (', S),
('sc-field2', SS, "if p.len() >= 2 && p.as_bytes()[..2] == *prefix {", "if p.len() >= 2 && p.as_bytes()[..1] == prefix[..1] {", S),
('sc-decode-ok-err', SS, '.map_err(|_| Error::Protocol(Kind::InvalidField(Field::Proof)))?;', '.unwrap_or_default();', S),
('sc-empty-proof', SS, 'if proof_bytes != client_proof {', 'if !proof_bytes.is_empty() && proof_bytes != client_proof {', S),
# preserving
('=sc-eqorder', SS, 'if recv_nonce != nonce {', 'if !(nonce.as_str() == recv_nonce) {', S),
('=sc-swap', SS, [('        if STANDARD.encode(gs2header.as_bytes()) != gs2header_enc {\n            return Err(Error::Protocol(Kind::InvalidField(Field::GS2Header)));\n        }\n',''),('            return Err(Error::Protocol(Kind::InvalidField(Field::Nonce)));\n        }\n','            return Err(Error::Protocol(Kind::InvalidField(Field::Nonce)));\n        }\n        let expected_header = STANDARD.encode(gs2header.as_bytes());\n        if expected_header != gs2header_enc {\n            return Err(Error::Protocol(Kind::InvalidField(Field::GS2Header)));\n        }\n')], None, S),
('=sc-match', SS, 'if proof_bytes != client_proof {', 'let ok = proof_bytes.as_slice() == &client_proof[..];\n        if !ok {', S),
('=sc-sf', SS, 'let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations);', 'let salt_b64 = STANDARD.encode(salt);\n        let mut server_first = format!("r={nonce},s={salt_b64}");\n        server_first.push_str(",i=");\n        server_first.push_str(&iterations.to_string());', S),
('=sc-noncefor', SS, 'let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);\n        nonce.push_str(&client_nonce);', 'let mut nonce = client_nonce.clone();', S),
('=sc-authzlet', SS, 'Some(az) if authcid != az => (', 'Some(ref az) if *az != authcid => (', S),
('=sc-iflet', SS, '''    match parts.next() {
        Some(p) if p.len() >= 2 && &p.as_bytes()[..2] == prefix => Ok(&p[2..]),
        _ => Err(Error::Protocol(Kind::ExpectedField(field))),
    }''','''    let Some(p) = parts.next() else {
        return Err(Error::Protocol(Kind::ExpectedField(field)));
    };
    if p.as_bytes().starts_with(prefix) {
        Ok(&p[2..])
    } else {
        Err(Error::Protocol(Kind::ExpectedField(field)))
    }''', S),
('=sc-helper', SS, [('        let (gs2header_enc, recv_nonce, proof) = parse_client_final(client_final)?;\n        if STANDARD.encode(gs2header.as_bytes()) != gs2header_enc {\n            return Err(Error::Protocol(Kind::InvalidField(Field::GS2Header)));\n        }\n        if recv_nonce != nonce {\n            return Err(Error::Protocol(Kind::InvalidField(Field::Nonce)));\n        }\n','        let (gs2header_enc, recv_nonce, proof) = parse_client_final(client_final)?;\n        check_hdr(&gs2header, gs2header_enc, recv_nonce, &nonce)?;\n'),('fn next_field(','fn check_hdr(h: &str, enc: &str, got: &str, want: &str) -> Result<(), Error> {\n    if STANDARD.encode(h.as_bytes()) != enc {\n        return Err(Error::Protocol(Kind::InvalidField(Field::GS2Header)));\n    }\n    if got != want {\n        return Err(Error::Protocol(Kind::InvalidField(Field::Nonce)));\n    }\n    Ok(())\n}\n\nfn next_field(')], None, S),
('=sc-strip', SS, "Some(p) if p.as_bytes().starts_with(b\"a=\") => Some(unescape_name(&p[2..])),\n            Some(_) =>", "Some(p) => match p.strip_prefix(\"a=\") {\n                Some(n) => Some(unescape_name(n)),\n                None => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),\n            },\n            #[allow(unreachable_patterns)]\n            Some(_) =>", S),
('=sc-tokmatch', SS, '''        match token.chars().next() {
            Some('p') => return Err(Error::UnsupportedExtension),
            Some(c) if (c == 'n' || c == 'y') && token.len() == 1 => {}
            _ => return''','''        if token.starts_with('p') {
            return Err(Error::UnsupportedExtension);
        }
        match token {
            "n" | "y" => {}
            _ => return''', S),
('=sc-take', SS, 'match std::mem::replace(self, ScramServer::Done) {\n                ScramServer::WaitingForClientFinal', 'match std::mem::replace(&mut *self, ScramServer::Done) {\n                ScramServer::WaitingForClientFinal', S),
('=sc-fp', SM, [('    fn sign_slice(key: &Key, parts: &[&[u8]]) -> hmac::Tag {\n        let mut ctx = Context::with_key(key);\n        for part in parts {\n            ctx.update(part);\n        }\n        ctx.sign()\n    }','    fn sign_slice(key: &Key, parts: &[&[u8]]) -> hmac::Tag {\n        hmac::sign(key, &parts.concat())\n    }')], None, S),
]
