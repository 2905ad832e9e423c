SS='akasa-core/src/protocols/scram/server.rs'
SC='akasa-core/src/protocols/scram/client.rs'
SM='akasa-core/src/protocols/scram/mod.rs'
S=['S01','S02','S03','S04','S05','S06','S07','S08','S09']
MUTS=[
('half-proof', SM, '.zip(client_key.as_ref().iter().zip(client_signature.as_ref()))', '.zip(client_key.as_ref()[..16].iter().zip(client_signature.as_ref()))', S),
('authz-trim', SS, 'Some(az) if authcid != az => (', 'Some(az) if authcid.trim() != az.trim() => (', S),
('authz-suffix', SS, 'Some(az) if authcid != az => (', 'Some(az) if !authcid.starts_with(az.as_str()) => (', S),
('gs2-lenient', SS, 'if STANDARD.encode(gs2header.as_bytes()) != gs2header_enc {', 'if STANDARD.decode(gs2header_enc).map_or(false, |d| d != gs2header.as_bytes()) {', S),
('=gs2-decode', SS, 'if STANDARD.encode(gs2header.as_bytes()) != gs2header_enc {', 'if STANDARD.decode(gs2header_enc).map_or(true, |d| d != gs2header.as_bytes()) {', S),
('gs2-first', SS, 'if STANDARD.encode(gs2header.as_bytes()) != gs2header_enc {', 'if STANDARD.encode(&gs2header.as_bytes()[..1]) != gs2header_enc {', S),
('nonce-case', SS, 'if recv_nonce != nonce {', 'if !recv_nonce.eq_ignore_ascii_case(&nonce) {', S),
('nonce-len', SS, 'if recv_nonce != nonce {', 'if recv_nonce.len() != nonce.len() {', S),
('nonce-prefix', SS, 'if recv_nonce != nonce {', 'if !recv_nonce.starts_with(nonce.as_str()) {', S),
('nonce-retry', SS, '        if recv_nonce != nonce {\n', '        if recv_nonce != nonce {\n            *self = ScramServer::WaitingForClientFinal { hashed_password, nonce, gs2header, client_first_bare, server_first, authcid, authzid };\n', S),
('iter-u8', SS, 'STANDARD.encode(salt), iterations);', 'STANDARD.encode(salt), iterations as u8);', S),
('iter-max', SS, 'STANDARD.encode(salt), iterations);', 'STANDARD.encode(salt), iterations.min(10000));', S),
('alpha-del', SS, 'Uniform::try_from(33..125)', 'Uniform::try_from(33..127)', S),
('alpha-comma2', SS, 'if x > 43 { (x + 1) as char } else { x as char }', 'if x >= 45 { (x + 1) as char } else { x as char }', S),
('alpha-one', SS, 'Uniform::try_from(33..125)', 'Uniform::try_from(33..34)', S),
('client-alpha-one', SC, 'Uniform::try_from(33..125)', 'Uniform::try_from(48..49)', S),
('nonce-len-sub', SS, '.take(NONCE_LENGTH),', '.take(NONCE_LENGTH.saturating_sub(client_nonce.len())),', S),
('splitn4', SS, "let mut parts = data.split(',');\n\n        let token", "let mut parts = data.splitn(4, ',');\n\n        let token", S),
('splitn3-final', SS, "fn parse_client_final(data: &str) -> Result<(&str, &str, &str), Error> {\n    let mut parts = data.split(',');", "fn parse_client_final(data: &str) -> Result<(&str, &str, &str), Error> {\n    let mut parts = data.rsplit(',');", S),
('client-nonce-contains', SC, '!nonce.starts_with(client_nonce.as_str())', '!nonce.contains(client_nonce.as_str())', S),
('client-nonce-len', SC, '!nonce.starts_with(client_nonce.as_str())', 'nonce.len() < client_nonce.len()', S),
('client-sig-zip', SC, 'if server_signature.as_ref() == received.as_slice() {', 'if server_signature.as_ref().iter().zip(&received).all(|(a, b)| a == b) {', S),
('client-sig-prefix', SC, 'if server_signature.as_ref() == received.as_slice() {', 'if server_signature.as_ref().starts_with(&received) {', S),
('client-final-state', SC, '            Err(Error::InvalidServer)\n', '            *self = ScramClient::WaitingForServerFinal { server_signature };\n            Err(Error::InvalidServer)\n', S),
('client-iter-min', SC, 'hash_password(password, iterations, &salt)', 'hash_password(password, iterations.min(NonZeroU32::new(4096).unwrap()), &salt)', S),
('client-salt-lossy', SC, "            .map_err(|_| Error::Protocol(Kind::InvalidField(Field::Salt)))?,", "            .unwrap_or_default(),", S),
('client-retry-first', SC, 'let (nonce, salt, iterations) = parse_server_first(server_first)?;', 'let (nonce, salt, iterations) = match parse_server_first(server_first) {\n            Ok(x) => x,\n            Err(e) => {\n                *self = ScramClient::WaitingForServerFirst { gs2header, password, client_nonce, client_first_bare };\n                return Err(e);\n            }\n        };', S),
('gs2-unescaped', SS, 'let gs2header = format!("{},{},", token, authzid_part.unwrap_or_default());', 'let gs2header = match &authzid { Some(az) => format!("{},a={},", token, az), None => format!("{},,", token) };', S),
('bare-skip', SS, 'let client_first_bare = data[gs2header.len()..].to_owned();', 'let client_first_bare = data[gs2header.len().min(data.len())..].trim_end().to_owned();', S),
('authcid-lower', SS, 'let authcid = unescape_name(&next_field(&mut parts, Field::Authcid, b"n=")?);', 'let authcid = unescape_name(&next_field(&mut parts, Field::Authcid, b"n=")?).to_lowercase();', S),
('y-flag', SS, "(c == 'n' || c == 'y')", "c == 'n'", S),
('authz-empty', SS, 'Some("") => None,', 'Some("") | Some("a=") => None,', S),
('final-first', SS, '                other => {\n                    *self = other;\n                    return Err(Error::InvalidState);\n                }\n            };\n\n        let (gs2', '                _ => return Err(Error::InvalidState),\n            };\n\n        let (gs2', S),
('keep-authz', SS, '            server_first: server_first.clone(),\n            authcid,\n            authzid,', '            server_first: server_first.clone(),\n            authzid: authzid.filter(|z| z.len() != authcid.len()),\n            authcid,', S),
('restart-first', SS, '    pub fn decode_client_first(&mut self, data: &str) -> Result<(), Error> {\n', '    pub fn decode_client_first(&mut self, data: &str) -> Result<(), Error> {\n        *self = ScramServer::New;\n', S),
('status-swap', SS, 'AuthenticationStatus::NotAuthenticated,\n                "e=Inv', 'AuthenticationStatus::NotAuthorized,\n                "e=Inv', S),
('sig-leak', SS, 'format!("e=User \'{}\' not authorized to act as \'{}\'", authcid, az),', 'server_sig,', S),
('proof-any-err', SS, '''            .map_err(|_| Error::Protocol(Kind::InvalidField(Field::Proof)))?;''', '''            .unwrap_or_else(|_| client_proof.to_vec());''', S),
('escape-comma', SM, '''name.replace('=', "=3D").replace(',', "=2C")''', '''name.replace(',', "=2C").replace('=', "=3D")''', S),
('unescape-order', SM, '''name.replace("=2C", ",").replace("=3D", "=")''', '''name.replace("=3D", "=").replace("=2C", ",")''', S),
('server-key', SM, 'digest(&digest::SHA256, client_key.as_ref())', 'digest(&digest::SHA256, server_key.as_ref())', S),
('auth-order', SM, '        client_first_bare.as_bytes(),\n        b",",\n        server_first.as_bytes(),', '        server_first.as_bytes(),\n        b",",\n        client_first_bare.as_bytes(),', S),
('auth-skip', SM, 'for part in parts {', 'for part in parts.iter().skip(1) {', S),
('auth-nogs2', SM, 'format!("c={},r={}", STANDARD.encode(gs2header.as_bytes()), nonce)', 'format!("c=biws,r={}", nonce)', S),
('wait-no-gs', SC, 'STANDARD.encode(gs2header.as_bytes()),\n            nonce,', 'STANDARD.encode(gs2header.as_bytes()),\n            client_nonce,', S),
('hash-iter1', SM, '        iterations,\n        salt,', '        NonZeroU32::MIN,\n        salt,', S),
('hash-salt', SM, '        salt,\n        password.as_bytes(),', '        &salt[..salt.len().min(8)],\n        password.as_bytes(),', S),
# behaviour preserving
('=ct', SS, 'if proof_bytes != client_proof {', 'if ring::constant_time::verify_slices_are_equal(&proof_bytes, &client_proof).is_err() {', S),
('=fold', SS, 'if proof_bytes != client_proof {', 'if proof_bytes.len() != client_proof.len() || proof_bytes.iter().zip(client_proof.iter()).fold(0u8, |a, (x, y)| a | (x ^ y)) != 0 {', S),
('=any', SS, 'if proof_bytes != client_proof {', 'if proof_bytes.len() != client_proof.len() || proof_bytes.iter().zip(client_proof.iter()).any(|(x, y)| x != y) {', S),
('=fromfn', SM, '''    let mut client_proof = [0u8; SHA256_OUTPUT_LEN];
    for (p, (k, s)) in client_proof
        .iter_mut()
        .zip(client_key.as_ref().iter().zip(client_signature.as_ref()))
    {
        *p = k ^ s;
    }
''', '''    let client_proof: [u8; SHA256_OUTPUT_LEN] =
        std::array::from_fn(|i| client_key.as_ref()[i] ^ client_signature.as_ref()[i]);
''', S),
('=index', SM, '''    for (p, (k, s)) in client_proof
        .iter_mut()
        .zip(client_key.as_ref().iter().zip(client_signature.as_ref()))
    {
        *p = k ^ s;
    }
''', '''    let (key_bytes, sig_bytes) = (client_key.as_ref(), client_signature.as_ref());
    for i in 0..SHA256_OUTPUT_LEN {
        client_proof[i] = key_bytes[i] ^ sig_bytes[i];
    }
''', S),
('=copyxor', SM, '''    for (p, (k, s)) in client_proof
        .iter_mut()
        .zip(client_key.as_ref().iter().zip(client_signature.as_ref()))
    {
        *p = k ^ s;
    }
''', '''    client_proof.copy_from_slice(client_key.as_ref());
    for (p, s) in client_proof.iter_mut().zip(client_signature.as_ref()) {
        *p ^= s;
    }
''', S),
('=authmsg-fmt', SM, '''    let auth_message: &[&[u8]] = &[
        client_first_bare.as_bytes(),
        b",",
        server_first.as_bytes(),
        b",",
        client_final_without_proof.as_bytes(),
    ];
''', '''    let joined = format!("{},{},{}", client_first_bare, server_first, client_final_without_proof);
    let auth_message: &[&[u8]] = &[joined.as_bytes()];
''', S),
('=authmsg-join', SM, '''    let auth_message: &[&[u8]] = &[
        client_first_bare.as_bytes(),
        b",",
        server_first.as_bytes(),
        b",",
        client_final_without_proof.as_bytes(),
    ];
''', '''    let joined = [client_first_bare, server_first, &client_final_without_proof].join(",");
    let auth_message: &[&[u8]] = &[joined.as_bytes()];
''', S),
('=authmsg-push', SM, '''    let auth_message: &[&[u8]] = &[
        client_first_bare.as_bytes(),
        b",",
        server_first.as_bytes(),
        b",",
        client_final_without_proof.as_bytes(),
    ];
''', '''    let mut joined = String::with_capacity(client_first_bare.len() + server_first.len() + 2);
    joined.push_str(client_first_bare);
    joined.push(',');
    joined += server_first;
    joined.push(',');
    joined.push_str(&client_final_without_proof);
    let auth_message: &[&[u8]] = &[joined.as_bytes()];
''', S),
('=stripfinal', SS, '''        Some(p) if p.len() >= 2 && &p.as_bytes()[..2] == prefix => Ok(&p[2..]),
        _ => Err(Error::Protocol(Kind::ExpectedField(field))),''', '''        Some(p) => match p.as_bytes().strip_prefix(prefix) {
            Some(_) => Ok(&p[prefix.len()..]),
            None => Err(Error::Protocol(Kind::ExpectedField(field))),
        },
        None => Err(Error::Protocol(Kind::ExpectedField(field))),''', S),
('=okor', SS, '''    match parts.next() {
        Some(p) if p.len() >= 2 && &p.as_bytes()[..2] == prefix => Ok(&p[2..]),
        _ => Err(Error::Protocol(Kind::ExpectedField(field))),
    }''', '''    parts
        .next()
        .filter(|p| p.as_bytes().starts_with(prefix))
        .map(|p| &p[2..])
        .ok_or(Error::Protocol(Kind::ExpectedField(field)))''', S),
('=noncechar', SS, 'nonce.push_str(&client_nonce);\n        nonce.extend(', 'nonce += &client_nonce;\n        nonce.extend(', S),
('=nonceclone', SS, 'let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);\n        nonce.push_str(&client_nonce);', 'let mut nonce = client_nonce;', S),
('=noncecollect', SS, '''        let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);
        nonce.push_str(&client_nonce);
        nonce.extend(
            Uniform::try_from(33..125)
                .unwrap()
                .sample_iter(rng)
                .map(|x: u8| if x > 43 { (x + 1) as char } else { x as char })
                .take(NONCE_LENGTH),
        );
''', '''        let suffix: String = Uniform::try_from(33..125)
            .unwrap()
            .sample_iter(rng)
            .take(NONCE_LENGTH)
            .map(|x: u8| (if x > 43 { x + 1 } else { x }) as char)
            .collect();
        let nonce = format!("{client_nonce}{suffix}");
''', S),
('=nonce-inclusive', SS, 'Uniform::try_from(33..125)', 'Uniform::try_from(33..=124)', S),
('=nonce-new', SS, 'Uniform::try_from(33..125)', 'Uniform::new(33u8, 125)', S),
('=nonce-matchc', SS, 'if x > 43 { (x + 1) as char } else { x as char }', 'match x { 0..=43 => x as char, _ => (x + 1) as char }', S),
('=bareslice', SS, 'let client_first_bare = data[gs2header.len()..].to_owned();', 'let (_, client_first_bare) = data.split_at(gs2header.len());\n        let client_first_bare = String::from(client_first_bare);', S),
('=bareafter', SS, 'let gs2header = format!("{},{},", token, authzid_part.unwrap_or_default());\n        let client_first_bare = data[gs2header.len()..].to_owned();', 'let header_len = token.len() + authzid_part.map_or(0, str::len) + 2;\n        let gs2header = data[..header_len].to_string();\n        let client_first_bare = data[header_len..].to_string();', S),
('=takehelper', SS, [('        let (authcid, authzid, client_nonce, gs2header, client_first_bare) =\n            match std::mem::replace(self, ScramServer::Done) {', '        let (authcid, authzid, client_nonce, gs2header, client_first_bare) =\n            match self.take_state() {'), ('    pub fn authcid(&self)', '    fn take_state(&mut self) -> ScramServer {\n        std::mem::replace(self, ScramServer::Done)\n    }\n\n    pub fn authcid(&self)')], S),
('=statusif', SS, '''        let (status, message) = match authzid {
            Some(az) if authcid != az => (
                AuthenticationStatus::NotAuthorized,
                format!("e=User '{}' not authorized to act as '{}'", authcid, az),
            ),
            _ => (AuthenticationStatus::Authenticated, server_sig),
        };
        Ok((status, message))''', '''        if let Some(az) = authzid.filter(|az| *az != authcid) {
            return Ok((
                AuthenticationStatus::NotAuthorized,
                format!("e=User '{authcid}' not authorized to act as '{az}'"),
            ));
        }
        Ok((AuthenticationStatus::Authenticated, server_sig))''', S),
('=statuscmp', SS, 'Some(az) if authcid != az => (', 'Some(az) if az.as_bytes() != authcid.as_bytes() => (', S),
('=proofearly', SS, [('        let proof_bytes = STANDARD\n            .decode(proof.as_bytes())\n            .map_err(|_| Error::Protocol(Kind::InvalidField(Field::Proof)))?;\n\n', ''), ('        let (client_proof, server_sig): ([u8', '        let Ok(proof_bytes) = STANDARD.decode(proof) else {\n            return Err(Error::Protocol(Kind::InvalidField(Field::Proof)));\n        };\n        let (client_proof, server_sig): ([u8')], S),
('=clientfinalmatch', SC, '''    match &data.as_bytes()[..2] {
        b"v=" => STANDARD
            .decode(&data.as_bytes()[2..])
            .map_err(|_| Error::Protocol(Kind::InvalidField(Field::VerifyOrError))),
        b"e=" => Err(Error::Authentication(data[2..].to_string())),
        _ => Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError))),
    }''', '''    if let Some(v) = data.strip_prefix("v=") {
        STANDARD
            .decode(v)
            .map_err(|_| Error::Protocol(Kind::InvalidField(Field::VerifyOrError)))
    } else if let Some(e) = data.strip_prefix("e=") {
        Err(Error::Authentication(e.to_owned()))
    } else {
        Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError)))
    }''', S),
('=clientfirststrip', SC, '''        Some(p) if p.as_bytes().starts_with(b"r=") => &p[2..],
        _ => return''', '''        Some(p) if p.starts_with("r=") => p.strip_prefix("r=").unwrap_or(p),
        _ => return''', S),
('=clientletelse', SC, '''    let nonce = match parts.next() {
        Some(p) if p.as_bytes().starts_with(b"r=") => &p[2..],
        _ => return Err(Error::Protocol(Kind::ExpectedField(Field::Nonce))),
    };''', '''    let Some(nonce) = parts.next().and_then(|p| p.strip_prefix("r=")) else {
        return Err(Error::Protocol(Kind::ExpectedField(Field::Nonce)));
    };''', S),
('=clienthelper', SC, [('''        Some(p) if p.as_bytes().starts_with(b"i=") => p[2..]
            .parse()
            .map_err(|_| Error::Protocol(Kind::InvalidField(Field::Iterations)))?,''', '''        Some(p) if p.as_bytes().starts_with(b"i=") => parse_iterations(&p[2..])?,'''), ('fn parse_server_final', '''fn parse_iterations(text: &str) -> Result<NonZeroU32, Error> {
    match text.parse::<NonZeroU32>() {
        Ok(n) => Ok(n),
        Err(_) => Err(Error::Protocol(Kind::InvalidField(Field::Iterations))),
    }
}

fn parse_server_final''')], S),
('=itersu32', SC, '''            .parse()
            .map_err(|_| Error::Protocol(Kind::InvalidField(Field::Iterations)))?,''', '''            .parse::<u32>()
            .ok()
            .and_then(NonZeroU32::new)
            .ok_or(Error::Protocol(Kind::InvalidField(Field::Iterations)))?,''', S),
('=clientneq', SC, '''        if server_signature.as_ref() == received.as_slice() {
            Ok(())
        } else {
            Err(Error::InvalidServer)
        }''', '''        if &received[..] != server_signature.as_ref() {
            return Err(Error::InvalidServer);
        }
        Ok(())''', S),
('=clientfmt', SC, '''        let client_final = format!(
            "c={},r={},p={}",
            STANDARD.encode(gs2header.as_bytes()),
            nonce,
            STANDARD.encode(client_proof),
        );
''', '''        let mut client_final = String::from("c=");
        client_final += &STANDARD.encode(gs2header.as_bytes());
        client_final.push_str(",r=");
        client_final.push_str(nonce);
        client_final.push_str(",p=");
        STANDARD.encode_string(client_proof, &mut client_final);
''', S),
('=escloop', SM, '''    name.replace('=', "=3D").replace(',', "=2C")''', '''    let mut out = String::with_capacity(name.len());
    for c in name.chars() {
        match c {
            '=' => out.push_str("=3D"),
            ',' => out.push_str("=2C"),
            c => out.push(c),
        }
    }
    out''', S),
('=esccond', SM, '''    name.replace('=', "=3D").replace(',', "=2C")''', '''    if !name.contains(['=', ',']) {
        return name.to_owned();
    }
    name.replace('=', "=3D").replace(',', "=2C")''', S),
('=signctx', SM, '''        let mut ctx = Context::with_key(key);
        for part in parts {
            ctx.update(part);
        }
        ctx.sign()''', '''        hmac::sign(key, &parts.concat())''', S),
('=signforeach', SM, '''        for part in parts {
            ctx.update(part);
        }
''', '''        parts.iter().for_each(|part| ctx.update(part));
''', S),
('=digestctx', SM, '''digest(&digest::SHA256, client_key.as_ref())''', '''{
        let mut ctx = digest::Context::new(&digest::SHA256);
        ctx.update(client_key.as_ref());
        ctx.finish()
    }''', S),
]
