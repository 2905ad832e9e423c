P = 'akasa-core/src/protocols/mqtt/'
U = P + 'auth.rs'
A, B, C, D = ['A01'], ['A02'], ['A03'], ['A04']
MUTS = [
 ('alg-swap', U, 'let mut ctx = Context::new(&SHA512);\n                ctx.update(password);\n                ctx.update(&item.salt);', 'let mut ctx = Context::new(&SHA256);\n                ctx.update(password);\n                ctx.update(&item.salt);', A),
 ('salt-first', U, 'ctx.update(password);\n                ctx.update(&item.salt);', 'ctx.update(&item.salt);\n                ctx.update(password);', A),
 ('prefix', U, 'ctx.finish().as_ref() == item.hashed_password\n            }\n            HashAlgorithm::Sha512 => {', 'item.hashed_password.starts_with(&ctx.finish().as_ref()[..8])\n            }\n            HashAlgorithm::Sha512 => {', A),
 ('iter', U, 'PBKDF2_HMAC_SHA512,\n                iterations,', 'PBKDF2_HMAC_SHA512,\n                NonZeroU32::MIN,', A),
 ('or-raw', U, 'ctx.finish().as_ref() == item.hashed_password\n            }\n            HashAlgorithm::Sha512 => {', 'ctx.finish().as_ref() == item.hashed_password || password == item.hashed_password\n            }\n            HashAlgorithm::Sha512 => {', A),
 ('unknown-empty', U, '    } else {\n        false\n    }\n}\n\npub fn hash', '    } else {\n        username.is_empty()\n    }\n}\n\npub fn hash', A),
 ('empty-hash', U, 'if let Some(item) = passwords.get(username) {', 'if let Some(item) = passwords.get(username) {\n        if item.hashed_password.is_empty() { return password.is_empty(); }', A),
 ('empty-pass', U, 'if let Some(item) = passwords.get(username) {', 'if password.is_empty() { return false; }\n    if let Some(item) = passwords.get(username) {', A),
 ('lower', U, 'passwords.get(username) {', 'passwords.get(username.trim()) {', A),
 ('outlen', U, 'vec![0u8; SHA512_OUTPUT_LEN]', 'vec![0u8; SHA256_OUTPUT_LEN]', A),
 ('is-err', U, '&item.hashed_password,\n            )\n            .is_ok(),\n        }', '&item.hashed_password,\n            )\n            .is_ok() || iterations.get() > 1_000_000,\n        }', A),
 ('=check-hash', U, "match item.hash_algorithm {\n            HashAlgorithm::Sha256 => {\n                let mut ctx = Context::new(&SHA256);\n                ctx.update(password);\n                ctx.update(&item.salt);\n                ctx.finish().as_ref() == item.hashed_password\n            }", "match item.hash_algorithm {\n            HashAlgorithm::Sha256 => {\n                hash_password(HashAlgorithm::Sha256, &item.salt, password) == item.hashed_password\n            }", A),
 ('=check-let', U, "if let Some(item) = passwords.get(username) {", "let Some(item) = passwords.get(username) else {\n        return false;\n    };\n    {", A) if False else
 ('=check-once', U, "ctx.update(password);\n                ctx.update(&item.salt);\n                ctx.finish().as_ref() == item.hashed_password\n            }\n            HashAlgorithm::Sha512 => {", "let mut both = password.to_vec();\n                both.extend_from_slice(&item.salt);\n                ctx.update(&both);\n                let digest = ctx.finish();\n                item.hashed_password.as_slice() == digest.as_ref()\n            }\n            HashAlgorithm::Sha512 => {", A),
 ('dump-order', U, 'format!("{username}:sha512,{base64_salt},{base64_hashed_password}\\n")', 'format!("{username}:sha512,{base64_hashed_password},{base64_salt}\\n")', B),
 ('dump-name', U, '{username}:sha512-pkbdf2,{iterations}', '{username}:sha512-pbkdf2,{iterations}', B),
 ('dump-nl', U, '{base64_salt},{base64_hashed_password}\\n"\n                )\n            }\n        };', '{base64_salt},{base64_hashed_password}"\n                )\n            }\n        };', B),
 ('dump-flush', U, '    writer.flush()\n', '    Ok(())\n', B),
 ('dump-skip', U, 'let line = match hash_algorithm {', 'if username.is_empty() { continue; }\n        let line = match hash_algorithm {', B),
 ('dump-stop', U, 'let line = match hash_algorithm {', 'if hashed_password.is_empty() { break; }\n        let line = match hash_algorithm {', B),
 ('load-salt', U, 'if salt.len() < MIN_SALT_LEN {', 'if salt.len() < MIN_SALT_LEN && !salt.is_empty() {', B),
 ('load-min', U, 'MIN_SALT_LEN: usize = 12', 'MIN_SALT_LEN: usize = 8', B),
 ('load-colon', U, "text.rsplit_once(':')", "text.split_once(':')", B),
 ('load-alg', U, '"sha512" => HashAlgorithm::Sha512,', '"sha512" => HashAlgorithm::Sha256,', B),
 ('load-idx', U, 'let salt = parse_salt(passwd_parts[2])?;\n                    let hashed_password = parse_hashed_password(passwd_parts[3])?;', 'let salt = parse_salt(passwd_parts[3])?;\n                    let hashed_password = parse_hashed_password(passwd_parts[2])?;', B),
 ('load-skip', U, '            if passwd_parts.len() < 3 {\n                log::error!("invalid password part (line#{}): {}", line_num, line);\n                return Err(io::ErrorKind::InvalidData.into());', '            if passwd_parts.len() < 3 {\n                log::error!("invalid password part (line#{}): {}", line_num, line);\n                continue;', B),
 ('load-first', U, 'passwords.insert(username.to_owned(), item);', 'if !passwords.contains_key(username) { passwords.insert(username.to_owned(), item); }', B),
 ('load-comment', U, 'if text.is_empty() {', "if text.is_empty() || text.starts_with('#') {", B),
 ('load-count', U, 'if passwd_parts.len() != 4 {', 'if passwd_parts.len() < 4 {', B),
 ('=dump-write', U, '''        let base64_salt = STANDARD_NO_PAD.encode(salt);
''', '''        let base64_salt = STANDARD_NO_PAD.encode(salt.as_slice());
''', B),
 ('=dump-name', U, '''        let line = match hash_algorithm {
            HashAlgorithm::Sha256 => {
                format!("{username}:sha256,{base64_salt},{base64_hashed_password}\\n")
            }''', '''        let line = match hash_algorithm {
            HashAlgorithm::Sha256 => {
                let mut s = String::new();
                s.push_str(username);
                s.push_str(":sha256,");
                s.push_str(&base64_salt);
                s.push(',');
                s.push_str(&base64_hashed_password);
                s.push('\\n');
                s
            }''', B),
 ('=load-helper', U, '''                Ok(salt) => {
                    if salt.len() < MIN_SALT_LEN {
                        log::error!("password salt not enough(line#{}): {}", line_num, line);
                        Err(io::ErrorKind::InvalidData.into())
                    } else {
                        Ok(salt)
                    }
                }''', '''                Ok(salt) if salt.len() >= MIN_SALT_LEN => Ok(salt),
                Ok(_) => {
                    log::error!("password salt not enough(line#{}): {}", line_num, line);
                    Err(io::ErrorKind::InvalidData.into())
                }''', B),
 ('=load-match', U, '''        if text.is_empty() {
            log::debug!("skip empty password line: #{}", line_num);
        } else if let''', '''        if text.is_empty() {
            log::debug!("skip empty password line: #{}", line_num);
            continue;
        }
        if let''', B),
]
