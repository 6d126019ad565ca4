P='cli/lib/src/parse.rs'; R='cli/lib/src/process.rs'; Q='cli/lib/src/print.rs'
C='L01 L02 L03 L04 W06 E01 B02 V01'
src=lambda f: open('/repo/'+f).read()
def between(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
loop=between(P,"    while let Some(arg) = iter.next() {\n        match key_type {","    Ok(args)\n}\n\nfn command")
one=between(P,"        KeyNotation::One => {","        KeyNotation::Multiple => {")
# each argument converted by a helper
h1='''    if key_type == KeyType::Map {
        while let Some(key) = iter.next() {
            let value = iter.next().ok_or_else(|| ParseError::MapIncomplete {
                key: key.to_owned(),
            })?;

            args.extend([key, value].iter().map(|text| text.as_bytes().to_vec()));
        }
    } else {
        for arg in iter {
            args.push(input_arg(arg, key_type)?);
        }
    }

    Ok(args)
}

fn input_arg(arg: &str, key_type: KeyType) -> Result<Vec<u8>, ParseError> {
    let invalid = || ParseError::ArgumentInvalid {
        argument: arg.to_owned(),
        key_type,
    };

    Ok(match key_type {
        KeyType::Boolean => {
            let boolean: bool = arg.parse().map_err(|_| invalid())?;

            vec![u8::from(boolean)]
        }
        KeyType::Float => arg
            .parse::<f64>()
            .map_err(|_| invalid())?
            .to_be_bytes()
            .to_vec(),
        KeyType::Integer => match arg.parse::<i64>() {
            Ok(int) => int.to_be_bytes().to_vec(),
            Err(_) => return Err(invalid()),
        },
        _ => arg.as_bytes().to_vec(),
    })
}

fn command'''
tail="    Ok(args)\n}\n\nfn command"
dec=between(R,"        CommandId::Decrement => {","        CommandId::DecrementBy")
M=[
('rf3-helper',[(P,loop+tail,h1)],'',C),
('rf3-map-chunks',[(P,loop+tail,h1.replace('''        while let Some(key) = iter.next() {
            let value = iter.next().ok_or_else(|| ParseError::MapIncomplete {
                key: key.to_owned(),
            })?;

            args.extend([key, value].iter().map(|text| text.as_bytes().to_vec()));
        }
''','''        let rest: Vec<&str> = iter.collect();

        for pair in rest.chunks(2) {
            match pair {
                [key, value] => {
                    args.push(key.as_bytes().to_vec());
                    args.push(value.as_bytes().to_vec());
                }
                [key] => {
                    return Err(ParseError::MapIncomplete {
                        key: (*key).to_owned(),
                    })
                }
                _ => unreachable!(),
            }
        }
''').replace("for arg in iter {","for arg in iter {"))],'',C),
('rf3-collect',[(P,loop+tail,h1.replace('''        for arg in iter {
            args.push(input_arg(arg, key_type)?);
        }
''','''        let rest = iter
            .map(|arg| input_arg(arg, key_type))
            .collect::<Result<Vec<_>, _>>()?;

        args.extend(rest);
'''))],'',C),
('rf3-tryforeach',[(P,loop+tail,h1.replace('''        for arg in iter {
            args.push(input_arg(arg, key_type)?);
        }
''','''        iter.try_for_each(|arg| {
            args.push(input_arg(arg, key_type)?);

            Ok::<_, ParseError>(())
        })?;
'''))],'',C),
('rf3-keys-take',[(P,one,'''        notation @ KeyNotation::One | notation @ KeyNotation::Two => {
            let amount = if notation == KeyNotation::Two { 2 } else { 1 };

            for _ in 0..amount {
                match iter.next() {
                    Some(arg) => args.push(arg.as_bytes().to_vec()),
                    None => return Err(ParseError::KeyUnspecified),
                }
            }
        }
''')],'',C),
('rf3-keys-collect',[(P,one,'''        KeyNotation::One => {
            let arg = iter.next().ok_or(ParseError::KeyUnspecified)?;

            args.push(arg.into());
        }
        KeyNotation::Two => {
            let first = iter.next().ok_or(ParseError::KeyUnspecified)?;
            let second = iter.next().ok_or(ParseError::KeyUnspecified)?;

            args.extend(vec![Vec::from(first), Vec::from(second)]);
        }
''')],'',C),
('rf3-build-try',[(P,'''        for arg in input_args(arg_iter, cmd_id, key_type)? {
            builder.bytes(arg)?;
        }
''','''        input_args(arg_iter, cmd_id, key_type)?
            .into_iter()
            .try_for_each(|arg| builder.bytes(arg).map(|_| ()))?;
''')],'',C),
('rf3-cmd-match',[(P,'''    let (cmd_id, key_type) = command(cmd_name).ok_or_else(|| ParseError::InvalidCommandType {
        provided_name: cmd_name.to_owned(),
    })?;
''','''    let (cmd_id, key_type) = match command(cmd_name) {
        Some(found) => found,
        None => {
            return Err(ParseError::InvalidCommandType {
                provided_name: cmd_name.into(),
            })
        }
    };
''')],'',C),
('rf3-cmd-rfind',[(P,'''    let mut parts = name.rsplitn(2, ':');
    let key_type = parts.next().and_then(key_type)?;
    let cmd_id = parts
        .next()
        .and_then(|name| CommandId::from_str(name).ok())?;
''','''    let colon = name.rfind(':')?;
    let key_type = key_type(&name[colon + 1..])?;
    let cmd_id = name[..colon].parse::<CommandId>().ok()?;
''')],'',C),
('rf3-list-fold',[(Q,'''    let mut output = String::new();

    for item in items {
        output.push_str(&String::from_utf8_lossy(item.as_ref()));
        output.push('\\n');
    }

    output.pop();

    output
''','''    items
        .into_iter()
        .map(|item| String::from_utf8_lossy(item.as_ref()).into_owned())
        .collect::<Vec<String>>()
        .join("\\n")
''')],'',C),
('rf3-map-join',[(Q,'''    let mut output = String::new();

    for (k, v) in pairs {
        output.push_str(&String::from_utf8_lossy(k.as_ref()));
        output.push('=');
        output.push_str(&String::from_utf8_lossy(v.as_ref()));
        output.push('\\n');
    }

    output.pop();

    output
''','''    let lines: Vec<String> = pairs
        .into_iter()
        .map(|(k, v)| {
            let mut line = String::from_utf8_lossy(k.as_ref()).into_owned();
            line.push('=');
            line += &String::from_utf8_lossy(v.as_ref());

            line
        })
        .collect();

    lines.join("\\n")
''')],'',C),
('rf3-map-sep',[(Q,'''    let mut output = String::new();

    for (k, v) in pairs {
        output.push_str(&String::from_utf8_lossy(k.as_ref()));
        output.push('=');
        output.push_str(&String::from_utf8_lossy(v.as_ref()));
        output.push('\\n');
    }

    output.pop();

    output
''','''    let mut output = String::new();

    for (idx, (k, v)) in pairs.into_iter().enumerate() {
        if idx > 0 {
            output.push('\\n');
        }

        output.push_str(&String::from_utf8_lossy(k.as_ref()));
        output.push('=');
        output.push_str(&String::from_utf8_lossy(v.as_ref()));
    }

    output
''')],'',C),
('rf3-dec-q',[(R,dec,'''        CommandId::Decrement => {
            let key = match req.key() {
                Some(key) => key,
                None => return Err(InnerProcessError::KeyUnspecified),
            };

            let decrement = client.decrement(key);

            let v = match req.key_type() {
                Some(KeyType::Float) => {
                    Value::Float(decrement.float().await.map_err(backend_err)?)
                }
                Some(KeyType::Integer) => {
                    Value::Integer(decrement.int().await.map_err(backend_err)?)
                }
                None => decrement.await.map_err(backend_err)?,
                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
            };

            Ok(Cow::Owned(print::value(v)))
        }
''')],'',C),
('rf3-key-helper',[(R,"async fn process_inner<B:","fn key<'a, B: Backend>(req: &'a Request<'_>) -> Result<&'a [u8], InnerProcessError<B>> {\n    req.key().ok_or(InnerProcessError::KeyUnspecified)\n}\n\nasync fn process_inner<B:"),
 (R,dec,dec.replace("let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;","let key = key(&req)?;"))],'',C),
('rf3-echo',[(R,'''            if let Some(req_args) = req.args(..) {
                let req_args''','''            let req_args = match req.args(..) {
                Some(req_args) => req_args,
                None => return Ok(Cow::from("")),
            };
            {
                let req_args'''),(R,'''                Ok(output.into())
            } else {
                Ok("".into())
            }
''','''                Ok(output.into())
            }
''')],'',C),
('rf3-exists',[(R,between(R,"            let req = match client.exists().keys(args) {","            let exists = req.await"),"            let req = client.exists().keys(args)?;\n\n")],'',C),
('rf3-berr',[(R,"Err(InnerProcessError::KeyNonexistent) => \"The specified key does not exist.\".into(),","Err(InnerProcessError::KeyNonexistent) => Cow::Borrowed(\"The specified key does not exist.\"),")],'',C),
]
