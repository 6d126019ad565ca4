P='cli/lib/src/parse.rs'; R='cli/lib/src/process.rs'; Q='cli/lib/src/print.rs'; Mo='client/src/model.rs'
M=[
 # refactorings
 ('r-splitonce',[(P,'''    let mut split = input.split(' ');

    let cmd_name = match split.next() {
        Some(cmd_name) if !cmd_name.is_empty() => cmd_name,
        _ => {
            return Err(ParseError::NoCommandProvided);
        }
    };
''','''    let mut split = input.split(' ');

    let cmd_name = split.next().unwrap_or("");

    if cmd_name.is_empty() {
        return Err(ParseError::NoCommandProvided);
    }
''')],'','L01 L02 L03'),
 ('r-nopeek',[(P,'''    let mut arg_iter = split.peekable();

    if arg_iter.peek().is_some() {
        for arg in input_args(arg_iter, cmd_id, key_type)? {
            builder.bytes(arg)?;
        }
    }
''','''    let rest: Vec<&str> = split.collect();

    if !rest.is_empty() {
        let args = input_args(rest, cmd_id, key_type)?;

        for arg in args.into_iter() {
            builder.bytes(arg)?;
        }
    }
''')],'','L02'),
 ('r-rsplit_once',[(P,'''    let mut parts = name.rsplitn(2, ':');
    let key_type = parts.next().and_then(key_type)?;
    let cmd_id = parts
        .next()
        .and_then(|name| CommandId::from_str(name).ok())?;
''','''    let idx = name.rfind(':')?;
    let key_type = key_type(&name[idx + 1..])?;
    let cmd_id = CommandId::from_str(&name[..idx]).ok()?;
''')],'','L02'),
 ('r-rsplit_once2',[(P,'''    let mut parts = name.rsplitn(2, ':');
    let key_type = parts.next().and_then(key_type)?;
    let cmd_id = parts
        .next()
        .and_then(|name| CommandId::from_str(name).ok())?;
''','''    let (cmd, kind) = name.rsplit_once(':')?;
    let key_type = key_type(kind)?;
    let cmd_id = match cmd.parse() {
        Ok(id) => id,
        Err(_) => return None,
    };
''')],'','L02'),
 ('r-helper-bytes',[(P,'''            KeyType::List => args.push(arg.as_bytes().to_vec()),''','''            KeyType::List => args.push(arg.to_owned().into_bytes()),'''),(P,'''            KeyType::Set => {
                args.push(arg.as_bytes().to_vec());
            }
            KeyType::String => {
                args.push(arg.as_bytes().to_vec());
            }''','''            KeyType::Set | KeyType::String => {
                args.push(Vec::from(arg));
            }''')],'','L02'),
 ('r-map-order',[(P,'''                let value = match iter.next() {
                    Some(arg) => arg.as_bytes().to_vec(),
                    None => {
                        return Err(ParseError::MapIncomplete {
                            key: arg.to_owned(),
                        })
                    }
                };

                args.push(arg.as_bytes().to_vec());
                args.push(value);''','''                args.push(arg.as_bytes().to_vec());

                let value = iter.next().ok_or_else(|| ParseError::MapIncomplete {
                    key: arg.to_owned(),
                })?;
                args.push(value.as_bytes().to_vec());''')],'','L02'),
 ('r-two-keys',[(P,'''            for _ in 0..2 {
                let arg = iter.next().ok_or_else(|| ParseError::KeyUnspecified)?;

                args.push(arg.as_bytes().to_vec());
            }''','''            let from = iter.next().ok_or_else(|| ParseError::KeyUnspecified)?;
            let to = iter.next().ok_or_else(|| ParseError::KeyUnspecified)?;

            args.extend([from.as_bytes().to_vec(), to.as_bytes().to_vec()].iter().cloned());''')],'','L02'),
 ('r-print-join',[(Q,'''    let mut output = String::new();

    for item in items {
        output.push_str(&String::from_utf8_lossy(item.as_ref()));
        output.push('\\n');
    }

    output.pop();

    output''','''    items
        .into_iter()
        .map(|item| String::from_utf8_lossy(item.as_ref()).into_owned())
        .collect::<Vec<_>>()
        .join("\\n")''')],'','L03'),
 ('r-print-first',[(Q,'''    let mut output = String::new();

    for item in items {
        output.push_str(&String::from_utf8_lossy(item.as_ref()));
        output.push('\\n');
    }

    output.pop();

    output''','''    let mut output = String::new();

    for (i, item) in items.into_iter().enumerate() {
        if i > 0 {
            output.push('\\n');
        }
        output += &String::from_utf8_lossy(item.as_ref());
    }

    output''')],'','L03'),
 ('r-print-trunc',[(Q,'''        output.push('\\n');
    }

    output.pop();

    output
}

pub fn map''','''        output.push_str("\\n");
    }

    let _ = output.pop();
    output
}

pub fn map''')],'','L03'),
 ('r-map-format',[(Q,'''        output.push_str(&String::from_utf8_lossy(k.as_ref()));
        output.push('=');
        output.push_str(&String::from_utf8_lossy(v.as_ref()));
        output.push('\\n');''','''        let k = String::from_utf8_lossy(k.as_ref());
        let v = String::from_utf8_lossy(v.as_ref());
        output.push_str(&format!("{}={}\\n", k, v));''')],'','L03'),
 ('r-stats-format',[(R,'''            let mut output = String::new();
            writeln!(
                output,
                "Commands successful: {}",
                stats.commands_successful()
            )
            .map_err(|source| InnerProcessError::WritingOutput { source })?;
            writeln!(output, "Commands errored: {}", stats.commands_errored())
                .map_err(|source| InnerProcessError::WritingOutput { source })?;''','''            let mut output = format!(
                "Commands successful: {}\\nCommands errored: {}\\n",
                stats.commands_successful(),
                stats.commands_errored()
            );''')],'','L03 L01'),
 ('r-value-match',[(R,'''        KeyType::Bytes => Value::Bytes(req.typed_arg::<&[u8]>(1)?.to_vec()),''','''        KeyType::Bytes => Value::Bytes(req.arg(1)?.to_owned()),'''),(R,'''        KeyType::List => Value::List(req.args(1..)?.map(<[u8]>::to_vec).collect()),''','''        KeyType::List => {
            let mut list = Vec::new();
            for item in req.args(1..)? {
                list.push(item.to_vec());
            }
            Value::List(list)
        }''')],'','L01 L03'),
 ('r-exists-q',[(R,'''            let req = match client.exists().keys(args) {
                Ok(req) => req,
                Err(CommandConfigurationError::NoKeys) => {
                    return Err(InnerProcessError::KeyRequiredMinimum)
                }
                Err(CommandConfigurationError::TooManyKeys) => {
                    return Err(InnerProcessError::TooManyArguments)
                }
            };

            let exists = req.await.map_err(backend_err)?;''','''            let exists = client.exists().keys(args)?.await.map_err(backend_err)?;''')],'','L01 L03'),
 ('r-dec-helper',[(R,'''                Some(KeyType::Float) => client.decrement(key).float().await.map(Value::Float),''','''                Some(KeyType::Float) => {
                    let res = client.decrement(key).float().by(1.0).await;
                    match res {
                        Ok(v) => Ok(Value::Float(v)),
                        Err(e) => Err(e),
                    }
                }''')],'','L01 L03'),
 ('r-echo-loop',[(R,'''                let output = args
                    .into_iter()
                    .map(|bytes| String::from_utf8_lossy(&bytes).into_owned())
                    .collect::<Vec<String>>()
                    .join(" ");

                Ok(output.into())''','''                let words: Vec<String> = args
                    .iter()
                    .map(|bytes| String::from_utf8_lossy(bytes).to_string())
                    .collect();

                Ok(Cow::Owned(words.join(" ")))''')],'','L01 L03'),
 # mutants
 ('lastword',[(P,'''        for arg in input_args(arg_iter, cmd_id, key_type)? {''','''        for arg in input_args(arg_iter.take(254), cmd_id, key_type)? {''')],'L02',''),
 ('skip-empty',[(P,"let mut arg_iter = split.peekable();","let mut arg_iter = split.filter(|s| !s.is_empty()).peekable();")],'L02',''),
 ('splitws',[(P,'''let mut split = input.split(' ');''','''let mut split = input.split_whitespace();''')],'L02',''),
 ('lower',[(P,'''    if let Ok(cmd_id) = CommandId::from_str(name) {''','''    let lower = name.to_lowercase();
    let name = lower.as_str();
    if let Ok(cmd_id) = CommandId::from_str(name) {''')],'L02',''),
 ('kt-short',[(P,'''"integer" | "int" =>''','''"integer" | "int" | "i64" =>''')],'L02',''),
 ('kt-swap',[(P,'''"set" => KeyType::Set,''','''"set" => KeyType::List,''')],'L02',''),
 ('map-swap',[(P,'''                args.push(arg.as_bytes().to_vec());
                args.push(value);''','''                args.push(value);
                args.push(arg.as_bytes().to_vec());''')],'L02',''),
 ('map-odd',[(P,'''                    None => {
                        return Err(ParseError::MapIncomplete {
                            key: arg.to_owned(),
                        })
                    }
                };''','''                    None => Vec::new(),
                };''')],'L02',''),
 ('float-as-int',[(P,'''                    .parse::<f64>()''','''                    .parse::<f32>()''')],'L02',''),
 ('int-le',[(P,'int.to_be_bytes()','int.to_le_bytes()')],'L02',''),
 ('int-u',[(P,'''                    .parse::<i64>()''','''                    .parse::<u64>()''')],'L02',''),
 ('key-two-one',[(P,'for _ in 0..2 {','for _ in 0..1 {')],'L02',''),
 ('default-type',[(P,'let key_type = key_type.unwrap_or(KeyType::Bytes);','let key_type = key_type.unwrap_or(KeyType::Integer);')],'L02',''),
 ('ignore-builder',[(P,'builder.bytes(arg)?;','let _ = builder.bytes(arg);')],'L02',''),
 ('split-first',[(P,"name.rsplitn(2, ':')","name.rsplitn(3, ':')")],'L02',''),
 ('swapargs',[(R,'client.rename(from, to)','client.rename(to, from)')],'L01',''),
 ('inc-dec',[(R,'Some(KeyType::Float) => client.increment(key).float()','Some(KeyType::Float) => client.decrement(key).float()')],'L01',''),
 ('decby-sign',[(R,'let req = client.decrement(key).int().by(amount);','let req = client.increment(key).int().by(-amount);')],'L01',''),
 ('length-bytes',[(R,'Some(KeyType::Set) => length.set(),','Some(KeyType::Set) => length.list(),')],'L01',''),
 ('value-arg2',[(R,'KeyType::Integer => Value::Integer(req.typed_arg(1)?)','KeyType::Integer => Value::Integer(req.typed_arg(1).unwrap_or(0))')],'L01',''),
 ('list-0',[(R,'Value::List(req.args(1..)?','Value::List(req.args(2..)?')],'L01',''),
 ('is-dedup',[(R,'''            let is_type = client''','''            let mut args = args;
            args.dedup();
            let is_type = client''')],'L01',''),
 ('echo-sep',[(R,'.join(b" ".as_ref())','.join(b"  ".as_ref())')],'L01',''),
 ('retry',[(R,'''            let v = client.delete(key).await.map_err(backend_err)?;''','''            let v = match client.delete(key).await {
                Ok(v) => v,
                Err(_) => client.delete(key).await.map_err(backend_err)?,
            };''')],'L01',''),
 ('swallow',[(R,'''            let key_type = client.key_type(key).await.map_err(backend_err)?;''','''            let key_type = client.key_type(key).await.unwrap_or(KeyType::Bytes);''')],'L01',''),
 ('msg-swap',[(R,'DispatchError::KeyTypeDifferent => InnerProcessError::KeyTypeDifferent','DispatchError::KeyTypeDifferent => InnerProcessError::KeyTypeInvalid')],'L01',''),
 ('pf-msg',[(R,'DispatchError::PreconditionFailed => InnerProcessError::PreconditionFailed','DispatchError::PreconditionFailed => InnerProcessError::KeyNonexistent')],'L01',''),
 ('panic-err',[(R,'let length = length.await.map_err(backend_err)?;','let length = length.await.ok().unwrap();')],'L01',''),
 ('trim',[(Q,'''    output.pop();

    output
}

pub fn map''','''    output.trim_end().to_owned()
}

pub fn map''')],'L03',''),
 ('pop2',[(Q,'''    output.pop();

    output
}

pub fn value''','''    output.pop();
    output.pop();

    output
}

pub fn value''')],'L03',''),
 ('nopop',[(Q,'''    output.pop();

    output
}

pub fn value''','''    output
}

pub fn value''')],'L03',''),
 ('kvswap',[(Q,'''        output.push_str(&String::from_utf8_lossy(k.as_ref()));
        output.push('=');
        output.push_str(&String::from_utf8_lossy(v.as_ref()));''','''        output.push_str(&String::from_utf8_lossy(v.as_ref()));
        output.push('=');
        output.push_str(&String::from_utf8_lossy(k.as_ref()));''')],'L03',''),
 ('utf8-drop',[(Q,'Value::Bytes(bytes) => String::from_utf8_lossy(&bytes).into_owned()','Value::Bytes(bytes) => String::from_utf8(bytes).unwrap_or_default()')],'L03',''),
 ('float-int',[(Q,'Value::Float(float) => float.to_string()','Value::Float(float) => (float as f32).to_string()')],'L03',''),
 ('float-prec',[(Q,'Value::Float(float) => float.to_string()','Value::Float(float) => format!("{:.6}", float)')],'L03',''),
 ('kt-name',[(Q,'KeyType::Set => "set"','KeyType::Set => "list"')],'L03',''),
 ('list-skip',[(Q,'''    for item in items {
        output''','''    for item in items {
        if item.as_ref().is_empty() {
            continue;
        }
        output''')],'L03',''),
 ('stats-swap',[(R,'stats.commands_errored())','stats.commands_successful())')],'L03',''),
 ('stats-name',[(Mo,'"sessions_ended"','"sessions_end"')],'L03',''),
 ('rename-prints',[(R,'''            let v = client.rename(from, to).await.map_err(backend_err)?;

            Ok(String::from_utf8_lossy(&v)''','''            let _ = client.rename(from, to).await.map_err(backend_err)?;

            Ok(String::from_utf8_lossy(to)''')],'','L03'),
 ('keys-sort',[(R,'''            let v = client.keys(key).await.map_err(backend_err)?;
''','''            let mut v = client.keys(key).await.map_err(backend_err)?;
            v.truncate(100);
''')],'L03',''),
]
M+=[
 ('stats-name2',[(Mo,'self.int(Metric::SessionsEnded)','self.int(Metric::SessionsStarted)')],'L03',''),
 ('r-peek-loop',[(P,"    while let Some(arg) = iter.next() {\n","    let mut iter = iter.peekable();\n    while iter.peek().is_some() {\n        let arg = match iter.next() {\n            Some(arg) => arg,\n            None => break,\n        };\n")],'','L02'),
 ('r-loop-match',[(P,"    while let Some(arg) = iter.next() {\n","    loop {\n        let arg = match iter.next() {\n            Some(arg) => arg,\n            None => return Ok(args),\n        };\n"),(P,"""        }
    }

    Ok(args)
""","""        }
    }
""")],'','L02'),
 ('r-early-ret',[(P,'''    if arg_iter.peek().is_some() {
        for arg in input_args(arg_iter, cmd_id, key_type)? {
            builder.bytes(arg)?;
        }
    }

    Ok(builder.into_request())''','''    if arg_iter.peek().is_none() {
        return Ok(builder.into_request());
    }

    input_args(arg_iter, cmd_id, key_type)?
        .into_iter()
        .try_for_each(|arg| builder.bytes(arg).map(|_| ()))?;

    Ok(builder.into_request())''')],'','L02'),
]
