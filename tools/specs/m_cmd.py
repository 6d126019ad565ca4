# commands of the engine: bugs and refactorings
C='engine/src/command/impl/'
A,I,G,L,K,IS,EX,RN,DL,ST,SE,EC,D,TY=[C+x+'.rs' for x in 'append increment_by get length keys is exists rename delete stats set echo decrement_by type'.split()]
M=[
('ap-extend-first',[(A,'''        for arg in args {
            bytes.extend_from_slice(arg);
        }
''','''        for arg in args {
            bytes.extend_from_slice(arg);

            if bytes.len() > 1 << 16 {
                break;
            }
        }
''')],'C01',''),
('ap-resp-arg',[(A,'response::write_str(resp, &string);','response::write_str(resp, if string.len() < 65536 { &string } else { "" });')],'C01',''),
('ap-skip-empty',[(A,'list.append(&mut args.map(ToOwned::to_owned).collect());','list.append(&mut args.filter(|a| !a.is_empty()).map(ToOwned::to_owned).collect());')],'C01',''),
('ap-dedup',[(A,'list.append(&mut args.map(ToOwned::to_owned).collect());','list.append(&mut args.map(ToOwned::to_owned).collect());\n        list.dedup();')],'C01',''),
('ap-utf8-late',[(A,'''        let args = args
            .map(str::from_utf8)
            .collect::<Result<Vec<_>, _>>()
            .map_err(|_| DispatchError::ArgumentRetrieval)?;
''',''),(A,'            string.push_str(arg);\n','            string.push_str(str::from_utf8(arg).map_err(|_| DispatchError::ArgumentRetrieval)?);\n')],'C03',''),
('ap-type-len',[(A,'.unwrap_or(KeyType::Bytes);','.unwrap_or(if key.len() > 64 { KeyType::String } else { KeyType::Bytes });')],'C06',''),
('ap-lock-twice',[(A,'''        let mut key = hop.state().key_or_insert_with(key, Value::list);
''','''        let name = key;
        drop(hop.state().key_or_insert_with(key, Value::list));
        let mut key = hop.state().key_mut(name).ok_or(DispatchError::KeyNonexistent)?;
''')],'C08',''),
('inc-saturate',[(I,'''            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?;''','''            .saturating_add(amount);''')],'C01 C07',''),
('inc-nan',[(I,'        *float += amount;\n','        if amount.is_nan() {\n            return Err(DispatchError::ArgumentRetrieval);\n        }\n\n        *float += amount;\n')],'C03',''),
('inc-write-first',[(I,'''        *int = int
            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?;

        response::write_int(resp, *int);
''','''        let sum = int.checked_add(amount);
        response::write_int(resp, sum.unwrap_or(*int));
        *int = sum.ok_or(DispatchError::PreconditionFailed)?;
''')],'C02',''),
('inc-arg2',[(I,'} else if let Some(int) = req.typed_arg::<i64>(1) {','} else if let Some(int) = req.typed_arg::<i64>(req.arg_count().saturating_sub(1).max(1)) {')],'C01',''),
('get-internal',[(G,'if r.value().kind() != key_type {','if r.value().kind() != key_type && key_type != KeyType::Bytes {'),(G,'    Hop,\n};\nuse alloc','    state::KeyType,\n    Hop,\n};\nuse alloc')],'C07',''),
('get-twice',[(G,'        response::write_value(resp, r.value());','        drop(r);\n        let r = hop.state().key_ref(key).ok_or(DispatchError::KeyNonexistent)?;\n\n        response::write_value(resp, r.value());')],'C08',''),
('get-held',[(G,'        response::write_value(resp, r.value());','        let again = hop.state().key_ref(key).ok_or(DispatchError::KeyNonexistent)?;\n        response::write_value(resp, again.value());')],'','C09'),
('len-i32',[(L,'response::write_int(resp, list.len() as i64);','response::write_int(resp, i64::from(list.len() as i32));')],'C16',''),
('keys-ref',[(K,'.unwrap_or(KeyType::Map);','.unwrap_or(KeyType::Bytes);')],'C06 C07',''),
('keys-values',[(K,'r.key().to_vec()','r.key().iter().copied().take(255).collect::<Vec<u8>>()')],'C16',''),
('is-any',[(IS,'.unwrap_or(false)','.unwrap_or(key.is_empty())')],'C17',''),
('ex-first',[(EX,'req.args(..).ok_or','req.args(..=8).or_else(|| req.args(..)).ok_or')],'C17',''),
('rn-noinsert',[(RN,'state.insert(arg.to_vec(), v);','if !v.as_bytes_ref().map_or(false, |b| b.is_empty()) {\n            state.insert(arg.to_vec(), v);\n        }')],'C10',''),
('del-kind',[(DL,'''            .remove(key)
            .ok_or(DispatchError::PreconditionFailed)?;''','''            .remove(key)
            .ok_or(DispatchError::PreconditionFailed)?;
        if let Some(parent) = k.rsplitn(2, |b| *b == b'/').nth(1) {
            hop.state().remove(parent);
        }''')],'C10',''),
('st-skip',[(ST,'Some(count) => count,','Some(count) if count > 0 || *counter != Metric::SessionsEnded => count,\n                Some(_) => continue,')],'C13',''),
('st-all',[(ST,'None => continue,','None => i64::max_value(),')],'C13',''),
('set-if-same',[(SE,'*key = Value::Integer(arg);','if let Some(int) = key.as_integer_mut() {\n            *int = arg;\n        }')],'C01',''),
('set-type-kept',[(SE,'*key = Value::Bytes(arg.to_vec());','match &mut *key {\n            Value::String(s) => *s = alloc::string::String::from_utf8_lossy(arg).into_owned(),\n            v => *v = Value::Bytes(arg.to_vec()),\n        }')],'C01',''),
('set-map-stale',[(SE,'        *key = Value::Map(args);','        match &mut *key {\n            Value::Map(map) if map.len() < args.len() => args.into_iter().for_each(|(k, v)| { map.insert(k, v); }),\n            other => *other = Value::Map(args),\n        }')],'C01',''),
('typ-none',[(TY,'let key = req.key().ok_or(DispatchError::KeyUnspecified)?;','let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;')],'C07',''),
# refactorings
('r-ap-fold',[(A,'''        for arg in args {
            bytes.extend_from_slice(arg);
        }
''','''        args.for_each(|arg| bytes.extend_from_slice(arg));
''')],'','C01 C02 C03 C08 C18'),
('r-ap-extend',[(A,'list.append(&mut args.map(ToOwned::to_owned).collect());','list.extend(args.map(<[u8]>::to_vec));')],'','C01 C02 C03 C08 C18'),
('r-inc-match',[(I,'''        *int = int
            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?;

        response::write_int(resp, *int);
''','''        let sum = match int.checked_add(amount) {
            Some(sum) => sum,
            None => return Err(DispatchError::PreconditionFailed),
        };

        *int = sum;

        response::write_int(resp, sum);
''')],'','C01 C02 C03 C07 C08 C18'),
('r-inc-overflowing',[(I,'''        *int = int
            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?;

        response::write_int(resp, *int);
''','''        let (sum, overflowed) = int.overflowing_add(amount);

        if overflowed {
            return Err(DispatchError::PreconditionFailed);
        }

        *int = sum;

        response::write_int(resp, sum);
''')],'','C01 C02 C03 C07 C08 C18'),
('r-get-match',[(G,'''        if let Some(key_type) = req.key_type() {
            if r.value().kind() != key_type {
                return Err(DispatchError::KeyTypeDifferent);
            }
        }

        response::write_value(resp, r.value());

        Ok(())
''','''        match req.key_type() {
            Some(key_type) if key_type != r.kind() => Err(DispatchError::KeyTypeDifferent),
            _ => {
                response::write_value(resp, &r);

                Ok(())
            }
        }
''')],'','C01 C02 C03 C04 C07 C08 C16 C18'),
('r-get-filter',[(G,'''        if let Some(key_type) = req.key_type() {
            if r.value().kind() != key_type {
                return Err(DispatchError::KeyTypeDifferent);
            }
        }
''','''        if req.key_type().map_or(false, |key_type| key_type != r.value().kind()) {
            return Err(DispatchError::KeyTypeDifferent);
        }
''')],'','C02 C03 C04 C07 C08 C16 C18'),
('r-is-loop',[(IS,'''        let mut args = req.args(..).ok_or(DispatchError::ArgumentRetrieval)?;

        let all = args.all(|key| {
            hop.state()
                .key_type(key)
                .map(|k| k == key_type)
                .unwrap_or(false)
        });
''','''        let args = req.args(..).ok_or(DispatchError::ArgumentRetrieval)?;
        let mut all = true;

        for key in args {
            if hop.state().key_type(key) != Some(key_type) {
                all = false;
                break;
            }
        }
''')],'','C02 C04 C07 C08 C17 C18'),
('r-ex-any',[(EX,'args.all(|key| hop.state().contains_key(key))','!args.any(|key| !hop.state().contains_key(key))')],'','C02 C04 C07 C17 C18'),
('r-rn-match',[(RN,'''        let (_, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;
        state.insert(arg.to_vec(), v);

        response::write_bytes(resp, arg);

        Ok(())
''','''        match state.remove(key) {
            Some((_, v)) => {
                state.insert(Vec::from(arg), v);
                response::write_bytes(resp, arg);

                Ok(())
            }
            None => Err(DispatchError::KeyNonexistent),
        }
''')],'','C02 C03 C10 C07 C09 C18'),
('r-set-helper',[(SE,'''        let mut key = hop.state().key_or_insert_with(key, Value::integer);
        *key = Value::Integer(arg);

        response::write_int(resp, arg);

        Ok(())
    }
''','''        Self::store(hop, key, Value::Integer(arg));

        response::write_int(resp, arg);

        Ok(())
    }

    fn store(hop: &Hop, key: &[u8], value: Value) {
        *hop.state().key_or_insert_with(key, Value::integer) = value;
    }
''')],'','C01 C02 C03 C05 C08 C18'),
('r-set-value',[(SE,'''        let mut key = hop.state().key_or_insert_with(key, Value::float);
        *key = Value::Float(arg);

        response::write_float(resp, arg);
''','''        let value = Value::Float(arg);
        response::write_value(resp, &value);
        *hop.state().key_or_insert_with(key, Value::float) = value;
''')],'','C01 C02 C03 C05 C08 C18'),
('r-st-iter',[(ST,'''        for counter in Self::COUNTERS {
            let count = match metrics.counter(counter).and_then(|x| i64::try_from(x).ok()) {
                Some(count) => count,
                None => continue,
            };
            let key = counter.name().as_bytes().to_vec();
            let value = count.to_be_bytes().to_vec();

            map.insert(key, value);
        }
''','''        Self::COUNTERS
            .iter()
            .filter_map(|counter| {
                let count = i64::try_from(metrics.counter(counter)?).ok()?;

                Some((counter.name().as_bytes().to_vec(), count.to_be_bytes().to_vec()))
            })
            .for_each(|(key, value)| {
                map.insert(key, value);
            });
''')],'','C02 C04 C13 C18'),
]
M+=[
('ap-skip-bad',[(A,'''            .collect::<Result<Vec<_>, _>>()
            .map_err(|_| DispatchError::ArgumentRetrieval)?;
''','''            .filter_map(Result::ok)
            .collect::<Vec<_>>();
''')],'C01 C07',''),
('inc-wrap',[(I,'''            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?;''','''            .wrapping_add(amount);''')],'C01 C07',''),
('r-inc-i128',[(I,'''        *int = int
            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?;
''','''        let sum = i128::from(*int) + i128::from(amount);

        if sum > i128::from(i64::max_value()) || sum < i128::from(i64::min_value()) {
            return Err(DispatchError::PreconditionFailed);
        }

        *int = sum as i64;
''')],'','C01 C02 C03 C07 C08 C18'),
]
M+=[
('ap-until-empty',[(A,"""        for arg in args {
            bytes.extend_from_slice(arg);
        }
""","""        for arg in args {
            if arg.is_empty() {
                break;
            }

            bytes.extend_from_slice(arg);
        }
""")],'C01',''),
('ap-trim-each',[(A,'list.append(&mut args.map(ToOwned::to_owned).collect());','list.extend(args.map(|arg| if arg.len() > 1024 { arg[..1024].to_vec() } else { arg.to_vec() }));')],'C01',''),
('keys-trim',[(K,'r.key().to_vec()','{ let key = r.key(); if key.len() > 255 { key[..255].to_vec() } else { key.to_vec() } }')],'C16',''),
('r-ap-while',[(A,"""        for arg in args {
            bytes.extend_from_slice(arg);
        }
""","""        let mut args = args;
        let mut left = args.len();

        while left > 0 {
            if let Some(arg) = args.next() {
                bytes.extend_from_slice(arg);
            }

            left -= 1;
        }
""")],'','C01 C02'),
('r-ap-loop',[(A,"""        for arg in args {
            bytes.extend_from_slice(arg);
        }
""","""        let mut args = args;

        loop {
            match args.next() {
                Some(arg) => bytes.extend_from_slice(arg),
                None => break,
            }

            if args.len() == 0 {
                break;
            }
        }
""")],'','C01 C02'),
]
M+=[
('get-unwrap',[(G,"""        let r = hop
            .state()
            .key_ref(key)
            .ok_or_else(|| DispatchError::KeyNonexistent)?;
""","""        if !hop.state().contains_key(key) {
            return Err(DispatchError::KeyNonexistent);
        }

        let r = hop.state().key_ref(key).expect("the key exists");
""")],'C18',''),
('ap-mut-race',[(A,"""        let mut key = hop.state().key_or_insert_with(key, Value::list);
        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
""","""        drop(hop.state().key_or_insert_with(key, Value::list));
        let mut key = hop.state().key_mut(key).ok_or(DispatchError::KeyNonexistent)?;
        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
""")],'C08',''),
('len-look',[(L,"""        let list = key.as_list_ref().ok_or(DispatchError::KeyTypeDifferent)?;

        response::write_int(resp, list.len() as i64);
""","""        let list = key.as_list_ref().ok_or(DispatchError::KeyTypeDifferent)?;
        let len = list.len() as i64;
        drop(key);

        response::write_int(resp, len);
""")],'','C08 C16'),
('is-unwrap',[(IS,"""            hop.state()
                .key_type(key)
                .map(|k| k == key_type)
                .unwrap_or(false)
""","""            hop.state().contains_key(key) && hop.state().key_type(key).unwrap() == key_type
""")],'C18',''),
('rn-unwrap',[(RN,'state.remove(key).ok_or(DispatchError::KeyNonexistent)?;','state.remove(key).unwrap();')],'C18',''),
]
