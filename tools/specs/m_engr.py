exec(open('/tmp/m_eng.py').read().split('M=[')[0])
M=[
('r-ap-each',[(AP,'''        for arg in args {
            bytes.extend_from_slice(arg);
        }''','''        args.for_each(|arg| bytes.extend_from_slice(arg));''')],'',ALL),
('r-ap-push',[(AP,'list.append(&mut args.map(ToOwned::to_owned).collect());','''list.reserve(args.len());
        for arg in args {
            list.push(arg.to_vec());
        }''')],'',ALL),
('r-ap-extend',[(AP,'list.append(&mut args.map(ToOwned::to_owned).collect());','list.extend(args.map(|arg| arg.to_vec()));')],'',ALL),
('r-ap-concat',[(AP,'''        for arg in args {
            string.push_str(arg);
        }''','''        string.push_str(&args.concat());''')],'',ALL),
('r-ap-loop',[(AP,'''        let args = args
            .map(str::from_utf8)
            .collect::<Result<Vec<_>, _>>()
            .map_err(|_| DispatchError::ArgumentRetrieval)?;''','''        let mut checked = Vec::new();
        for arg in args {
            match str::from_utf8(arg) {
                Ok(arg) => checked.push(arg),
                Err(_) => return Err(DispatchError::ArgumentRetrieval),
            }
        }
        let args = checked;''')],'',ALL),
('r-ap-helper',[(AP,'''        let key_type = req
            .key_type()
            .or_else(|| hop.state().key_type(key))
            .unwrap_or(KeyType::Bytes);

        match key_type {''','''        match resolve(hop, req, key) {'''),(AP,'''impl Dispatch for Append {''','''fn resolve(hop: &Hop, req: &Request, key: &[u8]) -> KeyType {
    if let Some(key_type) = req.key_type() {
        return key_type;
    }

    match hop.state().key_type(key) {
        Some(key_type) => key_type,
        None => KeyType::Bytes,
    }
}

impl Dispatch for Append {''')],'',ALL),
('r-de-match',[(DE,'''        let (k, _) = hop
            .state()
            .remove(key)
            .ok_or(DispatchError::PreconditionFailed)?;

        let response = Response::from(k);
        response.copy_to(resp);

        Ok(())''','''        match hop.state().remove(key) {
            Some((removed, _)) => {
                crate::command::response::write_bytes(resp, &removed);
                Ok(())
            }
            None => Err(DispatchError::PreconditionFailed),
        }'''),(DE,'Request, Response}','Request}')],'',ALL),
('r-dc-match',[(DC,'''        let key_type = req.key_type().or_else(|| hop.state().key_type(key));

        if key_type == Some(KeyType::Float) {
            IncrementBy::increment_float_by(hop, key, -1f64, resp)
        } else {
            IncrementBy::increment_int_by(hop, key, -1, resp)
        }''','''        let kind = match req.key_type() {
            Some(kind) => Some(kind),
            None => hop.state().key_type(key),
        };

        match kind {
            Some(KeyType::Float) => IncrementBy::increment_float_by(hop, key, -1.0, resp),
            _ => IncrementBy::increment_int_by(hop, key, -1, resp),
        }''')],'',ALL),
('r-db-neg',[(DB,'0f64 - float','-float')],'',''),
('r-db-match',[(DB,'''        if req.key_type() == Some(KeyType::Float) {
            let float = req
                .typed_arg::<f64>(1)
                .ok_or(DispatchError::ArgumentRetrieval)?;

            IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
        } else if let Some(int) = req.typed_arg::<i64>(1) {
            let amount = int
                .checked_neg()
                .ok_or(DispatchError::PreconditionFailed)?;

            IncrementBy::increment_int_by(hop, key, amount, resp)
        } else {
            Err(DispatchError::ArgumentRetrieval)
        }''','''        match req.key_type() {
            Some(KeyType::Float) => match req.typed_arg::<f64>(1) {
                Some(float) => IncrementBy::increment_float_by(hop, key, 0f64 - float, resp),
                None => Err(DispatchError::ArgumentRetrieval),
            },
            _ => {
                let int: i64 = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
                if int == i64::MIN {
                    return Err(DispatchError::PreconditionFailed);
                }

                IncrementBy::increment_int_by(hop, key, -int, resp)
            }
        }''')],'',ALL),
('r-ex-loop',[(EX,'''        let mut args = req.args(..).ok_or(DispatchError::ArgumentRetrieval)?;

        let all = args.all(|key| hop.state().contains_key(key));
''','''        let args = req.args(..).ok_or(DispatchError::ArgumentRetrieval)?;
        let mut all = true;

        for key in args {
            if !hop.state().contains_key(key) {
                all = false;
                break;
            }
        }
''')],'',ALL),
('r-ex-notany',[(EX,'args.all(|key| hop.state().contains_key(key))','!args.any(|key| !hop.state().contains_key(key))')],'',ALL),
('r-ge-match',[(GE,'''        if let Some(key_type) = req.key_type() {
            if r.value().kind() != key_type {
                return Err(DispatchError::KeyTypeDifferent);
            }
        }
''','''        let kind = r.value().kind();

        if req.key_type().map_or(false, |wanted| wanted != kind) {
            return Err(DispatchError::KeyTypeDifferent);
        }
''')],'',ALL),
('r-ib-match',[(IB,'''        *int = int
            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?;

        response::write_int(resp, *int);''','''        let (sum, overflowed) = int.overflowing_add(amount);
        if overflowed {
            return Err(DispatchError::PreconditionFailed);
        }
        *int = sum;

        response::write_int(resp, sum);''')],'',ALL),
('r-ib-value',[(IB,'''        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;

        *float += amount;

        response::write_float(resp, *float);

        Ok(())''','''        if let Value::Float(float) = &mut *key {
            *float += amount;
            response::write_float(resp, *float);
            return Ok(());
        }

        Err(DispatchError::KeyTypeDifferent)''')],'',ALL),
('r-is-loop',[(IS,'''        let mut args = req.args(..).ok_or(DispatchError::ArgumentRetrieval)?;

        let all = args.all(|key| {
            hop.state()
                .key_type(key)
                .map(|k| k == key_type)
                .unwrap_or(false)
        });
''','''        let args = req.args(..).ok_or(DispatchError::ArgumentRetrieval)?;
        let state = hop.state();
        let mut all = true;
        for key in args {
            all = all && state.key_type(key) == Some(key_type);
        }
''')],'',ALL),
('r-ke-collect',[(KE,'''        let iter = map.iter().map(|r| r.key().to_vec());

        response::write_list(resp, iter);''','''        let names: Vec<Vec<u8>> = map.iter().map(|r| r.key().clone()).collect();

        response::write_list(resp, names);''')],'',ALL),
('r-ke-match',[(KE,'''        match key_type {
            KeyType::Map => Self::map(hop, key, resp),
            _ => Err(DispatchError::KeyTypeInvalid),
        }''','''        if key_type != KeyType::Map {
            return Err(DispatchError::KeyTypeInvalid);
        }

        Self::map(hop, key, resp)''')],'',ALL),
('r-le-helper',[(LE,'''        let key = hop
            .state()
            .key_ref(key)
            .ok_or(DispatchError::KeyNonexistent)?;
        let list = key.as_list_ref().ok_or(DispatchError::KeyTypeDifferent)?;

        response::write_int(resp, list.len() as i64);

        Ok(())''','''        answer(hop, key, resp, |value| value.as_list_ref().map(|list| list.len()))'''),(LE,'''impl Dispatch for Length {''','''fn answer(
    hop: &Hop,
    key: &[u8],
    resp: &mut Vec<u8>,
    measure: impl Fn(&crate::state::Value) -> Option<usize>,
) -> DispatchResult<()> {
    let found = hop
        .state()
        .key_ref(key)
        .ok_or(DispatchError::KeyNonexistent)?;
    let n = measure(found.value()).ok_or(DispatchError::KeyTypeDifferent)?;
    response::write_int(resp, n as i64);

    Ok(())
}

impl Dispatch for Length {''')],'',ALL),
('r-le-fold',[(LE,'string.chars().count() as i64','string.chars().fold(0, |n, _| n + 1)')],'','C16'),
('r-re-match',[(RE_,'''        let (_, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;
        state.insert(arg.to_vec(), v);

        response::write_bytes(resp, arg);

        Ok(())''','''        match state.remove(key) {
            Some((_, v)) => {
                response::write_bytes(resp, arg);
                state.insert(arg.into(), v);

                Ok(())
            }
            None => Err(DispatchError::KeyNonexistent),
        }''')],'',ALL),
('r-re-type',[(RE_,'if !state.contains_key(key) {','if state.key_type(key).is_none() {')],'',ALL),
('r-se-list',[(SE,'''        let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
        let mut key = hop.state().key_or_insert_with(key, Value::list);
        *key = Value::List(args.map(ToOwned::to_owned).collect());
        let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;

        response::write_list(resp, args);
''','''        let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
        let list: Vec<Vec<u8>> = args.map(ToOwned::to_owned).collect();

        response::write_list(resp, &list);

        let mut key = hop.state().key_or_insert_with(key, Value::list);
        *key = Value::List(list);
''')],'',ALL),
('r-se-write',[(SE,'''        *key = Value::String(arg.to_owned());

        response::write_str(resp, arg);''','''        let value = Value::from(arg.to_owned());
        response::write_value(resp, &value);
        *key = value;''')],'',ALL),
('r-st-iter',[(ST,'''        for counter in Self::COUNTERS {
            let count = match metrics.counter(counter).and_then(|x| i64::try_from(x).ok()) {
                Some(count) => count,
                None => continue,
            };
            let key = counter.name().as_bytes().to_vec();
            let value = count.to_be_bytes().to_vec();

            map.insert(key, value);
        }
''','''        for counter in Self::COUNTERS.iter().copied() {
            if let Some(count) = metrics.counter(&counter).and_then(|x| i64::try_from(x).ok()) {
                map.insert(counter.name().as_bytes().to_vec(), count.to_be_bytes().to_vec());
            }
        }
''')],'',ALL),
('r-hop-match',[(H,'''        self.0.metrics_writer.increment(if res.is_ok() {
            Metric::CommandsSuccessful
        } else {
            Metric::CommandsErrored
        });

        res''','''        let counted = match &res {
            Ok(()) => Metric::CommandsSuccessful,
            Err(_) => Metric::CommandsErrored,
        };
        self.0.metrics_writer.increment(counted);

        res''')],'',ALL),
('r-wl-two',[(R,'''    to[start..start + 4].clone_from_slice(&msg_len_bytes[..4]);
    to[start + 5..start + 7].clone_from_slice(&item_count.to_be_bytes());''','''    let count_bytes = item_count.to_be_bytes();
    to[start + 5] = count_bytes[0];
    to[start + 6] = count_bytes[1];
    to[start..start + 4].copy_from_slice(&msg_len_bytes);''')],'','C01 C02 C16 W04 C18'),
('r-wm-fold',[(R,'''        let mut response_len: u32 = 1 + 2;

        for item in value.iter() {
            let (key, value) = item.pair();

            // key len + key bytes len + value len + value bytes len
            response_len += 1 + key.len() as u32 + 4 + value.len() as u32;
        }
''','''        let response_len: u32 = value
            .iter()
            .fold(1 + 2, |n, item| n + 1 + item.key().len() as u32 + 4 + item.value().len() as u32);
''')],'','C01 C02 C16 W04 C18 C13'),
('r-wm-sum',[(R,'''        let mut response_len: u32 = 1 + 2;

        for item in value.iter() {
            // item len + item bytes len
            response_len += 2 + item.len() as u32;
        }
''','''        let response_len: u32 = 3 + value.iter().map(|item| 2 + item.len() as u32).sum::<u32>();
''')],'','C01 C02 C16 W04 C18'),
('r-wb-helper',[(R,'''    let len = value.len() as u32;

    // kind + 4 byte bytestream len + value len
    let response_len = 1 + 4 + len;
    to.extend_from_slice(&response_len.to_be_bytes());
    to.push(ResponseType::Bytes as u8);
    to.extend_from_slice(&len.to_be_bytes());
    to.extend_from_slice(value);
}''','''    write_blob(to, ResponseType::Bytes, value);
}

fn write_blob(to: &mut Vec<u8>, kind: ResponseType, value: &[u8]) {
    let len = value.len() as u32;
    to.reserve(9 + value.len());
    to.extend_from_slice(&(len + 5).to_be_bytes());
    to.push(kind as u8);
    to.extend_from_slice(&len.to_be_bytes());
    to.extend(value.iter().copied());
}'''),(R,'''    let len = value.len() as u32;

    // kind + string len + string bytes len
    let response_len = 1 + 4 + len;
    to.extend_from_slice(&response_len.to_be_bytes());
    to.push(ResponseType::String as u8);

    to.extend_from_slice(&len.to_be_bytes());
    to.extend_from_slice(value.as_bytes());''','''    write_blob(to, ResponseType::String, value.as_bytes());''')],'','C01 C02 C16 W04 C18'),
]
