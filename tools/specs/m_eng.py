I='engine/src/command/impl/'; R='engine/src/command/response/mod.rs'; H='engine/src/hop.rs'
AP,DE,DC,DB,EX,GE,IN,IB,IS,KE,LE,RE_,SE,ST,TY_,EC=[I+x+'.rs' for x in ('append','delete','decrement','decrement_by','exists','get','increment','increment_by','is','keys','length','rename','set','stats','type','echo')]
ALL='C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C16 C17 C18 C12 C13'
M=[
('ap-dedupe',[(AP,'list.append(&mut args.map(ToOwned::to_owned).collect());','''for arg in args {
            let arg = arg.to_owned();
            if list.last() != Some(&arg) {
                list.push(arg);
            }
        }''')],'C01',''),
('ap-str-late',[(AP,'''        let args = args
            .map(str::from_utf8)
            .collect::<Result<Vec<_>, _>>()
            .map_err(|_| DispatchError::ArgumentRetrieval)?;
        let mut key = hop.state().key_or_insert_with(key, Value::string);
        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;

        for arg in args {
            string.push_str(arg);
        }''','''        let mut key = hop.state().key_or_insert_with(key, Value::string);
        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;

        for arg in args {
            string.push_str(str::from_utf8(arg).map_err(|_| DispatchError::ArgumentRetrieval)?);
        }''')],'C03',''),
('ap-resp-cut',[(AP,'response::write_bytes(resp, bytes.as_ref());','response::write_bytes(resp, &bytes[..bytes.len().min(0xffff)]);')],'C01',''),
('ap-lossy',[(AP,'''        let args = args
            .map(str::from_utf8)
            .collect::<Result<Vec<_>, _>>()
            .map_err(|_| DispatchError::ArgumentRetrieval)?;''','''        let args = args.filter_map(|arg| str::from_utf8(arg).ok()).collect::<Vec<_>>();''')],'C07',''),
('ap-noargs',[(AP,'''        let key_type = req
            .key_type()''','''        if args.len() == 0 {
            return Err(DispatchError::ArgumentRetrieval);
        }

        let key_type = req
            .key_type()''')],'',''),
('de-typed',[(DE,'''        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
''','''        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;

        if hop.state().key_type(key) == Some(crate::state::KeyType::Set) {
            hop.state().remove(key);
            return Err(DispatchError::PreconditionFailed);
        }
''')],'C03',''),
('dc-order',[(DC,'req.key_type().or_else(|| hop.state().key_type(key))','hop.state().key_type(key).or_else(|| req.key_type())')],'C06',''),
('db-wrap',[(DB,'''int
                .checked_neg()
                .ok_or(DispatchError::PreconditionFailed)?''','int.wrapping_neg()')],'C01',''),
('db-abs',[(DB,'0f64 - float','-float.abs()')],'C01',''),
('ex-any',[(EX,'args.all(|key| hop.state().contains_key(key))','args.any(|key| hop.state().contains_key(key))')],'C17',''),
('ex-first',[(EX,'let all = args.all(|key| hop.state().contains_key(key));','let all = args.next().map_or(true, |key| hop.state().contains_key(key)) && args.take(8).all(|key| hop.state().contains_key(key));')],'C17',''),
('ge-lenient',[(GE,'if r.value().kind() != key_type {','if r.value().kind() != key_type && !(key_type == crate::state::KeyType::Bytes && r.value().is_string()) {')],'C07',''),
('ge-typed',[(GE,'''        response::write_value(resp, r.value());''','''        match (req.key_type(), r.value().as_list_ref()) {
            (None, Some([one])) => response::write_bytes(resp, one),
            _ => response::write_value(resp, r.value()),
        }''')],'C16',''),
('ib-sat',[(IB,'''int
            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?''','int.saturating_add(amount)')],'C01',''),
('ib-f32',[(IB,'*float += amount;','*float = (*float as f32 + amount as f32) as f64;')],'C01',''),
('ib-drop',[(IB,'''        let int = key
            .as_integer_mut()
            .ok_or(DispatchError::KeyTypeDifferent)?;

        *int = int
            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?;

        response::write_int(resp, *int);''','''        let int = *key
            .as_integer_ref()
            .ok_or(DispatchError::KeyTypeDifferent)?;
        let k = key.key().clone();
        drop(key);

        let int = int
            .checked_add(amount)
            .ok_or(DispatchError::PreconditionFailed)?;
        hop.state().insert(k, Value::Integer(int));

        response::write_int(resp, int);''')],'C08',''),
('is-missing',[(IS,'.unwrap_or(false)','.unwrap_or(true)')],'C17',''),
('ke-hold',[(KE,'''        let key_type = req
            .key_type()
            .or_else(|| hop.state().key_type(key))
            .unwrap_or(KeyType::Map);''','''        let held = hop.state().key_mut(key);
        let key_type = req
            .key_type()
            .or_else(|| hop.state().key_type(key))
            .unwrap_or(KeyType::Map);
        drop(held);''')],'C09',''),
('ke-filter',[(KE,'map.iter().map(|r| r.key().to_vec())','map.iter().filter(|r| !r.value().is_empty()).map(|r| r.key().to_vec())')],'C16',''),
('le-bytes',[(LE,'string.chars().count() as i64','string.len() as i64')],'C16',''),
('le-u16',[(LE,'list.len() as i64','list.len() as u16 as i64')],'C16',''),
('le-missing',[(LE,'.unwrap_or(KeyType::Bytes)','.unwrap_or(KeyType::Boolean)')],'C06',''),
('re-order',[(RE_,'''        if state.contains_key(arg) {
            return Err(DispatchError::PreconditionFailed);
        }

        let (_, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;
''','''        let (_, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;

        if state.contains_key(arg) {
            return Err(DispatchError::PreconditionFailed);
        }
''')],'C03',''),
('re-same',[(RE_,'''        if state.contains_key(arg) {''','''        if key != arg && state.contains_key(arg) {''')],'C07',''),
('se-nan',[(SE,'''        let mut key = hop.state().key_or_insert_with(key, Value::float);
        *key''','''        if f64::is_nan(arg) {
            return Err(DispatchError::ArgumentRetrieval);
        }
        let mut key = hop.state().key_or_insert_with(key, Value::float);
        *key''')],'C07',''),
('se-merge',[(SE,'''        response::write_map(resp, &args);

        *key = Value::Map(args);''','''        if let Some(old) = key.as_map_mut() {
            for (k, v) in args {
                old.insert(k, v);
            }
            response::write_map(resp, old);
        } else {
            response::write_map(resp, &args);
            *key = Value::Map(args);
        }''')],'C01',''),
('se-skip',[(SE,'let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;\n\n        response','let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?.filter(|a| !a.is_empty());\n\n        response')],'',''),
('se-str',[(SE,'*key = Value::String(arg.to_owned());','*key = Value::String(arg.trim_end().to_owned());')],'C01',''),
('se-fail-late',[(SE,'''        let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
        let mut key = hop.state().key_or_insert_with(key, Value::set);
''','''        let mut key = hop.state().key_or_insert_with(key, Value::set);
        let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
''')],'C03',''),
('st-swap',[(ST,'let key = counter.name().as_bytes().to_vec();','''let key = match counter {
                Metric::SessionsEnded => Metric::SessionsStarted.name(),
                Metric::SessionsStarted => Metric::SessionsEnded.name(),
                other => other.name(),
            }
            .as_bytes()
            .to_vec();''')],'C13',''),
('st-trunc',[(ST,'i64::try_from(x).ok()','Some(i64::from(x as u32))')],'C13',''),
('ty-create',[(TY_,'''            .key_type(key)
            .ok_or_else(|| DispatchError::KeyNonexistent)?;''','''            .key_type(key)
            .or_else(|| hop.state().remove(b"").map(|(_, v)| v.kind()))
            .ok_or_else(|| DispatchError::KeyNonexistent)?;''')],'C04',''),
('ec-none',[(EC,'''                let empty_slice: &[&[u8]] = &[];

                response::write_list(resp, empty_slice);''','''                response::write_bytes(resp, &[]);''')],'C16',''),
('hop-metric',[(H,'''        self.0.metrics_writer.increment(if res.is_ok() {
            Metric::CommandsSuccessful
        } else {
            Metric::CommandsErrored
        });''','''        if req.command_id() != CommandId::Stats || res.is_err() {
            self.0.metrics_writer.increment(if res.is_ok() {
                Metric::CommandsSuccessful
            } else {
                Metric::CommandsErrored
            });
        }''')],'C12',''),
('hop-clear',[(H,'''        self.0.metrics_writer.increment(if''','''        if res.is_err() && !out_len(resp_len) {
        }
        self.0.metrics_writer.increment(if''')],'',''),
('wl-abs',[(R,'to[start..start + 4].clone_from_slice(&msg_len_bytes[..4]);','to[..4].clone_from_slice(&msg_len_bytes[..4]);')],'C02',''),
('wl-count',[(R,'&item_count.to_be_bytes());\n}','&item_count.to_be_bytes());\n    to.shrink_to_fit();\n}')],'',ALL),
('wm-keylen',[(R,'response_len += 1 + key.len() as u32 + 4 + value.len() as u32;','response_len += 1 + key.len() as u8 as u32 + 4 + value.len() as u32;')],'C02',''),
('ws-len',[(R,'response_len += 2 + item.len() as u32;','response_len += 4 + item.len() as u32;')],'C02',''),
('wstr-chars',[(R,'''    let len = value.len() as u32;

    // kind + string len''','''    let len = value.chars().count() as u32;

    // kind + string len''')],'C02 W04',''),
]
