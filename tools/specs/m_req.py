R='client/src/request/'
M=[
('getint-none',[(R+'get/get_integer.rs','Some(KeyType::Integer)','Some(KeyType::Float)')],'B02',''),
('append-str-set',[(R+'append/append_string.rs','backend.append(key','backend.set(key')],'B02',''),
('rename-swap',[(R+'rename.rs','backend.rename(from, to).await','backend.rename(to, from).await')],'B02',''),
('by-neg',[(R+'decrement/decrement_int.rs','self.amount = amount;','self.amount += amount;')],'B02',''),
('dec-float-inc',[(R+'decrement/decrement_float.rs','backend.decrement_by','backend.increment_by')],'B02',''),
('keys-255',[(R+'exists.rs','keys.len() > u8::MAX as usize','keys.len() >= u8::MAX as usize')],'B02',''),
('is-max',[(R+'is.rs','keys.len() > u8::MAX as usize','keys.len() > i8::MAX as usize')],'B02',''),
('length-str',[(R+'length.rs','self.kind.replace(KeyType::Set);','self.kind.replace(KeyType::List);')],'B02',''),
('length-take',[(R+'length.rs','let kind = self.kind.take();','let kind = self.kind.take().filter(|k| *k != KeyType::Map);')],'B02',''),
('repoll',[(R+'delete.rs','''        if self.fut.is_none() {''','''        if self.fut.is_none() || self.backend.is_some() {''')],'',''),
('set-int-bool',[(R+'set/mod.rs','SetBoolean::new(self.backend, self.key, boolean)','SetBoolean::new(self.backend, self.key, !boolean)')],'B02',''),
('list-rev',[(R+'set/set_list.rs','Value::List(list) => Ok(list)','Value::List(mut list) => { list.reverse(); Ok(list) }')],'B02',''),
('set-set-dedup',[(R+'append/append_list.rs','let value = self.value.take().expect("value only taken once");','let mut value = self.value.take().expect("value only taken once"); value.dedup();')],'B02',''),
('err-swallow',[(R+'set/set_boolean.rs','''.await?;''','''.await.or_else(|e| if key.len() == 0 { Ok(Value::Boolean(true)) } else { Err(e) })?;''')],'B02',''),
# refactorings
('r-match',[(R+'get/get_list.rs','''                match value {
                    Value::List(list) => Ok(list),
                    _ => unreachable!(),
                }''','''                if let Value::List(list) = value {
                    return Ok(list);
                }

                unreachable!()''')],'','B02 B01 B04'),
('r-keys',[(R+'exists.rs','''        if keys.is_empty() {
            return Err(CommandConfigurationError::NoKeys);
        } else if keys.len() > u8::MAX as usize {
            return Err(CommandConfigurationError::TooManyKeys);
        }

        Ok(ExistsConfigured::new(self.backend, keys))''','''        match keys.len() {
            0 => Err(CommandConfigurationError::NoKeys),
            1..=255 => Ok(ExistsConfigured::new(self.backend, keys)),
            _ => Err(CommandConfigurationError::TooManyKeys),
        }''')],'','B02'),
('r-vec',[(R+'is.rs','''        let mut keys = Vec::new();
        keys.push(key);

        IsConfigured::new(self.backend, self.key_type, keys)''','''        IsConfigured::new(self.backend, self.key_type, core::iter::once(key).collect())''')],'','B02'),
('r-setmap',[(R+'set/mod.rs','FromIterator::from_iter(map.into_iter().map(|(k, v)| (k.into(), v.into())))','{ let out = hop_engine::dashmap::DashMap::new(); for (k, v) in map { out.insert(k.into(), v.into()); } out }')],'','B02'),
('r-poll',[(R+'keys.rs','self.fut.as_mut().expect("future exists").as_mut().poll(cx)','match self.fut.as_mut() { Some(fut) => fut.as_mut().poll(cx), None => unreachable!() }')],'','B02'),
]
