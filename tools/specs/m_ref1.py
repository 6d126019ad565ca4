I='engine/src/command/impl/'; Q='engine/src/command/request/mod.rs'; B='engine/src/command/request/builder.rs'; R='engine/src/command/response/mod.rs'; H='engine/src/hop.rs'; ST='engine/src/state/mod.rs'; X='engine/src/command/request/context.rs'; RX='engine/src/command/response/context.rs'
C='C01 C02 C03 C04 C05 C06 C07 C08 C09 C16 C17 C18'
W='W02 W03 W04 W05 W06'
M=[
('rf-append-helper',[(I+'append.rs',"        for arg in args {\n            bytes.extend_from_slice(arg);\n        }\n","        args.for_each(|arg| bytes.extend_from_slice(arg));\n")],'',C),
('rf-append-flat',[(I+'append.rs',"        for arg in args {\n            bytes.extend_from_slice(arg);\n        }\n","        bytes.extend(args.flat_map(|arg| arg.iter().copied()));\n")],'',C),
('rf-append-concat',[(I+'append.rs',"        for arg in args {\n            bytes.extend_from_slice(arg);\n        }\n","        let all: Vec<&[u8]> = args.collect();\n        bytes.append(&mut all.concat());\n")],'',C),
('rf-append-list-ext',[(I+'append.rs',"        list.append(&mut args.map(ToOwned::to_owned).collect());","        list.reserve(args.len());\n        list.extend(args.map(<[u8]>::to_vec));")],'',C),
('rf-append-str-loop',[(I+'append.rs',"        let args = args\n            .map(str::from_utf8)\n            .collect::<Result<Vec<_>, _>>()\n            .map_err(|_| DispatchError::ArgumentRetrieval)?;","        let mut texts = Vec::with_capacity(args.len());\n        for arg in args {\n            match str::from_utf8(arg) {\n                Ok(text) => texts.push(text),\n                Err(_) => return Err(DispatchError::ArgumentRetrieval),\n            }\n        }\n        let args = texts;")],'',C),
('rf-append-str-fold',[(I+'append.rs',"        let args = args\n            .map(str::from_utf8)\n            .collect::<Result<Vec<_>, _>>()\n            .map_err(|_| DispatchError::ArgumentRetrieval)?;","        let mut joined = alloc::string::String::new();\n        for arg in args {\n            joined.push_str(str::from_utf8(arg).map_err(|_| DispatchError::ArgumentRetrieval)?);\n        }\n        let args = Some(joined.as_str());")],'',C),
('rf-incby-match',[(I+'increment_by.rs',"        *int = int\n            .checked_add(amount)\n            .ok_or(DispatchError::PreconditionFailed)?;","        let (sum, over) = int.overflowing_add(amount);\n        if over {\n            return Err(DispatchError::PreconditionFailed);\n        }\n        *int = sum;")],'',C),
('rf-incby-i128',[(I+'increment_by.rs',"        *int = int\n            .checked_add(amount)\n            .ok_or(DispatchError::PreconditionFailed)?;","        let sum = i128::from(*int) + i128::from(amount);\n        *int = core::convert::TryFrom::try_from(sum).map_err(|_| DispatchError::PreconditionFailed)?;")],'',C),
('rf-incby-match2',[(I+'increment_by.rs',"        } else if let Some(int) = req.typed_arg::<i64>(1) {\n            Self::increment_int_by(hop, key, int, resp)\n        } else {\n            Err(DispatchError::ArgumentRetrieval)\n        }","        } else {\n            req.typed_arg::<i64>(1)\n                .ok_or(DispatchError::ArgumentRetrieval)\n                .and_then(|int| Self::increment_int_by(hop, key, int, resp))\n        }")],'',C),
('rf-set-list-once',[(I+'set.rs',"        *key = Value::List(args.map(ToOwned::to_owned).collect());\n        let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;\n\n        response::write_list(resp, args);","        let items: Vec<Vec<u8>> = args.map(ToOwned::to_owned).collect();\n        response::write_list(resp, &items);\n        *key = Value::List(items);")],'',C),
('rf-set-insert',[(I+'set.rs',"        let mut key = hop.state().key_or_insert_with(key, Value::bytes);\n        *key = Value::Bytes(arg.to_vec());\n","        hop.state().insert(key.to_vec(), Value::Bytes(arg.to_vec()));\n")],'',C),
('rf-set-generic',[(I+'set.rs',"        let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;\n        let mut key = hop.state().key_or_insert_with(key, Value::integer);\n        *key = Value::Integer(arg);\n\n        response::write_int(resp, arg);\n\n        Ok(())","        let arg: i64 = match req.typed_arg(1) {\n            Some(arg) => arg,\n            None => return Err(DispatchError::ArgumentRetrieval),\n        };\n        let stored = Value::Integer(arg);\n        response::write_value(resp, &stored);\n        *hop.state().key_or_insert_with(key, Value::integer) = stored;\n\n        Ok(())")],'',C),
('rf-stats-filter',[(I+'stats.rs',"        for counter in Self::COUNTERS {\n            let count = match metrics.counter(counter).and_then(|x| i64::try_from(x).ok()) {\n                Some(count) => count,\n                None => continue,\n            };\n            let key = counter.name().as_bytes().to_vec();\n            let value = count.to_be_bytes().to_vec();\n\n            map.insert(key, value);\n        }","        Self::COUNTERS\n            .iter()\n            .filter_map(|counter| {\n                let count = i64::try_from(metrics.counter(counter)?).ok()?;\n                Some((counter.name(), count))\n            })\n            .for_each(|(name, count)| {\n                map.insert(name.as_bytes().to_vec(), count.to_be_bytes().to_vec());\n            });")],'','C13 C02 C18 C04'),
('rf-stats-collect',[(I+'stats.rs',"        let map = DashMap::with_capacity(4);\n        let metrics = hop.metrics();\n\n        for counter in Self::COUNTERS {\n            let count = match metrics.counter(counter).and_then(|x| i64::try_from(x).ok()) {\n                Some(count) => count,\n                None => continue,\n            };\n            let key = counter.name().as_bytes().to_vec();\n            let value = count.to_be_bytes().to_vec();\n\n            map.insert(key, value);\n        }","        let metrics = hop.metrics();\n        let map: DashMap<Vec<u8>, Vec<u8>> = Self::COUNTERS\n            .iter()\n            .filter_map(|counter| metrics.counter(counter).map(|count| (counter, count)))\n            .filter_map(|(counter, count)| i64::try_from(count).ok().map(|c| (counter.name().as_bytes().to_vec(), c.to_be_bytes().to_vec())))\n            .collect();")],'','C13 C02 C18 C04'),
('rf-is-loop',[(I+'is.rs',"        let all = args.all(|key| {\n            hop.state()\n                .key_type(key)\n                .map(|k| k == key_type)\n                .unwrap_or(false)\n        });","        let state = hop.state();\n        let mut all = true;\n        while let Some(key) = args.next() {\n            if state.key_type(key) != Some(key_type) {\n                all = false;\n                break;\n            }\n        }")],'',C),
('rf-is-any',[(I+'is.rs',"        let all = args.all(|key| {\n            hop.state()\n                .key_type(key)\n                .map(|k| k == key_type)\n                .unwrap_or(false)\n        });","        let all = !args.any(|key| hop.state().key_type(key).map_or(true, |k| k != key_type));")],'',C),
('rf-is-try',[(I+'is.rs',"        let all = args.all(|key| {\n            hop.state()\n                .key_type(key)\n                .map(|k| k == key_type)\n                .unwrap_or(false)\n        });","        let all = args.find(|key| !matches!(hop.state().key_type(key), Some(k) if k == key_type)).is_none();")],'',C),
('rf-keys-vec',[(I+'keys.rs',"        let iter = map.iter().map(|r| r.key().to_vec());\n\n        response::write_list(resp, iter);","        let mut keys = Vec::with_capacity(map.len());\n        for entry in map.iter() {\n            keys.push(entry.key().clone());\n        }\n\n        response::write_list(resp, keys);")],'',C),
('rf-len-helper',[(I+'length.rs',"    fn bytes(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {\n        let key = hop\n            .state()\n            .key_ref(key)\n            .ok_or(DispatchError::KeyNonexistent)?;\n        let bytes = key.as_bytes_ref().ok_or(DispatchError::KeyTypeDifferent)?;\n\n        response::write_int(resp, bytes.len() as i64);\n\n        Ok(())\n    }","    fn with<T>(hop: &Hop, key: &[u8], of: impl FnOnce(&crate::state::Value) -> Option<T>) -> DispatchResult<T> {\n        hop.state()\n            .key_ref(key)\n            .ok_or(DispatchError::KeyNonexistent)\n            .and_then(|v| of(v.value()).ok_or(DispatchError::KeyTypeDifferent))\n    }\n\n    fn bytes(hop: &Hop, key: &[u8], resp: &mut Vec<u8>) -> DispatchResult<()> {\n        let len = Self::with(hop, key, |v| v.as_bytes_ref().map(|b| b.len()))?;\n\n        response::write_int(resp, len as i64);\n\n        Ok(())\n    }")],'',C),
('rf-len-chars',[(I+'length.rs',"string.chars().count() as i64","string.char_indices().fold(0i64, |n, _| n + 1)")],'',C),
('rf-get-filter',[(I+'get.rs',"        if let Some(key_type) = req.key_type() {\n            if r.value().kind() != key_type {\n                return Err(DispatchError::KeyTypeDifferent);\n            }\n        }","        let same = req.key_type().map_or(true, |t| t == r.value().kind());\n        if !same {\n            return Err(DispatchError::KeyTypeDifferent);\n        }")],'',C),
('rf-get-clone',[(I+'get.rs',"        response::write_value(resp, r.value());","        let value = r.value().clone();\n        drop(r);\n        response::write_value(resp, &value);")],'',C),
('rf-rename-entry',[(I+'rename.rs',"        if !state.contains_key(key) {\n            return Err(DispatchError::KeyNonexistent);\n        }\n\n        if state.contains_key(arg) {\n            return Err(DispatchError::PreconditionFailed);\n        }\n","        match (state.contains_key(key), state.contains_key(arg)) {\n            (false, _) => return Err(DispatchError::KeyNonexistent),\n            (true, true) => return Err(DispatchError::PreconditionFailed),\n            (true, false) => {}\n        }\n")],'',C+' C10'),
('rf-args-next',[(Q,"        if self.idx == self.to {\n            return None;\n        }\n\n        let idx = self.idx;\n        self.idx += 1;\n\n        self.request.arg(idx)","        if self.idx == self.to {\n            None\n        } else {\n            self.idx += 1;\n            self.request.arg(self.idx - 1)\n        }")],'',C+' W02'),
('rf-args-range',[(Q,"            Bound::Excluded(amt) => *amt + 1,\n            Bound::Included(amt) => *amt,\n            Bound::Unbounded => 0,","            Bound::Unbounded => 0,\n            Bound::Included(&amt) => amt,\n            Bound::Excluded(&amt) => amt + 1,")],'',W),
('rf-arg-slice',[(Q,"        if idx == 0 {\n            let base = if self.key_type.is_some() { 1 } else { 0 };\n\n            return self.buf.get(6 + base..=position);\n        }\n\n        let previous = self.positions.get(idx - 1)?;\n\n        self.buf.get(previous + 5..=position)","        let start = match idx.checked_sub(1) {\n            None => 6 + usize::from(self.key_type.is_some()),\n            Some(before) => self.positions.get(before).copied()? + 5,\n        };\n\n        self.buf.get(start..position + 1)")],'',W+' '+C),
('rf-bool-arg',[(Q,"        let byte = bytes.first()?;\n\n        Some(*byte > 0)","        bytes.first().map(|byte| *byte != 0)")],'',C+' L01'),
('rf-f64-arg',[(Q,"        let arr = bytes.get(..8)?.try_into().ok()?;\n\n        Some(f64::from_be_bytes(arr))","        let mut arr = [0u8; 8];\n        arr.copy_from_slice(bytes.get(..8)?);\n\n        Some(f64::from_be_bytes(arr))")],'',C+' W02'),
('rf-map-chunks',[(Q,"        while let Some(k) = args.next() {\n            let v = args.next()?;\n\n            map.insert(k.to_owned(), v.to_owned());\n        }\n\n        Some(map)","        loop {\n            match (args.next(), args.next()) {\n                (Some(k), Some(v)) => {\n                    map.insert(k.to_owned(), v.to_owned());\n                }\n                (Some(_), None) => return None,\n                (None, _) => return Some(map),\n            }\n        }")],'',C),
('rf-set-collect',[(Q,"        let set = DashSet::new();\n\n        for arg in args {\n            set.insert(arg.to_owned());\n        }\n\n        Some(set)","        Some(args.map(ToOwned::to_owned).collect())")],'',C),
('rf-dispatch-closure',[(H,"        self.0.metrics_writer.increment(if res.is_ok() {\n            Metric::CommandsSuccessful\n        } else {\n            Metric::CommandsErrored\n        });\n\n        res","        let metric = match &res {\n            Ok(()) => Metric::CommandsSuccessful,\n            Err(_) => Metric::CommandsErrored,\n        };\n        self.0.metrics_writer.increment(metric);\n\n        res")],'','C12'),
('rf-dispatch-mapboth',[(H,"        self.0.metrics_writer.increment(if res.is_ok() {\n            Metric::CommandsSuccessful\n        } else {\n            Metric::CommandsErrored\n        });\n\n        res","        let writer = &self.0.metrics_writer;\n        res.map(|()| {\n            writer.increment(Metric::CommandsSuccessful);\n        })\n        .map_err(|why| {\n            writer.increment(Metric::CommandsErrored);\n            why\n        })")],'','C12'),
]
