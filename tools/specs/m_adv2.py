B='engine/src/command/request/builder.rs'; Q='engine/src/command/request/mod.rs'; R='engine/src/command/response/mod.rs'; H='engine/src/hop.rs'; ST='engine/src/state/mod.rs'; T='lib/timer/src/lib.rs'; X='engine/src/command/request/context.rs'; RX='engine/src/command/response/context.rs'
M=[
('b-from-count',[(B,"builder.argument_count = builder.positions.len() as u8;","builder.argument_count = (builder.positions.len() & 0x7f) as u8;")],'W02',''),
('b-into-trim',[(B,"            buf: Cow::Owned(self.buf),","            buf: Cow::Owned(if self.argument_count == 255 { self.buf[..self.buf.len() - 1].to_vec() } else { self.buf }),")],'W02',''),
('b-map-half',[(B,"                for (k, v) in map.into_iter() {\n                    self.push_argument(k)?;\n                    self.push_argument(v)?;","                for (k, v) in map.into_iter() {\n                    self.push_argument(k)?;\n                    if v.is_empty() {\n                        continue;\n                    }\n                    self.push_argument(v)?;")],'W02',''),
('b-set-empty',[(B,"                if set.is_empty() {\n                    return Err(RequestBuilderError::ValueEmpty);","                if set.is_empty() || set.contains(b\"\".as_ref()) {\n                    return Err(RequestBuilderError::ValueEmpty);")],'W06',''),
('b-refuse-late',[(B,"                if list.is_empty() || list.iter().any(Vec::is_empty) {\n                    return Err(RequestBuilderError::ValueEmpty);\n                }\n\n                for item in list {\n","                if list.is_empty() {\n                    return Err(RequestBuilderError::ValueEmpty);\n                }\n\n                for item in list {\n                    if item.is_empty() {\n                        return Err(RequestBuilderError::ValueEmpty);\n                    }\n")],'W02',''),
('b-list-le1',[(B,"                if self.arguments_would_overfill(list.len()) {","                if self.arguments_would_overfill(list.len().saturating_sub(1)) {")],'W02 W06',''),
('b-float-nan',[(B,"            Value::Float(float) => {\n                self.push","            Value::Float(float) => {\n                let float = if float == 0.0 { 0.0 } else { float };\n                self.push")],'W02',''),
('b-key-type-none',[(B,"        let key_type = key_type.into();\n","        let key_type = key_type.into().filter(|_| !command_id.is_simple());\n")],'W02',''),
('b-reuse-pos',[(B,"                base + 1 + 4 + argument_len\n","                self.buf.len() - 1\n")],'','W02'),
('b-partialpush',[(B,"        if self.arguments_would_overfill(1) {\n            return Err(RequestBuilderError::TooManyArguments);\n        }\n\n        let argument = argument.into();\n        let argument_len = argument.len();\n\n        let argument_len_bytes = (argument_len as u32).to_be_bytes();\n        self.buf.extend_from_slice(&argument_len_bytes);","        let argument = argument.into();\n        let argument_len = argument.len();\n\n        let argument_len_bytes = (argument_len as u32).to_be_bytes();\n        self.buf.extend_from_slice(&argument_len_bytes);\n        if self.arguments_would_overfill(1) {\n            return Err(RequestBuilderError::TooManyArguments);\n        }\n")],'W02',''),
('q-len',[(Q,"        self.to.saturating_sub(self.idx)","        self.to - self.idx")],'',''),
('q-args-empty',[(Q,"        if self.arg_count() == 0 {\n            return None;","        if self.arg_count() == 0 || self.command_id.is_simple() {\n            return None;")],'',''),
('q-strtrim',[(Q,"        str::from_utf8(bytes).ok()","        str::from_utf8(bytes).ok().map(|s| s.trim_start_matches('\\u{feff}'))")],'C01',''),
('q-map-oddlast',[(Q,"            let v = args.next()?;","            let v = args.next().unwrap_or(&[]);")],'C07 C01',''),
('q-bool-any',[(Q,"        let byte = bytes.first()?;\n\n        Some(*byte > 0)","        let byte = bytes.first()?;\n\n        Some(*byte == 1)")],'W02',''),
('q-i64-last',[(Q,"        let arr = bytes.get(..8)?.try_into().ok()?;\n\n        Some(i64::from_be_bytes(arr))","        let arr = bytes.get(bytes.len().checked_sub(8)?..)?.try_into().ok()?;\n\n        Some(i64::from_be_bytes(arr))")],'',''),
('r-copy-clear',[(R,"    pub fn copy_to(&self, buf: &mut Vec<u8>) {\n","    pub fn copy_to(&self, buf: &mut Vec<u8>) {\n        if buf.capacity() > 1 << 20 {\n            buf.clear();\n        }\n")],'W04',''),
('r-list-u8',[(R,"to[start + 5..start + 7].clone_from_slice(&item_count.to_be_bytes());","to[start + 6] = item_count as u8;")],'W04',''),
('r-map-len',[(R,"            response_len += 1 + key.len() as u32 + 4 + value.len() as u32;","            response_len += 1 + (key.len() as u8) as u32 + 4 + value.len() as u32;")],'',''),
('r-float-nan',[(R,"    to.extend_from_slice(&value.to_be_bytes());\n}\n\npub fn write_int","    to.extend_from_slice(&(value + 0.0).to_be_bytes());\n}\n\npub fn write_int")],'W04',''),
('h-cfg-swap',[(H,"        self.0.sessions_active_max = sessions_active_max;","        self.0.sessions_active_max = sessions_active_max.max(1);")],'H01',''),
('h-count-late',[(H,"        self.0.metrics_writer.increment(if res.is_ok() {","        if let Err(DispatchError::KeyNonexistent) = res {\n            return res;\n        }\n        self.0.metrics_writer.increment(if res.is_ok() {")],'C12',''),
('h-metrics2',[(H,"            sessions: SessionManager::new(writer),","            sessions: SessionManager::new(Metrics::default().writer()),")],'H01',''),
('st-remove-if',[(ST,"        self.0.remove(key)\n","        if key.starts_with(b\"__hop__\") {\n            return None;\n        }\n        self.0.remove(key)\n")],'V01',''),
('st-prefix',[(ST,"        if key.starts_with(b\"__hop__:\") {\n            panic!(\"Accessed internal key: {}\", String::from_utf8_lossy(key));\n        }\n\n        debug_assert!(!key.is_empty());\n\n        self.0.get(key)","        if key.starts_with(b\"__hop__\") {\n            panic!(\"Accessed internal key: {}\", String::from_utf8_lossy(key));\n        }\n\n        debug_assert!(!key.is_empty());\n\n        self.0.get(key)")],'V01',''),
('t-reset-run',[(T,"        self.stop.take();\n        self.start.take();","        if self.stop.take().is_some() {\n            self.start.take();\n        }")],'T01',''),
('t-sub',[(T,"        Some(self.stop? - self.start?)","        Some(Duration::from_micros((self.stop? - self.start?).as_micros() as u64))")],'T01',''),
('t-coarse',[(T,"libc::clock_gettime(CLOCK_MONOTONIC, &mut timespec);","libc::clock_gettime(libc::CLOCK_REALTIME_COARSE, &mut timespec);")],'T01',''),
('t-running',[(T,"        self.start.is_some() && self.stop.is_none()","        self.start.is_some() || self.stop.is_some()")],'T01',''),
('x-keytype-late',[(X,"CommandId::try_from(byte & 0b0111_1111)","CommandId::try_from(byte & 0b0011_1111)")],'W03',''),
('rx-str-lossy',[(RX,"StringInvalid)?","StringInvalid).unwrap_or_default()")],'',''),
]
