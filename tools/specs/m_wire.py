B='engine/src/command/request/builder.rs'
O="if list.is_empty() || list.iter().any(Vec::is_empty) {"
M=[
('r-all',[(B,O,"if list.is_empty() || !list.iter().all(|i| !i.is_empty()) {")],'','W02 W06'),
('r-loop',[(B,O,"for item in &list {\n if item.is_empty() { return Err(RequestBuilderError::ValueEmpty); }\n }\n if list.is_empty() {")],'','W02 W06'),
('m-skip1',[(B,O,"if list.is_empty() || list.iter().skip(1).any(Vec::is_empty) {")],'W06',''),
('m-all',[(B,O,"if list.is_empty() || list.iter().all(Vec::is_empty) {")],'W06',''),
('m-old',[(B,O,"if list.is_empty() {"),(B,"for item in list {\n","for item in list {\n if item.is_empty() { return Err(RequestBuilderError::ValueEmpty); }\n")],'W02',''),
]
C='engine/src/command/request/context.rs'
Q='engine/src/command/request/mod.rs'
P='engine/src/command/response/context.rs'
W='engine/src/command/response/mod.rs'
ALL='W01 W02 W03 W04 W05 W06'
M+=[
# refactorings
('r-rp-pos',[(C,"let positions = mem::replace(&mut self.positions, ArrayVec::new());\n                    self.reset();","let positions = self.positions.clone();\n                    self.reset();")],'',ALL),
('r-rp-rest',[(C,"let len_bytes = match buf.get(self.idx..self.idx + Self::ARG_LEN_BYTES) {\n            Some(bytes) => bytes.try_into().unwrap(),\n            None => return Ok(Conclusion::Incomplete),\n        };","let rest = &buf[self.idx..];\n        if rest.len() < Self::ARG_LEN_BYTES { return Ok(Conclusion::Incomplete); }\n        let mut len_bytes = [0u8; 4];\n        len_bytes.copy_from_slice(&rest[..Self::ARG_LEN_BYTES]);")],'',ALL),
('r-rp-remaining',[(C,"if buf.len() < arg_end {","let left = buf.len() - self.idx - Self::ARG_LEN_BYTES;\n        if left < arg_len {")],'',ALL),
('r-rp-last',[(C,"self.positions.push(arg_end - 1);\n\n        self.idx = arg_end;\n\n        if self.positions.len() == argument_count as usize {","let last = self.positions.len() + 1 == usize::from(argument_count);\n        self.positions.push(arg_end - 1);\n        self.idx = arg_end;\n        if last {")],'',ALL),
('r-rp-keytype',[(C,"let key_type = if byte >> 7 == 1 {","let key_type = if byte & 0x80 != 0 {")],'',ALL),
('r-rp-split',[(C,"match conclusion {\n                Conclusion::Finished((command_id, key_type)) => {\n                    // Bytes following the request belong to the next one.\n                    let end = self.idx;","match conclusion {\n                Conclusion::Finished((command_id, key_type)) => {\n                    let end = self.idx.min(buf.len());")],'',ALL),
('r-arg-split',[(Q,"if idx == 0 {\n            let base = if self.key_type.is_some() { 1 } else { 0 };\n\n            return self.buf.get(6 + base..=position);\n        }\n\n        let previous = self.positions.get(idx - 1)?;\n\n        self.buf.get(previous + 5..=position)","let start = match idx.checked_sub(1) {\n            Some(p) => self.positions.get(p)? + 1,\n            None if self.key_type.is_some() => 3,\n            None => 2,\n        };\n        let (from, to) = (start + 4, position + 1);\n        self.buf.get(from..to)")],'',ALL),
('r-args-next',[(Q,"if self.idx == self.to {\n            return None;\n        }\n\n        let idx = self.idx;\n        self.idx += 1;\n\n        self.request.arg(idx)","if self.idx >= self.to {\n            return None;\n        }\n        let item = self.request.arg(self.idx);\n        self.idx += 1;\n        item")],'',ALL),
('r-count',[(B,"self.argument_count += 1;","self.argument_count = self.positions.len() as u8;")],'',''),
('r-pp-helper',[(P,"let byte = match buf.get(self.idx) {\n            Some(byte) => *byte,\n            None => return Ok(Some(Instruction::ReadBytes(1))),\n        };\n\n        Ok(Some(Instruction::Concluded(Response::from(byte != 0))))","if self.idx >= buf.len() {\n            return Ok(Some(Instruction::ReadBytes(1)));\n        }\n        let truth = matches!(buf[self.idx], 1..=255);\n        Ok(Some(Instruction::Concluded(truth.into())))")],'',ALL),
('r-pp-init',[(P,"match buf.get(..4) {\n            Some(bytes) => {\n                let msg_len = u32::from_be_bytes(bytes.try_into().unwrap());\n\n                if buf.len() < msg_len as usize + 4 {\n                    return Ok(Some(Instruction::ReadBytes(\n                        4 + msg_len as usize - buf.len(),\n                    )));\n                }\n            }\n            None => {\n                return Ok(Some(Instruction::ReadBytes(\n                    4usize.saturating_sub(buf.len()),\n                )))\n            }\n        };","if buf.len() < 4 {\n            return Ok(Some(Instruction::ReadBytes(4 - buf.len())));\n        }\n        let msg_len = u32::from_be_bytes([buf[0], buf[1], buf[2], buf[3]]) as usize;\n        let total = msg_len + 4;\n        if total > buf.len() {\n            return Ok(Some(Instruction::ReadBytes(total - buf.len())));\n        }")],'',ALL),
('r-pp-list',[(P,"args.push(arg.to_vec());\n\n                if args.len() < len as usize {\n                    self.idx = arg_value_end;\n\n                    return Ok(None);\n                }","args.push(Vec::from(arg));\n                self.idx = arg_value_end;\n                if args.len() != usize::from(len) {\n                    return Ok(None);\n                }")],'',ALL),
('r-pp-mapentry',[(P,"map.insert(key.to_vec(), value.to_vec());","let (k, v) = (key.to_vec(), value.to_vec());\n                let _ = map.insert(k, v);")],'',ALL),
('r-w-bool',[(W,"to.push(if value { 1 } else { 0 });","to.push(u8::from(value));")],'',ALL),
('r-w-bytes',[(W,"let response_len = 1 + 4 + len;\n    to.extend_from_slice(&response_len.to_be_bytes());\n    to.push(ResponseType::Bytes as u8);\n    to.extend_from_slice(&len.to_be_bytes());\n    to.extend_from_slice(value);","let mut head = [0u8; 9];\n    head[..4].copy_from_slice(&(len + 5).to_be_bytes());\n    head[4] = ResponseType::Bytes as u8;\n    head[5..].copy_from_slice(&len.to_be_bytes());\n    to.extend_from_slice(&head);\n    to.extend_from_slice(value);")],'',ALL),
('r-w-list',[(W,"let msg_len_bytes = msg_len.to_be_bytes();\n\n    to[start..start + 4].clone_from_slice(&msg_len_bytes[..4]);","let msg_len = (to.len() - start - 4) as u32;\n    to[start..start + 4].copy_from_slice(&msg_len.to_be_bytes());"),(W,"        msg_len += 4 + item_len;\n",""),(W,"    let mut msg_len = 1 + 2;\n","")],'',ALL),
('r-w-map',[(W,"response_len += 1 + key.len() as u32 + 4 + value.len() as u32;","response_len += 5;\n            response_len += (key.len() + value.len()) as u32;")],'',ALL),
('r-w-mapsum',[(W,"let mut response_len: u32 = 1 + 2;\n\n        for item in value.iter() {\n            let (key, value) = item.pair();\n\n            // key len + key bytes len + value len + value bytes len\n            response_len += 1 + key.len() as u32 + 4 + value.len() as u32;\n        }","let response_len: u32 = 3 + value.iter().map(|e| 5 + e.key().len() as u32 + e.value().len() as u32).sum::<u32>();")],'',ALL),
('r-w-str',[(W,"pub fn write_str(to: &mut Vec<u8>, value: &str) {\n    let len = value.len() as u32;\n\n    // kind + string len + string bytes len\n    let response_len = 1 + 4 + len;\n    to.extend_from_slice(&response_len.to_be_bytes());\n    to.push(ResponseType::String as u8);\n\n    to.extend_from_slice(&len.to_be_bytes());\n    to.extend_from_slice(value.as_bytes());","pub fn write_str(to: &mut Vec<u8>, value: &str) {\n    let at = to.len();\n    write_bytes(to, value.as_bytes());\n    to[at + 4] = ResponseType::String as u8;")],'',ALL),
]
M+=[
# mutants
('m-rp-mask',[(C,"byte & 0b0111_1111","byte & 0b0011_1111")],'W03',''),
('m-rp-noreset-idx',[(C,"self.idx = 0;\n        self.positions.clear();\n        self.stage = Stage::default();","self.positions.clear();\n        self.stage = Stage::default();")],'W03',''),
('m-rp-resetsimple',[(C,"                    self.reset();\n","                    if !command_id.is_simple() {\n self.reset();\n }\n")],'W03',''),
('m-rp-endlt',[(C,"if buf.len() < arg_end {","if buf.len() + 1 < arg_end {")],'W03',''),
('m-rp-endle',[(C,"if buf.len() < arg_end {","if buf.len() <= arg_end {")],'W03',''),
('m-rp-len24',[(C,"u32::from_be_bytes(len_bytes) as usize","(u32::from_be_bytes(len_bytes) & 0x00ff_ffff) as usize")],'W03',''),
('m-rp-len-u16',[(C,"u32::from_be_bytes(len_bytes) as usize","u32::from_be_bytes(len_bytes) as u16 as usize")],'W03',''),
('m-rp-stale-idx',[(C,"            None => return Ok(Conclusion::Incomplete),\n        };\n\n        let arg_len","            None => { self.positions.clear(); return Ok(Conclusion::Incomplete) },\n        };\n\n        let arg_len")],'W03',''),
('m-rp-incomplete-adv',[(C,"if buf.len() < arg_end {\n            return","if buf.len() < arg_end {\n            self.idx += Self::ARG_LEN_BYTES;\n            return")],'W03',''),
('m-rp-ge',[(C,"self.positions.len() == argument_count as usize","self.positions.len() >= argument_count.max(2) as usize - 1 && self.positions.len() + 1 > argument_count as usize / 2 * 2")],'W03',''),
('m-rp-lastbyte',[(C,"None => return Ok(Conclusion::Incomplete),\n            };\n\n            Some(KeyType","None => { self.idx = 1; return Ok(Conclusion::Incomplete) },\n            };\n\n            Some(KeyType")],'',''),
('m-rp-err-swap',[(C,"KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?","KeyType::try_from(key_type_id).map_err(|_| ParseError::CommandIdInvalid)?")],'W03',''),
('m-arg-base',[(Q,"let base = if self.key_type.is_some() { 1 } else { 0 };","let base = if self.key_type.is_some() && self.positions.len() < 200 { 1 } else { 0 };")],'W02',''),
('m-args-to',[(Q,"Bound::Included(amt) => *amt + 1,\n            Bound::Unbounded => self.arg_count(),","Bound::Included(amt) => *amt,\n            Bound::Unbounded => self.arg_count(),")],'W02',''),
('m-args-unb',[(Q,"Bound::Unbounded => self.arg_count(),","Bound::Unbounded => self.arg_count().min(128),")],'W02',''),
('m-args-excl',[(Q,"Bound::Excluded(amt) => *amt + 1,","Bound::Excluded(amt) => *amt,")],'',''),
('m-typed0',[(Q,"let args = self.args(1..)?;","let args = self.args(..)?;")],'',''),
('m-key-filter',[(Q,"self.arg(0).filter(|key| !key.is_empty())","self.arg(0).filter(|key| key.len() > 1)")],'',''),
('m-bool1',[(Q,"Some(*byte > 0)","Some(*byte == 1)")],'',''),
('m-i64-exact',[(Q,"let arr = bytes.get(..8)?.try_into().ok()?;\n\n        Some(i64","let arr = bytes.get(bytes.len().checked_sub(8)?..)?.try_into().ok()?;\n\n        Some(i64")],'',''),
('m-map-odd',[(Q,"let v = args.next()?;","let v = match args.next() { Some(v) => v, None => break };")],'',''),
('m-pb-u8',[(B,"let argument_len_bytes = (argument_len as u32).to_be_bytes();","let argument_len_bytes = (argument_len as u16 as u32).to_be_bytes();")],'W02',''),
('m-pb-overfill',[(B,"amount > usize::from(u8::MAX - self.argument_count)","amount >= usize::from(u8::MAX - self.argument_count)")],'W06',''),
('m-pb-mul',[(B,"map.len().saturating_mul(2)","map.len()")],'W06 W02',''),
('m-pb-count-kt',[(B,"self.buf[1 + self.key_type.is_some() as usize] = self.argument_count;","self.buf[if self.key_type.is_some() && self.argument_count < 100 { 2 } else { 1 }] = self.argument_count;")],'W02',''),
('m-pb-simplekt',[(B,"if !command_id.is_simple() {\n            buf.push(0);\n        }\n\n        Self {\n            argument_count: 0,\n            buf,\n            command_id,\n            key_type,","if !command_id.is_simple() || key_type.is_some() {\n            buf.push(0);\n        }\n\n        Self {\n            argument_count: 0,\n            buf,\n            command_id,\n            key_type,")],'W02',''),
]
M+=[
('p-init-le',[(P,"if buf.len() < msg_len as usize + 4 {","if buf.len() < msg_len as usize {")],'W05',''),
('p-init-24',[(P,"let msg_len = u32::from_be_bytes(bytes.try_into().unwrap());\n\n                if","let msg_len = u32::from_be_bytes(bytes.try_into().unwrap()) & 0xff_ffff;\n\n                if")],'W05',''),
('p-init-read4',[(P,"4usize.saturating_sub(buf.len())","4")],'W05',''),
('p-init-readbig',[(P,"4 + msg_len as usize - buf.len(),","4 + (msg_len as usize).min(4096) - buf.len().min(4096),")],'W05',''),
('p-bool1',[(P,"Response::from(byte != 0)","Response::from(byte == 1)")],'W05',''),
('p-bytes-len',[(P,"match buf.get(self.idx..self.idx + len as usize) {\n            Some(bytes) => bytes,\n            None => {\n                let buf_len","match buf.get(self.idx..self.idx + (len & 0xffff) as usize) {\n            Some(bytes) => bytes,\n            None => {\n                let buf_len")],'W05',''),
('p-bytes-rest',[(P,"Ok(Some(Instruction::Concluded(Response::from(bytes.to_vec()))))","let bytes = if len > 65535 { &buf[self.idx..] } else { bytes };\n        Ok(Some(Instruction::Concluded(Response::from(bytes.to_vec()))))")],'W05',''),
('p-float-read',[(P,"None => return Ok(Some(Instruction::ReadBytes(1))),\n        };\n\n        let float","None => return Ok(Some(Instruction::ReadBytes(8))),\n        };\n\n        let float")],'',''),
('p-list-count',[(P,"if args.len() < len as usize {\n                    self.idx = arg_value_end;","if args.len() < len.min(1024) as usize {\n                    self.idx = arg_value_end;")],'W05',''),
('p-list-noidx',[(P,"args.push(arg.to_vec());\n","if !arg.is_empty() || args.is_empty() { args.push(arg.to_vec()); }\n")],'W05',''),
('p-list-len16',[(P,"Some(arg_len) => u32::from_be_bytes(arg_len.try_into().unwrap()),\n            None => {\n                let remaining = remaining_bytes(self.idx, buf.len(), 4);","Some(arg_len) => u32::from_be_bytes(arg_len.try_into().unwrap()) & 0xffff,\n            None => {\n                let remaining = remaining_bytes(self.idx, buf.len(), 4);")],'W05',''),
('p-list-advance-early',[(P,"let arg = match buf.get(arg_size_end..arg_value_end) {\n            Some(arg) => arg,\n            None => {\n                let remaining = arg_value_end - buf.len();\n\n                return Ok(Some(Instruction::ReadBytes(remaining)));\n            }\n        };\n\n        match self.stage {\n            Stage::List","let arg = match buf.get(arg_size_end..arg_value_end) {\n            Some(arg) => arg,\n            None => {\n                let remaining = arg_value_end - buf.len();\n                self.idx = arg_size_end;\n                return Ok(Some(Instruction::ReadBytes(remaining)));\n            }\n        };\n\n        match self.stage {\n            Stage::List")],'W05',''),
('p-map-swap',[(P,"map.insert(key.to_vec(), value.to_vec());","if key.is_empty() { map.insert(value.to_vec(), key.to_vec()); } else { map.insert(key.to_vec(), value.to_vec()); }")],'W05',''),
('p-map-keylen',[(P,"Some(key_len) => u8::from_be_bytes(key_len.try_into().unwrap()),","Some(key_len) => u8::from_be_bytes(key_len.try_into().unwrap()) & 0x7f,")],'W05',''),
('p-map-remaining',[(P,"let remaining = value_size_end - buf.len();","let remaining = value_size_end - key_value_end;")],'W05',''),
('p-set-u8',[(P,"Some(arg_len) => u16::from_be_bytes(arg_len.try_into().unwrap()),","Some(arg_len) => u16::from(arg_len[1]),")],'W05',''),
('p-set-noadv',[(P,"if args.len() < len as usize {\n                    self.idx = arg_value_end;\n\n                    return Ok(None);\n                }\n            }\n            _ => unreachable!(),\n        };\n\n        // Our","if args.len() < len as usize {\n                    self.idx = arg_value_end.min(65536);\n\n                    return Ok(None);\n                }\n            }\n            _ => unreachable!(),\n        };\n\n        // Our")],'W05',''),
('p-str-lossy',[(P,"String::from_utf8(bytes.to_vec()).map_err(|_| ParseError::StringInvalid)?","String::from_utf8_lossy(bytes).into_owned()")],'W05',''),
('p-derr-swap',[(P,"DispatchError::try_from(byte).map_err(|_| ParseError::DispatchErrorInvalid)?","DispatchError::try_from(byte).map_err(|_| ParseError::ParseErrorInvalid)?")],'W05',''),
('p-noreset',[(P,"                    self.reset();\n\n                    return Ok(Instruction::Concluded(response));","                    self.stage = Stage::default();\n                    self.idx = if matches!(response, Response::Value(_)) { 0 } else { self.idx };\n\n                    return Ok(Instruction::Concluded(response));")],'W05',''),
('p-type-len',[(P,"ResponseType::Bytes | ResponseType::String => Stage::TypeInit { kind, read_len: 4 },","ResponseType::Bytes => Stage::TypeInit { kind, read_len: 4 },\n            ResponseType::String => Stage::TypeInit { kind, read_len: 2 },")],'W05',''),
# writers
('w-bool',[(W,"to.push(if value { 1 } else { 0 });","to.push(if value { 255 } else { 0 });")],'W04',''),
('w-bytes-len',[(W,"let response_len = 1 + 4 + len;\n    to.extend_from_slice(&response_len.to_be_bytes());\n    to.push(ResponseType::Bytes as u8);","let response_len = (1 + 4 + len) & 0x00ff_ffff;\n    to.extend_from_slice(&response_len.to_be_bytes());\n    to.push(ResponseType::Bytes as u8);")],'W04',''),
('w-list-start',[(W,"let start = to.len();\n    to.extend_from_slice(&[0, 0, 0, 0]);","let start = 0;\n    to.extend_from_slice(&[0, 0, 0, 0]);")],'W04',''),
('w-list-count',[(W,"item_count += 1;","item_count += (item_count < 1000) as u16;")],'W04',''),
('w-list-empty',[(W,"        let item = item.as_ref();\n","        let item = item.as_ref();\n        if item.is_empty() { continue; }\n")],'W04',''),
('w-map-len',[(W,"response_len += 1 + key.len() as u32 + 4 + value.len() as u32;","response_len += 1 + key.len() as u32 + 4 + value.len() as u16 as u32;")],'W04',''),
('w-map-order',[(W,"to.extend_from_slice(&value_len.to_be_bytes());\n        to.extend_from_slice(value);\n    }\n}","to.extend_from_slice(&value_len.to_le_bytes());\n        to.extend_from_slice(value);\n    }\n}")],'W04',''),
('w-set-len',[(W,"response_len += 2 + item.len() as u32;","response_len += 2 + item.len() as u16 as u32;")],'',''),
('w-str',[(W,"to.extend_from_slice(value.as_bytes());\n}","to.extend_from_slice(value.trim_end().as_bytes());\n}")],'W04',''),
('w-float',[(W,"to.extend_from_slice(&value.to_be_bytes());\n}\n\npub fn write_int","to.extend_from_slice(&(value + 0.0).to_be_bytes());\n}\n\npub fn write_int")],'W04',''),
('w-asbytes',[(W,"Self::ParseError(err) => write_parse_error(buf, *err),","Self::ParseError(err) => { buf.clear(); write_parse_error(buf, *err) }")],'W04',''),
]
