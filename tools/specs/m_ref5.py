W='engine/src/command/response/mod.rs'; P='engine/src/command/response/context.rs'
B='engine/src/command/request/builder.rs'; Q='engine/src/command/request/mod.rs'; C='engine/src/command/request/context.rs'
ALL='W01 W02 W03 W04 W05 W06 C01 C16 B01 B03'
src=lambda f: open('/repo/'+f).read()
def between(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
wl=between(W,"    let start = to.len();","pub fn write_map")
wm=between(W,"    {\n        // kind + 2 byte map size","pub fn write_set")
ws=between(W,"    {\n        // kind + 2 byte set size","pub fn write_str")
wb=between(W,"    let len = value.len() as u32;\n\n    // kind + 4 byte bytestream","pub fn write_dispatch_error")
pa=between(B,"        let argument = argument.into();","impl From<Request<'_>> for RequestBuilder")
lst=between(B,"                if self.arguments_would_overfill(list.len())","            Value::Map(map)")
mp=between(B,"                for (k, v) in map.into_iter() {","            Value::Set(set)")
nxt=between(Q,"        if self.idx == self.to {","#[derive(Clone, Debug, Eq, PartialEq)]\npub struct Request")
arg=between(Q,"        let position = self.positions.get(idx)","    pub fn arg_count")
fi=between(P,"        match buf.get(..4) {","        self.stage = Stage::DetermineType;")
sl=between(P,"        match self.stage {\n            Stage::List { ref mut args","    fn stage_map")
ap=between(C,"        let len_bytes = match buf.get(self.idx..","        // The position of an argument")
M=[
('rf5-list-body',[(W,wl,'''    let mut body = Vec::new();
    let mut count = 0u16;

    for item in value {
        let item = item.as_ref();

        body.extend_from_slice(&(item.len() as u32).to_be_bytes());
        body.extend_from_slice(item);
        count += 1;
    }

    to.extend_from_slice(&(3 + body.len() as u32).to_be_bytes());
    to.push(ResponseType::List as u8);
    to.extend_from_slice(&count.to_be_bytes());
    to.append(&mut body);
}

''')],'',ALL),
('rf5-list-len',[(W,"    let msg_len_bytes = msg_len.to_be_bytes();\n","    let msg_len_bytes = ((to.len() - start - 4) as u32).to_be_bytes();\n"),(W,"    let mut msg_len = 1 + 2;\n",""),(W,"        msg_len += 4 + item_len;\n","")],'',ALL),
('rf5-list-foreach',[(W,"    for item in value {\n        item_count += 1;","    value.into_iter().for_each(|item| {\n        item_count += 1;"),(W,"        to.extend_from_slice(item);\n    }\n\n    let msg_len_bytes","        to.extend_from_slice(item);\n    });\n\n    let msg_len_bytes")],'',ALL),
('rf5-map-fold',[(W,wm,'''    let response_len = value
        .iter()
        .fold(3u32, |len, item| len + (5 + item.key().len() + item.value().len()) as u32);
    to.extend_from_slice(&response_len.to_be_bytes());

    to.push(ResponseType::Map as u8);
    to.extend_from_slice(&(value.len() as u16).to_be_bytes());

    value.iter().for_each(|item| {
        to.push(item.key().len() as u8);
        to.extend_from_slice(item.key());
        to.extend_from_slice(&(item.value().len() as u32).to_be_bytes());
        to.extend_from_slice(item.value());
    });
}

''')],'',ALL),
('rf5-map-body',[(W,wm,'''    let mut body = Vec::new();

    for item in value {
        body.push(item.key().len() as u8);
        body.extend_from_slice(item.key());
        body.extend_from_slice(&(item.value().len() as u32).to_be_bytes());
        body.extend_from_slice(item.value());
    }

    let response_len = (body.len() + 3) as u32;
    to.extend_from_slice(&response_len.to_be_bytes());
    to.push(ResponseType::Map as u8);
    to.extend_from_slice(&(value.len() as u16).to_be_bytes());
    to.extend(body);
}

''')],'',ALL),
('rf5-set-sum',[(W,ws,'''    let count = value.len() as u16;
    let bytes: usize = value.iter().map(|item| item.len() + 2).sum();

    to.extend_from_slice(&(bytes as u32 + 3).to_be_bytes());
    to.push(ResponseType::Set as u8);
    to.extend_from_slice(&count.to_be_bytes());

    for item in value.iter() {
        to.extend_from_slice(&(item.key().len() as u16).to_be_bytes());
        to.extend(item.key());
    }
}

''')],'',ALL),
('rf5-set-flat',[(W,ws,'''    let body = value
        .iter()
        .flat_map(|item| {
            let mut bytes = (item.len() as u16).to_be_bytes().to_vec();
            bytes.extend_from_slice(&item);

            bytes
        })
        .collect::<Vec<u8>>();

    to.extend_from_slice(&(body.len() as u32 + 3).to_be_bytes());
    to.push(ResponseType::Set as u8);
    to.extend_from_slice(&(value.len() as u16).to_be_bytes());
    to.extend_from_slice(&body);
}

''')],'',ALL),
('rf5-bytes-head',[(W,wb,'''    write_sized(to, ResponseType::Bytes, value);
}

fn write_sized(to: &mut Vec<u8>, kind: ResponseType, value: &[u8]) {
    write_head(to, kind, 4 + value.len());
    to.extend_from_slice(&(value.len() as u32).to_be_bytes());
    to.extend_from_slice(value);
}

fn write_head(to: &mut Vec<u8>, kind: ResponseType, len: usize) {
    to.extend_from_slice(&(1 + len as u32).to_be_bytes());
    to.push(kind as u8);
}

''')],'',ALL),
('rf5-float-arr',[(W,"    to.push(ResponseType::Float as u8);\n    to.extend_from_slice(&value.to_be_bytes());","    to.push(ResponseType::Float as u8);\n    to.extend_from_slice(&value.to_bits().to_be_bytes());")],'',ALL),
('rf5-int-concat',[(W,'''    to.extend_from_slice(&9u32.to_be_bytes());
    to.push(ResponseType::Integer as u8);
    to.extend_from_slice(&value.to_be_bytes());''','''    let head: &[u8] = &[0, 0, 0, 9, ResponseType::Integer as u8];

    to.extend(head.iter().chain(value.to_be_bytes().iter()));''')],'',ALL),
('rf5-push-arg',[(B,pa,'''        let argument = argument.into();
        let start = self.buf.len();

        self.buf
            .extend_from_slice(&(argument.len() as u32).to_be_bytes());
        self.buf.extend_from_slice(&argument);

        self.argument_count += 1;
        self.update_count();
        self.positions.push(start + 3 + argument.len());

        Ok(())
    }
}

''')],'',ALL),
('rf5-push-last',[(B,between(B,"        let base = self.key_type.is_some() as usize;\n        let position","        self.positions.push(position);"),"        let position = self.buf.len() - 1;\n")],'',ALL),
('rf5-list-try',[(B,lst,'''                let empty = list.is_empty() || !list.iter().all(|item| !item.is_empty());

                if self.arguments_would_overfill(list.len()) {
                    return Err(RequestBuilderError::TooManyArguments);
                } else if empty {
                    return Err(RequestBuilderError::ValueEmpty);
                }

                list.into_iter().try_for_each(|item| self.push_argument(item))?;
            }
''')],'',ALL),
('rf5-map-flat',[(B,mp,'''                for item in map {
                    let (k, v) = item;

                    for arg in vec![k, v] {
                        self.push_argument(arg)?;
                    }
                }
            }
'''),(B,"use alloc::{borrow::Cow, vec::Vec};","use alloc::{borrow::Cow, vec, vec::Vec};")],'',ALL),
('rf5-next',[(Q,nxt,'''        if self.idx < self.to || self.idx > self.to {
            let arg = self.request.arg(self.idx);
            self.idx += 1;

            arg
        } else {
            None
        }
    }
}

''')],'',ALL),
('rf5-arg',[(Q,arg,'''        let end = *self.positions.get(idx)? + 1;
        let start = match idx.checked_sub(1) {
            Some(previous) => *self.positions.get(previous)? + 5,
            None => 6 + usize::from(self.key_type.is_some()),
        };

        self.buf.get(start..end)
    }

''')],'',ALL),
('rf5-init',[(P,fi,'''        let header = match buf.get(..4) {
            Some(header) => header,
            None => return Ok(Some(Instruction::ReadBytes(4 - buf.len()))),
        };

        let end = u32::from_be_bytes(header.try_into().unwrap()) as usize + 4;

        if let Some(missing) = end.checked_sub(buf.len()).filter(|missing| *missing > 0) {
            return Ok(Some(Instruction::ReadBytes(missing)));
        }

''')],'',ALL),
('rf5-slist',[(P,sl,'''        if let Stage::List { ref mut args, len } = self.stage {
            args.push(arg.to_vec());

            if args.len() < usize::from(len) {
                self.idx = arg_value_end;

                return Ok(None);
            }

            let args = mem::take(args);

            return Ok(Some(Instruction::Concluded(Response::from(args))));
        }

        unreachable!()
    }

''')],'',ALL),
('rf5-argparse',[(C,ap,'''        let len_end = self.idx + Self::ARG_LEN_BYTES;

        let arg_end = match buf.get(self.idx..len_end) {
            Some(bytes) => {
                let arg_len: usize = bytes
                    .iter()
                    .fold(0, |len, byte| len << 8 | usize::from(*byte));

                len_end + arg_len
            }
            None => return Ok(Conclusion::Incomplete),
        };

        if arg_end > buf.len() {
            return Ok(Conclusion::Incomplete);
        }

''')],'',ALL),
('rf5-argparse2',[(C,ap,'''        let rest = &buf[self.idx..];

        if rest.len() < Self::ARG_LEN_BYTES {
            return Ok(Conclusion::Incomplete);
        }

        let (len, rest) = rest.split_at(Self::ARG_LEN_BYTES);
        let arg_len = u32::from_be_bytes([len[0], len[1], len[2], len[3]]) as usize;

        if rest.len() < arg_len {
            return Ok(Conclusion::Incomplete);
        }

        let arg_end = self.idx + Self::ARG_LEN_BYTES + arg_len;

''')],'',ALL),
('rf5-feed-while',[(C,"                if buf.get(idx..).is_none() {","                if idx > buf.len() {")],'',ALL),
]
