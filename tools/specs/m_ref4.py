S='client/src/backend/server.rs'; Me='client/src/backend/memory.rs'; V='server/src/main.rs'
CB='B01 B02 B03 B04 B08 E01 L03'
CS='B05 B06'
src=lambda f: open('/repo/'+f).read()
def between(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
tail4='''        let value = self.send_and_wait(builder).await?;

        match value {
            Value::Float(float) => Ok(Value::Float(float)),
            Value::Integer(int) => Ok(Value::Integer(int)),
            _ => Err(Error::BadResponse),
        }
    }

    async fn delete'''
appm=between(S,"        match value {\n            Value::Bytes(bytes) => {\n                builder","        self.send_and_wait(builder).await\n")
exl=between(S,"        for key in keys {","        let value = self.send_and_wait")
respl=between(S,"                    return match response {","                }\n                Instruction::ReadBytes")
inner=between(V,"        // A single read can complete","    }\n\n    Ok(())\n}")
M=[
('rf4-num-helper',[(S,tail4,'''        number(self.send_and_wait(builder).await?)
    }

    async fn delete'''),(S,"#[async_trait]\nimpl Backend for ServerBackend","fn number(value: Value) -> Result<Value> {\n    if matches!(value, Value::Float(_) | Value::Integer(_)) {\n        Ok(value)\n    } else {\n        Err(Error::BadResponse)\n    }\n}\n\n#[async_trait]\nimpl Backend for ServerBackend")],'',CB),
('rf4-num-kind',[(S,tail4,'''        let value = self.send_and_wait(builder).await?;

        match value.kind() {
            KeyType::Float | KeyType::Integer => Ok(value),
            _ => Err(Error::BadResponse),
        }
    }

    async fn delete''')],'',CB),
('rf4-app-items',[(S,appm,'''        let items = match value {
            Value::Bytes(bytes) => vec![bytes],
            Value::List(list) => list,
            Value::String(string) => vec![string.into_bytes()],
            _ => return Err(Error::KeyTypeUnsupported { key_type }),
        };

        for item in items {
            builder.bytes(item)?;
        }

''')],'',CB),
('rf4-app-try',[(S,appm,'''        match value {
            Value::Bytes(bytes) => builder.bytes(bytes).map(|_| ())?,
            Value::List(list) => list
                .into_iter()
                .try_for_each(|item| builder.bytes(item).map(|_| ()))?,
            Value::String(string) => builder.bytes(string).map(|_| ())?,
            _ => return Err(Error::KeyTypeUnsupported { key_type }),
        }

''')],'',CB),
('rf4-keys-helper',[(S,exl,"        add_keys(&mut builder, keys)?;\n\n"),(S,"#[async_trait]\nimpl Backend for ServerBackend",'''fn add_keys<T: IntoIterator<Item = U>, U: AsRef<[u8]>>(
    builder: &mut RequestBuilder,
    keys: T,
) -> Result<()> {
    for key in keys.into_iter() {
        let key = key.as_ref();

        builder.bytes(key)?;
    }

    Ok(())
}

#[async_trait]
impl Backend for ServerBackend''')],'',CB),
('rf4-resp-helper',[(S,respl,"                    return outcome(response);\n"),(S,"#[async_trait]\nimpl Backend for ServerBackend",'''fn outcome(response: Response) -> Result<Value> {
    Err(match response {
        Response::Value(value) => return Ok(value),
        Response::DispatchError(reason) => Error::Dispatching { reason },
        Response::ParseError(reason) => Error::BadRequest { reason },
    })
}

#[async_trait]
impl Backend for ServerBackend''')],'',CB),
('rf4-loop-break',[(S,'''        loop {
            let read_amount''','''        let response = loop {
            let read_amount'''),(S,between(S,"                Instruction::Concluded(response) => {","                Instruction::ReadBytes"),"                Instruction::Concluded(response) => break response,\n"),
 (S,'''                    resp.resize(read + bytes, 0);
                }
            }
        }
''','''                    resp.resize(read + bytes, 0);
                }
            }
        };

        *idle_reader = Some(reader);

        match response {
            Response::Value(value) => Ok(value),
            Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
            Response::ParseError(reason) => Err(Error::BadRequest { reason }),
        }
''')],'',CB),
('rf4-grow',[(S,"resp.resize(read + bytes, 0);","resp.extend(core::iter::repeat(0).take(bytes));")],'',CB),
('rf4-grow2',[(S,"resp.resize(read + bytes, 0);","let wanted = resp.len() + bytes;\n                    resp.resize(wanted, 0);")],'',CB),
('rf4-chunk',[(S,'''                .read_exact(&mut resp[read..])
''','''                .read_exact({
                    let (_, unread) = resp.split_at_mut(read);
                    unread
                })
''')],'',CB),
('rf4-take',[(S,"let mut reader = idle_reader.take().ok_or(Error::ConnectionClosed)?;","let mut reader = match idle_reader.take() {\n            Some(reader) => reader,\n            None => return Err(Error::ConnectionClosed),\n        };")],'',CB),
('rf4-bytes',[(S,'''        writer
            .write_all(request.into().as_bytes())
            .await
            .map_err(|source| Error::WritingMessage { source })?;
''','''        let request = request.into();

        if let Err(source) = writer.write_all(request.as_bytes()).await {
            return Err(Error::WritingMessage { source });
        }
''')],'',CB),
('rf4-conn',[(S,'''        let (reader, writer) = stream.into_split();

        Ok(Self {
            reader: Mutex::new(Some(BufReader::new(reader))),
            writer: Mutex::new(writer),
        })
''','''        Ok(Self::from(stream))
'''),(S,"impl ServerBackend {\n",'''impl From<TcpStream> for ServerBackend {
    fn from(stream: TcpStream) -> Self {
        let (reader, writer) = stream.into_split();
        let reader = BufReader::new(reader);

        Self {
            reader: Mutex::new(Some(reader)),
            writer: Mutex::new(writer),
        }
    }
}

impl ServerBackend {
''')],'',CB),
('rf4-srv-fn',[(V,inner,'''        let taken = answer(&hop, &mut ctx, &input, &mut resp);

        writer.write_all(&resp).await?;
        resp.clear();
        input.drain(..taken);
'''),(V,"async fn handle_socket_inner",'''fn answer(hop: &Hop, ctx: &mut Context, input: &[u8], resp: &mut Vec<u8>) -> usize {
    let mut taken = 0;

    while taken < input.len() {
        taken += match ctx.feed(&input[taken..]) {
            Ok(Some(req)) => {
                if let Err(why) = hop.dispatch(&req, resp) {
                    Response::DispatchError(why).copy_to(resp);
                }

                req.as_bytes().len()
            }
            Ok(None) => break,
            Err(why) => {
                Response::ParseError(why).copy_to(resp);

                input.len() - taken
            }
        };
    }

    taken
}

async fn handle_socket_inner''')],'',CS),
('rf4-srv-loop',[(V,'''    while let Ok(size) = reader.read_buf(&mut input).await {
        // If we get no bytes then we're EOF.
        if size == 0 {
            break;
        }
''','''    loop {
        match reader.read_buf(&mut input).await {
            Ok(0) | Err(_) => break,
            Ok(_) => {}
        }
''')],'',CS),
('rf4-srv-loop2',[(V,"        while !input.is_empty() {\n            let consumed","        loop {\n            if input.is_empty() {\n                break;\n            }\n\n            let consumed")],'',CS),
('rf4-srv-each',[(V,'''            writer.write_all(&resp).await?;
            resp.clear();
            input.drain(..consumed);
''','''            input.drain(..consumed);
            writer.write_all(&resp).await?;
            resp.truncate(0);
''')],'',CS),
('rf4-srv-fresh',[(V,'''            let consumed = match ctx.feed(&input) {''','''            let mut resp = Vec::new();

            let consumed = match ctx.feed(&input) {'''),(V,"    let mut resp = Vec::new();\n\n    while","    while"),(V,"            resp.clear();\n","")],'',CS),
('rf4-srv-err',[(V,'''                    match hop.dispatch(&req, &mut resp) {
                        Ok(()) => {}
                        Err(why) => {
                            let res = Response::DispatchError(why);

                            res.copy_to(&mut resp);
                        }
                    }
''','''                    if let Err(why) = hop.dispatch(&req, &mut resp) {
                        resp.extend_from_slice(&Response::from(why).as_bytes());
                    }
''')],'',CS),
('rf4-cfg',[(V,between(V,"        let host = match","        Self { host, port }"),'''        let host = env::var("HOST")
            .ok()
            .and_then(|host| host.parse().ok())
            .unwrap_or(Self::HOST_DEFAULT);
        let port = Self::port().unwrap_or(Self::PORT_DEFAULT);

'''),(V,"    fn new() -> Self {\n        let host",'''    fn port() -> Option<u16> {
        let port = env::var("PORT").ok()?;

        u16::from_str(&port).ok()
    }

    fn new() -> Self {
        let host''')],'',CS),
('rf4-main',[(V,'''        match socket {
            Ok(socket) => {
                task::spawn(handle_socket(socket, hop.clone()));
            }
            Err(why) => warn!("Failed to accept a connection: {:?}", why),
        }
''','''        let socket = match socket {
            Ok(socket) => socket,
            Err(why) => {
                warn!("Failed to accept a connection: {:?}", why);

                continue;
            }
        };

        let hop = hop.clone();

        task::spawn(async move { handle_socket(socket, hop).await });
''')],'',CS),
]
