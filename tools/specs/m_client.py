S='client/src/backend/server.rs'; Me='client/src/backend/memory.rs'
LOCK='''        let mut reader = self.reader.lock().await;

        self.writer'''
M=[
 ('reader-late', [(S,LOCK,'''        self.writer'''),(S,'''        let mut ctx = Context::new();''','''        let mut reader = self.reader.lock().await;
        let mut ctx = Context::new();''')],'B03','B01 B04'),
 ('write-partial',[(S,'.write_all(request','.write(request')],'B03',''),
 ('read-buffer',[(S,'''        let mut ctx = Context::new();''','''        let mut reader = BufReader::new(&mut *reader);
        let mut ctx = Context::new();''')],'B03',''),
 ('resize-more',[(S,'resp.resize(read + bytes, 0)','resp.resize(read + bytes + 1, 0)')],'B03',''),
 ('resize-less',[(S,'resp.resize(read + bytes, 0)','resp.resize(read + 1, 0)')],'','B03'),
 ('read-8',[(S,'resp = vec![0]','resp = vec![0; 4]')],'B03',''),
 ('feed-tail',[(S,'ctx.feed(&resp)','ctx.feed(&resp[read - read_amount..])')],'B03',''),
 ('feed-skip',[(S,'read += read_amount;','read = read_amount;')],'B03',''),
 ('unwrap-feed',[(S,'ctx.feed(&resp).map_err(|_| Error::BadResponse)?','ctx.feed(&resp).unwrap()')],'B04',''),
 ('swap-errs',[(S,'Response::ParseError(reason) => Err(Error::BadRequest { reason })','Response::ParseError(_) => Ok(Value::Boolean(false))')],'B04',''),
 ('mem-rename-swap',[(Me,'''        builder.bytes(from)?;
        builder.bytes(to)?;''','''        builder.bytes(to)?;
        builder.bytes(from)?;''')],'B01',''),
 ('srv-dec-inc',[(S,'RequestBuilder::new_with_key_type(CommandId::Decrement, key_type)','RequestBuilder::new_with_key_type(CommandId::Increment, key_type)')],'B01',''),
 ('srv-length-nokt',[(S,'RequestBuilder::new_with_key_type(CommandId::Length, key_type)','RequestBuilder::new_with_key_type(CommandId::Length, key_type.filter(|k| *k != KeyType::Set))')],'B01',''),
 ('srv-append-dedup',[(S,'''            Value::List(list) => {
                for item in list {
                    builder.bytes(item)?;''','''            Value::List(mut list) => {
                list.dedup();
                for item in list {
                    builder.bytes(item)?;''')],'B01',''),
 ('srv-append-skip-empty',[(S,'''                for item in list {
                    builder.bytes(item)?;''','''                for item in list.into_iter().filter(|i| !i.is_empty()) {
                    builder.bytes(item)?;''')],'B01',''),
 ('srv-exists-ignore',[(S,'''        for key in keys {
            builder.bytes(key.as_ref())?;
        }

        let value = self.send_and_wait(builder).await?;

        match value {
            Value::Boolean(exists) => Ok(exists),
            _ => Err(Error::BadResponse),
        }
    }

    async fn get''','''        for key in keys {
            let _ = builder.bytes(key.as_ref());
        }

        let value = self.send_and_wait(builder).await?;

        match value {
            Value::Boolean(exists) => Ok(exists),
            _ => Err(Error::BadResponse),
        }
    }

    async fn get''')],'B01 B04',''),
 ('ref-loop-values',[(S,'''                for item in list {
                    builder.bytes(item)?;
                }''','''                let mut items = list.into_iter();
                while let Some(item) = items.next() {
                    builder.bytes(item)?;
                }''')],'','B01 B03 B04'),
 ('ref-value-append',[(S,'''        match value {
            Value::Bytes(bytes) => {
                builder.bytes(bytes)?;
            }
            Value::List(list) => {
                for item in list {
                    builder.bytes(item)?;
                }
            }
            Value::String(string) => {
                builder.bytes(string.into_bytes())?;
            }
            _ => return Err(Error::KeyTypeUnsupported { key_type }),
        }
''','''        if !matches!(key_type, KeyType::Bytes | KeyType::List | KeyType::String) {
            return Err(Error::KeyTypeUnsupported { key_type });
        }
        builder.value(value)?;
''')],'','B01 B03 B04'),
 ('ref-send-split',[(S,'''        let mut ctx = Context::new();
        let mut resp = vec![0];
        let mut read = 0;

        loop {
            let read_amount = reader
                .read_exact(&mut resp[read..])
                .await
                .map_err(|source| Error::ReadingMessage { source })?;

            if read_amount == 0 {
                return Err(Error::ConnectionClosed);
            }

            read += read_amount;

            match''','''        let mut ctx = Context::new();
        let mut resp = vec![0];
        let mut read = 0;

        loop {
            read += Self::fill(&mut reader, &mut resp[read..]).await?;

            match'''),(S,'''    async fn send_and_wait''','''    async fn fill(reader: &mut BufReader<OwnedReadHalf>, buf: &mut [u8]) -> Result<usize> {
        match reader.read_exact(buf).await {
            Ok(0) => Err(Error::ConnectionClosed),
            Ok(n) => Ok(n),
            Err(source) => Err(Error::ReadingMessage { source }),
        }
    }

    async fn send_and_wait''')],'','B01 B03 B04'),
 ('ref-extend',[(S,'''        let mut resp = vec![0];
        let mut read = 0;
''','''        let mut resp = Vec::new();
        let mut need = 1;
'''),(S,'''            let read_amount = reader
                .read_exact(&mut resp[read..])
                .await
                .map_err(|source| Error::ReadingMessage { source })?;

            if read_amount == 0 {
                return Err(Error::ConnectionClosed);
            }

            read += read_amount;
''','''            let at = resp.len();
            resp.resize(at + need, 0);
            reader
                .read_exact(&mut resp[at..])
                .await
                .map_err(|source| Error::ReadingMessage { source })?;
'''),(S,'resp.resize(read + bytes, 0)','need = bytes')],'','B01 B03 B04'),
 ('ref-expect-helper',[(Me,'''        match self.send(builder)? {
            Value::Integer(int) => Ok(int),
            other => panic!("Other response: {:?}", other),
        }
    }

    async fn rename''','''        let value = self.send(builder)?;
        if let Value::Integer(int) = value {
            return Ok(int);
        }
        panic!("Other response: {:?}", value)
    }

    async fn rename''')],'','B01 B03 B04'),
]
