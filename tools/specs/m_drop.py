# no operation is answered with what another left behind (B08)
S='client/src/backend/server.rs'
TAKE='''        let mut reader = idle_reader.take().ok_or(Error::ConnectionClosed)?;

'''
PUT='''                    idle_reader.replace(reader);

'''
READ='''            let read_amount = reader
                .read_exact(&mut resp[read..])
                .await
                .map_err(|source| Error::ReadingMessage { source })?;
'''
FEED='match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {'
CL='reader: Mutex<Option<BufReader<OwnedReadHalf>>>,\n    writer: Mutex<OwnedWriteHalf>,'
MK='''            reader: Mutex::new(Some(BufReader::new(reader))),
            writer: Mutex::new(writer),
'''
HEADW='''        let mut writer = self.writer.lock().await;
'''
WR='''        writer
            .write_all(request.into().as_bytes())
            .await
            .map_err(|source| Error::WritingMessage { source })?;
'''
# a flag beside the connection, set while a response is due
def flag(setv, clear, extra=()):
    return [(S,CL,'reader: Mutex<BufReader<OwnedReadHalf>>,\n    writer: Mutex<OwnedWriteHalf>,\n    due: core::sync::atomic::AtomicBool,'),
            (S,MK,'''            reader: Mutex::new(BufReader::new(reader)),
            writer: Mutex::new(writer),
            due: core::sync::atomic::AtomicBool::new(false),
'''),
            (S,'let mut idle_reader = self.reader.lock().await;','let mut reader = self.reader.lock().await;'),
            (S,TAKE,setv),(S,PUT,clear)]+list(extra)
ORD='core::sync::atomic::Ordering::SeqCst'
M=[
('borrow',[(S,TAKE,'        let reader = idle_reader.as_mut().ok_or(Error::ConnectionClosed)?;\n\n'),(S,PUT,'')],'B08','B03'),
('put-late-read',[(S,READ,'''            let read_amount = match reader.read_exact(&mut resp[read..]).await {
                Ok(n) => n,
                Err(source) => {
                    idle_reader.replace(reader);
                    return Err(Error::ReadingMessage { source });
                }
            };
''')],'B08',''),
('put-bad',[(S,FEED,'''let fed = match ctx.feed(&resp) {
                Ok(fed) => fed,
                Err(_) => {
                    idle_reader.replace(reader);
                    return Err(Error::BadResponse);
                }
            };

            match fed {''')],'B08',''),
('put-value-only',[(S,PUT,''),(S,'                        Response::Value(value) => Ok(value),','''                        Response::Value(value) => {
                            idle_reader.replace(reader);

                            Ok(value)
                        }''')],'B08',''),
('put-never',[(S,PUT,'')],'B08',''),
('put-before-rest',[(S,'''                    resp.resize(read + bytes, 0);
''','''                    resp.resize(read + bytes, 0);

                    if bytes > 65536 {
                        idle_reader.replace(reader);
                        reader = idle_reader.take().ok_or(Error::ConnectionClosed)?;
                    }
''')],'','B08'),
('take-early',[(S,TAKE,''),(S,HEADW,'''        let mut reader = idle_reader.take().ok_or(Error::ConnectionClosed)?;
'''+HEADW)],'B08',''),
('take-late',[(S,TAKE,''),(S,WR,WR+TAKE)],'B08',''),
('take-in-loop',[(S,TAKE,'        if idle_reader.is_none() {\n            return Err(Error::ConnectionClosed);\n        }\n\n'),
  (S,READ,'''            let mut reader = idle_reader.take().ok_or(Error::ConnectionClosed)?;
            let read_amount = reader
                .read_exact(&mut resp[read..])
                .await
                .map_err(|source| Error::ReadingMessage { source })?;
            idle_reader.replace(reader);
'''),(S,PUT,'')],'B08',''),
('flag-late',flag('        if self.due.load(%s) {\n            return Err(Error::ConnectionClosed);\n        }\n\n'%ORD,'                    self.due.store(false, %s);\n\n'%ORD,
   [(S,WR,WR+'\n        self.due.store(true, %s);\n'%ORD)]),'B08',''),
('flag-uncleared',flag('        if self.due.swap(true, %s) {\n            return Err(Error::ConnectionClosed);\n        }\n\n'%ORD,''),'B08',''),
('flag-unread',flag('        self.due.store(true, %s);\n\n'%ORD,'                    self.due.store(false, %s);\n\n'%ORD),'B08',''),
('r-flag',flag('        if self.due.swap(true, %s) {\n            return Err(Error::ConnectionClosed);\n        }\n\n'%ORD,'                    self.due.store(false, %s);\n\n'%ORD),'','B08 B03 B04 B01'),
('r-mem-take',[(S,'idle_reader.take().ok_or(Error::ConnectionClosed)?','core::mem::take(&mut *idle_reader).ok_or(Error::ConnectionClosed)?')],'','B08 B03'),
('r-put-assign',[(S,'idle_reader.replace(reader);','*idle_reader = Some(reader);')],'','B08 B03'),
('r-match-take',[(S,TAKE,'''        let mut reader = match idle_reader.take() {
            Some(reader) => reader,
            None => return Err(Error::ConnectionClosed),
        };

''')],'','B08 B03 B04'),
('r-read-helper',[(S,FEED,'''let fed = ctx.feed(&resp).map_err(|_| Error::BadResponse);

            match fed? {''')],'','B08 B03 B04'),
('r-writer-first',[(S,HEADW,''),(S,TAKE,TAKE+HEADW.replace('let mut','let mut'))],'B08',''),
('r-answer-after',[(S,'''                    idle_reader.replace(reader);

                    return match response {
                        Response::Value(value) => Ok(value),
                        Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
                        Response::ParseError(reason) => Err(Error::BadRequest { reason }),
                    }
''','''                    let answer = match response {
                        Response::Value(value) => Ok(value),
                        Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
                        Response::ParseError(reason) => Err(Error::BadRequest { reason }),
                    };

                    *idle_reader = Some(reader);
                    drop(writer);
                    drop(idle_reader);

                    return answer;
''')],'','B08 B03 B04 B01'),
]
M+=[
('r-flag-cas',flag('        if self.due.compare_exchange(false, true, %s, %s).is_err() {\n            return Err(Error::ConnectionClosed);\n        }\n\n'%(ORD,ORD),'                    self.due.store(false, %s);\n\n'%ORD),'','B08 B03 B04 B01'),
('flag-unlocked',flag('','                    self.due.store(false, %s);\n\n'%ORD,[(S,'        let mut reader = self.reader.lock().await;','        if self.due.swap(true, %s) {\n            return Err(Error::ConnectionClosed);\n        }\n\n        let mut reader = self.reader.lock().await;'%ORD)]),'B08',''),
]
