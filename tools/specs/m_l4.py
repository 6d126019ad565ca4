C='cli/bin/src/main.rs'; CL='client/src/lib.rs'; SV='client/src/backend/server.rs'; MB='client/src/backend/memory.rs'
PR='''        let mut output = match hop_cli::process(&client, input.trim_end()).await {
            Ok(output) => output,
            Err(why) => why.to_string().into(),
        };
        output.to_mut().push('\\n');

        writer.write_all(output.as_bytes()).await?;
        input.clear();'''
M=[
('l4-revert',[(C,'''match hop_cli::process(&client, input.trim_end()).await {
            Ok(output) => output,
            Err(why) => why.to_string().into(),
        };''','hop_cli::process(&client, input.trim_end()).await?;')],'L04',''),
('l4-noeof',[(C,'''        if reader.read_line(&mut input).await? == 0 {
            return Ok(());
        }''','        reader.read_line(&mut input).await?;')],'L04',''),
('l4-noclear',[(C,'        input.clear();\n','')],'L04',''),
('l4-noclear-err',[(C,PR,'''        let mut output = match hop_cli::process(&client, input.trim_end()).await {
            Ok(output) => output,
            Err(why) => {
                writer.write_all(format!("{}\\n", why).as_bytes()).await?;
                continue;
            }
        };
        output.to_mut().push('\\n');

        writer.write_all(output.as_bytes()).await?;
        input.clear();''')],'L04',''),
('l4-client',[(C,'    loop {','    loop {\n        let client = Client::memory();')],'L04',''),
('l4-noflush',[(C,'        writer.flush().await?;\n','')],'L04',''),
('l4-nobreak',[(C,"        output.to_mut().push('\\n');\n",'')],'L04',''),
('l4-notrim',[(C,'input.trim_end()','&input')],'L04',''),
('l4-swallow',[(C,'Err(why) => why.to_string().into(),','Err(_) => "".into(),')],'L04',''),
('l4-skip-empty',[(C,'        let mut output = match','        if input.len() < 3 {\n            input.clear();\n            continue;\n        }\n\n        let mut output = match')],'L04',''),
('l4-print-ok',[(C,PR,'''        let line = input.trim_end();
        let output = match hop_cli::process(&client, line).await {
            Ok(output) => output.into_owned(),
            Err(why) => format!("{}", why),
        };

        writer.write_all(output.as_bytes()).await?;
        writer.write_all(b"\\n").await?;
        input.clear();''')],'','L04'),
('l4-fresh-ok',[(C,'    let mut input = String::new();\n\n    loop {','    loop {\n        let mut input = String::new();'),(C,'        input.clear();\n','')],'','L04'),
('l4-while-ok',[(C,'''        if reader.read_line(&mut input).await? == 0 {
            return Ok(());
        }''','''        let read = reader.read_line(&mut input).await?;
        if read < 1 {
            break Ok(());
        }''')],'','L04'),
('b7-addr',[(SV,'''        let stream = TcpStream::connect(addrs)
            .await''','''        let _ = addrs;
        let stream = TcpStream::connect("localhost:46733")
            .await''')],'B07',''),
('b7-two',[(SV,'''pub async fn connect(addrs: impl ToSocketAddrs) -> Result<Self> {
        let stream = TcpStream::connect(addrs)
            .await
            .map_err(|source| Error::Connecting { source })?;

        let (reader, writer) = stream.into_split();''','''pub async fn connect(addrs: impl ToSocketAddrs) -> Result<Self> {
        let stream = TcpStream::connect(&addrs)
            .await
            .map_err(|source| Error::Connecting { source })?;
        let second = TcpStream::connect(&addrs)
            .await
            .map_err(|source| Error::Connecting { source })?;

        let (reader, _) = stream.into_split();
        let (_, writer) = second.into_split();''')],'B07',''),
('b7-kind',[(SV,'.map_err(|source| Error::Connecting { source })?;','.map_err(|source| Error::ReadingMessage { source })?;')],'B07',''),
('b7-clone',[(CL,'''/// A client for interfacing over Hop instances.
#[derive(Clone, Debug)]''','''impl Clone for Client<MemoryBackend> {
    fn clone(&self) -> Self {
        Self::memory()
    }
}

#[derive(Debug)]''')],'',''),
('b7-match-ok',[(SV,'''        let stream = TcpStream::connect(addrs)
            .await
            .map_err(|source| Error::Connecting { source })?;''','''        let stream = match TcpStream::connect(addrs).await {
            Ok(stream) => stream,
            Err(source) => return Err(Error::Connecting { source }),
        };''')],'','B07'),
]
