S='server/src/main.rs'
M=[
('no-drain',[(S,'input.drain(..consumed);','input.clear();')],'B05',''),
('one-per-read',[(S,'while !input.is_empty() {','if !input.is_empty() {'),(S,'Ok(None) => break,','Ok(None) => continue,')],'B05',''),
('no-clear',[(S,'resp.clear();\n','if resp.len() > 4096 { resp.clear(); }\n')],'B05',''),
('err-silent',[(S,'''                            let res = Response::DispatchError(why);

                            res.copy_to(&mut resp);''','''                            warn!("{:?}", why);''')],'B05',''),
('write-only',[(S,'writer.write_all(&resp).await?;','writer.write(&resp).await?;')],'B05',''),
('break-err',[(S,'Err(why) => warn!("Failed to accept a connection: {:?}", why),','Err(why) => { warn!("Failed to accept a connection: {:?}", why); break }')],'B06',''),
('err-q',[(S,'''        match socket {
            Ok(socket) => {''','''        match Ok::<_, std::io::Error>(socket?) {
            Ok(socket) => {''')],'B06',''),
('inline',[(S,'task::spawn(handle_socket(socket, hop.clone()));','handle_socket(socket, hop.clone()).await;')],'B06',''),
('own-hop',[(S,'task::spawn(handle_socket(socket, hop.clone()));','task::spawn(handle_socket(socket, Hop::new()));')],'B06',''),
('port',[(S,'SocketAddr::new(config.host, config.port)','SocketAddr::new(config.host, Config::PORT_DEFAULT)')],'B06',''),
('host-panic',[(S,'IpAddr::from_str(&host).unwrap_or(Self::HOST_DEFAULT)','IpAddr::from_str(&host).unwrap()')],'',''),
('parse-close',[(S,'''                    // There's no telling where the next request would start.
                    input.len()''','''                    writer.write_all(&resp).await?;
                    return Ok(());''')],'B05',''),
('wrong-err',[(S,'Response::ParseError(why)','{ let _ = why; Response::DispatchError(hop_engine::command::error::Error::ArgumentRetrieval) }')],'B05',''),
('ctx-rest',[(S,'ctx.feed(&input)','ctx.feed(&input[..input.len().min(1 << 20)])')],'B05',''),
('reader-in-loop',[(S,'    let mut reader = BufReader::new(reader);\n','    let mut reader = reader;\n'),(S,'reader.read_buf(&mut input).await','BufReader::new(&mut reader).read_buf(&mut input).await')],'B05',''),
('skip-empty',[(S,'writer.write_all(&resp).await?;','if resp.len() > 2 { writer.write_all(&resp).await?; }')],'B05',''),
('size-small',[(S,'if size == 0 {','if size < 2 {')],'B05',''),
('r-helper',[(S,'''                    match hop.dispatch(&req, &mut resp) {
                        Ok(()) => {}
                        Err(why) => {
                            let res = Response::DispatchError(why);

                            res.copy_to(&mut resp);
                        }
                    }

                    req.as_bytes().len()''','''                    answer(&hop, &req, &mut resp);

                    req.into_bytes().len()'''),(S,'async fn handle_socket_inner','''fn answer(hop: &Hop, req: &hop_engine::command::Request, resp: &mut Vec<u8>) {
    if let Err(why) = hop.dispatch(req, resp) {
        Response::DispatchError(why).copy_to(resp);
    }
}

async fn handle_socket_inner''')],'','B05 B06'),
('r-loop',[(S,'while let Ok(size) = reader.read_buf(&mut input).await {','loop {\n        let size = match reader.read_buf(&mut input).await { Ok(size) => size, Err(_) => return Ok(()) };')],'','B05 B06'),
('r-array',[(S,'let mut resp = Vec::new();','let mut resp = Vec::new();\n    let mut chunk = [0u8; 4096];'),(S,'while let Ok(size) = reader.read_buf(&mut input).await {','while let Ok(size) = reader.read(&mut chunk).await {'),
  (S,'''        // A single read can''','''        input.extend_from_slice(&chunk[..size]);

        // A single read can''')],'','B05 B06'),
('r-batch',[(S,'''            writer.write_all(&resp).await?;
            resp.clear();
            input.drain(..consumed);
        }''','''            input.drain(..consumed);
        }

        if !resp.is_empty() {
            writer.write_all(&resp).await?;
            resp.clear();
        }''')],'','B05 B06'),
('r-split',[(S,'input.drain(..consumed);','input = input.split_off(consumed);')],'','B05 B06'),
('r-accept',[(S,'    let mut incoming = listener.incoming();\n',''),(S,'''    while let Some(socket) = incoming.next().await {
        match socket {
            Ok(socket) => {''','''    loop {
        match listener.accept().await {
            Ok((socket, _)) => {'''),(S,'''    }

    Ok(())
}

async fn handle_socket(''','''    }
}

async fn handle_socket('''),(S,'    stream::StreamExt,\n','')],'','B05 B06'),
('r-nopeer',[(S,'let addr = socket.peer_addr().unwrap();','let addr = match socket.peer_addr() { Ok(addr) => addr, Err(why) => { warn!("{:?}", why); return } };')],'','B05 B06'),
]
M+=[
('default-host',[(S,'Ipv4Addr::new(0, 0, 0, 0)','Ipv4Addr::new(127, 0, 0, 1)')],'B06',''),
('default-port',[(S,'PORT_DEFAULT: u16 = 46733','PORT_DEFAULT: u16 = 46773')],'B06',''),
('r-unspec',[(S,'IpAddr::V4(Ipv4Addr::new(0, 0, 0, 0))','IpAddr::V4(Ipv4Addr::UNSPECIFIED)')],'','B06'),
]
