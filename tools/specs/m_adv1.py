S='server/src/main.rs'; CS='client/src/backend/server.rs'; PR='cli/lib/src/print.rs'; PA='cli/lib/src/parse.rs'; PC='cli/lib/src/process.rs'; LM='lib/metrics/src/lib.rs'; EX='client/src/request/exists.rs'; RM='client/src/request/mod.rs'
M=[
# server
('a-nl',[(S,"            input.drain(..consumed);","            input.drain(..consumed);\n            if input.first() == Some(&b'\\n') {\n                input.remove(0);\n            }")],'B05',''),
('a-cr-eof',[(S,"        if size == 0 {\n            break;","        if size == 0 {\n            let _ = writer.write_all(b\"\\0\").await;\n            break;")],'B05',''),
('a-two-flush',[(S,"            writer.write_all(&resp).await?;\n            resp.clear();\n            input.drain(..consumed);\n        }","            input.drain(..consumed);\n        }\n        writer.write_all(&resp).await?;\n        resp.clear();")],'','B05'),
('a-max64',[(S,"                task::spawn(handle_socket(socket, hop.clone()));","                static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n                let live = LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n                if live > 1000 {\n                    handle_socket(socket, hop.clone()).await;\n                } else {\n                    task::spawn(handle_socket(socket, hop.clone()));\n                }")],'B06',''),
('a-acceptkind',[(S,"            Err(why) => warn!(\"Failed to accept a connection: {:?}\", why),","            Err(why) => {\n                warn!(\"Failed to accept a connection: {:?}\", why);\n                if why.kind() == std::io::ErrorKind::Other {\n                    break;\n                }\n            }")],'B06',''),
('a-localhost',[(S,"            Ok(host) => IpAddr::from_str(&host).unwrap_or(Self::HOST_DEFAULT),","            Ok(host) if host == \"localhost\" => IpAddr::V4(Ipv4Addr::LOCALHOST),\n            Ok(host) => IpAddr::from_str(&host).unwrap_or(Self::HOST_DEFAULT),")],'B06',''),
('a-newhop',[(S,"                task::spawn(handle_socket(socket, hop.clone()));","                let hop = if socket.peer_addr().map(|a| a.ip().is_loopback()).unwrap_or(false) { hop.clone() } else { Hop::new() };\n                task::spawn(handle_socket(socket, hop));")],'B06',''),
('a-err-keep',[(S,"                    input.len()\n","                    1\n")],'','B05'),
('a-parse-noskip',[(S,"                    input.len()\n","                    0\n")],'B05',''),
# client
('a-pending',[(EX,"                .replace(Box::pin(async move { backend.exists(keys).await }));\n","                .replace(Box::pin(async move { backend.exists(keys).await }));\n\n            return Poll::Pending;\n")],'B02',''),
('a-empty-append',[(CS,"        let mut builder = RequestBuilder::new_with_key_type(CommandId::Append, key_type);\n","        if let Value::List(ref l) = value {\n            if l.is_empty() {\n                return Ok(Value::List(Vec::new()));\n            }\n        }\n        let mut builder = RequestBuilder::new_with_key_type(CommandId::Append, key_type);\n")],'B04 B01',''),
('a-dec-swap',[(CS,"            Value::Float(float) => Ok(Value::Float(float)),\n            Value::Integer(int) => Ok(Value::Integer(int)),\n            _ => Err(Error::BadResponse),\n        }\n    }\n\n    async fn decrement(","            Value::Float(float) => Ok(Value::Float(float)),\n            Value::Integer(int) => Ok(Value::Integer(int)),\n            Value::Boolean(b) => Ok(Value::Integer(b as i64)),\n            _ => Err(Error::BadResponse),\n        }\n    }\n\n    async fn decrement(")],'B04',''),
('a-lock-order',[(CS,"        let mut idle_reader = self.reader.lock().await;\n        let mut writer = self.writer.lock().await;","        let mut writer = self.writer.lock().await;\n        let mut idle_reader = self.reader.lock().await;")],'','B03 B08'),
('a-writer-drop',[(CS,"        let mut ctx = Context::new();\n        let mut resp = vec![0];","        drop(writer);\n        let mut ctx = Context::new();\n        let mut resp = vec![0];")],'','B03'),
# print
('a-list-skip-empty',[(PR,"    for item in items {\n        output.push_str(&String::from_utf8_lossy(item.as_ref()));","    for item in items {\n        if item.as_ref().is_empty() {\n            continue;\n        }\n        output.push_str(&String::from_utf8_lossy(item.as_ref()));")],'L03',''),
('a-list-trimend',[(PR,"    output.pop();\n\n    output\n}\n\npub fn map","    output.trim_end().to_owned()\n}\n\npub fn map")],'L03',''),
('a-map-empty',[(PR,"        output.push('=');\n        output.push_str(&String::from_utf8_lossy(v.as_ref()));","        if !v.as_ref().is_empty() {\n            output.push('=');\n        }\n        output.push_str(&String::from_utf8_lossy(v.as_ref()));")],'L03',''),
('a-float-e',[(PR,"float.to_string()","format!(\"{:?}\", float)")],'L03',''),
('a-str-trunc',[(PR,"Value::String(string) => string,","Value::String(string) => string.trim_end_matches('\\0').to_owned(),")],'L03',''),
# parse
('a-case',[(PA,"    if let Ok(cmd_id) = CommandId::from_str(name) {","    if let Ok(cmd_id) = CommandId::from_str(&name.to_lowercase()) {")],'L02',''),
('a-splitn',[(PA,"let mut parts = name.rsplitn(2, ':');","let mut parts = name.rsplit(':');")],'L02',''),
('a-nan',[(PA,"                args.push(float.to_be_bytes().to_vec());","                if float.is_nan() {\n                    return Err(ParseError::ArgumentInvalid { argument: arg.to_owned(), key_type: KeyType::Float });\n                }\n                args.push(float.to_be_bytes().to_vec());")],'L02',''),
('a-strkey',[(PA,"            KeyType::String => {\n                args.push(arg.as_bytes().to_vec());","            KeyType::String => {\n                args.push(arg.trim_matches('\"').as_bytes().to_vec());")],'L02',''),
('a-peek-empty',[(PA,"    if arg_iter.peek().is_some() {","    if arg_iter.peek().map_or(false, |a| !a.is_empty()) {")],'L02',''),
# metrics
('a-gauge-max',[(LM,"                *metrics.gauges.entry(gauge).or_default() = value;","                let mut g = metrics.gauges.entry(gauge).or_default();\n                *g = value.max(*g);")],'M01',''),
('a-weakvalid',[(LM,"    pub fn valid(&self) -> bool {\n        self.metrics.strong_count() > 0\n    }\n}\n\n/// A writer","    pub fn valid(&self) -> bool {\n        self.metrics.weak_count() > 0\n    }\n}\n\n/// A writer")],'M01',''),
('a-inc-sat',[(LM,"                *metrics.counters.entry(counter).or_default() += 1;","                let mut c = metrics.counters.entry(counter).or_default();\n                *c = (*c as u32).wrapping_add(1) as u64;")],'M01',''),
('a-snap-empty',[(LM,"            gauges: self.0.gauges.clone(),","            gauges: if self.0.counters.is_empty() { DashMap::new() } else { self.0.gauges.clone() },")],'M01',''),
# process
('a-echo-empty',[(PC,"let req_args = req_args.collect::<Vec<_>>().join(b\" \".as_ref());","let req_args = req_args.filter(|a| !a.is_empty()).collect::<Vec<_>>().join(b\" \".as_ref());")],'L01',''),
('a-decby1',[(PC,"                Value::Integer(amount) => {\n                    let req = client.decrement(key).int().by(amount);","                Value::Integer(amount) => {\n                    let req = client.decrement(key).int().by(amount.abs());")],'L01',''),
('a-del-upper',[(PC,"let v = client.delete(key).await.map_err(backend_err)?;","let v = client.delete(key).await.unwrap_or_else(|_| key.to_vec());")],'L01',''),
]
