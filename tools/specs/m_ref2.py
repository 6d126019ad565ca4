exec(open('/verif/tools/specs/m_ref1.py').read().split('M=[')[0])
old="        for arg in args {\n            bytes.extend_from_slice(arg);\n        }\n"
inc="        *int = int\n            .checked_add(amount)\n            .ok_or(DispatchError::PreconditionFailed)?;"
M=[m for m in [
('rf-append-concat',[(I+'append.rs',old,"        let all: Vec<&[u8]> = args.collect();\n        bytes.append(&mut all.concat());\n")],'',C),
('rf-append-concat2',[(I+'append.rs',old,"        let all = args.collect::<Vec<_>>().concat();\n        bytes.extend_from_slice(&all);\n")],'',C),
('rf-append-concat3',[(I+'append.rs',old,"        let all: Vec<Vec<u8>> = args.map(|a| a.to_vec()).collect();\n        bytes.extend_from_slice(&all.concat());\n")],'',C),
('rf-append-fold',[(I+'append.rs',old,"        args.fold((), |(), arg| bytes.extend(arg));\n")],'',C),
('rf-append-while',[(I+'append.rs',old,"        let mut args = args;\n        while let Some(arg) = args.next() {\n            bytes.extend(arg.iter());\n        }\n")],'',C),
('rf-append-join',[(I+'append.rs',"        for arg in args {\n            string.push_str(arg);\n        }\n","        string.push_str(&args.concat());\n")],'',C),
('rf-append-ext',[(I+'append.rs',"        for arg in args {\n            string.push_str(arg);\n        }\n","        string.extend(args);\n")],'',C),
('rf-append-plus',[(I+'append.rs',"        for arg in args {\n            string.push_str(arg);\n        }\n","        for arg in args.iter() {\n            *string += arg;\n        }\n")],'',C),
('rf-len-chars',[(I+'length.rs',"string.chars().count() as i64","string.char_indices().fold(0i64, |n, _| n + 1)")],'',C),
('rf-len-chars2',[(I+'length.rs',"string.chars().count() as i64","string.char_indices().count() as i64")],'',C),
('rf-len-chars3',[(I+'length.rs',"string.chars().count() as i64","{\n            let mut n = 0;\n            for _ in string.chars() {\n                n += 1;\n            }\n            n\n        }")],'',C),
('rf-len-chars4',[(I+'length.rs',"string.chars().count() as i64","string.chars().map(|_| 1i64).sum()")],'',C),
('rf-len-chars5',[(I+'length.rs',"string.chars().count() as i64","string.bytes().filter(|b| b & 0xc0 != 0x80).count() as i64")],'',C),
('rf-incby-match',[(I+'increment_by.rs',inc,"        let (sum, over) = int.overflowing_add(amount);\n        if over {\n            return Err(DispatchError::PreconditionFailed);\n        }\n        *int = sum;")],'',C),
('rf-incby-i128',[(I+'increment_by.rs',inc,"        let sum = i128::from(*int) + i128::from(amount);\n        *int = core::convert::TryFrom::try_from(sum).map_err(|_| DispatchError::PreconditionFailed)?;")],'',C),
('rf-incby-ifl',[(I+'increment_by.rs',inc,"        *int = if let Some(sum) = int.checked_add(amount) {\n            sum\n        } else {\n            return Err(DispatchError::PreconditionFailed);\n        };")],'',C),
('rf-incby-bounds',[(I+'increment_by.rs',inc,"        if (amount > 0 && *int > i64::MAX - amount) || (amount < 0 && *int < i64::MIN - amount) {\n            return Err(DispatchError::PreconditionFailed);\n        }\n        *int += amount;")],'',C),
('rf-get-clone',[(I+'get.rs',"        response::write_value(resp, r.value());","        let mut out = Vec::new();\n        response::write_value(&mut out, r.value());\n        drop(r);\n        resp.append(&mut out);")],'',C),
]]
