I='engine/src/command/impl/'
C='C01 C02 C03 C05 C07 C08 C18'
old="        for arg in args {\n            bytes.extend_from_slice(arg);\n        }\n"
M=[('rf-append-flat',[(I+'append.rs',old,"        bytes.extend(args.flat_map(|arg| arg.iter().copied()));\n")],'',C),
('rf-append-flat2',[(I+'append.rs',old,"        bytes.extend(args.flatten());\n")],'',C),
('rf-append-flat3',[(I+'append.rs',old,"        for byte in args.flatten() {\n            bytes.push(*byte);\n        }\n")],'',C),
('rf-append-flat4',[(I+'append.rs',old,"        for arg in args {\n            for byte in arg {\n                bytes.push(*byte);\n            }\n        }\n")],'',C),
('rf-append-flat5',[(I+'append.rs',old,"        args.flatten().copied().for_each(|byte| bytes.push(byte));\n")],'',C),
('bad-flat',[(I+'append.rs',old,"        bytes.extend(args.flatten().copied().filter(|b| *b != 0));\n")],'C01',''),
('bad-flat2',[(I+'append.rs',old,"        bytes.extend(args.flatten().copied().skip(1));\n")],'C01',''),
]
