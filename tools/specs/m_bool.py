Q='engine/src/command/request/mod.rs'
O="Some(*byte > 0)"
M=[('r-ne',[(Q,O,"Some(*byte != 0)")],'','C01 W03 W02 C02 L01'),('r-match',[(Q,O,"Some(!matches!(*byte, 0))")],'','C01 W03 W02 C02 L01'),
('r-min',[(Q,O,"Some((*byte).min(1) == 1)")],'','C01 W03 W02 C02 L01'),
('r-count',[(Q,O,"Some(byte.leading_zeros() < 8)")],'','C01 W03 W02 C02 L01'),
('m-low',[(Q,O,"Some(*byte & 0x7f > 0)")],'C01',''),('m-bit',[(Q,O,"Some(*byte & 1 == 1)")],'C01',''),]
