fn pad_string
props C01
req
    str@.len() <= padded_bytes_size,
ens
    vx_r@.len() == padded_bytes_size,
    vx_r@.subrange(0, str@.len() as int) == str@,
    forall|i: int| str@.len() <= i < padded_bytes_size ==> #[trigger] vx_r@[i] == 0u8,
