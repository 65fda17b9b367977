// Contracts of the size helpers (message/sizeof/sizeof.go): the helper
// returns the length sz_K of the protocol encoding, as an int32.

func sizeof.Bytes(data)
  ensures[C01,C06,C10,C19] size: result == w32(sz_bytes(data))

func sizeof.Int32Array(ii)
  ensures[C01,C06,C10,C19] size: result == w32(sz_i32arr(ii))

func sizeof.Int64Array(ii)
  ensures[C01,C06,C10,C19] size: result == w32(sz_i64arr(ii))

func sizeof.String(s)
  ensures[C01,C06,C10,C19] size: result == w32(sz_str(s))

func sizeof.StringArray(ss)
  ensures[C01,C06,C10,C19] size: result == w32(sz_strarr(ss))

func sizeof.VarBytes(data)
  ensures[C01,C06,C10,C19] size: result == w32(sz_varbytes(data))

func sizeof.VarInt(i)
  ensures[C01,C06,C10,C19] size: result == w32(sz_varint(i))

func sizeof.VarString(s)
  ensures[C01,C06,C10,C19] size: result == w32(sz_varstr(s))
