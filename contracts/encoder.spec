// Contracts of the encoder primitives (message/encoder.go).
//
// Ghost state of the stream w an Encoder writes to:
//   pos(w)    number of bytes accepted so far
//   failed(w) a write has failed
//   first(w)  the error of the first failed write
//   F(w)      the bytes the stream will ever have received (append only)
// enc_K(A, o, x) says that A[o..] holds the protocol encoding of x,
// sz_K(x) is its length.

spec encInv(e) = (failed(e.target) <==> e.err != nil) && (failed(e.target) ==> e.err == first(e.target))

func message.NewEncoder(target)
  ensures[C09] fresh: result != nil && result.err == nil && result.target == target

func message.(*Encoder).Flush(e)
  requires inv: encInv(e)
  ensures[C09] reports: e.err != nil ==> result == e.err
  ensures[C09] flushes: e.err == nil && hasFlush(e.target) ==> result == flushresult(e.target)
  ensures[C09] plain: e.err == nil && !hasFlush(e.target) ==> result == nil

func message.(*Encoder).PutInt8(e, i)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_i8(i)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_i8(F(e.target), old(pos(e.target)), i)

func message.(*Encoder).PutInt16(e, i)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_i16(i)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_i16(F(e.target), old(pos(e.target)), i)

func message.(*Encoder).PutInt32(e, i)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_i32(i)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_i32(F(e.target), old(pos(e.target)), i)

func message.(*Encoder).PutInt64(e, i)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_i64(i)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_i64(F(e.target), old(pos(e.target)), i)

func message.(*Encoder).PutBool(e, b)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_bool(b)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_bool(F(e.target), old(pos(e.target)), b)

func message.(*Encoder).PutArrayLength(e, n)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_i32(w32(n))
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_i32(F(e.target), old(pos(e.target)), w32(n))

func message.(*Encoder).PutString(e, s)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_str(s)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_str(F(e.target), old(pos(e.target)), s)

func message.(*Encoder).PutNullableString(e, s)
  nullable s
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_nstr(s)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_nstr(F(e.target), old(pos(e.target)), s)

func message.(*Encoder).PutBytes(e, data)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_bytes(data)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_bytes(F(e.target), old(pos(e.target)), data)

func message.(*Encoder).PutInt32Array(e, ii)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_i32arr(ii)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_i32arr(F(e.target), old(pos(e.target)), ii)

func message.(*Encoder).PutInt64Array(e, ii)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_i64arr(ii)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_i64arr(F(e.target), old(pos(e.target)), ii)

func message.(*Encoder).PutStringArray(e, ss)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_strarr(ss)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_strarr(F(e.target), old(pos(e.target)), ss)

func message.(*Encoder).PutVarInt(e, i)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_varint(i)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_varint(F(e.target), old(pos(e.target)), i)

func message.(*Encoder).PutVarString(e, s)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_varstr(s)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_varstr(F(e.target), old(pos(e.target)), s)

func message.(*Encoder).PutVarBytes(e, data)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C01,C02,C03,C04,C05,C06,C10,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_varbytes(data)
  ensures[C02,C03,C04,C05,C08,C10,C11,C19] content: !failed(e.target) ==> enc_varbytes(F(e.target), old(pos(e.target)), data)

func message.(*Encoder).PutRecordHeader(e, key, value)
  requires inv: encInv(e)
  modifies except(e, target), pos(e.target), failed(e.target), first(e.target)
  ensures[C09] inv: encInv(e)
  ensures[C09] sticky: old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))
  ensures[C04,C19] advance: !failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz_varstr(key) + sz_varstr(value)
  ensures[C04,C19] content: !failed(e.target) ==> enc_varstr(F(e.target), old(pos(e.target)), key) && enc_varstr(F(e.target), old(pos(e.target)) + sz_varstr(key), value)
