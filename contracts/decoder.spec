// Contracts of the decoder primitives (message/decoder.go).
//
// R(d) is the array the decoder reads, O(d) the read position in it.

spec dinv(d) = 0 <= d.offset && d.offset <= d.length && d.length <= len(d.raw)
spec R(d) = bytes(d.raw)
spec O(d) = base(d.raw) + d.offset
spec fits(d, n) = d.offset + n <= d.length

func message.NewDecoder(raw, length)
  requires len: 0 <= length && length <= len(raw)
  ensures[C07,C05,C13,C17] fresh: result != nil && dinv(result) && result.offset == 0 && result.length == length && sharesArray(result.raw, raw) && len(result.raw) == len(raw) && base(result.raw) == base(raw)

func message.(*Decoder).Reset(d, length)
  requires len: 0 <= length && length <= len(d.raw)
  modifies except(d, raw)
  ensures[C07,C05] reset: dinv(d) && d.offset == 0 && d.length == length

func message.IsInsufficientDataError(err)
  ensures[C08] is: result == short(err)

func message.(*Decoder).Int8(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] value: old(fits(d, 1)) ==> result1 == nil && result0 == i8at(R(d), old(O(d))) && d.offset == old(d.offset) + 1
  ensures[C02,C08,C11] trunc: !old(fits(d, 1)) ==> result1 != nil && short(result1)

func message.(*Decoder).Int16(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] value: old(fits(d, 2)) ==> result1 == nil && result0 == i16at(R(d), old(O(d))) && d.offset == old(d.offset) + 2
  ensures[C02,C08,C11] trunc: !old(fits(d, 2)) ==> result1 != nil && short(result1)

func message.(*Decoder).Int32(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] value: old(fits(d, 4)) ==> result1 == nil && result0 == i32at(R(d), old(O(d))) && d.offset == old(d.offset) + 4
  ensures[C02,C08,C11] trunc: !old(fits(d, 4)) ==> result1 != nil && short(result1)

func message.(*Decoder).Int64(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] value: old(fits(d, 8)) ==> result1 == nil && result0 == i64at(R(d), old(O(d))) && d.offset == old(d.offset) + 8
  ensures[C02,C08,C11] trunc: !old(fits(d, 8)) ==> result1 != nil && short(result1)

func message.(*Decoder).Bool(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] value: old(fits(d, 1)) ==> result1 == nil && d.offset == old(d.offset) + 1 \
      && (i8at(R(d), old(O(d))) == 1 ==> result0) && (i8at(R(d), old(O(d))) == 0 ==> !result0)
  ensures[C02,C08,C11] trunc: !old(fits(d, 1)) ==> result1 != nil && short(result1)

func message.(*Decoder).Discard(d, n)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] value: 0 <= n && old(fits(d, n)) ==> result == nil && d.offset == old(d.offset) + n
  ensures[C02,C08,C11] trunc: 0 <= n && !old(fits(d, n)) ==> result != nil && short(result)

func message.(*Decoder).ArrayLength(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C07] bound: result1 == nil ==> 0 - 1 <= result0 && result0 <= d.length - d.offset
  ensures[C02,C05,C11,C13] null: old(fits(d, 4)) && i32at(R(d), old(O(d))) == 0 - 1 ==> result1 == nil && result0 == 0 - 1 && d.offset == old(d.offset) + 4
  ensures[C02,C05,C11,C13] value: 0 <= i32at(R(d), old(O(d))) && old(fits(d, 4 + i32at(R(d), old(O(d))))) ==> result1 == nil && result0 == i32at(R(d), old(O(d))) && d.offset == old(d.offset) + 4
  ensures[C02,C08,C11] trunc: !old(fits(d, 4)) || 0 <= i32at(R(d), old(O(d))) && !old(fits(d, 4 + i32at(R(d), old(O(d))))) ==> result1 != nil && short(result1)

func message.(*Decoder).String(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] value: 0 <= i16at(R(d), old(O(d))) && old(fits(d, 2 + i16at(R(d), old(O(d))))) ==> result1 == nil \
      && result0 == mkstr(R(d), old(O(d)) + 2, i16at(R(d), old(O(d)))) && d.offset == old(d.offset) + 2 + i16at(R(d), old(O(d)))
  ensures[C02,C08,C11] trunc: !old(fits(d, 2)) || 0 <= i16at(R(d), old(O(d))) && !old(fits(d, 2 + i16at(R(d), old(O(d))))) ==> result1 != nil && short(result1)

func message.(*Decoder).NullableString(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] null: old(fits(d, 2)) && i16at(R(d), old(O(d))) == 0 - 1 ==> result1 == nil && result0 == nil && d.offset == old(d.offset) + 2
  ensures[C02,C05,C11,C13] value: 0 <= i16at(R(d), old(O(d))) && old(fits(d, 2 + i16at(R(d), old(O(d))))) ==> result1 == nil && result0 != nil \
      && holds(result0, mkstr(R(d), old(O(d)) + 2, i16at(R(d), old(O(d))))) && d.offset == old(d.offset) + 2 + i16at(R(d), old(O(d)))
  ensures[C02,C08,C11] trunc: !old(fits(d, 2)) || 0 <= i16at(R(d), old(O(d))) && !old(fits(d, 2 + i16at(R(d), old(O(d))))) ==> result1 != nil && short(result1)

func message.(*Decoder).Bytes(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C07,C17] cap: result1 == nil ==> cap(result0) == len(result0)
  ensures[C02,C05,C11,C13] value: 0 <= i32at(R(d), old(O(d))) && old(fits(d, 4 + i32at(R(d), old(O(d))))) ==> result1 == nil && len(result0) == i32at(R(d), old(O(d))) \
      && str(result0) == mkstr(R(d), old(O(d)) + 4, i32at(R(d), old(O(d)))) && d.offset == old(d.offset) + 4 + i32at(R(d), old(O(d)))
  ensures[C02,C08,C11] trunc: !old(fits(d, 4)) || 0 <= i32at(R(d), old(O(d))) && !old(fits(d, 4 + i32at(R(d), old(O(d))))) ==> result1 != nil && short(result1)

func message.(*Decoder).Int32Array(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] null: old(fits(d, 4)) && i32at(R(d), old(O(d))) == 0 - 1 ==> result1 == nil && isnil(result0) && d.offset == old(d.offset) + 4
  ensures[C02,C08,C11] truncnull: !old(fits(d, 4)) ==> result1 != nil && short(result1)
  behavior rt exists i32 S at O(d) + 4
  when (S_nil ==> i32at(R(d), O(d)) == 0 - 1) && (!S_nil ==> i32at(R(d), O(d)) == S_n && encArr_i32(R(d), O(d) + 4, S, S_n))
  ensures[C02,C05,C11,C13] value: old(fits(d, 4 + 4 * S_n)) ==> result1 == nil && (isnil(result0) <==> S_nil) && len(result0) == S_n && eqArr_i32(result0, S, S_n) && d.offset == old(d.offset) + 4 + 4 * S_n
  ensures[C02,C08,C11] trunc: !old(fits(d, 4 + 4 * S_n)) ==> result1 != nil && short(result1)

func message.(*Decoder).Int64Array(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] null: old(fits(d, 4)) && i32at(R(d), old(O(d))) == 0 - 1 ==> result1 == nil && isnil(result0) && d.offset == old(d.offset) + 4
  ensures[C02,C08,C11] truncnull: !old(fits(d, 4)) ==> result1 != nil && short(result1)
  behavior rt exists i64 S at O(d) + 4
  when (S_nil ==> i32at(R(d), O(d)) == 0 - 1) && (!S_nil ==> i32at(R(d), O(d)) == S_n && encArr_i64(R(d), O(d) + 4, S, S_n))
  ensures[C02,C05,C11,C13] value: old(fits(d, 4 + 8 * S_n)) ==> result1 == nil && (isnil(result0) <==> S_nil) && len(result0) == S_n && eqArr_i64(result0, S, S_n) && d.offset == old(d.offset) + 4 + 8 * S_n
  ensures[C02,C08,C11] trunc: !old(fits(d, 4 + 8 * S_n)) ==> result1 != nil && short(result1)

func message.(*Decoder).StringArray(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] null: old(fits(d, 4)) && i32at(R(d), old(O(d))) == 0 - 1 ==> result1 == nil && isnil(result0) && d.offset == old(d.offset) + 4
  ensures[C02,C08,C11] truncnull: !old(fits(d, 4)) ==> result1 != nil && short(result1)
  behavior rt exists str S at O(d) + 4
  when (S_nil ==> i32at(R(d), O(d)) == 0 - 1) && (!S_nil ==> i32at(R(d), O(d)) == S_n && encArr_str(R(d), O(d) + 4, S, S_n)) && domArr_str(S, S_n)
  ensures[C02,C05,C11,C13] value: old(fits(d, 4 + szArr_str(S, S_n))) ==> result1 == nil && (isnil(result0) <==> S_nil) && len(result0) == S_n && eqArr_str(result0, S, S_n) && d.offset == old(d.offset) + 4 + szArr_str(S, S_n)
  ensures[C02,C08,C11] trunc: !old(fits(d, 4 + szArr_str(S, S_n))) ==> result1 != nil && short(result1)

func message.(*Decoder).VarInt(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C02,C05,C11,C13] value: vdn(R(d), old(O(d)), old(d.length - d.offset)) > 0 ==> result1 == nil && result0 == vdv(R(d), old(O(d)), old(d.length - d.offset)) \
      && d.offset == old(d.offset) + vdn(R(d), old(O(d)), old(d.length - d.offset))
  ensures[C02,C08,C11] trunc: vdn(R(d), old(O(d)), old(d.length - d.offset)) == 0 ==> result1 != nil && short(result1)
  behavior rt exists int i
  when enc_varint(R(d), O(d), i)
  ensures[C02,C05,C11,C13] value: old(fits(d, vlen(i))) ==> result1 == nil && result0 == i && d.offset == old(d.offset) + vlen(i)
  ensures[C02,C08,C11] trunc: !old(fits(d, vlen(i))) ==> result1 != nil && short(result1)

func message.(*Decoder).VarBytes(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  ensures[C07,C17] cap: result1 == nil ==> cap(result0) == len(result0)
  behavior rt exists string s
  when enc_varstr(R(d), O(d), s)
  ensures[C02,C05,C11,C13] value: old(fits(d, sz_varstr(s))) ==> result1 == nil && str(result0) == s && d.offset == old(d.offset) + sz_varstr(s)
  ensures[C02,C08,C11] trunc: !old(fits(d, sz_varstr(s))) ==> result1 != nil && short(result1)

func message.(*Decoder).VarString(d)
  requires inv: dinv(d)
  modifies except(d, raw, length)
  ensures[C07] safe: dinv(d) && d.offset >= old(d.offset)
  behavior rt exists string s
  when enc_varstr(R(d), O(d), s)
  ensures[C02,C05,C11,C13] value: old(fits(d, sz_varstr(s))) ==> result1 == nil && result0 == s && d.offset == old(d.offset) + sz_varstr(s)
  ensures[C02,C08,C11] trunc: !old(fits(d, sz_varstr(s))) ==> result1 != nil && short(result1)
