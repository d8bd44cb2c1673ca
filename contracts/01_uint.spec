# ---- util: little-endian access (uintio.go)
contract util.GetU16(b)(u)
  requires len(b) >= 2
  ensures value: u == le16(b, 0)
contract util.GetU32(b)(u)
  requires len(b) >= 4
  ensures value: u == le32(b, 0)
contract util.GetU64(b)(u)
  requires len(b) >= 8
  ensures value: u == le64(b, 0)
contract util.GetF32(b)(u)
  requires len(b) >= 4
  ensures value: u == le32(b, 0)
contract util.GetF64(b)(u)
  requires len(b) >= 8
  ensures value: u == le64(b, 0)
contract util.SetU16(b, u)
  requires len(b) >= 2
  modifies bytes(b[0:2])
  ensures value: bytes(b[0:2]) == le16(u)
  flag inline
contract util.SetU32(b, u)
  requires len(b) >= 4
  modifies bytes(b[0:4])
  ensures value: bytes(b[0:4]) == le32(u)
  flag inline
contract util.SetU64(b, u)
  requires len(b) >= 8
  modifies bytes(b[0:8])
  ensures value: bytes(b[0:8]) == le64(u)
  flag inline
contract util.SetF32(b, f)
  requires len(b) >= 4
  modifies bytes(b[0:4])
  ensures value: bytes(b[0:4]) == le32(f)
  flag inline
contract util.SetF64(b, f)
  requires len(b) >= 8
  modifies bytes(b[0:8])
  ensures value: bytes(b[0:8]) == le64(f)
  flag inline
contract util.B2S(b)(s)
  ensures value: s == bytes(b)
  flag inline
contract util.S2B(s)(b)
  ensures value: bytes(b) == s
  flag inline

# ---- time (external)
uninterp tsec(wall Int, ext Int) Int
uninterp tnsec(wall Int, ext Int) Int
spec unixms(t Any) Int = tsec(t.wall, t.ext) * 1000 + tnsec(t.wall, t.ext) / 1000000
extern time.Unix(sec, nsec)(t)
  ensures 0 <= tnsec(t.wall, t.ext) && tnsec(t.wall, t.ext) < 1000000000
  ensures 0 <= nsec && nsec < 1000000000 ==> tsec(t.wall, t.ext) == sec && tnsec(t.wall, t.ext) == nsec
  ensures -1000000000 < nsec && nsec < 0 && sec > -9223372036854775808 ==> tsec(t.wall, t.ext) == sec - 1 && tnsec(t.wall, t.ext) == nsec + 1000000000
extern time.Time.Unix(t)(s)
  ensures s == tsec(t.wall, t.ext)
extern time.Time.Nanosecond(t)(n)
  ensures n == tnsec(t.wall, t.ext)
  ensures 0 <= n && n < 1000000000
extern time.Time.UnixMilli(t)(ms)
  ensures 0 <= tnsec(t.wall, t.ext) && tnsec(t.wall, t.ext) < 1000000000
  ensures -9223372036854775808 <= unixms(t) && unixms(t) <= 9223372036854775807 ==> ms == unixms(t)

# ---- tag constructors and readers (tagset.go)
contract wpk.StrTag(val)(r)
  ensures value: bytes(r) == val
  ensures shared: ro(r)
contract wpk.TagRaw.TagStr(t)(v, ok)
  ensures value: ok && v == bytes(t)
contract wpk.BoolTag(val)(r)
  ensures value: len(r) == 1 && r[0] == (if val then 1 else 0)
  ensures own: fresh(r)
contract wpk.TagRaw.TagBool(t)(v, ok)
  ensures accepts: ok <==> len(t) == 1
  ensures value: v <==> (ok && t[0] != 0)
contract wpk.ByteTag(val)(r)
  ensures value: len(r) == 1 && r[0] == val
contract wpk.TagRaw.TagByte(t)(v, ok)
  ensures accepts: ok <==> len(t) == 1
  ensures value: v == (if ok then t[0] else 0)
contract wpk.Uint16Tag(val)(r)
  ensures value: bytes(r) == le16(val)
contract wpk.TagRaw.TagUint16(t)(v, ok)
  ensures accepts: ok <==> len(t) == 2
  ensures value: v == (if ok then le16(t, 0) else 0)
contract wpk.Uint32Tag(val)(r)
  ensures value: bytes(r) == le32(val)
contract wpk.TagRaw.TagUint32(t)(v, ok)
  ensures accepts: ok <==> len(t) == 4
  ensures value: v == (if ok then le32(t, 0) else 0)
contract wpk.Uint64Tag(val)(r)
  ensures value: bytes(r) == le64(val)
contract wpk.TagRaw.TagUint64(t)(v, ok)
  ensures accepts: ok <==> len(t) == 8
  ensures value: v == (if ok then le64(t, 0) else 0)
# variable length: the shortest of 1, 2, 4, 8 bytes
spec uintenc(v Int, n Int) Str = if n == 8 then le64(v) else if n == 4 then le32(v % 4294967296) else if n == 2 then le16(v % 65536) else unit(v % 256)
spec uintlen(v Int) Int = if v > 4294967295 then 8 else if v > 65535 then 4 else if v > 255 then 2 else 1
spec uintok(t Str) Bool = len(t) == 1 || len(t) == 2 || len(t) == 4 || len(t) == 8
spec uintval(t Str) Int = if len(t) == 8 then le64(t, 0) else if len(t) == 4 then le32(t, 0) else if len(t) == 2 then le16(t, 0) else if len(t) == 1 then t[0] else 0
contract wpk.UintTag(val)(r)
  ensures value: bytes(r) == uintenc(val, uintlen(val))
  ensures own: fresh(r)
contract wpk.UintLenTag(val, l)(r)
  requires l == 1 || l == 2 || l == 4 || l == 8
  ensures value: bytes(r) == uintenc(val, l)
contract wpk.TagRaw.TagUint(t)(v, ok)
  ensures accepts: ok <==> uintok(bytes(t))
  ensures value: v == uintval(bytes(t))
contract wpk.NumberTag(val)(r)
  ensures value: bytes(r) == le64(val)
  ensures own: fresh(r)
contract wpk.TagRaw.TagNumber(t)(v, ok)
  ensures accepts: ok <==> len(t) == 8
  ensures value: ok ==> v == le64(t, 0)
spec s64(u Int) Int = if u >= 9223372036854775808 then u - 18446744073709551616 else u
spec u64(i Int) Int = if i < 0 then i + 18446744073709551616 else i
contract wpk.UnixmsTag(val)(r)
  requires -9223372036854775808 <= unixms(val) && unixms(val) <= 9223372036854775807
  ensures value: bytes(r) == le64(u64(unixms(val)))
  ensures own: fresh(r)
rec time12(s Int, n Int) Str = cat(le64(u64(s)), le32(n))
contract wpk.TimeTag(val)(r)
  ensures form: bytes(r) == time12(tsec(val.wall, val.ext), tnsec(val.wall, val.ext))
  ensures own: fresh(r)
  ensures value: bytes(r) == cat(le64(u64(tsec(val.wall, val.ext))), le32(tnsec(val.wall, val.ext)))
contract wpk.TagRaw.TagTime(t)(v, ok)
  ensures accepts: ok <==> (len(t) == 8 || len(t) == 12)
  ensures ms: len(t) == 8 ==> unixms(v) == s64(le64(t, 0)) && tnsec(v.wall, v.ext) % 1000000 == 0
  ensures ns: len(t) == 12 && le32(t, 8) < 1000000000 ==> tsec(v.wall, v.ext) == s64(le64(t, 0)) && tnsec(v.wall, v.ext) == le32(t, 8)
contract wpk.TagRaw.TagUnixms(t)(v, ok)
  ensures accepts: ok <==> (len(t) == 8 || len(t) == 12)
  ensures ms: len(t) == 8 ==> v == s64(le64(t, 0))
  ensures ns: len(t) == 12 && le32(t, 8) < 1000000000 && -9223372036854775 < s64(le64(t,0)) && s64(le64(t,0)) < 9223372036854775 ==> v == s64(le64(t, 0)) * 1000 + le32(t, 8) / 1000000

lemma rt_uint8(v Int)
  requires 0 <= v && v < 18446744073709551616
  ensures uintval(uintenc(v, 8)) == v && len(uintenc(v, 8)) == 8
lemma rt_uint4(v Int)
  requires 0 <= v && v < 4294967296
  ensures uintval(uintenc(v, 4)) == v && len(uintenc(v, 4)) == 4
lemma rt_uint2(v Int)
  requires 0 <= v && v < 65536
  ensures uintval(uintenc(v, 2)) == v && len(uintenc(v, 2)) == 2
lemma rt_uint1(v Int)
  requires 0 <= v && v < 256
  ensures uintval(uintenc(v, 1)) == v && len(uintenc(v, 1)) == 1
lemma rt_fixed(v Int, w Int, u Int)
  requires 0 <= v && v < 18446744073709551616 && 0 <= w && w < 4294967296 && 0 <= u && u < 65536
  ensures le64(le64(v), 0) == v && len(le64(v)) == 8
  ensures le32(le32(w), 0) == w && len(le32(w)) == 4
  ensures le16(le16(u), 0) == u && len(le16(u)) == 2
lemma rt_time(s Int, n Int)
  requires -9223372036854775808 <= s && s <= 9223372036854775807 && 0 <= n && n < 1000000000
  ensures s64(le64(cat(le64(u64(s)), le32(n)), 0)) == s && le32(cat(le64(u64(s)), le32(n)), 8) == n
  ensures len(cat(le64(u64(s)), le32(n))) == 12
  ensures s64(le64(le64(u64(s)), 0)) == s

prop C01
  roots util.GetU16 util.GetU32 util.GetU64 util.GetF32 util.GetF64 util.SetU16 util.SetU32 util.SetU64 util.SetF32 util.SetF64 util.B2S util.S2B
  roots wpk.StrTag wpk.TagRaw.TagStr wpk.BoolTag wpk.TagRaw.TagBool wpk.ByteTag wpk.TagRaw.TagByte
  roots wpk.Uint16Tag wpk.TagRaw.TagUint16 wpk.Uint32Tag wpk.TagRaw.TagUint32 wpk.Uint64Tag wpk.TagRaw.TagUint64
  roots wpk.UintTag wpk.UintLenTag wpk.TagRaw.TagUint wpk.NumberTag wpk.TagRaw.TagNumber
  roots wpk.UnixmsTag wpk.TimeTag wpk.TagRaw.TagTime wpk.TagRaw.TagUnixms
  lemmas rt_uint8 rt_uint4 rt_uint2 rt_uint1 rt_fixed rt_time
