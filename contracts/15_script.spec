# ---- values of scripts: numbers are float64, given by their bits; conversions between machine numbers keep exact values
uninterp f2i_uint16(x Int) Int
uninterp f2i_uint(x Int) Int
uninterp f2i_int64(x Int) Int
uninterp i2f64(x Int) Int
uninterp feq(x Int, y Int) Bool
uninterp flt(x Int, y Int) Bool
uninterp numstr(x Int) Str
uninterp ishex(s Str) Bool
uninterp unhex(s Str) Str
uninterp isatoi(s Str) Bool
uninterp atoi(s Str) Int
uninterp isnum(s Str) Bool
uninterp floatof(s Str) Int
uninterp isiso(s Str) Bool
uninterp isosec(s Str) Int
uninterp isons(s Str) Int
extern lua.LNumber.String(n)(r)
  ensures r == numstr(n)
extern lua.LString.String(s)(r)
  ensures r == s
extern lua.LBool.String(b)(r)
  ensures r == (if b then "true" else "false")
extern hex.DecodeString(s)(b, err)
  ensures (err == nil) <==> ishex(s)
  ensures err == nil ==> bytes(b) == unhex(s) && fresh(b)
extern strconv.Atoi(s)(n, err)
  ensures (err == nil) <==> isatoi(s)
  ensures err == nil ==> n == atoi(s)
extern strconv.ParseFloat(s, bits)(f, err)
  ensures (err == nil) <==> isnum(s)
  ensures err == nil ==> f == floatof(s)
extern time.Parse(layout, s)(t, err)
  ensures layout == "2006-01-02T15:04:05.999Z07:00" ==> ((err == nil) <==> isiso(s)) && (err == nil ==> tsec(t.wall, t.ext) == isosec(s) && tnsec(t.wall, t.ext) == isons(s))
spec isnumber(k Iface) Bool = iskind(k, "lua.LNumber")
spec isstr(k Iface) Bool = iskind(k, "lua.LString")
spec isbool(k Iface) Bool = iskind(k, "lua.LBool")
# the tag a key stands for, 0 when it stands for none
spec keytid(k Iface) Int = if isnumber(k) then (if feq(i2f64(f2i_uint16(unbox(k, "lua.LNumber"))), unbox(k, "lua.LNumber")) then f2i_uint16(unbox(k, "lua.LNumber")) else 0)
  else if isstr(k) && has(luawpk.NameTid, unbox(k, "lua.LString")) then get(luawpk.NameTid, unbox(k, "lua.LString")) else 0
contract luawpk.ValueToTID(k)(tid, err)
  requires names: luawpk.NameTid != nil && (forall s Str {get(luawpk.NameTid, s)} :: has(luawpk.NameTid, s) ==> 1 <= get(luawpk.NameTid, s) && get(luawpk.NameTid, s) <= 65535)
  ensures accepts: err == nil <==> keytid(k) != 0
  ensures value: err == nil ==> tid == keytid(k)
spec kindof(tid Int) Int = if has(luawpk.TidType, tid) then get(luawpk.TidType, tid) else 0
spec uinttag(n Int) Str = uintenc(n, uintlen(n))
rec kindok(d Int, v Iface) Bool = isnumber(v)
  || isstr(v) && (d == 1 ==> ishex(unbox(v, "lua.LString"))) && (d == 4 ==> isatoi(unbox(v, "lua.LString"))) && (d == 5 ==> isnum(unbox(v, "lua.LString"))) && (d == 6 ==> isiso(unbox(v, "lua.LString")))
  || isbool(v) && d != 1 && d != 6
spec numval(d Int, n Int) Str = if d == 1 || d == 4 then uinttag(f2i_uint(n))
  else if d == 2 then numstr(n)
  else if d == 3 then unit(if feq(n, 0) then 0 else 1)
  else if d == 5 then le64(n)
  else if d == 6 then le64(u64(f2i_int64(n)))
  else if flt(n, 0) || !feq(n, i2f64(f2i_int64(n))) then le64(n) else uinttag(f2i_uint(n))
spec strval(d Int, s Str) Str = if d == 1 then unhex(s)
  else if d == 3 then unit(if len(s) > 0 && s != "false" then 1 else 0)
  else if d == 4 then uinttag(u64(atoi(s)))
  else if d == 5 then le64(floatof(s))
  else if d == 6 then time12(isosec(s), isons(s))
  else s
spec boolval(d Int, b Bool) Str = if d == 2 then (if b then "true" else "false")
  else if d == 4 then uinttag(if b then 1 else 0)
  else if d == 5 then le64(if b then 4607182418800017408 else 0)
  else unit(if b then 1 else 0)
rec valtag(d Int, v Iface) Str = if isnumber(v) then numval(d, unbox(v, "lua.LNumber")) else if isstr(v) then strval(d, unbox(v, "lua.LString")) else boolval(d, unbox(v, "lua.LBool"))
contract luawpk.ValueToTag(tid, v)(tag, err)
  requires kinds: luawpk.TidType != nil && (forall t Int {get(luawpk.TidType, t)} :: has(luawpk.TidType, t) ==> 0 <= get(luawpk.TidType, t) && get(luawpk.TidType, t) <= 6)
  ensures accepts: err == nil <==> kindok(kindof(tid), v) && len(valtag(kindof(tid), v)) <= 65535
  ensures value: err == nil ==> bytes(tag) == valtag(kindof(tid), v)
  ensures own: err == nil ==> fresh(tag) || ro(tag)
prop C20
  roots luawpk.ValueToTID luawpk.ValueToTag luawpk.wpksettag luawpk.wpkaddtag luawpk.wpkdeltag
  lemmas set_others put_others del_others
