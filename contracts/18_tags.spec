# ---- script calls that set, add and delete one tag
uninterp luaarg(ls Int, n Int) Iface
uninterp argstr(v Iface) Str
extern lua.LState.Get(ls, n)(v)
  ensures v == luaarg(ls, n) && v != nil
extern lua.LState.CheckString(ls, n)(s)
  ensures s == argstr(luaarg(ls, n))
extern lua.LState.CheckUserData(ls, n)(u)
  ensures iskind(luaarg(ls, n), "*lua.LUserData") && u == unbox(luaarg(ls, n), "*lua.LUserData") && u != nil
extern lua.LState.Push(ls, v)
extern lua.LState.RaiseError(ls, f, args)
  flag noreturn
extern lua.LState.ArgError(ls, n, s)
  flag noreturn
# the other tags read as before
lemma find_apart(B Str, p Int, t Int, u Int)
  requires 0 <= p && find(B, p, u) >= 0 && find(B, p, u) < find(B, p, t)
  ensures tend(B, find(B, p, u)) <= find(B, p, t)
  induct len(B) - p + 4
  use find_ge
lemma at_sub(A Str, D Str, i Int, j Int, n Int)
  requires 0 <= i && 0 <= j && 0 <= n && i + n <= len(A) && j + n <= len(D) && (forall k Int {A[i + k]} {D[j + k]} :: 0 <= k && k < n ==> A[i + k] == D[j + k])
  ensures sub(A, i, i + n) == sub(D, j, j + n)
lemma set_low(B Str, q Int, V Str, f Int)
  requires q >= 0 && 0 <= f && full(B, f) && tend(B, f) <= q && full(B, q) && len(V) < 65536
  ensures full(setpart(B, q, V), f) && content(setpart(B, q, V), f) == content(B, f)
  use at_sub(setpart(B, q, V), B, f + 4, f + 4, tend(B, f) - f - 4)
lemma set_high(B Str, q Int, V Str, f Int)
  requires q >= 0 && full(B, q) && tend(B, q) <= f && full(B, f) && len(V) < 65536
  ensures full(setpart(B, q, V), f + len(setpart(B, q, V)) - len(B)) && content(setpart(B, q, V), f + len(setpart(B, q, V)) - len(B)) == content(B, f)
  use at_sub(setpart(B, q, V), B, f + len(setpart(B, q, V)) - len(B) + 4, f + 4, tend(B, f) - f - 4)
lemma del_low(B Str, q Int, f Int)
  requires q >= 0 && 0 <= f && full(B, f) && tend(B, f) <= q && full(B, q)
  ensures full(delpart(B, q), f) && content(delpart(B, q), f) == content(B, f)
  use at_sub(delpart(B, q), B, f + 4, f + 4, tend(B, f) - f - 4)
lemma del_high(B Str, q Int, f Int)
  requires q >= 0 && full(B, q) && tend(B, q) <= f && full(B, f)
  ensures full(delpart(B, q), f + len(delpart(B, q)) - len(B)) && content(delpart(B, q), f + len(delpart(B, q)) - len(B)) == content(B, f)
  use at_sub(delpart(B, q), B, f + len(delpart(B, q)) - len(B) + 4, f + 4, tend(B, f) - f - 4)
lemma set_others(B Str, q Int, t Int, V Str, u Int)
  requires q >= 0 && find(B, 0, t) == q && t != u && len(V) < 65536
  ensures strtag(setpart(B, q, V), u) == strtag(B, u)
  use find_ge(B, 0, t)
  use find_ge(B, 0, u)
  use set_meaning(B, q, t, V, u)
  use find_apart(B, 0, t, u)
  use find_apart(B, 0, u, t)
  use set_low(B, q, V, find(B, 0, u))
  use set_high(B, q, V, find(B, 0, u))
lemma put_others(B Str, t Int, V Str, u Int)
  requires wf(B) && 0 < t && t < 65536 && t != u && len(V) < 65536
  ensures strtag(cat(B, item(t, V)), u) == strtag(B, u)
  use find_ge(B, 0, u)
  use put_meaning(B, t, V, u)
lemma del_others(B Str, q Int, t Int, u Int)
  requires q >= 0 && find(B, 0, t) == q && t != u
  ensures strtag(delpart(B, q), u) == strtag(B, u)
  use find_ge(B, 0, t)
  use find_ge(B, 0, u)
  use del_meaning(B, q, t, u)
  use find_apart(B, 0, t, u)
  use find_apart(B, 0, u, t)
  use del_low(B, q, find(B, 0, u))
  use del_high(B, q, find(B, 0, u))
contract luawpk.wpksettag(ls)(n)
  flag hide=find,stop,slash,valtag,kindok,le16,uintenc depth=1
  requires pack: iskind(luaarg(ls, 1), "*lua.LUserData") && luaarg(ls, 1) != nil && iskind(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage") && as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage") != nil && as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT != nil
  requires names: luawpk.NameTid != nil && (forall s Str {get(luawpk.NameTid, s)} :: has(luawpk.NameTid, s) ==> 1 <= get(luawpk.NameTid, s) && get(luawpk.NameTid, s) <= 65535)
  requires kinds: luawpk.TidType != nil && (forall t Int {get(luawpk.TidType, t)} :: has(luawpk.TidType, t) ==> 0 <= get(luawpk.TidType, t) && get(luawpk.TidType, t) <= 6)
  requires free: held(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.mux) == 0
  requires inv: tabok(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)
  requires pathed: forall k Str {get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k)} :: has(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k) ==> strtag(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k)]), 3) == k && wf(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k)]))
  modifies as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.seq, rows(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.seq), spare(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.seq), map(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx)
  raises same: keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == old(keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)) && vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == old(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm))
  ensures inv: tabok(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)
  ensures kinds: keytid(luaarg(ls, 3)) != 0 && keytid(luaarg(ls, 3)) != 1 && keytid(luaarg(ls, 3)) != 2 && keytid(luaarg(ls, 3)) != 3
  ensures valid: kindok(kindof(keytid(luaarg(ls, 3))), luaarg(ls, 4)) && len(valtag(kindof(keytid(luaarg(ls, 3))), luaarg(ls, 4))) <= 65535
  ensures there: old(has(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2)))))
  ensures names: keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == old(keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm))
  ensures value: bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))]) == (withtag(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), keytid(luaarg(ls, 3)), valtag(kindof(keytid(luaarg(ls, 3))), luaarg(ls, 4))))
  ensures others: vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == upd(old(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)), old(get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))), vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])
  ensures result: n == 1
  use set_others(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), find(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), 0, keytid(luaarg(ls, 3))), keytid(luaarg(ls, 3)), valtag(kindof(keytid(luaarg(ls, 3))), luaarg(ls, 4)), 3)
  use put_others(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), keytid(luaarg(ls, 3)), valtag(kindof(keytid(luaarg(ls, 3))), luaarg(ls, 4)), 3)
contract luawpk.wpkaddtag(ls)(n)
  flag hide=find,stop,slash,valtag,kindok
  requires pack: iskind(luaarg(ls, 1), "*lua.LUserData") && luaarg(ls, 1) != nil && iskind(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage") && as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage") != nil && as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT != nil
  requires names: luawpk.NameTid != nil && (forall s Str {get(luawpk.NameTid, s)} :: has(luawpk.NameTid, s) ==> 1 <= get(luawpk.NameTid, s) && get(luawpk.NameTid, s) <= 65535)
  requires kinds: luawpk.TidType != nil && (forall t Int {get(luawpk.TidType, t)} :: has(luawpk.TidType, t) ==> 0 <= get(luawpk.TidType, t) && get(luawpk.TidType, t) <= 6)
  requires free: held(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.mux) == 0
  requires inv: tabok(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)
  requires pathed: forall k Str {get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k)} :: has(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k) ==> strtag(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k)]), 3) == k && wf(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k)]))
  modifies as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.seq, rows(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.seq), spare(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.seq), map(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx)
  raises same: keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == old(keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)) && vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == old(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm))
  ensures inv: tabok(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)
  ensures kinds: keytid(luaarg(ls, 3)) != 0 && keytid(luaarg(ls, 3)) != 1 && keytid(luaarg(ls, 3)) != 2 && keytid(luaarg(ls, 3)) != 3
  ensures valid: kindok(kindof(keytid(luaarg(ls, 3))), luaarg(ls, 4)) && len(valtag(kindof(keytid(luaarg(ls, 3))), luaarg(ls, 4))) <= 65535
  ensures there: old(has(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2)))))
  ensures names: keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == old(keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm))
  ensures value: bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))]) == (if find(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), 0, keytid(luaarg(ls, 3))) < 0 then cat(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), item(keytid(luaarg(ls, 3)), valtag(kindof(keytid(luaarg(ls, 3))), luaarg(ls, 4)))) else old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])))
  ensures others: vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == upd(old(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)), old(get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))), vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])
  ensures result: n == 1
  use put_others(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), keytid(luaarg(ls, 3)), valtag(kindof(keytid(luaarg(ls, 3))), luaarg(ls, 4)), 3)
contract luawpk.wpkdeltag(ls)(n)
  flag hide=find,stop,slash,valtag,kindok
  requires pack: iskind(luaarg(ls, 1), "*lua.LUserData") && luaarg(ls, 1) != nil && iskind(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage") && as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage") != nil && as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT != nil
  requires names: luawpk.NameTid != nil && (forall s Str {get(luawpk.NameTid, s)} :: has(luawpk.NameTid, s) ==> 1 <= get(luawpk.NameTid, s) && get(luawpk.NameTid, s) <= 65535)
  requires kinds: luawpk.TidType != nil && (forall t Int {get(luawpk.TidType, t)} :: has(luawpk.TidType, t) ==> 0 <= get(luawpk.TidType, t) && get(luawpk.TidType, t) <= 6)
  requires free: held(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.mux) == 0
  requires inv: tabok(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)
  requires pathed: forall k Str {get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k)} :: has(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k) ==> strtag(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k)]), 3) == k && wf(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, k)]))
  modifies as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.seq, rows(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.seq), spare(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.seq), map(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx)
  raises same: keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == old(keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)) && vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == old(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm))
  ensures inv: tabok(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)
  ensures kinds: keytid(luaarg(ls, 3)) != 0 && keytid(luaarg(ls, 3)) != 1 && keytid(luaarg(ls, 3)) != 2 && keytid(luaarg(ls, 3)) != 3
  ensures there: old(has(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2)))))
  ensures names: keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == old(keys(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm))
  ensures value: bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))]) == (if find(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), 0, keytid(luaarg(ls, 3))) < 0 then old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])) else delpart(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), find(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), 0, keytid(luaarg(ls, 3)))))
  ensures others: vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm) == upd(old(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)), old(get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))), vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])
  ensures result: n == 1
  use del_others(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), find(old(bytes(vals(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm)[get(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.FTT.tsm.idx, fullof(as(as(luaarg(ls, 1), "*lua.LUserData").Value, "*luawpk.LuaPackage").Package.Workspace, argstr(luaarg(ls, 2))))])), 0, keytid(luaarg(ls, 3))), keytid(luaarg(ls, 3)), 3)
