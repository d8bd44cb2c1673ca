# ---- automatic tags of scripts
uninterp crcof(poly Int, D Str) Str
uninterp hmacof(f Int, K Str, D Str) Str
uninterp tabof(t Int) Int
uninterp hpoly(h Iface) Int
uninterp hfun(h Iface) Int
uninterp hkey(h Iface) Str
uninterp keyed(h Iface) Bool
rec digest(h Iface, D Str) Str = if keyed(h) then hmacof(hfun(h), hkey(h), D) else crcof(hpoly(h), D)
extern crc32.MakeTable(poly)(t)
  ensures tabof(t) == poly
extern crc64.MakeTable(poly)(t)
  ensures tabof(t) == poly
extern crc32.New(t)(h)
  ensures h != nil && hpoly(h) == tabof(t) && !keyed(h) && sout(h) == "" && fresh(h) && sok(h)
extern crc64.New(t)(h)
  ensures h != nil && hpoly(h) == tabof(t) && !keyed(h) && sout(h) == "" && fresh(h) && sok(h)
extern hmac.New(f, key)(h)
  ensures h != nil && keyed(h) && hfun(h) == f && hkey(h) == bytes(key) && sout(h) == "" && fresh(h) && sok(h)
extern hash.Hash.Sum(h, b)(r)
  ensures bytes(r) == cat(bytes(b), digest(h, sout(h)))
  ensures len(b) == 0 ==> bytes(r) == digest(h, sout(h))
  ensures len(r) <= len(b) + 64
  ensures fresh(r)
# a tag added only when asked for and not there
rec opt(B Str, on Bool, t Int, V Str) Str = if on && find(B, 0, t) < 0 then puttag(B, t, V) else B
contract luawpk.adjustcrc32c(ts, r, skip)(res, err)
  modifies spos(r), spare(ts)
  flag hide=find,puttag
  ensures tags: err == nil ==> bytes(res) == opt(old(bytes(ts)), !skip, 12, crcof(2197175160, sdata(r)))
  ensures kept: err != nil ==> bytes(res) == old(bytes(ts))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
contract luawpk.adjustcrc64iso(ts, r, skip)(res, err)
  modifies spos(r), spare(ts)
  flag hide=find,puttag
  ensures tags: err == nil ==> bytes(res) == opt(old(bytes(ts)), !skip, 14, crcof(15564440312192434176, sdata(r)))
  ensures kept: err != nil ==> bytes(res) == old(bytes(ts))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
contract luawpk.adjustmd5(ts, r, skip, secret)(res, err)
  modifies spos(r), spare(ts)
  flag hide=find,puttag
  ensures tags: err == nil ==> bytes(res) == opt(old(bytes(ts)), !skip, 20, hmacof(fn("md5.New"), old(bytes(secret)), sdata(r)))
  ensures kept: err != nil ==> bytes(res) == old(bytes(ts))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
contract luawpk.adjustsha1(ts, r, skip, secret)(res, err)
  modifies spos(r), spare(ts)
  flag hide=find,puttag
  ensures tags: err == nil ==> bytes(res) == opt(old(bytes(ts)), !skip, 21, hmacof(fn("sha1.New"), old(bytes(secret)), sdata(r)))
  ensures kept: err != nil ==> bytes(res) == old(bytes(ts))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
contract luawpk.adjustsha224(ts, r, skip, secret)(res, err)
  modifies spos(r), spare(ts)
  flag hide=find,puttag
  ensures tags: err == nil ==> bytes(res) == opt(old(bytes(ts)), !skip, 22, hmacof(fn("sha256.New224"), old(bytes(secret)), sdata(r)))
  ensures kept: err != nil ==> bytes(res) == old(bytes(ts))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
contract luawpk.adjustsha256(ts, r, skip, secret)(res, err)
  modifies spos(r), spare(ts)
  flag hide=find,puttag
  ensures tags: err == nil ==> bytes(res) == opt(old(bytes(ts)), !skip, 23, hmacof(fn("sha256.New"), old(bytes(secret)), sdata(r)))
  ensures kept: err != nil ==> bytes(res) == old(bytes(ts))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
contract luawpk.adjustsha384(ts, r, skip, secret)(res, err)
  modifies spos(r), spare(ts)
  flag hide=find,puttag
  ensures tags: err == nil ==> bytes(res) == opt(old(bytes(ts)), !skip, 24, hmacof(fn("sha512.New384"), old(bytes(secret)), sdata(r)))
  ensures kept: err != nil ==> bytes(res) == old(bytes(ts))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
contract luawpk.adjustsha512(ts, r, skip, secret)(res, err)
  modifies spos(r), spare(ts)
  flag hide=find,puttag
  ensures tags: err == nil ==> bytes(res) == opt(old(bytes(ts)), !skip, 25, hmacof(fn("sha512.New"), old(bytes(secret)), sdata(r)))
  ensures kept: err != nil ==> bytes(res) == old(bytes(ts))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
# the media type: by the extension, else by the content
uninterp exttype(e Str) Str
uninterp sniff(D Str) Str


extern mime.TypeByExtension(e)(r)
  ensures r == exttype(e) && len(r) <= 65535
# what the library recognises in a stream read from its start; it may read all of it
uninterp sniffof(r Iface) Str
extern filetype.MatchReader(r)(t, err)
  requires start: spos(r) == 0
  modifies spos(r)
  ensures err == nil && t != filetype.Unknown ==> t.MIME.Value == sniffof(r) && len(t.MIME.Value) <= 65535
  ensures err != nil || t == filetype.Unknown ==> sniffof(r) == "application/octet-stream"
spec extkey(B Str) Str = lower(extof(strtag(B, 3)))
spec media(B Str, r Iface) Str = if exttype(extkey(B)) != "" then exttype(extkey(B)) else if has(luawpk.MimeExt, extkey(B)) then get(luawpk.MimeExt, extkey(B)) else sniffof(r)
contract luawpk.adjustmime(ts, r, skip)(res, err)
  requires map: luawpk.MimeExt != nil
  requires types: forall k Str {get(luawpk.MimeExt, k)} :: len(get(luawpk.MimeExt, k)) <= 65535
  modifies spos(r), spare(ts)
  flag hide=find,puttag
  ensures tags: err == nil ==> bytes(res) == opt(old(bytes(ts)), !skip, 10, media(old(bytes(ts)), r))
  ensures kept: err != nil ==> bytes(res) == old(bytes(ts))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
rec withfid(B Str, on Bool, n Int) Str = if on && find(B, 0, 4) < 0 then puttag(B, 4, uintenc(n, uintlen(n))) else B
contract luawpk.LuaPackage.adjusttagset(pkg, r, ts)(res, err)
  requires map: luawpk.MimeExt != nil
  requires types: forall k Str {get(luawpk.MimeExt, k)} :: len(get(luawpk.MimeExt, k)) <= 65535
  requires apart: ref(pkg.secret) != ref(ts)
  modifies pkg.fidcount, spos(r), spare(ts)
  flag hide=find,puttag,opt
  ensures number: pkg.fidcount == (if pkg.autofid && find(old(bytes(ts)), 0, 4) < 0 then (old(pkg.fidcount) + 1) % 18446744073709551616 else old(pkg.fidcount))
  ensures tags: err == nil ==> bytes(res) == opt(opt(opt(opt(opt(opt(opt(opt(opt(withfid(old(bytes(ts)), pkg.autofid, pkg.fidcount), pkg.automime, 10, media(withfid(old(bytes(ts)), pkg.autofid, pkg.fidcount), r)), pkg.crc32, 12, crcof(2197175160, sdata(r))), pkg.crc64, 14, crcof(15564440312192434176, sdata(r))), pkg.md5, 20, hmacof(fn("md5.New"), old(bytes(pkg.secret)), sdata(r))), pkg.sha1, 21, hmacof(fn("sha1.New"), old(bytes(pkg.secret)), sdata(r))), pkg.sha224, 22, hmacof(fn("sha256.New224"), old(bytes(pkg.secret)), sdata(r))), pkg.sha256, 23, hmacof(fn("sha256.New"), old(bytes(pkg.secret)), sdata(r))), pkg.sha384, 24, hmacof(fn("sha512.New384"), old(bytes(pkg.secret)), sdata(r))), pkg.sha512, 25, hmacof(fn("sha512.New"), old(bytes(pkg.secret)), sdata(r)))
  ensures succeeds: sok(r) ==> err == nil
  ensures place: len(res) >= len(ts) && (ref(res) == ref(ts) && off(res) == off(ts) && cap(res) == cap(ts) || fresh(res))
lemma opt_meaning(B Str, on Bool, t Int, V Str, u Int)
  requires wf(B) && 0 < t && t < 65536 && len(V) < 65536
  ensures whole: wf(opt(B, on, t, V))
  ensures other: u != t ==> find(opt(B, on, t, V), 0, u) == find(B, 0, u)
  ensures value: find(B, 0, u) >= 0 ==> tagstr(opt(B, on, t, V), u) == tagstr(B, u)
  ensures added: on && find(B, 0, t) < 0 ==> find(opt(B, on, t, V), 0, t) >= 0 && tagstr(opt(B, on, t, V), t) == V
  ensures only: !on || find(B, 0, t) >= 0 ==> opt(B, on, t, V) == B
  use put_other(B, t, V, u)
  use put_own(B, t, V)
  use put_meaning(B, t, V, u)
  trigger find(opt(B, on, t, V), 0, u)
lemma withfid_meaning(B Str, on Bool, n Int, u Int)
  requires wf(B)
  ensures whole: wf(withfid(B, on, n))
  ensures other: u != 4 ==> find(withfid(B, on, n), 0, u) == find(B, 0, u)
  ensures value: find(B, 0, u) >= 0 ==> tagstr(withfid(B, on, n), u) == tagstr(B, u)
  ensures added: on && find(B, 0, 4) < 0 ==> find(withfid(B, on, n), 0, 4) >= 0 && tagstr(withfid(B, on, n), 4) == uintenc(n, uintlen(n))
  ensures only: !on || find(B, 0, 4) >= 0 ==> withfid(B, on, n) == B
  use put_other(B, 4, uintenc(n, uintlen(n)), u)
  use put_own(B, 4, uintenc(n, uintlen(n)))
  use put_meaning(B, 4, uintenc(n, uintlen(n)), u)
prop C21
  roots luawpk.LuaPackage.adjusttagset luawpk.adjustcrc32c luawpk.adjustcrc64iso luawpk.adjustmd5 luawpk.adjustsha1 luawpk.adjustsha224 luawpk.adjustsha256 luawpk.adjustsha384 luawpk.adjustsha512 luawpk.adjustmime
  lemmas opt_meaning withfid_meaning put_other put_own put_meaning
