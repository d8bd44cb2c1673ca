# ---- streams: sdata is the content, spos the position, sout everything written so far, sok that no operation fails
# D with X written at p, as into a file
specseq over(D Str, p Int, X Str) Str len (if len(X) == 0 || p + len(X) < len(D) then len(D) else p + len(X)) at i = (if p <= i && i < p + len(X) then X[i - p] else if i < len(D) then D[i] else 0)
# content that counts as a finished package; a writer past the header of an unfinished one
spec accepted(D Str) Bool = 64 <= len(D) && ready(sub(D, 0, 24), le64(D, 48))
spec quiet(w Any) Bool = spre(w) && !accepted(sdata(w)) && 64 <= len(sdata(w)) && 64 <= spos(w)
lemma over_over(D Str, p Int, X Str, q Int, Y Str)
  requires 0 <= p && q == p + len(X)
  ensures over(over(D, p, X), q, Y) == over(D, p, cat(X, Y))
  trigger over(over(D, p, X), q, Y)
extern io.Reader.Read(r, p)(n, err)
  modifies spos(r), bytes(p)
  flag noalloc
  ensures 0 <= n && n <= len(p) && spos(r) == old(spos(r)) + n && spos(r) >= old(spos(r)) && 0 <= old(spos(r))
  ensures n > 0 ==> spos(r) <= len(sdata(r))
  ensures sub(bytes(p), 0, n) == sub(sdata(r), old(spos(r)), old(spos(r)) + n)
extern io.ReadFull(r, buf)(n, err)
  modifies spos(r), bytes(buf)
  flag noalloc
  ensures 0 <= n && n <= len(buf) && spos(r) == old(spos(r)) + n && 0 <= old(spos(r))
  ensures n > 0 ==> spos(r) <= len(sdata(r))
  ensures err == nil <==> n == len(buf)
  ensures sub(bytes(buf), 0, n) == sub(sdata(r), old(spos(r)), old(spos(r)) + n)
  ensures err == nil ==> bytes(buf) == sub(sdata(r), old(spos(r)), old(spos(r)) + len(buf))
  ensures sok(r) && old(spos(r)) + len(buf) <= len(sdata(r)) ==> err == nil
extern io.Writer.Write(w, p)(n, err)
  modifies sdata(w), spos(w), sout(w), spre(w)
  flag noalloc
  ensures 0 <= n && n <= len(p) && (err == nil ==> n == len(p)) && 0 <= old(spos(w))
  ensures spos(w) == old(spos(w)) + n && sdata(w) == over(old(sdata(w)), old(spos(w)), sub(bytes(p), 0, n)) && sout(w) == cat(old(sout(w)), sub(bytes(p), 0, n))
  ensures err == nil ==> sdata(w) == over(old(sdata(w)), old(spos(w)), bytes(p)) && sout(w) == cat(old(sout(w)), bytes(p))
  ensures sok(w) ==> err == nil
  ensures spre(w) <==> old(spre(w)) && (len(p) == 0 || !accepted(old(sdata(w))))
extern io.Seeker.Seek(s, offset, whence)(n, err)
  modifies spos(s)
  flag noalloc
  ensures 0 <= spos(s)
  ensures err == nil ==> n == spos(s) && spos(s) == (if whence == 0 then offset else if whence == 1 then old(spos(s)) + offset else len(sdata(s)) + offset)
  ensures sok(s) && offset >= 0 && (whence == 0 || whence == 1 || whence == 2) ==> err == nil

spec consumed(r Any, n Int, m Int) Bool = spos(r) == old(spos(r)) + m && old(spos(r)) + m <= len(sdata(r)) && old(spos(r)) >= 0
contract util.ReadU16(r)(u, err)
  modifies spos(r)
  ensures value: err == nil ==> spos(r) == old(spos(r)) + 2 && spos(r) <= len(sdata(r)) && u == le16(sdata(r), old(spos(r))) && 0 <= old(spos(r))
  ensures succeeds: sok(r) && old(spos(r)) + 2 <= len(sdata(r)) ==> err == nil
contract util.ReadU32(r)(u, err)
  modifies spos(r)
  ensures value: err == nil ==> spos(r) == old(spos(r)) + 4 && spos(r) <= len(sdata(r)) && u == le32(sdata(r), old(spos(r))) && 0 <= old(spos(r))
  ensures succeeds: sok(r) && old(spos(r)) + 4 <= len(sdata(r)) ==> err == nil
contract util.ReadU64(r)(u, err)
  modifies spos(r)
  ensures value: err == nil ==> spos(r) == old(spos(r)) + 8 && spos(r) <= len(sdata(r)) && u == le64(sdata(r), old(spos(r))) && 0 <= old(spos(r))
  ensures succeeds: sok(r) && old(spos(r)) + 8 <= len(sdata(r)) ==> err == nil
contract util.WriteU16(w, u)(err)
  flag underlock
  modifies sdata(w), spos(w), sout(w), spre(w)
  ensures value: err == nil ==> sout(w) == cat(old(sout(w)), le16(u)) && spos(w) == old(spos(w)) + 2 && 0 <= old(spos(w)) && sdata(w) == over(old(sdata(w)), old(spos(w)), le16(u))
  ensures succeeds: sok(w) ==> err == nil
  ensures hidden: old(quiet(w)) ==> quiet(w)
contract util.WriteU32(w, u)(err)
  flag underlock
  modifies sdata(w), spos(w), sout(w), spre(w)
  ensures value: err == nil ==> sout(w) == cat(old(sout(w)), le32(u)) && spos(w) == old(spos(w)) + 4 && 0 <= old(spos(w)) && sdata(w) == over(old(sdata(w)), old(spos(w)), le32(u))
  ensures succeeds: sok(w) ==> err == nil
  ensures hidden: old(quiet(w)) ==> quiet(w)
contract util.WriteU64(w, u)(err)
  flag underlock
  modifies sdata(w), spos(w), sout(w), spre(w)
  ensures value: err == nil ==> sout(w) == cat(old(sout(w)), le64(u)) && spos(w) == old(spos(w)) + 8 && 0 <= old(spos(w)) && sdata(w) == over(old(sdata(w)), old(spos(w)), le64(u))
  ensures succeeds: sok(w) ==> err == nil
  ensures hidden: old(quiet(w)) ==> quiet(w)

# ---- the package header (wpk.go)
spec hdrb(h Any) Str = cat(bytes(h.signature), le64(h.fttcount), le64(h.fttoffset), le64(h.fttsize), le64(h.datoffset), le64(h.datsize))
spec hdrof(h Any, B Str, p Int) Bool = bytes(h.signature) == sub(B, p, p + 24) && h.fttcount == le64(B, p + 24) && h.fttoffset == le64(B, p + 32) && h.fttsize == le64(B, p + 40) && h.datoffset == le64(B, p + 48) && h.datsize == le64(B, p + 56)
spec ready(sig Str, datoff Int) Bool = sig == "Whirlwind 3.4 Package   " || sig == "Whirlwind 3.4 Prebuild  " && datoff == 0
contract wpk.Header.Count(hdr)(r)
  ensures value: hdr.fttcount < 9223372036854775808 ==> r == hdr.fttcount
contract wpk.Header.FttSize(hdr)(r)
  ensures value: r == hdr.fttsize
contract wpk.Header.DataSize(hdr)(r)
  ensures value: r == hdr.datsize
contract wpk.Header.IsReady(hdr)(err)
  ensures ready: err == nil <==> ready(bytes(hdr.signature), hdr.datoffset)
  ensures notready: bytes(hdr.signature) == "Whirlwind 3.4 Prebuild  " && hdr.datoffset != 0 ==> err == wpk.ErrSignPre
  ensures foreign: bytes(hdr.signature) != "Whirlwind 3.4 Prebuild  " && bytes(hdr.signature) != "Whirlwind 3.4 Package   " ==> err == wpk.ErrSignBad
contract wpk.Header.Parse(hdr, buf)(n, err)
  modifies all(hdr)
  ensures short: err == nil <==> len(buf) >= 64
  ensures value: err == nil ==> n == 64 && hdrof(hdr, old(bytes(buf)), 0)
contract wpk.Header.ReadFrom(hdr, r)(n, err)
  modifies all(hdr), spos(r)
  ensures value: err == nil ==> n == 64 && spos(r) == old(spos(r)) + 64 && spos(r) <= len(sdata(r)) && hdrof(hdr, sdata(r), old(spos(r)))
  ensures succeeds: sok(r) && 0 <= old(spos(r)) && old(spos(r)) + 64 <= len(sdata(r)) ==> err == nil
contract wpk.Header.WriteTo(hdr, w)(n, err)
  modifies sdata(w), spos(w), sout(w), spre(w)
  ensures count: err == nil ==> n == 64 && spos(w) == old(spos(w)) + 64
  ensures value: err == nil ==> sout(w) == cat(old(sout(w)), old(hdrb(hdr)))
  ensures place: err == nil ==> sdata(w) == over(old(sdata(w)), old(spos(w)), old(hdrb(hdr)))
  flag underlock
  ensures hidden: old(quiet(w)) ==> quiet(w)
  ensures single: spre(w) <==> old(spre(w)) && !accepted(old(sdata(w)))
  ensures partial: 0 <= n && n <= 64 && spos(w) == old(spos(w)) + n && sdata(w) == over(old(sdata(w)), old(spos(w)), sub(old(hdrb(hdr)), 0, n))
  ensures succeeds: sok(w) ==> err == nil
spec hb(s Str, a Int, b Int, c Int, d Int, e Int) Str = cat(s, le64(a), le64(b), le64(c), le64(d), le64(e))
spec is64(a Int) Bool = 0 <= a && a < 18446744073709551616
lemma header_roundtrip(s Str, a Int, b Int, c Int, d Int, e Int)
  requires len(s) == 24 && is64(a) && is64(b) && is64(c) && is64(d) && is64(e)
  ensures size: len(hb(s, a, b, c, d, e)) == 64
  ensures signature: sub(hb(s, a, b, c, d, e), 0, 24) == s
  ensures fields: le64(hb(s, a, b, c, d, e), 24) == a && le64(hb(s, a, b, c, d, e), 32) == b && le64(hb(s, a, b, c, d, e), 40) == c && le64(hb(s, a, b, c, d, e), 48) == d && le64(hb(s, a, b, c, d, e), 56) == e
prop C04
  roots wpk.Header.Count wpk.Header.FttSize wpk.Header.DataSize wpk.Header.IsReady wpk.Header.Parse wpk.Header.ReadFrom wpk.Header.WriteTo util.ReadU64
  lemmas header_roundtrip
