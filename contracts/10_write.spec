# ---- beginning, reopening and finishing a package
# SIGN: 24 bytes each
spec signready() Str = "Whirlwind 3.4 Package   "
spec signbuild() Str = "Whirlwind 3.4 Prebuild  "
spec split(wpt Iface, wpf Iface) Bool = wpf != nil && wpf != wpt
contract wpk.FTT.Begin(ftt, wpt, wpf)(err)
  requires free: held(ftt.tsm.mux) == 0 && held(ftt.mux) == 0
  requires streams: split(wpt, wpf) ==> ival(wpt) != ival(wpf)
  modifies sdata(wpt), spos(wpt), sout(wpt), spre(wpt), ftt.tsm.seq, ftt.tsm.idx, ftt.datoffset, ftt.datsize
  ensures header: err == nil ==> sdata(wpt) == over(old(sdata(wpt)), 0, hb(signbuild(), 0, if split(wpt, wpf) then 0 else 64, 0, if split(wpt, wpf) then 0 else 64, 0)) && spos(wpt) == 64
  ensures empty: err == nil ==> len(ftt.tsm.seq) == 0 && tabok(ftt.tsm) && ftt.datsize == 0 && ftt.datoffset == (if split(wpt, wpf) then 0 else 64)
  ensures hidden: err == nil && !split(wpt, wpf) && old(spre(wpt)) && !accepted(old(sdata(wpt))) ==> quiet(wpt)
  ensures succeeds: sok(wpt) ==> err == nil
contract wpk.FTT.Append(ftt, wpt, wpf)(err)
  requires free: held(ftt.tsm.mux) == 0 && held(ftt.mux) == 0
  requires streams: split(wpt, wpf) ==> ival(wpt) != ival(wpf)
  requires bound: ftt.datoffset + ftt.datsize < 9223372036854775808
  modifies sdata(wpt), spos(wpt), sout(wpt), spre(wpt), spos(wpf)
  ensures signature: err == nil ==> sdata(wpt) == over(old(sdata(wpt)), 0, signbuild())
  ensures hidden: old(accepted(sdata(wpt))) && old(le64(sdata(wpt), 48)) != 0 && err == nil ==> sout(wpt) == cat(old(sout(wpt)), signbuild()) && !accepted(sdata(wpt)) && 64 <= len(sdata(wpt))
  ensures place: err == nil ==> (if split(wpt, wpf) then spos(wpf) else spos(wpt)) == ftt.datoffset + ftt.datsize
  ensures succeeds: sok(wpt) && (split(wpt, wpf) ==> sok(wpf)) ==> err == nil
spec tabnow(ftt Any) Str = tabb(bytes(ftt.info), body(ftt))
contract wpk.FTT.Sync(ftt, wpt, wpf)(err)
  requires free: held(ftt.tsm.mux) == 0 && held(ftt.mux) == 0
  requires streams: split(wpt, wpf) ==> ival(wpt) != ival(wpf)
  modifies sdata(wpt), spos(wpt), sout(wpt), spre(wpt), spos(wpf), ftt.datoffset, ftt.datsize
  ensures single: err == nil && !split(wpt, wpf) && old(spos(wpt)) >= 64 && small(old(tabnow(ftt)))
    ==> sdata(wpt) == over(over(old(sdata(wpt)), old(spos(wpt)), old(tabnow(ftt))), 0, hb(signready(), len(ftt.tsm.seq), old(spos(wpt)), len(old(tabnow(ftt))), 64, (old(spos(wpt)) - 64) % 18446744073709551616))
  ensures split: err == nil && split(wpt, wpf) && small(old(tabnow(ftt)))
    ==> sdata(wpt) == over(over(old(sdata(wpt)), 64, old(tabnow(ftt))), 0, hb(signready(), len(ftt.tsm.seq), 64, len(old(tabnow(ftt))), 0, old(spos(wpf)))) && spos(wpf) == old(spos(wpf))
  ensures hidden: old(quiet(wpt)) && !split(wpt, wpf) ==> spre(wpt) && (err != nil ==> !accepted(sdata(wpt)) || spos(wpt) <= 64)
  ensures counters: err == nil && !split(wpt, wpf) && old(spos(wpt)) >= 64 ==> ftt.datoffset == 64 && ftt.datsize == old(spos(wpt)) - 64
  ensures counters2: err == nil && split(wpt, wpf) ==> ftt.datoffset == 0 && ftt.datsize == old(spos(wpf))
  ensures fits: err == nil ==> len(ftt.info) <= 65535 && (forall j Int {vals(ftt.tsm)[j]} :: 0 <= j && j < len(ftt.tsm.seq) ==> 1 <= len(vals(ftt.tsm)[j]) && len(vals(ftt.tsm)[j]) <= 65535)
# ---- what Sync leaves is what opening accepts
spec finished(D Str, p Int, I Str, T Seq_Str, dof Int, dsz Int) Str = over(over(D, p, tabb(I, T)), 0, hb(signready(), len(T), p, len(tabb(I, T)), dof, dsz))
lemma enc_len(T Seq_Str, i Int)
  requires 0 <= i && i <= len(T)
  ensures len(enc(T, i)) >= 2 + len(T) - i
  induct len(T) - i
  use enc_len(T, i + 1)
  depth 1
lemma over_head(D Str, H Str)
  requires len(H) == 64
  ensures sub(over(D, 0, H), 0, 64) == H
lemma over_keeps(D Str, p Int, X Str, o Int, n Int)
  requires 0 <= o && 0 <= n && 0 <= p && (o + n <= p || p + len(X) <= o) && o + n <= len(D)
  ensures sub(over(D, p, X), o, o + n) == sub(D, o, o + n) && len(over(D, p, X)) >= len(D)
lemma over_own(D Str, p Int, X Str)
  requires 0 <= p && p <= len(D)
  ensures sub(over(D, p, X), p, p + len(X)) == X
lemma le64_head(S Str, H Str, k Int)
  requires 0 <= k && k <= 56 && 64 <= len(S) && H == sub(S, 0, 64)
  ensures le64(S, k) == le64(H, k)
lemma le64_cong(A Str, B Str, k Int)
  requires A == B
  ensures le64(A, k) == le64(B, k)
lemma head_of(H Str, s Str, a Int, b Int, c Int, d Int, e Int)
  requires len(s) == 24 && is64(a) && is64(b) && is64(c) && is64(d) && is64(e) && H == hb(s, a, b, c, d, e)
  ensures sub(H, 0, 24) == s
  ensures le64(H, 24) == a
  ensures le64(H, 32) == b
  ensures le64(H, 40) == c
  ensures le64(H, 48) == d
  ensures le64(H, 56) == e
  use header_roundtrip(s, a, b, c, d, e)
  use le64_cong(H, hb(s, a, b, c, d, e), 24)
  use le64_cong(H, hb(s, a, b, c, d, e), 32)
  use le64_cong(H, hb(s, a, b, c, d, e), 40)
  use le64_cong(H, hb(s, a, b, c, d, e), 48)
  use le64_cong(H, hb(s, a, b, c, d, e), 56)
lemma head_fields(S Str, H Str, s Str, a Int, b Int, c Int, d Int, e Int)
  requires len(s) == 24 && is64(a) && is64(b) && is64(c) && is64(d) && is64(e) && 64 <= len(S) && H == sub(S, 0, 64) && H == hb(s, a, b, c, d, e)
  ensures sub(S, 0, 24) == s
  ensures le64(S, 24) == a
  ensures le64(S, 32) == b
  ensures le64(S, 40) == c
  ensures le64(S, 48) == d
  ensures le64(S, 56) == e
  use head_of(H, s, a, b, c, d, e)
  use le64_head(S, H, 24)
  use le64_head(S, H, 32)
  use le64_head(S, H, 40)
  use le64_head(S, H, 48)
  use le64_head(S, H, 56)
# the header of a finished package tells where the table and the data are, the table is the one written
lemma finish_places(D Str, p Int, B Str, n Int, dof Int, dsz Int, S Str, H Str)
  requires 64 <= p && p <= len(D) && p + len(B) < 9223372036854775808 && is64(n) && is64(dof) && is64(dsz) && n <= len(B)
  requires H == hb(signready(), n, p, len(B), dof, dsz)
  requires S == over(over(D, p, B), 0, H)
  ensures header: le64(S, 24) == n && le64(S, 32) == p && le64(S, 40) == len(B) && le64(S, 48) == dof && le64(S, 56) == dsz
  ensures ready: placed(S) && accepted(S)
  ensures table: sub(S, p, p + len(B)) == B
  ensures length: len(S) == len(over(D, p, B))
  use over_own(D, p, B)
  use over_head(over(D, p, B), H)
  use over_keeps(over(D, p, B), 0, H, p, len(B))
  use head_fields(S, H, signready(), n, p, len(B), dof, dsz)
  hide le64
# the files stored before the table are left as they are
lemma finish_keeps(D Str, p Int, B Str, H Str, o Int, n Int)
  requires 64 <= o && 0 <= n && o + n <= p && p <= len(D) && len(H) == 64
  ensures sub(over(over(D, p, B), 0, H), o, o + n) == sub(D, o, o + n)
  use over_keeps(D, p, B, o, n)
  use over_keeps(over(D, p, B), 0, H, o, n)
specseq namesof(T Seq_Str) Seq_Str len len(T) at i = nameof(T[i])
lemma names_back(P Str, T Seq_Str, i Int)
  requires 0 <= i && i <= len(T)
  requires forall j Int {T[j]} :: i <= j && j < len(T) ==> 1 <= len(T[j]) && len(T[j]) <= 65535
  ensures names(cat(P, enc(T, i)), len(P)) == sub(namesof(T), i, len(T))
  induct len(T) - i
  use enc_step(P, T, i)
  use enc_end(P, T, i)
  use names_back(cat(P, le16(len(T[i])), T[i]), T, i + 1)
  hide find slash
  depth 1
# one file packed: its extent holds its bytes, its entry tells the extent and the name
lemma three_tags(X Str, A Str, B Str, C Str)
  requires len(A) < 65536 && len(B) < 65536 && len(C) < 65536 && X == cat(item(1, A), item(2, B), item(3, C))
  ensures heads: le16(X, 0) == 1 && le16(X, 2) == len(A) && le16(X, 4 + len(A)) == 2 && le16(X, 6 + len(A)) == len(B) && le16(X, 8 + len(A) + len(B)) == 3 && le16(X, 10 + len(A) + len(B)) == len(C)
  ensures first: sub(X, 4, 4 + len(A)) == A
  ensures second: sub(X, 8 + len(A), 8 + len(A) + len(B)) == B
  ensures third: sub(X, 12 + len(A) + len(B), 12 + len(A) + len(B) + len(C)) == C
lemma three_found(X Str, A Str, B Str, C Str)
  requires len(A) < 65536 && len(B) < 65536 && len(C) < 65536 && X == cat(item(1, A), item(2, B), item(3, C))
  ensures wf: wf(X)
  ensures find: find(X, 0, 1) == 0 && find(X, 0, 2) == 4 + len(A) && find(X, 0, 3) == 8 + len(A) + len(B)
  ensures content: tagstr(X, 1) == A && tagstr(X, 2) == B && tagstr(X, 3) == C
  use three_tags(X, A, B, C)
  depth 5
lemma uint_case1(v Int, X Str)
  requires 0 <= v && v <= 255 && X == unit(v % 256)
  ensures uintok(X) && uintval(X) == v && len(X) <= 8
lemma uint_case2(v Int, X Str)
  requires 256 <= v && v <= 65535 && X == le16(v % 65536)
  ensures uintok(X) && uintval(X) == v && len(X) <= 8
lemma uint_case4(v Int, X Str)
  requires 65536 <= v && v <= 4294967295 && X == le32(v % 4294967296)
  ensures uintok(X) && uintval(X) == v && len(X) <= 8
lemma uint_case8(v Int, X Str)
  requires 4294967296 <= v && v <= 18446744073709551615 && X == le64(v)
  ensures uintok(X) && uintval(X) == v && len(X) <= 8
  use rt_fixed(v, 0, 0)
  use le64_cong(X, le64(v), 0)
lemma uint_back(v Int, X Str)
  requires is64(v) && X == uintenc(v, uintlen(v))
  ensures uintok(X) && uintval(X) == v && len(X) <= 8
  use uint_case1(v, X)
  use uint_case2(v, X)
  use uint_case4(v, X)
  use uint_case8(v, X)
lemma three_uint(X Str, A Str, B Str, C Str)
  requires len(A) < 65536 && len(B) < 65536 && len(C) < 65536 && X == cat(item(1, A), item(2, B), item(3, C)) && uintok(A) && uintok(B)
  ensures tagok(X, 1) && tagu(X, 1) == uintval(A)
  ensures tagok(X, 2) && tagu(X, 2) == uintval(B)
  use three_found(X, A, B, C)
  hide find
lemma packed_entry(o Int, n Int, k Str)
  requires is64(o) && is64(n) && len(k) <= 65535
  ensures wf: wf(item3(o, n, k))
  ensures offset: tagok(item3(o, n, k), 1) && tagu(item3(o, n, k), 1) == o
  ensures size: tagok(item3(o, n, k), 2) && tagu(item3(o, n, k), 2) == n
  ensures name: find(item3(o, n, k), 0, 3) >= 0 && tagstr(item3(o, n, k), 3) == k
  use uint_back(o, uintenc(o, uintlen(o)))
  use uint_back(n, uintenc(n, uintlen(n)))
  use three_found(item3(o, n, k), uintenc(o, uintlen(o)), uintenc(n, uintlen(n)), k)
  use three_uint(item3(o, n, k), uintenc(o, uintlen(o)), uintenc(n, uintlen(n)), k)
  hide find stop
lemma tab_cong(A Str, B Str, dof Int, dsz Int, D Map[Str,Bool])
  requires A == B
  ensures (infook(A) <==> infook(B)) && infoof(A) == infoof(B) && infolen(A) == infolen(B)
  ensures accept(A, infolen(A), dof, dsz, D) <==> accept(B, infolen(B), dof, dsz, D)
  hide accept stop
# an entry of a packed file with its times keeps the extent and the name
lemma timed_entry(o Int, n Int, k Str, t Iface)
  requires is64(o) && is64(n) && len(k) <= 65535
  ensures wf: wf(withb(withc(base(item3(o, n, k), t), t), t))
  ensures offset: find(withb(withc(base(item3(o, n, k), t), t), t), 0, 1) >= 0 && tagstr(withb(withc(base(item3(o, n, k), t), t), t), 1) == tagstr(item3(o, n, k), 1)
  ensures size: find(withb(withc(base(item3(o, n, k), t), t), t), 0, 2) >= 0 && tagstr(withb(withc(base(item3(o, n, k), t), t), t), 2) == tagstr(item3(o, n, k), 2)
  ensures name: find(withb(withc(base(item3(o, n, k), t), t), t), 0, 3) >= 0 && tagstr(withb(withc(base(item3(o, n, k), t), t), t), 3) == k
  use packed_entry(o, n, k)
  use put_other(item3(o, n, k), 5, time12(msec(t), mns(t)), 1)
  use put_other(item3(o, n, k), 5, time12(msec(t), mns(t)), 2)
  use put_other(item3(o, n, k), 5, time12(msec(t), mns(t)), 3)
  use put_other(puttag(item3(o, n, k), 5, time12(msec(t), mns(t))), 6, time12(asec(t), ans(t)), 1)
  use put_other(puttag(item3(o, n, k), 5, time12(msec(t), mns(t))), 6, time12(asec(t), ans(t)), 2)
  use put_other(puttag(item3(o, n, k), 5, time12(msec(t), mns(t))), 6, time12(asec(t), ans(t)), 3)
  use put_other(base(item3(o, n, k), t), 7, time12(csec(t), cns(t)), 1)
  use put_other(base(item3(o, n, k), t), 7, time12(csec(t), cns(t)), 2)
  use put_other(base(item3(o, n, k), t), 7, time12(csec(t), cns(t)), 3)
  use put_other(withc(base(item3(o, n, k), t), t), 8, time12(bsec(t), bns(t)), 1)
  use put_other(withc(base(item3(o, n, k), t), t), 8, time12(bsec(t), bns(t)), 2)
  use put_other(withc(base(item3(o, n, k), t), t), 8, time12(bsec(t), bns(t)), 3)
  hide puttag find stop tagstr item3
# the whole table comes back: entries, names and package information
lemma reopens(D Str, p Int, I Str, T Seq_Str, dof Int, dsz Int, S Str, H Str)
  requires 64 <= p && p <= len(D) && p + len(tabb(I, T)) < 9223372036854775808 && is64(dof) && is64(dsz)
  requires H == hb(signready(), len(T), p, len(tabb(I, T)), dof, dsz)
  requires S == over(over(D, p, tabb(I, T)), 0, H)
  requires wf(I) && len(I) <= 65535
  requires forall j Int {T[j]} :: 0 <= j && j < len(T) ==> 1 <= len(T[j]) && len(T[j]) <= 65535 && entok(T[j], dof, dsz)
  requires forall j Int, k Int {T[j], T[k]} :: 0 <= j && j < k && k < len(T) ==> nameof(T[j]) != nameof(T[k])
  ensures placed: placed(S) && le64(S, 24) == len(T) && le64(S, 48) == dof && le64(S, 56) == dsz && le64(S, 40) > 0
  ensures table: table(S) == tabb(I, T)
  ensures info: infook(table(S)) && infoof(table(S)) == I
  ensures accepted: accept(table(S), infolen(table(S)), le64(S, 48), le64(S, 56), nodom(0))
  ensures entries: dec(table(S), infolen(table(S))) == T
  ensures names: names(table(S), infolen(table(S))) == namesof(T)
  ensures whole: tabend(table(S), infolen(table(S))) == le64(S, 40)
  use enc_len(T, 0)
  use finish_places(D, p, tabb(I, T), len(T), dof, dsz, S, H)
  use info_back(I, T)
  use names_back(cat(le16(len(I)), I), T, 0)
  use table_roundtrip(I, T, dof, dsz, nodom(0))
  use tab_cong(table(S), tabb(I, T), dof, dsz, nodom(0))
  hide le64 entok find tagstr slash stop accept dec names tabend
  depth 0
prop C10
  roots wpk.FTT.Begin wpk.FTT.Append wpk.FTT.Sync
  lemmas finish_keeps packed_entry timed_entry reopens
# ---- a split package reopened for appending still opens with what it held: only the signature changes, to the one that is ready with separate data
lemma split_header(S Str, X Str)
  requires 64 <= len(S) && len(X) == 24
  ensures signature: sub(over(S, 0, X), 0, 24) == X
  ensures fields: le64(over(S, 0, X), 24) == le64(S, 24) && le64(over(S, 0, X), 32) == le64(S, 32) && le64(over(S, 0, X), 40) == le64(S, 40) && le64(over(S, 0, X), 48) == le64(S, 48) && le64(over(S, 0, X), 56) == le64(S, 56)
  ensures length: len(over(S, 0, X)) == len(S)
lemma split_keeps(S Str, X Str)
  requires placed(S) && le64(S, 48) == 0 && 64 <= le64(S, 32) && X == signbuild()
  ensures opens: placed(over(S, 0, X)) && accepted(over(S, 0, X))
  ensures table: table(over(S, 0, X)) == table(S)
  use split_header(S, X)
  use over_keeps(S, 0, X, le64(S, 32), le64(S, 40))
  hide le64
prop C11
  roots wpk.FTT.Begin wpk.FTT.Append wpk.FTT.Sync wpk.Package.PackData wpk.Package.PackFile wpk.Header.IsReady
  lemmas split_keeps over_keeps
