# ---- the tags table (wpk.go): length-prefixed tag sets, the first one for the package, a zero length at the end
rec enc(T Seq_Str, i Int) Str = if i >= len(T) then le16(0) else cat(le16(len(T[i])), T[i], enc(T, i + 1))
spec tabb(I Str, T Seq_Str) Str = cat(le16(len(I)), I, enc(T, 0))
# byte strings of a sequence of slices in a memory
specseq texts(M BH, V Seq_Slice) Seq_Str len len(V) at i = mbytes(M, V[i])
# byte counts are 64-bit: the table is taken to be shorter than 2^62 bytes
spec small(S Str) Bool = len(S) < 4611686018427387904
contract wpk.FTT.WriteTo(ftt, w)(n, err)
  requires free: held(ftt.tsm.mux) == 0
  modifies sdata(w), spos(w), sout(w), spre(w)
  ensures value: err == nil ==> sout(w) == cat(old(sout(w)), tabb(old(bytes(ftt.info)), texts(old(mem), old(vals(ftt.tsm)))))
  ensures count: err == nil && small(tabb(old(bytes(ftt.info)), texts(old(mem), old(vals(ftt.tsm))))) ==> n == len(tabb(old(bytes(ftt.info)), texts(old(mem), old(vals(ftt.tsm))))) && spos(w) == old(spos(w)) + n
  ensures place: err == nil ==> sdata(w) == over(old(sdata(w)), old(spos(w)), tabb(old(bytes(ftt.info)), texts(old(mem), old(vals(ftt.tsm)))))
  ensures fits: err == nil ==> len(ftt.info) <= 65535 && (forall j Int {old(vals(ftt.tsm))[j]} :: 0 <= j && j < len(ftt.tsm.seq) ==> 1 <= len(old(vals(ftt.tsm))[j]) && len(old(vals(ftt.tsm))[j]) <= 65535)
  ensures succeeds: sok(w) && len(ftt.info) <= 65535 && (forall j Int {old(vals(ftt.tsm))[j]} :: 0 <= j && j < len(ftt.tsm.seq) ==> 1 <= len(old(vals(ftt.tsm))[j]) && len(old(vals(ftt.tsm))[j]) <= 65535) ==> err == nil
  ensures hidden: old(quiet(w)) ==> quiet(w)
  flag inlines=util.SeqMap.Range underlock
  inv :: old(quiet(w)) ==> quiet(w)
  inv i Int :: cat(sout(w), enc(texts(old(mem), old(vals(ftt.tsm))), i + 1)) == cat(old(sout(w)), tabb(old(bytes(ftt.info)), texts(old(mem), old(vals(ftt.tsm)))))
  inv i Int, k Int :: small(tabb(old(bytes(ftt.info)), texts(old(mem), old(vals(ftt.tsm))))) ==> k + len(enc(texts(old(mem), old(vals(ftt.tsm))), i + 1)) == len(tabb(old(bytes(ftt.info)), texts(old(mem), old(vals(ftt.tsm)))))
  inv k Int :: small(tabb(old(bytes(ftt.info)), texts(old(mem), old(vals(ftt.tsm))))) ==> spos(w) == old(spos(w)) + k
  inv i Int :: forall j Int {old(vals(ftt.tsm))[j]} :: 0 <= j && j <= i ==> 1 <= len(old(vals(ftt.tsm))[j]) && len(old(vals(ftt.tsm))[j]) <= 65535
  inv i Int :: over(sdata(w), spos(w), enc(texts(old(mem), old(vals(ftt.tsm))), i + 1)) == over(old(sdata(w)), old(spos(w)), tabb(old(bytes(ftt.info)), texts(old(mem), old(vals(ftt.tsm)))))
# ---- reading: what a byte string holds as a table from p on
rec dec(B Str, p Int) Seq_Str = if p + 2 > len(B) || le16(B, p) == 0 || p + 2 + le16(B, p) > len(B) then noseq else cat(unit(sub(B, p + 2, p + 2 + le16(B, p))), dec(B, p + 2 + le16(B, p)))
# where it ends, -1 if it does not
rec tabend(B Str, p Int) Int = if p + 2 > len(B) then (-1) else if le16(B, p) == 0 then p + 2 else if p + 2 + le16(B, p) > len(B) then (-1) else tabend(B, p + 2 + le16(B, p))
spec tagstr(B Str, t Int) Str = content(B, find(B, 0, t))
spec tagu(B Str, t Int) Int = uintval(content(B, find(B, 0, t)))
spec tagok(B Str, t Int) Bool = find(B, 0, t) >= 0 && uintok(content(B, find(B, 0, t)))
spec inside(o Int, n Int, dof Int, dsz Int) Bool = dof <= o && o - dof <= dsz && n <= dsz - (o - dof)
spec entok(B Str, dof Int, dsz Int) Bool = wf(B) && find(B, 0, 3) >= 0 && tagok(B, 1) && tagok(B, 2) && inside(tagu(B, 1), tagu(B, 2), dof, dsz)
contract wpk.TagsetRaw.TagStr(ts, tid)(r, ok)
  requires tid > 0
  ensures found: ok <==> find(bytes(ts), 0, tid) >= 0
  ensures value: r == (if ok then tagstr(bytes(ts), tid) else "")
contract wpk.TagsetRaw.TagUint(ts, tid)(r, ok)
  requires tid > 0
  ensures found: ok <==> tagok(bytes(ts), tid)
  ensures value: r == (if ok then tagu(bytes(ts), tid) else 0)
contract wpk.FTT.CheckTagset(ftt, ts)(fkey, err)
  requires free: held(ftt.tsm.mux) == 0
  requires inv: tabok(ftt.tsm)
  ensures accepts: err == nil <==> entok(bytes(ts), ftt.datoffset, ftt.datsize) && !has(ftt.tsm.idx, slash(tagstr(bytes(ts), 3)))
  ensures name: err == nil ==> fkey == tagstr(bytes(ts), 3)
  inv p Int :: p <= len(ts) ==> stop(bytes(ts), 0) == stop(bytes(ts), p)
lemma texts_app(M BH, V Seq_Slice, x Slice)
  ensures texts(M, cat(V, unit(x))) == cat(texts(M, V), unit(mbytes(M, x)))
  trigger texts(M, cat(V, unit(x)))
# what is in the table now, as bytes
spec body(ftt Any) Seq_Str = texts(mem, vals(ftt.tsm))
spec infolen(B Str) Int = 2 + le16(B, 0)
spec infoof(B Str) Str = sub(B, 2, 2 + le16(B, 0))
spec infook(B Str) Bool = 2 <= len(B) && 2 + le16(B, 0) <= len(B) && wf(infoof(B))
# an entry follows at p
spec more(B Str, p Int) Bool = !(p + 2 > len(B) || le16(B, p) == 0 || p + 2 + le16(B, p) > len(B))
spec entry(B Str, p Int) Str = sub(B, p + 2, p + 2 + le16(B, p))
spec nextp(B Str, p Int) Int = p + 2 + le16(B, p)
spec nameof(E Str) Str = slash(tagstr(E, 3))
# names of the entries, whether every entry is acceptable in place
rec names(B Str, p Int) Seq_Str = if !more(B, p) then noseq else cat(unit(nameof(entry(B, p))), names(B, nextp(B, p)))
rec allok(B Str, p Int, dof Int, dsz Int) Bool = if !more(B, p) then true else entok(entry(B, p), dof, dsz) && allok(B, nextp(B, p), dof, dsz)
# every entry is acceptable in place, under a name not met before, up to the end marker
rec accept(B Str, p Int, dof Int, dsz Int, D Map[Str,Bool]) Bool = if !more(B, p) then tabend(B, p) >= 0 else entok(entry(B, p), dof, dsz) && !D[nameof(entry(B, p))] && accept(B, nextp(B, p), dof, dsz, store(D, nameof(entry(B, p)), true))
contract wpk.FTT.Parse(ftt, buf)(n, err)
  requires free: held(ftt.tsm.mux) == 0
  requires inv: tabok(ftt.tsm)
  modifies ftt.info, ftt.tsm.seq, rows(ftt.tsm.seq), spare(ftt.tsm.seq), map(ftt.tsm.idx)
  ensures inv: tabok(ftt.tsm)
  ensures info: err == nil ==> bytes(ftt.info) == infoof(bytes(buf)) && infook(bytes(buf))
  ensures count: err == nil ==> n == tabend(bytes(buf), infolen(bytes(buf))) && n >= 0 && n <= len(buf)
  ensures value: err == nil ==> body(ftt) == cat(old(body(ftt)), dec(bytes(buf), infolen(bytes(buf))))
  ensures names: err == nil ==> keys(ftt.tsm) == cat(old(keys(ftt.tsm)), names(bytes(buf), infolen(bytes(buf))))
  ensures accepts: err == nil <==> infook(bytes(buf)) && accept(bytes(buf), infolen(bytes(buf)), ftt.datoffset, ftt.datsize, old(dom(ftt.tsm.idx)))
  inv n Int :: accept(bytes(buf), n, ftt.datoffset, ftt.datsize, dom(ftt.tsm.idx)) == accept(bytes(buf), infolen(bytes(buf)), ftt.datoffset, ftt.datsize, old(dom(ftt.tsm.idx)))
  flag hide=entok,find,tagstr,slash depth=1
  ensures good: err == nil ==> allok(bytes(buf), infolen(bytes(buf)), ftt.datoffset, ftt.datsize)
  inv p Int :: p <= le16(bytes(buf), 0) ==> stop(infoof(bytes(buf)), 0) == stop(infoof(bytes(buf)), p)
  inv n Int :: cat(body(ftt), dec(bytes(buf), n)) == cat(old(body(ftt)), dec(bytes(buf), infolen(bytes(buf))))
  inv n Int :: cat(keys(ftt.tsm), names(bytes(buf), n)) == cat(old(keys(ftt.tsm)), names(bytes(buf), infolen(bytes(buf))))
  inv n Int :: tabend(bytes(buf), n) == tabend(bytes(buf), infolen(bytes(buf)))
  inv n Int :: allok(bytes(buf), n, ftt.datoffset, ftt.datsize) == allok(bytes(buf), infolen(bytes(buf)), ftt.datoffset, ftt.datsize)
  inv :: bytes(ftt.info) == infoof(bytes(buf)) && infook(bytes(buf))
  inv :: tabok(ftt.tsm)
  inv :: held(ftt.tsm.mux) == 0
  inv :: ftt.tsm.idx == old(ftt.tsm.idx) && (ref(ftt.tsm.seq) == old(ref(ftt.tsm.seq)) && off(ftt.tsm.seq) == old(off(ftt.tsm.seq)) && cap(ftt.tsm.seq) == old(cap(ftt.tsm.seq)) || fresh(ftt.tsm.seq))
  inv :: len(ftt.tsm.seq) >= old(len(ftt.tsm.seq))
# what was written is what is read
lemma enc_step(P Str, T Seq_Str, i Int)
  requires 0 <= i && i < len(T) && 1 <= len(T[i]) && len(T[i]) <= 65535
  ensures same: cat(P, enc(T, i)) == cat(P, le16(len(T[i])), T[i], enc(T, i + 1))
  ensures length: le16(cat(P, enc(T, i)), len(P)) == len(T[i])
  ensures entry: sub(cat(P, enc(T, i)), len(P) + 2, len(P) + 2 + len(T[i])) == T[i]
  depth 1
lemma enc_end(P Str, T Seq_Str, i Int)
  requires i >= len(T)
  ensures len(cat(P, enc(T, i))) == len(P) + 2 && le16(cat(P, enc(T, i)), len(P)) == 0
  depth 1
lemma table_back(P Str, T Seq_Str, i Int)
  requires 0 <= i && i <= len(T)
  requires forall j Int {T[j]} :: i <= j && j < len(T) ==> 1 <= len(T[j]) && len(T[j]) <= 65535
  ensures entries: dec(cat(P, enc(T, i)), len(P)) == sub(T, i, len(T))
  ensures end: tabend(cat(P, enc(T, i)), len(P)) == len(cat(P, enc(T, i)))
  induct len(T) - i
  use enc_step(P, T, i)
  use enc_end(P, T, i)
  use table_back(cat(P, le16(len(T[i])), T[i]), T, i + 1)
  depth 1
lemma accept_back(P Str, T Seq_Str, i Int, dof Int, dsz Int, D Map[Str,Bool])
  requires 0 <= i && i <= len(T)
  requires forall j Int {T[j]} :: i <= j && j < len(T) ==> 1 <= len(T[j]) && len(T[j]) <= 65535 && entok(T[j], dof, dsz) && !D[nameof(T[j])]
  requires forall j Int, k Int {T[j], T[k]} :: i <= j && j < k && k < len(T) ==> nameof(T[j]) != nameof(T[k])
  ensures accept(cat(P, enc(T, i)), len(P), dof, dsz, D)
  induct len(T) - i
  use enc_step(P, T, i)
  use enc_end(P, T, i)
  use table_back(P, T, i)
  use accept_back(cat(P, le16(len(T[i])), T[i]), T, i + 1, dof, dsz, store(D, nameof(T[i]), true))
  hide entok find tagstr slash
  depth 1
lemma info_back(I Str, T Seq_Str)
  requires len(I) <= 65535
  ensures infolen(tabb(I, T)) == 2 + len(I) && infoof(tabb(I, T)) == I
  ensures sub(tabb(I, T), 2 + len(I), len(tabb(I, T))) == enc(T, 0)
# names of an accepted table are distinct, its entries good
lemma table_roundtrip(I Str, T Seq_Str, dof Int, dsz Int, D Map[Str,Bool])
  requires wf(I) && len(I) <= 65535
  requires forall j Int {T[j]} :: 0 <= j && j < len(T) ==> 1 <= len(T[j]) && len(T[j]) <= 65535 && entok(T[j], dof, dsz) && !D[nameof(T[j])]
  requires forall j Int, k Int {T[j], T[k]} :: 0 <= j && j < k && k < len(T) ==> nameof(T[j]) != nameof(T[k])
  ensures info: infook(tabb(I, T)) && infoof(tabb(I, T)) == I
  ensures accepted: accept(tabb(I, T), infolen(tabb(I, T)), dof, dsz, D)
  ensures entries: dec(tabb(I, T), infolen(tabb(I, T))) == T
  ensures count: tabend(tabb(I, T), infolen(tabb(I, T))) == len(tabb(I, T))
  use info_back(I, T)
  use table_back(cat(le16(len(I)), I), T, 0)
  use accept_back(cat(le16(len(I)), I), T, 0, dof, dsz, D)
  hide entok find tagstr slash stop
  depth 1
lemma texts_frame(M BH, r Int, X Arr[Int], V Seq_Slice)
  requires forall j Int {V[j]} :: 0 <= j && j < len(V) ==> ref(V[j]) != r
  ensures texts(store(M, r, X), V) == texts(M, V)
  trigger texts(store(M, r, X), V)
spec infoend(B Str, p Int) Int = p + 2 + le16(B, p)
spec infoat(B Str, p Int) Str = sub(B, p + 2, p + 2 + le16(B, p))
spec infookat(B Str, p Int) Bool = p + 2 <= len(B) && p + 2 + le16(B, p) <= len(B) && wf(infoat(B, p))
contract wpk.FTT.ReadFrom(ftt, r)(n, err)
  requires free: held(ftt.tsm.mux) == 0
  requires inv: tabok(ftt.tsm)
  modifies spos(r), ftt.info, ftt.tsm.seq, rows(ftt.tsm.seq), spare(ftt.tsm.seq), map(ftt.tsm.idx)
  ensures inv: tabok(ftt.tsm)
  ensures info: err == nil ==> bytes(ftt.info) == infoat(sdata(r), old(spos(r))) && infookat(sdata(r), old(spos(r)))
  ensures count: err == nil && small(sdata(r)) ==> old(spos(r)) + n == tabend(sdata(r), infoend(sdata(r), old(spos(r)))) && n >= 0 && spos(r) == old(spos(r)) + n
  ensures value: err == nil ==> body(ftt) == cat(old(body(ftt)), dec(sdata(r), infoend(sdata(r), old(spos(r)))))
  ensures names: err == nil ==> keys(ftt.tsm) == cat(old(keys(ftt.tsm)), names(sdata(r), infoend(sdata(r), old(spos(r)))))
  ensures good: err == nil ==> allok(sdata(r), infoend(sdata(r), old(spos(r))), ftt.datoffset, ftt.datsize)
  ensures accepts: err == nil ==> accept(sdata(r), infoend(sdata(r), old(spos(r))), ftt.datoffset, ftt.datsize, old(dom(ftt.tsm.idx)))
  ensures succeeds: sok(r) && old(spos(r)) >= 0 && infookat(sdata(r), old(spos(r))) && accept(sdata(r), infoend(sdata(r), old(spos(r))), ftt.datoffset, ftt.datsize, old(dom(ftt.tsm.idx))) ==> err == nil
  flag hide=entok,find,tagstr,slash depth=1
  inv p Int :: p <= le16(sdata(r), old(spos(r))) ==> stop(infoat(sdata(r), old(spos(r))), 0) == stop(infoat(sdata(r), old(spos(r))), p)
  inv n Int :: small(sdata(r)) ==> spos(r) == old(spos(r)) + n
  inv :: 0 <= old(spos(r)) && old(spos(r)) <= spos(r) && spos(r) <= len(sdata(r))
  inv n Int :: cat(body(ftt), dec(sdata(r), spos(r))) == cat(old(body(ftt)), dec(sdata(r), infoend(sdata(r), old(spos(r)))))
  inv :: cat(keys(ftt.tsm), names(sdata(r), spos(r))) == cat(old(keys(ftt.tsm)), names(sdata(r), infoend(sdata(r), old(spos(r)))))
  inv :: tabend(sdata(r), spos(r)) == tabend(sdata(r), infoend(sdata(r), old(spos(r))))
  inv :: allok(sdata(r), spos(r), ftt.datoffset, ftt.datsize) == allok(sdata(r), infoend(sdata(r), old(spos(r))), ftt.datoffset, ftt.datsize)
  inv :: accept(sdata(r), spos(r), ftt.datoffset, ftt.datsize, dom(ftt.tsm.idx)) == accept(sdata(r), infoend(sdata(r), old(spos(r))), ftt.datoffset, ftt.datsize, old(dom(ftt.tsm.idx)))
  inv :: bytes(ftt.info) == infoat(sdata(r), old(spos(r))) && infookat(sdata(r), old(spos(r)))
  inv :: ref(ftt.info) <= top
  inv :: tabok(ftt.tsm)
  inv :: held(ftt.tsm.mux) == 0
  inv :: ftt.tsm.idx == old(ftt.tsm.idx) && (ref(ftt.tsm.seq) == old(ref(ftt.tsm.seq)) && off(ftt.tsm.seq) == old(off(ftt.tsm.seq)) && cap(ftt.tsm.seq) == old(cap(ftt.tsm.seq)) || fresh(ftt.tsm.seq))
  inv :: len(ftt.tsm.seq) >= old(len(ftt.tsm.seq))
  inv :: forall j Int {vals(ftt.tsm)[j]} :: 0 <= j && j < len(ftt.tsm.seq) ==> ref(vals(ftt.tsm)[j]) <= top
# ---- opening
uninterp nodom(k Int) Map[Str,Bool]
axiom nodom_def(k Int, x Str)
  ensures !nodom(k)[x]
  trigger nodom(k)[x]
spec table(S Str) Str = sub(S, le64(S, 32), le64(S, 32) + le64(S, 40))
spec placed(S Str) Bool = 64 <= len(S) && ready(sub(S, 0, 24), le64(S, 48)) && le64(S, 32) <= len(S) && le64(S, 40) <= len(S) - le64(S, 32) && le64(S, 24) <= le64(S, 40)
contract wpk.FTT.OpenStream(ftt, r)(err)
  requires free: held(ftt.tsm.mux) == 0
  requires bound: len(sdata(r)) < 9223372036854775808
  modifies spos(r), ftt.info, ftt.tsm.seq, ftt.tsm.idx, ftt.datoffset, ftt.datsize
  ensures header: err == nil ==> placed(sdata(r)) && ftt.datoffset == le64(sdata(r), 48) && ftt.datsize == le64(sdata(r), 56)
  ensures inv: err == nil ==> tabok(ftt.tsm)
  ensures empty: err == nil && le64(sdata(r), 40) == 0 ==> len(ftt.tsm.seq) == 0 && len(ftt.info) == 0
  ensures info: err == nil && le64(sdata(r), 40) > 0 ==> infook(table(sdata(r))) && bytes(ftt.info) == infoof(table(sdata(r)))
  ensures whole: err == nil && le64(sdata(r), 40) > 0 ==> tabend(table(sdata(r)), infolen(table(sdata(r)))) == le64(sdata(r), 40)
  ensures value: err == nil && le64(sdata(r), 40) > 0 ==> body(ftt) == dec(table(sdata(r)), infolen(table(sdata(r)))) && keys(ftt.tsm) == names(table(sdata(r)), infolen(table(sdata(r))))
  ensures good: err == nil && le64(sdata(r), 40) > 0 ==> allok(table(sdata(r)), infolen(table(sdata(r))), ftt.datoffset, ftt.datsize)
  ensures succeeds: sok(r) && placed(sdata(r)) && (le64(sdata(r), 40) > 0 ==> infook(table(sdata(r))) && accept(table(sdata(r)), infolen(table(sdata(r))), le64(sdata(r), 48), le64(sdata(r), 56), nodom(0))
    && tabend(table(sdata(r)), infolen(table(sdata(r)))) == le64(sdata(r), 40)) ==> err == nil
  alloc len(sdata(r))
  flag hide=entok,find,tagstr,slash,stop,dec,tabend,names,allok,accept depth=1
# names in an open table are different
lemma names_differ(K Seq_Str, D Map[Str,Bool], I Map[Str,Int], j Int, k Int)
  requires 0 <= j && j < k && k < len(K)
  requires forall i Int {K[i]} :: 0 <= i && i < len(K) ==> D[K[i]] && I[K[i]] == i
  ensures K[j] != K[k]
contract wpk.GetPackageInfo(r)(hdr, ts, err)
  modifies spos(r)
  ensures header: err == nil ==> 64 <= len(sdata(r)) && hdrof(hdr, sdata(r), 0) && ready(sub(sdata(r), 0, 24), le64(sdata(r), 48))
  ensures empty: err == nil && le64(sdata(r), 40) == 0 ==> len(ts) == 0
  ensures info: err == nil && le64(sdata(r), 40) > 0 && le64(sdata(r), 32) < 9223372036854775808 ==> infookat(sdata(r), le64(sdata(r), 32)) && bytes(ts) == infoat(sdata(r), le64(sdata(r), 32))
  ensures succeeds: sok(r) && 64 <= len(sdata(r)) && ready(sub(sdata(r), 0, 24), le64(sdata(r), 48)) && le64(sdata(r), 32) < 9223372036854775808
    && (le64(sdata(r), 40) > 0 ==> infookat(sdata(r), le64(sdata(r), 32))) ==> err == nil
  inv p Int :: p <= le16(sdata(r), le64(sdata(r), 32)) ==> stop(infoat(sdata(r), le64(sdata(r), 32)), 0) == stop(infoat(sdata(r), le64(sdata(r), 32)), p)
  alloc 65535
prop C05
  roots wpk.FTT.WriteTo wpk.FTT.Parse wpk.FTT.ReadFrom
  lemmas table_roundtrip
prop C06
  roots wpk.FTT.OpenStream wpk.FTT.CheckTagset wpk.FTT.Parse wpk.FTT.ReadFrom wpk.GetPackageInfo
  lemmas names_differ
