# ---- unpacking stays inside the destination
# walking the components of p from i on, d levels deep: never above the start
rec seglen(p Str, i Int) Int = if i >= len(p) || p[i] == 47 then 0 else seglen(p, i + 1) + 1
rec stays(p Str, i Int, d Int) Bool = if i >= len(p) then true
  else if seglen(p, i) == 2 && p[i] == 46 && p[i + 1] == 46 then (if d <= 0 then false else stays(p, i + 3, d - 1))
  else if seglen(p, i) == 0 || seglen(p, i) == 1 && p[i] == 46 then stays(p, i + seglen(p, i) + 1, d)
  else stays(p, i + seglen(p, i) + 1, d + 1)
rec local(k Str) Bool = len(k) > 0 && k[0] != 47 && stays(k, 0, 0)
extern filepath.IsLocal(p)(r)
  ensures r <==> local(p)
extern filepath.FromSlash(p)(r)
  ensures r == p
# p is a path of something inside d: d, a separator, a path that does not leave it
rec within(d Str, p Str) Bool = d != "" && (d == "." && local(p) || p == d || prefixed(p, d) && (d[len(d) - 1] == 47 && local(sub(p, len(d), len(p))) || d[len(d) - 1] != 47 && len(p) > len(d) && p[len(d)] == 47 && local(sub(p, len(d) + 1, len(p)))))
uninterp dirname(p Str) Str
extern path.Dir(p)(r)
  ensures r == dirname(p)
# directories made are those of paths inside
uninterp dirinside(d Str, p Str) Bool
axiom dirinside_def(d Str, p Str)
  ensures within(d, p) ==> dirinside(d, dirname(p))
  trigger dirinside(d, dirname(p))
extern os.MkdirAll(p, perm)(err)
  requires inside: dirinside(extract.DstPath, p)
extern os.OpenFile(name, flag, perm)(f, err)
  requires inside: within(extract.DstPath, name)
  ensures err == nil ==> f != nil && fresh(f)
uninterp extof(s Str) Str
extern path.Ext(p)(r)
  ensures r == extof(p)
  ensures len(r) <= len(p)
lemma local_cong(a Str, k Str)
  requires a == k && local(k)
  ensures local(a)
lemma joins_within(D Str, k Str, X Str)
  requires D != "" && local(k) && X == joined(D, k)
  ensures within(D, X)
  use local_cong(sub(X, len(D), len(X)), k)
  use local_cong(sub(X, len(D) + 1, len(X)), k)
  trigger within(D, X), local(k)
  hide stays seglen
contract wpk.FTT.OpenFile(ftt, fpath)(err)
  requires free: held(ftt.tsm.mux) == 0
  modifies ftt.info, ftt.tsm.seq, ftt.tsm.idx, ftt.datoffset, ftt.datsize
  ensures inv: err == nil ==> tabok(ftt.tsm) && placed(fdata(fpath))
  ensures header: err == nil ==> ftt.datoffset == le64(fdata(fpath), 48) && ftt.datsize == le64(fdata(fpath), 56)
  ensures names: err == nil && le64(fdata(fpath), 40) > 0 ==> keys(ftt.tsm) == names(table(fdata(fpath)), infolen(table(fdata(fpath))))
contract extract.openpackage(pkgpath)(err)
  requires extract.pkg != nil && extract.pkg.FTT != nil
  requires free: held(extract.pkg.FTT.tsm.mux) == 0
  requires mode: extract.PkgMode == "bulk" || extract.PkgMode == "mmap" || extract.PkgMode == "fsys"
  modifies extract.pkg.FTT.info, extract.pkg.FTT.tsm.seq, extract.pkg.FTT.tsm.idx, extract.pkg.FTT.datoffset, extract.pkg.FTT.datsize, extract.pkg.Tagger
  flag hide=names,table,placed merge
  ensures opened: err == nil ==> tabok(extract.pkg.FTT.tsm) && extract.pkg.Tagger != nil
contract extract.readpackage()(err)
  requires dst: extract.DstPath != ""
  requires extract.pkg != nil && extract.pkg.FTT != nil
  requires free: nolocks()
  requires mode: extract.PkgMode == "bulk" || extract.PkgMode == "mmap" || extract.PkgMode == "fsys"
  modifies extract.pkg.FTT.info, extract.pkg.FTT.tsm.seq, extract.pkg.FTT.tsm.idx, extract.pkg.FTT.datoffset, extract.pkg.FTT.datsize, extract.pkg.Tagger
  flag inlines=wpk.Package.Enum,util.SeqMap.Range hide=stays,seglen,local,within merge depth=1 houd=2
  inv :: nolocks()
prop C19
  roots extract.readpackage extract.openpackage wpk.FTT.OpenFile
  lemmas local_cong joins_within
