# ---- the file-system view of a package: names relative to its workspace
rec viewn(K Seq_Str, i Int, W Str) Seq_Str = if i >= len(K) then noseq else if prefixed(K[i], wpre(W)) then cat(unit(rel(W, K[i])), viewn(K, i + 1, W)) else viewn(K, i + 1, W)
rec viewv(K Seq_Str, V Seq_Slice, i Int, W Str) Seq_Slice = if i >= len(K) then noseqs else if prefixed(K[i], wpre(W)) then cat(unit(V[i]), viewv(K, V, i + 1, W)) else viewv(K, V, i + 1, W)
contract wpk.Package.Enum.func(key, ts)(more)
  requires live: vgo(0)
  modifies vkeys(0), vvals(0), vgo(0)
  flag underlock
  ensures vkeys(0) == cat(old(vkeys(0)), unit(key)) && vvals(0) == cat(old(vvals(0)), unit(ts)) && (vgo(0) <==> more)
contract wpk.Package.Enum(pkg, f)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires vgo(0) && len(vkeys(0)) == 0 && len(vvals(0)) == 0
  modifies vkeys(0), vvals(0), vgo(0)
  flag inlines=util.SeqMap.Range depth=2 merge
  inv i Int :: vgo(0) && cat(vkeys(0), viewn(old(keys(pkg.FTT.tsm)), i + 1, pkg.Workspace)) == viewn(old(keys(pkg.FTT.tsm)), 0, pkg.Workspace)
  inv i Int :: cat(vvals(0), viewv(old(keys(pkg.FTT.tsm)), old(vals(pkg.FTT.tsm)), i + 1, pkg.Workspace)) == viewv(old(keys(pkg.FTT.tsm)), old(vals(pkg.FTT.tsm)), 0, pkg.Workspace)
  ensures visits: vkeys(0) == sub(viewn(old(keys(pkg.FTT.tsm)), 0, pkg.Workspace), 0, len(vkeys(0)))
  ensures values: vvals(0) == sub(viewv(old(keys(pkg.FTT.tsm)), old(vals(pkg.FTT.tsm)), 0, pkg.Workspace), 0, len(vvals(0)))
  ensures all: vgo(0) ==> vkeys(0) == viewn(old(keys(pkg.FTT.tsm)), 0, pkg.Workspace) && vvals(0) == viewv(old(keys(pkg.FTT.tsm)), old(vals(pkg.FTT.tsm)), 0, pkg.Workspace)
spec notexist(e Iface) Bool = iskind(e, "*fs.PathError") && as(e, "*fs.PathError").Err == fs.ErrNotExist
contract wpk.Package.Stat(pkg, fkey)(fi, err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  ensures when: err == nil <==> has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))
  ensures value: err == nil ==> unbox(fi, "wpk.TagsetRaw") == vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))]
  ensures missing: err != nil ==> notexist(err) && fi == nil
# ---- patterns
uninterp pbad(P Str) Bool
uninterp pmatch(P Str, s Str) Bool
extern path.Match(pattern, name)(ok, err)
  ensures err != nil <==> pbad(pattern)
  ensures ok <==> !pbad(pattern) && pmatch(pattern, name)
rec globn(K Seq_Str, i Int, W Str, P Str) Seq_Str = if i >= len(K) then noseq else if prefixed(K[i], wpre(W)) && pmatch(P, rel(W, K[i])) then cat(unit(rel(W, K[i])), globn(K, i + 1, W, P)) else globn(K, i + 1, W, P)
contract wpk.Package.Glob(pkg, pattern)(res, err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  flag inlines=wpk.Package.Enum,util.SeqMap.Range depth=2 hide=slash merge
  ensures bad: err != nil <==> pbad(slash(pattern))
  ensures value: err == nil ==> bytes(res) == globn(keys(pkg.FTT.tsm), 0, pkg.Workspace, slash(pattern))
  inv i Int, R Slice :: cat(bytes(R), globn(keys(pkg.FTT.tsm), i + 1, pkg.Workspace, slash(pattern))) == globn(keys(pkg.FTT.tsm), 0, pkg.Workspace, slash(pattern))
# ---- sub-directories
rec subp(d Str) Str = if d != "." && d != "" then cat(slash(d), "/") else ""
rec dirp(d Str) Str = if d != "." && d != "" then cat(d, "/") else ""
rec anyunder(K Seq_Str, i Int, W Str, o Str) Bool = if i >= len(K) then false else if under(W, o, K[i]) then true else anyunder(K, i + 1, W, o)
contract wpk.Package.Sub(pkg, dir)(r, err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  flag inlines=wpk.Package.Enum,util.SeqMap.Range depth=2 hide=slash merge
  ensures when: err == nil <==> anyunder(keys(pkg.FTT.tsm), 0, pkg.Workspace, subp(dir))
  ensures missing: err != nil ==> notexist(err) && r == nil
  ensures view: err == nil ==> iskind(r, "*wpk.Package") && as(r, "*wpk.Package").FTT == pkg.FTT && as(r, "*wpk.Package").Tagger == pkg.Tagger && as(r, "*wpk.Package").Workspace == joined(pkg.Workspace, slash(dir))
  inv i Int :: anyunder(keys(pkg.FTT.tsm), i + 1, pkg.Workspace, subp(dir)) == anyunder(keys(pkg.FTT.tsm), 0, pkg.Workspace, subp(dir))
# the names of a sub-view: those of its directory, without it
rec subn(K Seq_Str, i Int, W Str, D Str) Seq_Str = if i >= len(K) then noseq else if under(W, D, K[i]) then cat(unit(sub(rel(W, K[i]), len(D), len(rel(W, K[i])))), subn(K, i + 1, W, D)) else subn(K, i + 1, W, D)
lemma subpre(W Str, D Str)
  requires W == "" || W[len(W) - 1] != 47
  requires len(D) > 0 && D != "." && D[0] != 47 && D[len(D) - 1] != 47
  ensures wpre(joined(W, D)) == cat(wpre(W), D, "/")
lemma pre_cat(k Str, A Str, B Str, P Str)
  requires P == cat(A, B)
  ensures pre: prefixed(k, P) <==> prefixed(k, A) && prefixed(sub(k, len(A), len(k)), B)
  ensures rest: prefixed(k, P) ==> sub(k, len(P), len(k)) == sub(sub(k, len(A), len(k)), len(B), len(k) - len(A))
lemma subview(K Seq_Str, i Int, W Str, D Str)
  requires 0 <= i && (W == "" || W[len(W) - 1] != 47)
  requires len(D) > 0 && D != "." && D[0] != 47 && D[len(D) - 1] != 47
  ensures viewn(K, i, joined(W, D)) == subn(K, i, W, cat(D, "/"))
  induct len(K) - i
  depth 2
  use subpre(W, D)
  use pre_cat(K[i], wpre(W), cat(D, "/"), wpre(joined(W, D)))
# ---- opening
rec anyfull(K Seq_Str, i Int, p Str) Bool = if i >= len(K) then false else if prefixed(K[i], p) then true else anyfull(K, i + 1, p)
contract wpk.FTT.OpenDir(ftt, fulldir)(f, err)
  requires free: held(ftt.tsm.mux) == 0
  requires inv: tabok(ftt.tsm)
  requires fits: len(fulldir) <= 65535
  flag inlines=util.SeqMap.Range depth=2 hide=slash merge
  ensures when: err == nil <==> anyfull(keys(ftt.tsm), 0, dirp(slash(fulldir)))
  ensures missing: err != nil ==> notexist(err) && f == nil
  ensures dir: err == nil ==> iskind(f, "*wpk.PackDirFile") && as(f, "*wpk.PackDirFile").ftt == ftt && strtag(bytes(as(f, "*wpk.PackDirFile").TagsetRaw), 3) == slash(fulldir)
  inv i Int :: anyfull(keys(ftt.tsm), i + 1, dirp(slash(fulldir))) == anyfull(keys(ftt.tsm), 0, dirp(slash(fulldir)))
contract wpk.Package.Open(pkg, dir)(f, err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  requires tagger: pkg.Tagger != nil
  requires fits: len(joined(pkg.Workspace, dir)) <= 65535
  flag hide=slash
  ensures missing: joined(pkg.Workspace, dir) != "@pack" && !has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, dir)) && !anyfull(keys(pkg.FTT.tsm), 0, dirp(slash(joined(pkg.Workspace, dir)))) ==> err != nil && notexist(err)
  ensures file: joined(pkg.Workspace, dir) != "@pack" && has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, dir)) && err == nil ==> f != nil && spos(f) == 0
    && sdata(f) == extent(bytes(vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, dir))]), pdata(pkg.Tagger))
  ensures opens: joined(pkg.Workspace, dir) != "@pack" && has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, dir)) && topens(pkg.Tagger)
    && fitsin(bytes(vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, dir))]), len(pdata(pkg.Tagger))) ==> err == nil
  ensures dir: joined(pkg.Workspace, dir) != "@pack" && !has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, dir)) && anyfull(keys(pkg.FTT.tsm), 0, dirp(slash(joined(pkg.Workspace, dir))))
    ==> err == nil && iskind(f, "*wpk.PackDirFile") && as(f, "*wpk.PackDirFile").ftt == pkg.FTT
prop C15
  roots wpk.Package.Enum wpk.Package.Stat wpk.Package.Glob wpk.Package.Sub wpk.FTT.OpenDir wpk.Package.Open wpk.Package.ReadFile
  lemmas subpre pre_cat subview
